package main

// Path-wise symbolic execution of go/ssa functions under contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Fn    string
	Kind  string // ensures, requires, invariant, safety, frame, ...
	What  string
	Tags  []string
	Pos   string
	PC    *pcNode
	Goal  *Term
	Exec  *Exec
	Trail []string
	N     int

	Status string // "", proved, failed, unknown
	By     string
	Secs   float64
	Out    string
	Query  string
	parts  int
}

type deferRec struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	pos  token.Pos
}

type Exec struct {
	p       *Prog
	fn      *ssa.Function
	fs      *FuncSpec
	entry   *State
	obls    []*Obl
	quiet   int // >0 while recording the writes of a loop body
	params  map[string]Val
	paths   int
	loopNo  map[string]int
	reveal  map[string]bool
	groups  map[string]bool
	fin     bool
	errs    []string
	callee  map[string]bool
	inl     map[string]bool
	trust   map[string]bool
	steps   int
	covered map[*ssa.BasicBlock]bool
	busy    []*loopRun
}

type loopRun struct {
	key *ssa.BasicBlock
	fr  *Frame
	rec *recorder
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	ret    func(s *State, rets []Val)
	loops  map[*ssa.BasicBlock]*loopInfo
	path   string
	depth  int
	active map[*ssa.BasicBlock]*loopAct

	work    []*arrival // states that wait to be continued
	running bool
}

type loopAct struct {
	spec  *LoopSpec
	li    *loopInfo
	entry *State
	dec   []*Term
	mode  int // 0 normal, 1 recording
	no    int
	wild  []string // components of the heap of which the body changes unknown locations
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return x.p.rel(x.fn.Pos())
	}
	return x.p.rel(p)
}

func (x *Exec) oblige(s *State, kind, what string, tags []string, goal *Term, pos token.Pos) {
	if x.quiet > 0 || s.dead {
		return
	}
	if len(tags) == 0 {
		tags = []string{"core"}
	}
	x.obls = append(x.obls, &Obl{Fn: x.fname(), Kind: kind, What: what, Tags: tags, Pos: x.pos(pos), PC: s.pc, Goal: goal, Exec: x, Trail: s.trail})
}

func (x *Exec) fname() string { return x.p.fnName(x.fn) }

// check states an obligation and continues under it.
func (x *Exec) check(s *State, kind, what string, tags []string, goal *Term, pos token.Pos) {
	g := s.decide(goal)
	if g == tTrue {
		if x.quiet == 0 {
			x.p.trivial++
		}
		s.assume(goal)
		return
	}
	x.oblige(s, kind, what, tags, goal, pos)
	s.assume(goal)
}

var safetyTags = []string{"C21"}
var lockTags = []string{"C20"}

func (x *Exec) bad(s *State, what string, pos token.Pos) {
	x.oblige(s, "unsupported", what, []string{"all"}, tFalse, pos)
	s.dead = true
}

func (x *Exec) env(s *State, fr *Frame) *Env {
	e := &Env{p: x.p, s: s, old: x.entry, pre: s.pre, vars: x.params, fin: x.fin}
	if fr != nil {
		e.look = func(n string) (Val, bool) {
			if v, ok := s.names[n]; ok {
				return v, true
			}
			return nil, false
		}
	}
	return e
}

// ---- a function against its contract

func (p *Prog) verifyFunc(fn *ssa.Function, fs *FuncSpec) (x *Exec) {
	x = &Exec{p: p, fn: fn, fs: fs, params: map[string]Val{}, reveal: map[string]bool{}, groups: map[string]bool{}, loopNo: map[string]int{}, callee: map[string]bool{}, inl: map[string]bool{}, trust: map[string]bool{}, covered: map[*ssa.BasicBlock]bool{}}
	for _, r := range fs.Reveal {
		x.reveal[r] = true
	}
	for _, g := range fs.Groups {
		x.groups[g] = true
	}
	x.fin = fs.Finalizer
	s := newState("")
	s.next = Sym("next!0", "Int")
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case specError:
				x.errs = append(x.errs, string(r))
				x.quiet = 0
				x.obls = append(x.obls, &Obl{Fn: x.fname(), Kind: "contract", What: "contract does not apply: " + string(r), Tags: []string{"all"}, Goal: tFalse, Exec: x})
			case unsupported:
				x.quiet = 0
				x.obls = append(x.obls, &Obl{Fn: x.fname(), Kind: "unsupported", What: string(r), Tags: []string{"all"}, Goal: tFalse, Exec: x})
			default:
				panic(r)
			}
		}
	}()
	s.assume(Lt(Num(0), s.next))
	for _, f := range p.initFacts(s) {
		s.assume(f)
	}
	if fs.Pure {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.DebugRef:
					continue
				case *ssa.UnOp:
					if in.Op != token.MUL && in.Op != token.ARROW {
						continue
					}
				}
				panic(unsupported(fmt.Sprintf("the result of %s may depend on more than its arguments: %s", fs.Name, in)))
			}
		}
	}
	fr := x.newFrame(fn, nil, "")
	if len(fs.Params) != len(fn.Params) {
		panic(specError(fmt.Sprintf("%s: contract has %d parameters, %s has %d", fs.Line, len(fs.Params), fn, len(fn.Params))))
	}
	for i, q := range fn.Params {
		v := x.freshVal(s, q.Name(), q.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if pv, ok := v.(*PtrV); ok {
				s.assume(Lt(Num(0), pv.Ref))
			}
		}
		fr.env[q] = v
		x.params[fs.Params[i]] = v
		s.names[q.Name()] = v
	}
	for _, q := range fn.FreeVars {
		v := x.freshVal(s, q.Name(), q.Type())
		fr.env[q] = v
		if pv, ok := v.(*PtrV); ok {
			s.assume(Lt(Num(0), pv.Ref))
			if _, isS := und(pv.Elem).(*types.Struct); !isS {
				x.params[q.Name()] = s.load(ptrLoc(pv))
				continue
			}
		}
		x.params[q.Name()] = v
	}
	x.entry = s.clone()
	x.entry.writes = nil
	e := x.env(s, nil)
	for _, c := range fs.Clauses {
		if c.Kind == "requires" {
			s.assume(e.bool(c.E))
		}
	}
	x.entry.pc = s.pc
	for _, c := range fs.Clauses {
		if c.Kind == "ghost" && c.When == "entry" {
			x.doGhost(s, x.env(s, nil), c)
		}
	}
	x.p.number(x, fn, "")
	fr.ret = func(s *State, rets []Val) { x.atExit(s, fr, rets) }
	x.block(fr, s, fn.Blocks[0], nil)
	return x
}

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame, path string) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, path: path, loops: x.p.loopsOf(fn), active: map[*ssa.BasicBlock]*loopAct{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	return fr
}

func (x *Exec) freshVal(s *State, name string, t types.Type) Val {
	switch u := und(t).(type) {
	case *types.Slice:
		r := &SliceV{Arr: Fresh(name+".arr", "Int"), Off: Num(0), Len: Fresh(name+".len", "Int"), Cap: Fresh(name+".cap", "Int"), Elem: u.Elem(), Region: regionOf(u.Elem())}
		s.assume(Le(Num(0), r.Len))
		s.assume(Le(r.Len, r.Cap))
		s.assume(Le(r.Cap, BigNum(pow2(48))))
		s.assume(Le(Num(0), r.Arr))
		s.assume(Or(Lt(Num(0), r.Arr), Eq(r.Cap, Num(0))))
		s.assume(Lt(r.Arr, s.next))
		return r
	case *types.Struct:
		v := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, x.freshVal(s, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &ArrV{T: u}
		for i := int64(0); i < u.Len(); i++ {
			v.E = append(v.E, x.freshVal(s, fmt.Sprintf("%s.%d", name, i), u.Elem()))
		}
		return v
	case *types.Tuple:
		var v TupleV
		for i := 0; i < u.Len(); i++ {
			v = append(v, x.freshVal(s, name, u.At(i).Type()))
		}
		return v
	}
	srt := sortOf(t)
	if srt == "" {
		panic(unsupported("value of type " + t.String()))
	}
	v := s.scalarVal(Fresh(name, srt), t)
	if f, ok := v.(*FuncV); ok {
		f.Name = name
	}
	return v
}

func (x *Exec) atExit(s *State, fr *Frame, rets []Val) {
	if s.dead {
		return
	}
	x.paths++
	fs := x.fs
	e := x.env(s, nil)
	if len(fs.Results) > 0 || len(rets) > 0 {
		if len(fs.Results) != len(rets) && len(fs.Results) != 0 {
			panic(specError(fs.Line + ": wrong number of results in contract"))
		}
		m := map[string]Val{}
		for k, v := range e.vars {
			m[k] = v
		}
		for i, n := range fs.Results {
			m[n] = rets[i]
		}
		e.vars = m
	}
	for _, c := range fs.Clauses {
		if c.Kind == "ghost" && c.When == "exit" {
			x.doGhost(s, e, c)
		}
	}
	for _, c := range fs.Clauses {
		switch c.Kind {
		case "assert":
			x.check(s, "assert", c.Src, c.Tags, e.bool(c.E), fr.fn.Pos())
		case "ensures":
			x.check(s, "ensures", c.Src, c.Tags, e.bool(c.E), fr.fn.Pos())
		}
	}
	if !fs.NoFrame {
		x.frame(s)
	}
}

// doGhost performs a ghost assignment.
func (x *Exec) doGhost(s *State, e *Env, c *Clause) {
	e2 := *e
	e2.s = s
	name, srt, ref := x.ghostTarget(&e2, c.L)
	h := s.H(name, objSort(srt))
	old := Select(h, ref)
	var v *Term
	if c.E.K == "call" && c.E.S == "mkTab" {
		// a new table value: mkTab(size, level array, low array, high array)
		v = Fresh("T", "Tab")
		var a []*Term
		for _, y := range c.E.A {
			a = append(a, e2.term(y))
		}
		s.assume(App("isTab", "Bool", v, a[0], a[1], a[2], a[3]))
	} else if c.E.K == "lambda" {
		srt2 := elemSort(srt)
		v = Fresh("ghost", srt)
		vd := c.E.Vars[0]
		b := BV("gl", vd.Sort)
		body := e2.with(vd.Name, b).term(c.E.A[0])
		_ = srt2
		q := canonQuant("forall", []*Term{b}, Eq(Select(v, b), body), [][]*Term{{Select(v, b)}})
		s.assume(q)
	} else if c.E.K == "id" && c.E.S == "any" {
		v = Fresh("ghost", srt)
	} else {
		v = e2.term(c.E)
	}
	if c.Cond != nil {
		if v.Op == "store" && v.Args[0] == old {
			v = Store(old, v.Args[1], Ite(e2.bool(c.Cond), v.Args[2], Select(old, v.Args[1])))
		} else {
			cd := s.decide(e2.bool(c.Cond))
			switch cd {
			case tTrue:
			case tFalse:
				v = old
			default:
				w := Fresh("ghost", srt)
				s.assume(Imp(cd, Eq(w, v)))
				s.assume(Imp(Not(cd), Eq(w, old)))
				v = w
			}
		}
	}
	s.setH(name, Store(h, ref, v), ref)
}

func (x *Exec) ghostTarget(e *Env, l *Ex) (string, string, *Term) {
	if l.K == "field" && l.S[0] == '@' {
		b := force(e, e.ev(l.A[0]))
		if p, ok := b.(*PtrV); ok {
			if g := e.ghostLoc(p, l.S); g != nil {
				return g.name, g.sort, g.ref
			}
		}
	}
	if l.K == "call" && l.S == "gh" {
		n := l.A[0].S
		return n, x.p.spec.Ghost[n], e.term(l.A[1])
	}
	if l.K == "id" && l.S[0] == '@' {
		n := "glob." + l.S
		return n, x.p.spec.Ghost[n], Num(0)
	}
	e.fail(l, "not a ghost location")
	return "", "", nil
}

// ---- frame conditions

type modTarget struct {
	heap string // component, or prefix when it ends with "*"
	ref  *Term  // nil: everywhere
}

// modTargets evaluates one modifies target in a state.
func (x *Exec) modTargets(e *Env, m *Ex) []modTarget {
	switch {
	case m.K == "call" && m.S == "all":
		return []modTarget{{m.A[0].S, nil}}
	case m.K == "call" && (m.S == "elems" || m.S == "elemsA"):
		sl := force(e, e.ev(m.A[0])).(*SliceV)
		n := sl.Region + "@"
		if len(m.A) > 1 {
			return []modTarget{{n + "." + m.A[1].S, sl.Arr}}
		}
		var out []modTarget
		for _, c := range comps(sl.Elem) {
			out = append(out, modTarget{n + c.suffix, sl.Arr})
		}
		return out
	case m.K == "call" && m.S == "mapof":
		mv := force(e, e.ev(m.A[0])).(*MapV)
		return []modTarget{{mv.Region + "@dom", mv.Ref}, {mv.Region + "@val", mv.Ref}}
	case m.K == "field" && m.S[0] == '@' || m.K == "call" && m.S == "gh" || m.K == "id" && m.S[0] == '@':
		n, _, r := x.ghostTarget(e, m)
		return []modTarget{{n, r}}
	case m.K == "deref":
		p := force(e, e.ev(m.A[0])).(*PtrV)
		l := ptrLoc(p)
		var out []modTarget
		for _, c := range comps(l.typ) {
			out = append(out, modTarget{l.prefix + c.suffix, l.ref})
		}
		return out
	}
	if m.K == "id" {
		if g := x.p.pkg.Var(m.S); g != nil {
			var out []modTarget
			for _, c := range comps(g.Type().(*types.Pointer).Elem()) {
				out = append(out, modTarget{"glob!" + m.S + c.suffix, Num(0)})
			}
			return out
		}
	}
	v := e.ev(m)
	switch v := v.(type) {
	case *Loc:
		var out []modTarget
		for _, c := range comps(v.typ) {
			out = append(out, modTarget{v.prefix + c.suffix, v.ref})
		}
		return out
	case *PtrV: // an embedded struct: all its fields
		var out []modTarget
		st := und(v.Elem).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			l := fieldLoc(v.Ref, v.Elem, i)
			if isStruct(l.typ) {
				continue
			}
			for _, c := range comps(l.typ) {
				out = append(out, modTarget{l.prefix + c.suffix, v.Ref})
			}
		}
		return out
	}
	e.fail(m, "not a location")
	return nil
}

// frameMods: what the function may modify, as locations of its entry state
func (x *Exec) frameMods() []modTarget {
	e := x.env(x.entry.clone(), nil)
	e.old = nil
	var mods []modTarget
	for _, c := range x.fs.Clauses {
		if c.Kind == "modifies" {
			mods = append(mods, x.modTargets(e, c.E)...)
		}
	}
	return mods
}

// frameOf: the locations of component n that may change; every: all of them
func (x *Exec) frameOf(mods []modTarget, n string) (allowed []*Term, every bool) {
	if x.p.spec.Counters[n[strings.LastIndex(n, ".")+1:]] {
		return nil, true
	}
	for _, m := range mods {
		if m.heap == n || strings.HasSuffix(m.heap, "*") && strings.HasPrefix(n, m.heap[:len(m.heap)-1]) {
			if m.ref == nil {
				return nil, true
			}
			allowed = append(allowed, m.ref)
		}
	}
	return allowed, false
}

// frameGoal: h differs from the entry value h0 at the allowed and at new locations only
func (x *Exec) frameGoal(n string, h, h0 *Term, allowed []*Term) *Term {
	q := BV("fr", "Int")
	g := Or(Le(x.entry.next, q), Eq(Select(h, q), Select(h0, q)))
	if strings.HasPrefix(n, "[]") {
		// the nil slice has no elements
		g = Or(g, Eq(q, Num(0)))
	}
	if x.p.embedded(n) {
		// part of a new object
		g = Or(g, And(Lt(q, Num(0)), Or(Le(x.entry.next, App("embinv", "Int", q)), And(Lt(App("embinv", "Int", q), Num(0)), Le(x.entry.next, App("embinv", "Int", App("embinv", "Int", q)))))))
	}
	for _, a := range allowed {
		g = Or(g, Eq(a, q))
	}
	return canonQuant("forall", []*Term{q}, g, nil)
}

// embedded: component n belongs to a struct type that is a part of other structs
func (p *Prog) embedded(n string) bool {
	if p.embs == nil {
		p.embs = map[string]bool{}
		sc := p.pkg.Pkg.Scope()
		for _, o := range sc.Names() {
			if tn, ok := sc.Lookup(o).(*types.TypeName); ok {
				if st, ok := und(tn.Type()).(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if isStruct(st.Field(i).Type()) {
							p.embs[typeName(st.Field(i).Type())] = true
						}
					}
				}
			}
		}
	}
	i := strings.Index(n, ".")
	return i > 0 && p.embs[n[:i]]
}

type frameFact struct {
	name string
	goal *Term
}

// loopFrame: the frame condition as an invariant of a loop that changes unknown locations of the components names
func (x *Exec) loopFrame(s *State, names []string) []frameFact {
	if x.fs.NoFrame || len(names) == 0 {
		return nil
	}
	var out []frameFact
	mods := x.frameMods()
	for _, n := range names {
		h, ok := s.heap[n]
		if !ok {
			continue
		}
		h0, ok := x.entry.heap[n]
		if !ok {
			h0 = Sym("H!"+n, h.Sort)
		}
		if allowed, every := x.frameOf(mods, n); !every && h != h0 && strings.HasPrefix(h.Sort, "(Array Int") {
			out = append(out, frameFact{n, x.frameGoal(n, h, h0, allowed)})
		}
	}
	return out
}

func (x *Exec) frame(s *State) {
	mods := x.frameMods()
	names := make([]string, 0, len(s.heap))
	for n := range s.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		h := s.heap[n]
		h0, ok := x.entry.heap[n]
		if !ok {
			h0 = Sym("H!"+n, h.Sort)
		}
		if h == h0 {
			continue
		}
		allowed, every := x.frameOf(mods, n)
		if every {
			continue
		}
		seen := map[*Term]bool{}
		t := h
		for t.Op == "store" {
			r := t.Args[1]
			if !seen[r] {
				seen[r] = true
				g := Or(Le(x.entry.next, r), Eq(Select(h, r), Select(h0, r)))
				skip := s.fresh[r] || strings.HasPrefix(n, "[]") && r == Num(0)
				for o := r; strings.HasPrefix(o.Op, "emb!"); {
					o = o.Args[0]
					skip = skip || s.fresh[o]
					g = Or(g, Le(x.entry.next, o))
				}
				for _, a := range allowed {
					if a == r {
						skip = true
					}
					g = Or(g, Eq(a, r))
				}
				if !skip {
					x.check(s, "frame", "only the locations listed in modifies change ("+n+")", x.frameTags(n), g, x.fn.Pos())
				}
			}
			t = t.Args[0]
		}
		if t != h0 {
			x.check(s, "frame", "only the locations listed in modifies change ("+n+")", x.frameTags(n), x.frameGoal(n, h, h0, allowed), x.fn.Pos())
		}
	}
}

func (x *Exec) frameTags(n string) []string {
	if x.fs.FrameTags != nil {
		return x.fs.FrameTags
	}
	return []string{"core"}
}

// ---- control flow

type step struct {
	instr int
}

// recording: the writes of a loop are being recorded, and b is outside the loop
func (fr *Frame) recording(b *ssa.BasicBlock) bool {
	for _, a := range fr.active {
		if a != nil && a.mode == 1 && !(b != nil && a.li.blocks[b]) {
			return true
		}
	}
	return false
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (x *Exec) instrs(fr *Frame, s *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if s.dead {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := s.decide(x.val(fr, s, in.Cond).(*Term))
			if c != tFalse {
				t := s
				if c != tTrue {
					t = s.clone()
					t.assume(c)
				}
				x.block(fr, t, b.Succs[0], b)
			}
			if c != tTrue {
				if c != tFalse {
					s.assume(Not(c))
				}
				x.block(fr, s, b.Succs[1], b)
			}
			return
		case *ssa.Jump:
			x.block(fr, s, b.Succs[0], b)
			return
		case *ssa.Return:
			if fr.recording(nil) {
				return
			}
			var rets []Val
			for _, r := range in.Results {
				rets = append(rets, x.val(fr, s, r))
			}
			if fr.parent == nil {
				fr.ret(s, rets)
				return
			}
			x.arrive(fr, &arrival{kind: atRet, key: 1 << 30, s: s, rets: rets})
			return
		case *ssa.Panic:
			x.check(s, "safety", "explicit panic is not reached", safetyTags, tFalse, in.Pos())
			return
		case *ssa.RunDefers:
			ds := s.defers[fr]
			if s.defers != nil {
				s.defers[fr] = nil
			}
			x.runDefers(fr, s, ds, func(s *State) { x.instrs(fr, s, b, i+1) })
			return
		case *ssa.Call:
			x.call(fr, s, in.Common(), in, func(s *State, v Val) {
				fr.env[in] = v
				x.instrs(fr, s, b, i+1)
			})
			return
		default:
			if cont := x.simple(fr, s, in, func(s *State) { x.instrs(fr, s, b, i+1) }); cont {
				return
			}
		}
	}
}

func (x *Exec) runDefers(fr *Frame, s *State, ds []*deferRec, k func(*State)) {
	if len(ds) == 0 {
		k(s)
		return
	}
	d := ds[len(ds)-1]
	x.callWith(fr, s, d.call, d.fn, d.args, d.pos, func(s *State, _ Val) { x.runDefers(fr, s, ds[:len(ds)-1], k) })
}

// ---- values

func (x *Exec) val(fr *Frame, s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return x.p.globalAddr(s, v)
	case *ssa.Function:
		return &ClosureV{Fn: v}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s of %s has no value", v.Name(), fr.fn)))
	}
	return r
}

func (x *Exec) alloc(s *State) *Term {
	r := s.next
	s.next = Add(s.next, Num(1))
	s.fresh[r] = true
	s.assume(Lt(Num(0), r))
	if s.writes != nil {
		s.writes.heaps["next"] = map[*Term]bool{}
		s.writes.fresh[r] = true
	}
	return r
}

func (x *Exec) newObj(s *State, t types.Type) *PtrV {
	r := x.alloc(s)
	p := &PtrV{Ref: r, Elem: t}
	if isStruct(t) {
		x.zeroObj(s, p)
	} else {
		s.store(ptrLoc(p), zero(t))
	}
	return p
}

func (x *Exec) zeroObj(s *State, p *PtrV) {
	u := und(p.Elem).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		l := fieldLoc(p.Ref, p.Elem, i)
		if isStruct(l.typ) {
			x.zeroObj(s, &PtrV{Ref: s.embOf(l), Elem: l.typ})
			continue
		}
		if at, ok := und(l.typ).(*types.Array); ok && at.Len() > 64 {
			continue
		}
		s.store(l, zero(l.typ))
	}
	for g, srt := range x.p.spec.Ghost {
		if strings.HasPrefix(g, typeName(p.Elem)+".") {
			z := (*Term)(nil)
			switch srt {
			case "Int":
				z = Num(0)
			case "Bool":
				z = tFalse
			case "(Array Int Int)":
				z = ConstArr(srt, Num(0))
			}
			if z != nil {
				s.setH(g, Store(s.H(g, objSort(srt)), p.Ref, z), p.Ref)
			}
		}
	}
}

// toLoc turns an address value into a location; the pointer must not be nil.
func (x *Exec) toLoc(s *State, v Val, pos token.Pos) *Loc {
	switch v := v.(type) {
	case *Loc:
		return v
	case *PtrV:
		x.nonNil(s, v.Ref, pos)
		return ptrLoc(v)
	}
	panic(unsupported(fmt.Sprintf("address of kind %T", v)))
}

func (x *Exec) nonNil(s *State, r *Term, pos token.Pos) {
	if r.Op != "" && strings.HasPrefix(r.Op, "emb!") || s.fresh[r] {
		return
	}
	x.check(s, "safety", "no nil dereference", safetyTags, Not(Eq(r, Num(0))), pos)
}

// guard checks the locking discipline for an access.
func (x *Exec) guard(s *State, l *Loc, write bool, pos token.Pos) {
	if len(x.p.spec.Guards) == 0 {
		return
	}
	for _, g := range x.p.spec.Guards {
		var vars map[string]Val
		if l.space == "elem" && l.region == "[]"+strings.SplitN(g.Region, ".", 2)[0] {
			f := strings.SplitN(g.Region, ".", 2)[1]
			if !(f == "*" || l.prefix == l.region+"@."+f || l.prefix == l.region+"@") {
				continue
			}
			var own Val = Num(0)
			if l.owner != nil {
				own = &PtrV{Ref: l.owner, Elem: x.p.goType("tables")}
			} else if write && s.fresh[l.ref] {
				continue
			}
			if l.owner == nil {
				x.check(s, "lock", "access to a protected array through an unknown owner", lockTags, tFalse, pos)
				return
			}
			vars = map[string]Val{"t": own, "i": l.idx}
		} else if l.space == "obj" && l.prefix == g.Region {
			vars = map[string]Val{"t": &PtrV{Ref: l.ref, Elem: x.p.goType(strings.SplitN(g.Region, ".", 2)[0])}, "i": Num(0)}
		} else {
			continue
		}
		vars["w"] = Bool(write)
		e := &Env{p: x.p, s: s, vars: vars, fin: x.fin}
		x.check(s, "lock", "locking discipline: "+g.Region, lockTags, e.bool(g.E), pos)
	}
}

func (x *Exec) loadVal(s *State, v Val, t types.Type, pos token.Pos) Val {
	if p, ok := v.(*PtrV); ok && isStruct(p.Elem) {
		x.nonNil(s, p.Ref, pos)
		r := &StructV{T: p.Elem}
		st := und(p.Elem).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			fl := fieldLoc(p.Ref, p.Elem, i)
			if isStruct(fl.typ) {
				r.F = append(r.F, x.loadVal(s, &PtrV{Ref: s.embOf(fl), Elem: fl.typ}, fl.typ, pos))
				continue
			}
			x.guard(s, fl, false, pos)
			r.F = append(r.F, s.load(fl))
		}
		return r
	}
	l := x.toLoc(s, v, pos)
	x.guardLoc(s, l, false, pos)
	return s.load(l)
}

func (x *Exec) guardLoc(s *State, l *Loc, w bool, pos token.Pos) {
	if l.space == "multi" {
		for _, a := range l.alts {
			x.guardLoc(s, a.loc, w, pos)
		}
		return
	}
	x.guard(s, l, w, pos)
}

func (x *Exec) storeVal(s *State, a, v Val, pos token.Pos) {
	if p, ok := a.(*PtrV); ok && isStruct(p.Elem) {
		x.nonNil(s, p.Ref, pos)
		sv := v.(*StructV)
		st := und(p.Elem).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			fl := fieldLoc(p.Ref, p.Elem, i)
			if isStruct(fl.typ) {
				x.storeVal(s, &PtrV{Ref: s.embOf(fl), Elem: fl.typ}, sv.F[i], pos)
				continue
			}
			x.guard(s, fl, true, pos)
			s.store(fl, sv.F[i])
		}
		return
	}
	l := x.toLoc(s, a, pos)
	x.guardLoc(s, l, true, pos)
	s.store(l, v)
}

// simple executes a straight-line instruction; it returns true when it took over the continuation.
func (x *Exec) simple(fr *Frame, s *State, in ssa.Instruction, k func(*State)) bool {
	set := func(v ssa.Value, r Val) { fr.env[v] = r }
	switch in := in.(type) {
	case *ssa.DebugRef:
		if in.IsAddr {
			return false
		}
		if o, ok := in.Object().(*types.Var); ok && !o.IsField() {
			if _, isC := in.X.(*ssa.Const); isC {
				s.names[o.Name()] = x.val(fr, s, in.X)
			} else if v, ok := fr.env[in.X]; ok {
				s.names[o.Name()] = v
			}
		}
		return false
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		_, isArr := und(t).(*types.Array)
		if in.Heap && !isArr {
			p := x.newObj(s, t)
			set(in, p)
			if in.Comment != "" && !isStruct(t) {
				s.names[in.Comment] = ptrLoc(p)
			}
			return false
		}
		c := &Cell{typ: t, name: in.Comment}
		x.p.ncell++
		c.id = x.p.ncell
		if s.writes != nil {
			s.writes.cells[c] = true
		}
		s.cells[c] = zero(t)
		set(in, &Loc{space: "cell", cell: c, typ: t})
		if in.Comment != "" {
			s.names[in.Comment] = &Loc{space: "cell", cell: c, typ: t}
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				set(in, x.p.globalVal(s, g))
				return false
			}
			set(in, x.loadVal(s, x.val(fr, s, in.X), in.Type(), in.Pos()))
		case token.NOT:
			set(in, Not(x.val(fr, s, in.X).(*Term)))
		case token.SUB:
			v := x.val(fr, s, in.X).(*Term)
			if v.Sort == "Flt" {
				set(in, App("flt!neg", "Flt", v))
				return false
			}
			set(in, x.arith(s, Neg(v), in.Type(), in.Pos(), ""))
		case token.XOR:
			v := x.val(fr, s, in.X).(*Term)
			_, signed := intBits(und(in.Type()).(*types.Basic))
			if signed {
				set(in, Sub(Num(-1), v))
			} else {
				_, hi, _ := intRange(in.Type())
				set(in, Sub(hi, v))
			}
		default:
			panic(unsupported("operator " + in.Op.String()))
		}
	case *ssa.BinOp:
		set(in, x.binop(fr, s, in))
	case *ssa.FieldAddr:
		st := und(in.X.Type().Underlying().(*types.Pointer).Elem())
		_ = st
		v := x.val(fr, s, in.X)
		switch b := v.(type) {
		case *PtrV:
			x.nonNil(s, b.Ref, in.Pos())
			l := fieldLoc(b.Ref, b.Elem, in.Field)
			if isStruct(l.typ) {
				set(in, &PtrV{Ref: s.embOf(l), Elem: l.typ})
			} else {
				set(in, l)
			}
		case *Loc:
			set(in, locField(b, in.Field))
		default:
			panic(unsupported(fmt.Sprintf("field address of %T", v)))
		}
	case *ssa.Field:
		v := x.val(fr, s, in.X)
		set(in, v.(*StructV).F[in.Field])
	case *ssa.IndexAddr:
		set(in, x.indexAddr(fr, s, in))
	case *ssa.Index:
		i := x.val(fr, s, in.Index).(*Term)
		a, ok := x.val(fr, s, in.X).(*ArrV)
		if !ok {
			panic(unsupported("index of a value that is not an array"))
		}
		x.check(s, "safety", "index in range", safetyTags, And(Le(Num(0), i), Lt(i, Num(int64(len(a.E))))), in.Pos())
		e := &Env{}
		set(in, e.arrAt(nil, a, a.T, i))
	case *ssa.Store:
		if g, ok := in.Addr.(*ssa.Global); ok {
			l := x.p.globalLoc(g)
			s.store(l, x.val(fr, s, in.Val))
			return false
		}
		x.storeVal(s, x.val(fr, s, in.Addr), x.val(fr, s, in.Val), in.Pos())
	case *ssa.Extract:
		set(in, x.val(fr, s, in.Tuple).(TupleV)[in.Index])
	case *ssa.ChangeType:
		set(in, retype(x.val(fr, s, in.X), in.Type()))
	case *ssa.ChangeInterface:
		set(in, x.val(fr, s, in.X))
	case *ssa.Convert:
		set(in, x.convert(s, x.val(fr, s, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		set(in, x.mkIface(s, x.val(fr, s, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeClosure:
		c := &ClosureV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.Bind = append(c.Bind, x.val(fr, s, b))
		}
		set(in, c)
	case *ssa.MakeSlice:
		n := x.val(fr, s, in.Len).(*Term)
		c := x.val(fr, s, in.Cap).(*Term)
		x.check(s, "safety", "make: valid size", safetyTags, And(Le(Num(0), n), Le(n, c)), in.Pos())
		// a size beyond what memory can hold panics: assumed not to happen, as running out of memory
		s.assume(Le(c, BigNum(pow2(48))))
		el := in.Type().Underlying().(*types.Slice).Elem()
		sl := &SliceV{Arr: x.alloc(s), Off: Num(0), Len: n, Cap: c, Elem: el, Region: regionOf(el)}
		for _, cc := range comps(el) {
			h := s.H(sl.Region+"@"+cc.suffix, elemHSort(cc.sort))
			s.setH(sl.Region+"@"+cc.suffix, Store(h, sl.Arr, ConstArr(ArraySort("Int", cc.sort), zeroTerm(cc))), sl.Arr)
		}
		set(in, sl)
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		mv := &MapV{Ref: x.alloc(s), Region: mapRegion(m), T: m}
		ds := elemKSort(x.p, m, true)
		h := s.H(mv.Region+"@dom", ds)
		s.setH(mv.Region+"@dom", Store(h, mv.Ref, ConstArr(elemSort(ds), tFalse)), mv.Ref)
		set(in, mv)
	case *ssa.MapUpdate:
		m := x.val(fr, s, in.Map).(*MapV)
		x.nonNil(s, m.Ref, in.Pos())
		kt := keyTerm(x.val(fr, s, in.Key))
		x.mapSet(s, m, kt, tTrue, term(x.val(fr, s, in.Value)))
	case *ssa.Lookup:
		m, ok := x.val(fr, s, in.X).(*MapV)
		if !ok {
			panic(unsupported("lookup in a string"))
		}
		kt := keyTerm(x.val(fr, s, in.Index))
		d := Select(Select(s.H(m.Region+"@dom", elemKSort(x.p, m.T, true)), m.Ref), kt)
		v := Select(Select(s.H(m.Region+"@val", elemKSort(x.p, m.T, false)), m.Ref), kt)
		d = And(Not(Eq(m.Ref, Num(0))), d)
		z := term(zero(m.T.Elem()))
		val := s.scalarVal(Ite(d, v, z), m.T.Elem())
		if in.CommaOk {
			set(in, TupleV{val, d})
		} else {
			set(in, val)
		}
	case *ssa.Slice:
		return x.slice(fr, s, in, k)
	case *ssa.Defer:
		c := in.Common()
		d := &deferRec{call: c, pos: in.Pos()}
		for _, a := range c.Args {
			d.args = append(d.args, x.val(fr, s, a))
		}
		if !c.IsInvoke() {
			d.fn = x.val(fr, s, c.Value)
		}
		if s.defers == nil {
			s.defers = map[*Frame][]*deferRec{}
		}
		s.defers[fr] = append(s.defers[fr], d)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
	}
	return false
}

func (x *Exec) mapSet(s *State, m *MapV, k, d, v *Term) {
	ds, vs := elemKSort(x.p, m.T, true), elemKSort(x.p, m.T, false)
	h := s.H(m.Region+"@dom", ds)
	s.setH(m.Region+"@dom", Store(h, m.Ref, Store(Select(h, m.Ref), k, d)), m.Ref)
	if v != nil {
		h := s.H(m.Region+"@val", vs)
		s.setH(m.Region+"@val", Store(h, m.Ref, Store(Select(h, m.Ref), k, v)), m.Ref)
	}
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *PtrV:
		if p, ok := und(t).(*types.Pointer); ok {
			return &PtrV{Ref: x.Ref, Elem: p.Elem()}
		}
	case *StructV:
		return &StructV{T: t, F: x.F}
	}
	return v
}

func locField(b *Loc, f int) *Loc {
	if b.space == "multi" {
		n := *b
		n.alts = nil
		for _, a := range b.alts {
			n.alts = append(n.alts, altLoc{a.cond, locField(a.loc, f)})
		}
		n.typ = n.alts[0].loc.typ
		return &n
	}
	st := und(b.typ).(*types.Struct)
	nl := *b
	nl.typ = st.Field(f).Type()
	if b.space == "cell" {
		nl.path = append(append([]int(nil), b.path...), f)
		return &nl
	}
	nl.prefix += "." + st.Field(f).Name()
	return &nl
}

func (x *Exec) indexAddr(fr *Frame, s *State, in *ssa.IndexAddr) Val {
	i := x.val(fr, s, in.Index).(*Term)
	v := x.val(fr, s, in.X)
	switch b := v.(type) {
	case *SliceV:
		x.check(s, "safety", "index in range", safetyTags, And(Le(Num(0), i), Lt(i, b.Len)), in.Pos())
		return b.at(i)
	case *PtrV:
		x.nonNil(s, b.Ref, in.Pos())
		return x.locIndex(s, ptrLoc(b), i, in.Pos())
	case *Loc:
		return x.locIndex(s, b, i, in.Pos())
	}
	panic(unsupported(fmt.Sprintf("index of %T", v)))
}

func (x *Exec) locIndex(s *State, b *Loc, i *Term, pos token.Pos) *Loc {
	at, ok := und(b.typ).(*types.Array)
	if !ok {
		panic(unsupported("index of a location of type " + b.typ.String()))
	}
	if !(isNum(i)) {
		x.check(s, "safety", "index in range", safetyTags, And(Le(Num(0), i), Lt(i, Num(at.Len()))), pos)
	}
	mk := func(k int64) *Loc {
		if b.space == "multi" {
			panic(unsupported("nested variable index"))
		}
		nl := *b
		nl.typ = at.Elem()
		if b.space == "cell" {
			nl.path = append(append([]int(nil), b.path...), int(k))
		} else {
			nl.prefix += fmt.Sprintf(".%d", k)
		}
		return &nl
	}
	if isNum(i) {
		return mk(i.N.Int64())
	}
	if at.Len() > 32 {
		panic(unsupported("variable index in a large array"))
	}
	m := &Loc{space: "multi", typ: at.Elem()}
	if b.space == "multi" {
		for _, a := range b.alts {
			for k := int64(0); k < at.Len(); k++ {
				nl := *a.loc
				nl.typ = at.Elem()
				if nl.space == "cell" {
					nl.path = append(append([]int(nil), nl.path...), int(k))
				} else {
					nl.prefix += fmt.Sprintf(".%d", k)
				}
				m.alts = append(m.alts, altLoc{And(a.cond, Eq(i, Num(k))), &nl})
			}
		}
		return m
	}
	for k := int64(0); k < at.Len(); k++ {
		m.alts = append(m.alts, altLoc{Eq(i, Num(k)), mk(k)})
	}
	return m
}

func (x *Exec) slice(fr *Frame, s *State, in *ssa.Slice, k func(*State)) bool {
	v := x.val(fr, s, in.X)
	if l, ok := v.(*Loc); ok && l.space == "cell" {
		av := s.load(l).(*ArrV)
		n := Num(int64(len(av.E)))
		sl := &SliceV{Arr: x.alloc(s), Off: Num(0), Len: n, Cap: n, Elem: av.T.Elem(), Region: regionOf(av.T.Elem())}
		for i, e := range av.E {
			s.store(sl.at(Num(int64(i))), e)
		}
		v = sl
		if in.Low == nil && in.High == nil {
			fr.env[in] = sl
			return false
		}
	}
	b, ok := v.(*SliceV)
	if !ok {
		panic(unsupported(fmt.Sprintf("slice of %T", v)))
	}
	lo, hi, mx := Num(0), b.Len, b.Cap
	if in.Low != nil {
		lo = x.val(fr, s, in.Low).(*Term)
	}
	if in.High != nil {
		hi = x.val(fr, s, in.High).(*Term)
	}
	if in.Max != nil {
		mx = x.val(fr, s, in.Max).(*Term)
	}
	x.check(s, "safety", "slice bounds in range", safetyTags, And(Le(Num(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, b.Cap)), in.Pos())
	fr.env[in] = &SliceV{Arr: b.Arr, Off: Add(b.Off, lo), Len: Sub(hi, lo), Cap: Sub(mx, lo), Elem: b.Elem, Region: b.Region, Owner: b.Owner}
	return false
}

func (x *Exec) mkIface(s *State, v Val, from, to types.Type) Val {
	switch y := v.(type) {
	case *PtrV:
		return &IfaceV{T: y.Ref, Typ: to}
	case *Term:
		f := "iface!" + typeName(from)
		t := App(f, "Int", y)
		s.assume(Lt(Num(0), t))
		return &IfaceV{T: t, Typ: to}
	case *ClosureV:
		t := Sym("closure!"+y.Fn.String(), "Int")
		s.assume(Lt(Num(0), t))
		return &IfaceV{T: t, Typ: to}
	case *IfaceV:
		return y
	}
	t := Fresh("iface", "Int")
	s.assume(Lt(Num(0), t))
	return &IfaceV{T: t, Typ: to}
}
