package main

// Loops are cut at their headers: the invariant is checked on entry and after each iteration, and an
// arbitrary iteration is verified from a state in which only what the body can change is unknown.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

func (p *Prog) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				li := out[h]
				if li == nil {
					li = &loopInfo{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					out[h] = li
				}
				var add func(c *ssa.BasicBlock)
				add = func(c *ssa.BasicBlock) {
					if li.blocks[c] {
						return
					}
					li.blocks[c] = true
					for _, q := range c.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	p.loops[fn] = out
	return out
}

// number gives the loops of fn, and of the functions inlined in it, their position in program order.
func (p *Prog) number(x *Exec, fn *ssa.Function, path string) {
	if len(fn.Blocks) == 0 || strings.Count(path, "/") > 6 {
		return
	}
	type item struct {
		pos  token.Pos
		head *ssa.BasicBlock
		call *ssa.Call
		n    int
	}
	var items []item
	lo := p.loopsOf(fn)
	for _, b := range fn.Blocks {
		if _, ok := lo[b]; ok {
			items = append(items, item{pos: loopPos(lo[b]), head: b, n: b.Index})
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Common().StaticCallee(); f != nil && p.inlinable(f) {
					items = append(items, item{pos: c.Pos(), call: c, n: b.Index})
				}
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].pos < items[j].pos })
	for _, it := range items {
		if it.head != nil {
			x.loopNo[fmt.Sprintf("%s#%d", path, it.head.Index)] = len(x.loopNo) + 1
		} else {
			p.number(x, it.call.Common().StaticCallee(), path+"/"+fmt.Sprint(int(it.call.Pos())))
		}
	}
}

func loopPos(l *loopInfo) token.Pos {
	var m token.Pos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && d.Pos().IsValid() {
				if m == 0 || d.Pos() < m {
					m = d.Pos()
				}
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && (m == 0 || p < m) {
				m = p
			}
		}
	}
	return m
}

func (x *Exec) loopHead(fr *Frame, s *State, b *ssa.BasicBlock, li *loopInfo) {
	no := x.loopNo[fmt.Sprintf("%s#%d", fr.path, b.Index)]
	ls := x.fs.Loops[no]
	if ls == nil {
		ls = &LoopSpec{N: no}
	}
	x.rangeName(fr, s, b)
	entry := s.clone()
	s.pre = entry
	// invariant on entry
	for _, c := range ls.Clauses {
		if c.Kind == "ghost" && c.When == "entry" {
			x.doGhost(s, x.env(s, fr), c)
		}
	}
	for _, c := range ls.Clauses {
		if c.Kind == "invariant" {
			x.check(s, "invariant", fmt.Sprintf("loop %d, on entry: %s", no, c.Src), c.Tags, x.env(s, fr).bool(c.E), b.Instrs[0].Pos())
		}
	}
	var inits []Val
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		inits = append(inits, fr.env[p])
	}
	// find what the body writes, in rounds
	rec := &recorder{heaps: map[string]map[*Term]bool{}, cells: map[*Cell]bool{}, fresh: map[*Term]bool{}}
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsupported("the writes of a loop do not stabilise"))
		}
		t := s.clone()
		t.pre = entry
		marks := x.havoc(fr, t, rec, ph, inits, b, li)
		for _, c := range ls.Clauses {
			if c.Kind == "invariant" {
				t.assume(x.env(t, fr).bool(c.E))
			}
		}
		nr := &recorder{heaps: map[string]map[*Term]bool{}, cells: map[*Cell]bool{}, fresh: map[*Term]bool{}}
		t.writes = nr
		x.quiet++
		act := &loopAct{spec: ls, li: li, mode: 1, no: no, entry: entry}
		fr.active[b] = act
		env, active, work := fr.env, fr.active, fr.work
		fr.env = make(map[ssa.Value]Val, len(env))
		for k, v := range env {
			fr.env[k] = v
		}
		fr.work = nil
		x.instrs(fr, t, b, 0)
		x.drain(fr)
		fr.env, fr.active, fr.work = env, active, work
		x.quiet--
		grew := false
		for n, refs := range nr.heaps {
			m := rec.heaps[n]
			if m == nil {
				m = map[*Term]bool{}
				rec.heaps[n] = m
				grew = true
			}
			for r := range refs {
				if m[nil] || m[r] {
					continue
				}
				if nr.fresh[r] {
					continue // allocated in the loop
				}
				if !oldTerm(r, marks) {
					m[nil] = true
					grew = true
					continue
				}
				m[r] = true
				grew = true
			}
		}
		for c := range nr.cells {
			if _, ok := entry.cells[c]; ok && !rec.cells[c] {
				rec.cells[c] = true
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	if s.writes != nil { // an enclosing recording sees what this loop writes
		for n, refs := range rec.heaps {
			m := s.writes.heaps[n]
			if m == nil {
				m = map[*Term]bool{}
				s.writes.heaps[n] = m
			}
			for r := range refs {
				m[r] = true
			}
		}
		for c := range rec.cells {
			s.writes.cells[c] = true
		}
	}
	// the frame condition, and what follows from it for slice variables, as invariants
	var wild []string
	for n, refs := range rec.heaps {
		if refs[nil] && n != "next" {
			wild = append(wild, n)
		}
	}
	sort.Strings(wild)
	x.checkWild(fr, s, wild, no, "on entry", b.Instrs[0].Pos())
	// the arbitrary iteration
	x.havoc(fr, s, rec, ph, inits, b, li)
	if len(wild) > 0 {
		for _, f := range x.loopFrame(s, wild) {
			s.assume(f.goal)
		}
		for _, c := range x.fs.Clauses {
			if c.Auto {
				s.assume(x.entryEnv(s).bool(c.E))
			}
		}
	}
	for _, c := range ls.Clauses {
		if c.Kind == "invariant" {
			s.assume(x.env(s, fr).bool(c.E))
		}
	}
	act := &loopAct{spec: ls, li: li, mode: 0, no: no, entry: entry, wild: wild}
	for _, c := range ls.Clauses {
		if c.Kind == "decreases" {
			act.dec = append(act.dec, x.env(s, fr).term(c.E))
		}
	}
	if len(act.dec) == 0 && !x.counted(b, li, ph) {
		x.oblige(s, "termination", fmt.Sprintf("loop %d terminates (no decreases clause)", no), safetyTags, tFalse, b.Instrs[0].Pos())
	}
	fr.active[b] = act
	x.instrs(fr, s, b, 0)
}

func (x *Exec) entryEnv(s *State) *Env {
	e := x.env(s, nil)
	e.old = x.entry
	return e
}

func (x *Exec) checkWild(fr *Frame, s *State, wild []string, no int, when string, pos token.Pos) {
	if len(wild) == 0 {
		return
	}
	for _, f := range x.loopFrame(s, wild) {
		x.check(s, "frame", fmt.Sprintf("loop %d, %s: only the locations listed in modifies change (%s)", no, when, f.name), x.frameTags(f.name), f.goal, pos)
	}
	for _, c := range x.fs.Clauses {
		if c.Auto {
			x.check(s, "invariant", fmt.Sprintf("loop %d, %s: %s", no, when, c.Src), c.Tags, x.entryEnv(s).bool(c.E), pos)
		}
	}
}

// oldTerm: r does not mention any symbol introduced by the havoc
func oldTerm(r *Term, since int) bool {
	if r == nil {
		return false
	}
	ok := true
	var rec func(t *Term)
	seen := map[*Term]bool{}
	rec = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if len(t.Args) == 0 && t.Op != "num" && strings.Contains(t.Op, "~") && t.id > since {
			ok = false
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(r)
	return ok
}

func (x *Exec) havoc(fr *Frame, s *State, rec *recorder, ph []*ssa.Phi, inits []Val, b *ssa.BasicBlock, li *loopInfo) int {
	mark := nterms
	next0 := s.next
	if rec.heaps["next"] != nil {
		s.next = Fresh("next", "Int")
		s.assume(Le(next0, s.next))
	}
	for n, refs := range rec.heaps {
		if n == "next" {
			continue
		}
		h, ok := s.heap[n]
		if !ok {
			continue
		}
		if refs[nil] {
			s.heap[n] = Fresh("H."+n, h.Sort)
			// what did not exist yet is unconstrained; nothing else is known
			continue
		}
		var rs []*Term
		for r := range refs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, r := range rs {
			h = Store(h, r, Fresh("h."+n, elemSort(h.Sort)))
		}
		s.heap[n] = h
	}
	for c := range rec.cells {
		if _, ok := s.cells[c]; ok {
			s.cells[c] = x.freshVal(s, c.name, c.typ)
		}
	}
	for i, p := range ph {
		v := x.freshVal(s, p.Comment, p.Type())
		if f, ok := inits[i].(*FuncV); ok {
			v = f
		}
		if f, ok := inits[i].(*ClosureV); ok {
			v = f
		}
		if sv, ok := v.(*SliceV); ok {
			if si, ok := inits[i].(*SliceV); ok {
				sv.Owner = si.Owner
			}
		}
		fr.env[p] = v
		if p.Comment != "" {
			s.names[p.Comment] = v
		}
	}
	x.rangeName(fr, s, b)
	// facts about counters, sound by the shape of the loop
	for i, p := range ph {
		t, ok := fr.env[p].(*Term)
		if !ok || t.Sort != "Int" {
			continue
		}
		init := inits[i].(*Term)
		if step := phiStep(p, li); step > 0 {
			s.assume(Le(init, t))
		} else if step < 0 {
			s.assume(Le(t, init))
		}
		if bd, off, ok := x.guardBound(fr, s, b, li, p); ok {
			if off > 0 { // increasing: p <= max(init, bound)
				s.assume(Or(Le(t, init), Le(t, bd)))
			} else {
				s.assume(Or(Le(init, t), Le(bd, t)))
			}
		}
	}
	return mark
}

func (x *Exec) rangeName(fr *Frame, s *State, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == "rangeindex" {
			s.names["$i"] = Add(fr.env[p].(*Term), Num(1))
		}
	}
}

// phiStep is the constant added to p by every iteration (0 when there is none).
func phiStep(p *ssa.Phi, li *loopInfo) int {
	sgn := 0
	for i, e := range p.Edges {
		if !li.blocks[p.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(p) {
			return 0
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0
		}
		n := int(c.Int64())
		if bo.Op == token.SUB {
			n = -n
		} else if bo.Op != token.ADD {
			return 0
		}
		if n == 0 || sgn*n < 0 {
			return 0
		}
		sgn = n
	}
	return sgn
}

func definedOutside(v ssa.Value, li *loopInfo) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case ssa.Instruction:
		return !li.blocks[v.Block()]
	}
	return false
}

// guardBound recognises "p < bound" (or the like) tested in the header, with bound fixed during the
// loop; the result bounds the value of p at the header.
func (x *Exec) guardBound(fr *Frame, s *State, b *ssa.BasicBlock, li *loopInfo, p *ssa.Phi) (*Term, int, bool) {
	step := phiStep(p, li)
	if step == 0 {
		return nil, 0, false
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !li.blocks[b.Succs[0]] || li.blocks[b.Succs[1]] {
		return nil, 0, false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, 0, false
	}
	l, r, op := c.X, c.Y, c.Op
	isP := func(v ssa.Value) (bool, bool) { // (is p or its successor, is the successor)
		if v == ssa.Value(p) {
			return true, false
		}
		for i, e := range p.Edges {
			if li.blocks[b.Preds[i]] && e == v {
				if bo := e.(*ssa.BinOp); bo.Block() == b {
					return true, true
				}
			}
		}
		return false, false
	}
	ok1, succ := isP(l)
	if !ok1 {
		ok1, succ = isP(r)
		if !ok1 {
			return nil, 0, false
		}
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !definedOutside(r, li) {
		return nil, 0, false
	}
	bd, ok := x.val(fr, s, r).(*Term)
	if !ok {
		return nil, 0, false
	}
	// in the body: (p or p+step) op bound. Next value of p is p+step.
	k := int64(0)
	switch {
	case op == token.LSS && step > 0:
		k = -1
	case op == token.LEQ && step > 0:
	case op == token.GTR && step < 0:
		k = 1
	case op == token.GEQ && step < 0:
	default:
		return nil, 0, false
	}
	if !succ {
		k += int64(step)
	}
	return Add(bd, Num(k)), step, true
}

// counted: the loop is a counting loop with a fixed bound, which terminates.
func (x *Exec) counted(b *ssa.BasicBlock, li *loopInfo, ph []*ssa.Phi) bool {
	for _, p := range ph {
		if phiStep(p, li) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !li.blocks[b.Succs[0]] || li.blocks[b.Succs[1]] {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			isP := pr[0] == ssa.Value(p)
			for i, e := range p.Edges {
				if li.blocks[b.Preds[i]] && e == pr[0] {
					isP = true
				}
			}
			if isP && definedOutside(pr[1], li) {
				up := phiStep(p, li) > 0
				op := c.Op
				if pr[0] != c.X {
					switch op {
					case token.LSS:
						op = token.GTR
					case token.LEQ:
						op = token.GEQ
					case token.GTR:
						op = token.LSS
					case token.GEQ:
						op = token.LEQ
					}
				}
				if up && (op == token.LSS || op == token.LEQ) || !up && (op == token.GTR || op == token.GEQ) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) backEdge(fr *Frame, s *State, b *ssa.BasicBlock, act *loopAct) {
	x.rangeName(fr, s, b)
	s.pre = act.entry
	for _, c := range act.spec.Clauses {
		if c.Kind == "ghost" && c.When != "entry" {
			x.doGhost(s, x.env(s, fr), c)
		}
	}
	if act.mode == 0 {
		x.checkWild(fr, s, act.wild, act.no, "maintained", b.Instrs[0].Pos())
		for _, c := range act.spec.Clauses {
			switch c.Kind {
			case "loopassert":
				x.check(s, "assert", fmt.Sprintf("loop %d: %s", act.no, c.Src), c.Tags, x.env(s, fr).bool(c.E), b.Instrs[0].Pos())
			case "invariant":
				x.check(s, "invariant", fmt.Sprintf("loop %d, maintained: %s", act.no, c.Src), c.Tags, x.env(s, fr).bool(c.E), b.Instrs[0].Pos())
			}
		}
		i := 0
		for _, c := range act.spec.Clauses {
			if c.Kind == "decreases" {
				n := x.env(s, fr).term(c.E)
				x.check(s, "termination", fmt.Sprintf("loop %d: %s decreases", act.no, c.Src), safetyTags, And(Le(Num(0), act.dec[i]), Lt(n, act.dec[i])), b.Instrs[0].Pos())
				i++
			}
		}
	}
	s.dead = true
}

var _ = types.Typ
