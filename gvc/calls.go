package main

// Calls: contracts, inlining, builtins.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, s *State, c *ssa.CallCommon, in *ssa.Call, k func(*State, Val)) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, s, a))
	}
	var fv Val
	if !c.IsInvoke() {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			x.builtin(fr, s, b.Name(), c, args, in, k)
			return
		}
		fv = x.val(fr, s, c.Value)
	} else {
		fv = x.val(fr, s, c.Value)
	}
	x.callWith(fr, s, c, fv, args, in.Pos(), k)
}

func (x *Exec) callWith(fr *Frame, s *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, k func(*State, Val)) {
	if s.dead {
		return
	}
	if c.IsInvoke() {
		recv := fv
		it := c.Value.Type()
		if m := x.p.devirtualize(it, c.Method); m != nil {
			x.nonNil(s, term(recv), pos)
			r := retype(&PtrV{Ref: term(recv)}, m.Signature.Recv().Type())
			x.callFn(fr, s, m, nil, append([]Val{r}, args...), pos, k)
			return
		}
		name := typeName(it) + "." + c.Method.Name()
		fs := x.p.spec.lookupFunc(name, x.p.tag)
		x.nonNil(s, term(recv), pos)
		x.contract(fr, s, name, fs, c.Signature(), append([]Val{recv}, args...), pos, k)
		return
	}
	switch f := fv.(type) {
	case *ClosureV:
		x.callFn(fr, s, f.Fn, f.Bind, args, pos, k)
		return
	case *FuncV:
		x.callback(fr, s, f, c, args, pos, k)
		return
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (p *Prog) inlinable(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || p.recursive(f) {
		return false
	}
	if fs := p.spec.lookupFunc(p.fnName(f), p.tag); fs != nil && !fs.Inline {
		return false
	}
	return f.Pkg == p.pkg || f.Pkg == nil && f.Synthetic != ""
}

func (x *Exec) callFn(fr *Frame, s *State, f *ssa.Function, bind []Val, args []Val, pos token.Pos, k func(*State, Val)) {
	name := x.p.fnName(f)
	fs := x.p.spec.lookupFunc(name, x.p.tag)
	if fs != nil && !fs.Inline {
		x.contract(fr, s, name, fs, f.Signature, args, pos, func(s *State, v Val) {
			x.afterCall(s, f, pos)
			k(s, v)
		})
		return
	}
	if x.p.inlinable(f) && fr.depth < 12 {
		x.inl[name] = true
		nf := x.newFrame(f, fr, fr.path+"/"+fmt.Sprint(int(pos)))
		for i, q := range f.Params {
			nf.env[q] = args[i]
		}
		for i, q := range f.FreeVars {
			nf.env[q] = bind[i]
		}
		saved := s.names
		s.names = map[string]Val{}
		for n, v := range saved {
			s.names[n] = v
		}
		for i, q := range f.Params {
			s.names[q.Name()] = args[i]
		}
		for i, q := range f.FreeVars {
			if pv, ok := bind[i].(*PtrV); ok && !isStruct(pv.Elem) {
				s.names[q.Name()] = ptrLoc(pv)
			} else if lv, ok := bind[i].(*Loc); ok {
				s.names[q.Name()] = lv
			}
		}
		nf.ret = func(s *State, rets []Val) {
			n := map[string]Val{}
			for k2, v := range saved {
				n[k2] = v
			}
			s.names = n
			switch len(rets) {
			case 0:
				k(s, nil)
			case 1:
				k(s, rets[0])
			default:
				k(s, TupleV(rets))
			}
		}
		x.block(nf, s, f.Blocks[0], nil)
		return
	}
	if f.Pkg != x.p.pkg && f.Pkg != nil {
		// a function of the standard library without a contract: arbitrary result, no effect on
		// the memory of the package
		x.trust[name] = true
		if f.Signature.Results().Len() == 0 {
			k(s, nil)
			return
		}
		var t types.Type = f.Signature.Results()
		if f.Signature.Results().Len() == 1 {
			t = f.Signature.Results().At(0).Type()
		}
		s.next = x.laterNext(s)
		k(s, x.freshVal(s, "ext."+f.Name(), t))
		return
	}
	x.oblige(s, "contract", "recursive function "+name+" has no contract", []string{"all"}, tFalse, pos)
	s.dead = true
}

func (x *Exec) laterNext(s *State) *Term {
	n := Fresh("next", "Int")
	s.assume(Le(s.next, n))
	if s.writes != nil {
		s.writes.heaps["next"] = map[*Term]bool{}
	}
	return n
}

func (x *Exec) afterCall(s *State, f *ssa.Function, pos token.Pos) {}

// contract applies the contract of a callee.
func (x *Exec) contract(fr *Frame, s *State, name string, fs *FuncSpec, sig *types.Signature, args []Val, pos token.Pos, k func(*State, Val)) {
	if fs == nil {
		x.oblige(s, "contract", "no contract for "+name, []string{"all"}, tFalse, pos)
		s.dead = true
		return
	}
	x.callee[name] = true
	if fs.Extern || fs.Trusted {
		x.trust[name] = true
	}
	if len(fs.Params) != len(args) {
		panic(specError(fmt.Sprintf("%s: contract of %s has %d parameters, the call has %d", fs.Line, name, len(fs.Params), len(args))))
	}
	vars := map[string]Val{}
	for i, n := range fs.Params {
		vars[n] = args[i]
	}
	if strings.HasPrefix(name, "(*sync.RWMutex).") {
		r := term(args[0])
		if r.Op != "emb!tables.RWMutex" {
			panic(unsupported("a lock that is not the one of the tables"))
		}
		vars["t"] = &PtrV{Ref: r.Args[0], Elem: x.p.goType("tables")}
		if strings.HasSuffix(name, "nlock") && !strings.HasSuffix(name, ".RUnlock") {
			for _, c := range x.fs.Clauses {
				if c.Kind == "ghost" && c.When == "unlock" {
					x.doGhost(s, x.env(s, nil), c)
				}
			}
		}
	}
	if name == "runtime.SetFinalizer" {
		for _, v := range x.params {
			if pv, ok := v.(*PtrV); ok && typeName(pv.Elem) == "tables" {
				vars["t"] = pv
			}
		}
	}
	pre := s.clone()
	pre.writes = nil
	e := &Env{p: x.p, s: s, vars: vars, fin: x.fin}
	for _, c := range fs.Clauses {
		if c.Kind == "requires" {
			x.check(s, "requires", "call of "+name+": "+c.Src, c.Tags, e.bool(c.E), pos)
			if s.dead {
				return
			}
		}
	}
	// termination of recursion
	if x.p.sameSCC(x.fn, name) {
		x.decrease(s, fs, e, name, pos)
	}
	// callbacks given to the callee must be used by the same rules
	for pn, cb := range fs.CBs {
		if f, ok := vars[pn].(*FuncV); ok {
			own := x.fs.CBs[x.cbName(f)]
			if own == nil {
				x.oblige(s, "contract", "no callback contract for "+pn+" passed to "+name, []string{"all"}, tFalse, pos)
				s.dead = true
				return
			}
			if cbText(own) != cbText(cb) {
				x.oblige(s, "contract", "callback contracts of "+x.fname()+" and "+name+" differ", []string{"all"}, tFalse, pos)
			}
		}
	}
	pre.pc = s.pc
	x.havocMods(s, e, fs)
	var res Val
	var rets []Val
	rs := sig.Results()
	if !fs.Pure || rs.Len() != 1 {
		for i := 0; i < rs.Len(); i++ {
			nm := "r"
			if i < len(fs.Results) {
				nm = fs.Results[i]
			}
			rets = append(rets, x.freshVal(s, shortName(name)+"."+nm, rs.At(i).Type()))
		}
	} else {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, term(a))
		}
		rets = []Val{s.scalarVal(App("pure!"+name, sortOf(rs.At(0).Type()), ts...), rs.At(0).Type())}
	}
	vs := map[string]Val{}
	for n, v := range vars {
		vs[n] = v
	}
	for i, n := range fs.Results {
		if i < len(rets) {
			vs[n] = rets[i]
		}
	}
	e2 := &Env{p: x.p, s: s, old: pre, vars: vs, fin: x.fin}
	for _, c := range fs.Clauses {
		if c.Kind == "ensures" {
			s.assume(e2.bool(c.E))
		}
	}
	switch len(rets) {
	case 0:
	case 1:
		res = rets[0]
	default:
		res = TupleV(rets)
	}
	k(s, res)
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

func cbText(c *CallbackSpec) string {
	var sb strings.Builder
	fmt.Fprint(&sb, c.Args, c.Results)
	for _, k := range c.Clauses {
		fmt.Fprintf(&sb, "%s %v %s;", k.Kind, k.When, k.Src)
	}
	return sb.String()
}

func (x *Exec) havocMods(s *State, e *Env, fs *FuncSpec) {
	var ms []modTarget
	for _, c := range fs.Clauses {
		if c.Kind == "modifies" {
			ms = append(ms, x.modTargets(e, c.E)...)
		}
	}
	x.havocTargets(s, ms)
	if !fs.NoAlloc {
		s.next = x.laterNext(s)
	}
}

func (x *Exec) havocTargets(s *State, ms []modTarget) {
	for _, m := range ms {
		h, ok := s.heap[m.heap]
		if !ok {
			h = x.p.heapSym(s, m.heap)
			if h == nil {
				panic(unsupported("component " + m.heap + " in modifies has an unknown sort"))
			}
		}
		if m.ref == nil {
			s.setH(m.heap, Fresh("H."+m.heap, h.Sort), nil)
			continue
		}
		s.setH(m.heap, Store(h, m.ref, Fresh("h."+m.heap, elemSort(h.Sort))), m.ref)
	}
}

func (x *Exec) decrease(s *State, fs *FuncSpec, e *Env, name string, pos token.Pos) {
	var mine, theirs []*Ex
	for _, c := range x.fs.Clauses {
		if c.Kind == "decreases" {
			mine = append(mine, c.E)
		}
	}
	for _, c := range fs.Clauses {
		if c.Kind == "decreases" {
			theirs = append(theirs, c.E)
		}
	}
	if len(mine) == 0 || len(mine) != len(theirs) {
		x.oblige(s, "termination", "recursive call of "+name+" without a decreases clause", safetyTags, tFalse, pos)
		return
	}
	e0 := x.env(x.entry, nil)
	// lexicographic
	less := tFalse
	same := tTrue
	for i := range mine {
		a, b := e0.term(mine[i]), e.term(theirs[i])
		less = Or(less, And(same, Le(Num(0), a), Lt(b, a)))
		same = And(same, Eq(a, b))
	}
	x.check(s, "termination", "measure decreases in the call of "+name, safetyTags, less, pos)
}

func (x *Exec) cbName(f *FuncV) string {
	for n, v := range x.params {
		if g, ok := v.(*FuncV); ok && g.T == f.T {
			return n
		}
	}
	if len(x.fs.CBs) == 1 {
		for n := range x.fs.CBs {
			return n
		}
	}
	return f.Name
}

// callback calls a function value of unknown identity, under its callback contract.
func (x *Exec) callback(fr *Frame, s *State, f *FuncV, c *ssa.CallCommon, args []Val, pos token.Pos, k func(*State, Val)) {
	x.nonNil(s, f.T, pos)
	n := x.cbName(f)
	cb := x.fs.CBs[n]
	if cb == nil {
		x.oblige(s, "contract", "no callback contract for "+n, []string{"all"}, tFalse, pos)
		s.dead = true
		return
	}
	x.trust["callback "+n+" of "+x.fname()] = true
	e := x.env(s, nil)
	vars := map[string]Val{}
	for k2, v := range e.vars {
		vars[k2] = v
	}
	for i, a := range cb.Args {
		vars[a] = args[i]
	}
	e.vars = vars
	for _, cl := range cb.Clauses {
		if cl.Kind == "requires" {
			x.check(s, "requires", "call of "+n+": "+cl.Src, cl.Tags, e.bool(cl.E), pos)
		}
	}
	if s.dead {
		return
	}
	pre := s.clone()
	pre.writes = nil
	for _, cl := range cb.Clauses {
		if cl.Kind == "ghost" && cl.When != "cbexit" {
			x.doGhost(s, e, cl)
		}
	}
	var ms []modTarget
	for _, cl := range cb.Clauses {
		if cl.Kind == "modifies" {
			ms = append(ms, x.modTargets(e, cl.E)...)
		}
	}
	x.havocTargets(s, ms)
	s.next = x.laterNext(s)
	var rets []Val
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		v := x.freshVal(s, "cb", rs.At(i).Type())
		rets = append(rets, v)
		if i < len(cb.Results) {
			vars[cb.Results[i]] = v
		}
	}
	e3 := *e
	e3.old = pre
	e3.vars = vars
	for _, cl := range cb.Clauses {
		if cl.Kind == "ensures" {
			s.assume(e3.bool(cl.E))
		}
	}
	for _, cl := range cb.Clauses {
		if cl.Kind == "ghost" && cl.When == "cbexit" {
			x.doGhost(s, &e3, cl)
		}
	}
	switch len(rets) {
	case 0:
		k(s, nil)
	case 1:
		k(s, rets[0])
	default:
		k(s, TupleV(rets))
	}
}

func (x *Exec) builtin(fr *Frame, s *State, name string, c *ssa.CallCommon, args []Val, in *ssa.Call, k func(*State, Val)) {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if name == "len" {
				k(s, v.Len)
			} else {
				k(s, v.Cap)
			}
			return
		case *ArrV:
			k(s, Num(v.T.Len()))
			return
		case *MapV:
			n := Fresh("maplen", "Int")
			s.assume(Le(Num(0), n))
			k(s, n)
			return
		case *Term:
			n := App("strlen", "Int", v)
			s.assume(Le(Num(0), n))
			k(s, n)
			return
		}
	case "append":
		a := args[0].(*SliceV)
		b, ok := args[1].(*SliceV)
		if ok && isNum(b.Len) && b.Len.N.IsInt64() && b.Len.N.Int64() <= 4 {
			n := b.Len.N.Int64()
			var vs []Val
			for i := int64(0); i < n; i++ {
				vs = append(vs, s.load(b.at(Num(i))))
			}
			newLen := Add(a.Len, Num(n))
			room := s.decide(Le(newLen, a.Cap))
			inPlace := func(s *State) {
				r := *a
				r.Len = newLen
				for i, v := range vs {
					l := r.at(Add(a.Len, Num(int64(i))))
					x.guardLoc(s, l, true, in.Pos())
					s.store(l, v)
				}
				k(s, &r)
			}
			grow := func(s *State) {
				r := &SliceV{Arr: x.alloc(s), Off: a.Off, Len: newLen, Cap: Fresh("cap", "Int"), Elem: a.Elem, Region: a.Region, Owner: a.Owner}
				// the new array keeps the offset of the old one: positions are relative to it
				s.assume(Le(newLen, r.Cap))
				s.assume(Le(r.Cap, BigNum(pow2(48))))
				for _, cc := range comps(a.Elem) {
					hn := a.Region + "@" + cc.suffix
					h := s.H(hn, elemHSort(cc.sort))
					s.setH(hn, Store(h, r.Arr, Select(h, a.Arr)), r.Arr)
				}
				for i, v := range vs {
					s.store(r.at(Add(a.Len, Num(int64(i)))), v)
				}
				k(s, r)
			}
			if n == 0 {
				k(s, a)
				return
			}
			if room != tFalse {
				t := s
				if room != tTrue {
					t = s.clone()
					t.assume(room)
				}
				inPlace(t)
			}
			if room != tTrue {
				if room != tFalse {
					s.assume(Not(room))
				}
				grow(s)
			}
			return
		}
	case "copy":
		d, ok1 := args[0].(*SliceV)
		b, ok2 := args[1].(*SliceV)
		if ok1 && ok2 {
			n := Ite(Le(d.Len, b.Len), d.Len, b.Len)
			x.guardRange(s, d, true, in.Pos())
			x.guardRange(s, b, false, in.Pos())
			for _, cc := range comps(d.Elem) {
				hn := d.Region + "@" + cc.suffix
				h := s.H(hn, elemHSort(cc.sort))
				na := Fresh("copy", ArraySort("Int", cc.sort))
				q := BV("cp", "Int")
				in := And(Le(d.Off, q), Lt(q, Add(d.Off, n)))
				s.assume(canonQuant("forall", []*Term{q}, Eq(Select(na, q), Ite(in, Select(Select(h, b.Arr), Add(Sub(q, d.Off), b.Off)), Select(Select(h, d.Arr), q))), [][]*Term{{Select(na, q)}}))
				s.setH(hn, Store(h, d.Arr, na), d.Arr)
			}
			k(s, n)
			return
		}
	case "delete":
		m := args[0].(*MapV)
		x.mapSet(s, m, keyTerm(args[1]), tFalse, nil)
		k(s, nil)
		return
	case "panic":
		x.check(s, "safety", "panic is not reached", safetyTags, tFalse, in.Pos())
		return
	case "min", "max":
		a, b := args[0].(*Term), args[1].(*Term)
		if name == "min" {
			k(s, Ite(Le(a, b), a, b))
		} else {
			k(s, Ite(Le(a, b), b, a))
		}
		return
	}
	panic(unsupported("builtin " + name))
}

// guardRange checks the locking discipline for a whole array.
func (x *Exec) guardRange(s *State, v *SliceV, w bool, pos token.Pos) {
	if !isStruct(v.Elem) || s.fresh[v.Arr] {
		return
	}
	i := Fresh("any", "Int")
	s2 := s.clone()
	s2.assume(Le(Num(0), i))
	s2.assume(Lt(i, v.Len))
	x.guard(s2, v.at(i), w, pos)
}
