package main

// Evaluation of specification expressions in a symbolic state.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"
)

type Env struct {
	p    *Prog
	s    *State
	cur  *State // the current state, under old() and pre()
	old  *State
	pre  *State
	vars map[string]Val
	fin  bool
	look func(string) (Val, bool) // further names (source variables)
	line string
}

func (e *Env) fail(x *Ex, f string, a ...interface{}) {
	panic(specError(fmt.Sprintf("%s: %s", x.Line, fmt.Sprintf(f, a...))))
}

type specError string

func (e *Env) with(n string, v Val) *Env {
	c := *e
	c.vars = make(map[string]Val, len(e.vars)+1)
	for k, w := range e.vars {
		c.vars[k] = w
	}
	c.vars[n] = v
	return &c
}

func (e *Env) term(x *Ex) *Term {
	v := e.ev(x)
	switch y := v.(type) {
	case *Term:
		return y
	case *Loc:
		v = e.s.load(y)
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				e.fail(x, "%s", string(u))
			}
			panic(r)
		}
	}()
	return term(v)
}

func (e *Env) bool(x *Ex) *Term {
	t := e.term(x)
	if t.Sort != "Bool" {
		e.fail(x, "Boolean expected, got %s", t.Sort)
	}
	return t
}

// goSort maps a sort of the specification language to a Go named type, when it is one.
func (p *Prog) goType(sort string) types.Type {
	o := p.pkg.Pkg.Scope().Lookup(sort)
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

func (p *Prog) paramVal(name string, sort string) Val {
	if t := p.goType(sort); t != nil {
		if isStruct(t) {
			return &PtrV{Ref: Sym(name, "Int"), Elem: t}
		}
		return Sym(name, sortOf(t))
	}
	return Sym(name, sort)
}

func (e *Env) ev(x *Ex) Val {
	switch x.K {
	case "num":
		return BigNum(bigFromGo(x.S))
	case "str":
		return strConst(x.S)
	case "id":
		return e.ident(x)
	case "old":
		if e.old == nil {
			e.fail(x, "old() not available here")
		}
		c := *e
		if c.cur == nil {
			c.cur = e.s
		}
		c.s = e.old
		c.old = nil
		return force(&c, c.ev(x.A[0]))
	case "pre":
		if e.pre == nil {
			e.fail(x, "pre() not available here")
		}
		c := *e
		if c.cur == nil {
			c.cur = e.s
		}
		c.s = e.pre
		if c.look != nil {
			c.look = func(n string) (Val, bool) { v, ok := e.pre.names[n]; return v, ok }
		}
		return force(&c, c.ev(x.A[0]))
	case "un":
		a := e.term(x.A[0])
		if x.S == "!" {
			return Not(a)
		}
		return Neg(a)
	case "bin":
		return e.binary(x)
	case "ite":
		c := e.bool(x.A[0])
		return iteVal(c, force(e, e.ev(x.A[1])), force(e, e.ev(x.A[2])))
	case "let":
		return e.with(x.S, force(e, e.ev(x.A[0]))).ev(x.A[1])
	case "lambda":
		// an array given by its elements: a symbol named by the body, with its definition
		vd := x.Vars[0]
		b := BV("gl", vd.Sort)
		body := e.with(vd.Name, b).term(x.A[0])
		srt := ArraySort(vd.Sort, body.Sort)
		e.p.mu.Lock()
		nm := e.p.lambda[body]
		if nm == nil {
			nm = Fresh("lam", srt)
			e.p.lambda[body] = nm
		}
		e.p.mu.Unlock()
		s := e.s
		if e.cur != nil {
			s = e.cur
		}
		if !s.lam[nm] {
			m := map[*Term]bool{nm: true}
			for k := range s.lam {
				m[k] = true
			}
			s.lam = m
			s.assume(canonQuant("forall", []*Term{b}, Eq(Select(nm, b), body), [][]*Term{{Select(nm, b)}}))
		}
		return nm
	case "forall", "exists":
		c := *e
		c.vars = make(map[string]Val, len(e.vars)+1)
		for k, w := range e.vars {
			c.vars[k] = w
		}
		var vs []*Term
		for _, v := range x.Vars {
			bvn++
			if t := e.p.goType(v.Sort); t != nil && isStruct(t) {
				b := BV(fmt.Sprintf("%s%d", v.Name, bvn), "Int")
				vs = append(vs, b)
				c.vars[v.Name] = &PtrV{Ref: b, Elem: t}
				continue
			}
			b := BV(fmt.Sprintf("%s%d", v.Name, bvn), v.Sort)
			vs = append(vs, b)
			c.vars[v.Name] = b
		}
		body := c.bool(x.A[0])
		var pats [][]*Term
		for _, p := range x.Pats {
			var ts []*Term
			for _, y := range p {
				ts = append(ts, c.term(y))
			}
			pats = append(pats, ts)
		}
		return canonQuant(x.K, vs, body, pats)
	case "deref":
		return e.derefVal(x)
	case "field", "index":
		return e.access(x)
	case "call":
		return e.call(x)
	}
	e.fail(x, "cannot evaluate %s", x.K)
	return nil
}

var bvn int

// canonQuant renames bound variables in a canonical way so that equal formulas are shared.
func canonQuant(k string, vs []*Term, body *Term, pats [][]*Term) *Term {
	// bound variables that select at a fixed distance c are moved by c, so that patterns have no arithmetic
	for _, v := range vs {
		if c, ok := shiftOf(v, vs, pats); ok {
			sh := map[*Term]*Term{v: Sub(v, c)}
			body = Subst(body, sh)
			for i, p := range pats {
				var ts []*Term
				for _, t := range p {
					ts = append(ts, Subst(t, sh))
				}
				pats[i] = ts
			}
		}
	}
	d := qdepth(body)
	m := map[*Term]*Term{}
	var nv []*Term
	for i, v := range vs {
		b := BV(fmt.Sprintf("q%d_%d", d, i), v.Sort)
		m[v] = b
		nv = append(nv, b)
	}
	body = Subst(body, m)
	var np [][]*Term
	for _, p := range pats {
		var ts []*Term
		for _, t := range p {
			ts = append(ts, Subst(t, m))
		}
		np = append(np, ts)
	}
	return Quant(k, nv, body, np)
}

var qdMemo = map[*Term]int{}

func qdepth(t *Term) int {
	if d, ok := qdMemo[t]; ok {
		return d
	}
	d := 0
	for _, a := range t.Args {
		if k := qdepth(a); k > d {
			d = k
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		d++
	}
	qdMemo[t] = d
	return d
}

func force(e *Env, v Val) Val {
	if l, ok := v.(*Loc); ok {
		return e.s.load(l)
	}
	return v
}

func (e *Env) ident(x *Ex) Val {
	switch x.S {
	case "true":
		return tTrue
	case "false":
		return tFalse
	case "nil":
		return Num(0)
	case "fin":
		return Bool(e.fin)
	}
	if v, ok := e.vars[x.S]; ok {
		return v
	}
	if x.S[0] == '@' {
		n := "glob." + x.S
		srt, ok := e.p.spec.Ghost[n]
		if !ok {
			e.fail(x, "unknown ghost %s", n)
		}
		return Select(e.s.H(n, objSort(srt)), Num(0))
	}
	if e.look != nil {
		if v, ok := e.look(x.S); ok {
			return v
		}
	}
	if f, ok := e.p.spec.Funs[x.S]; ok && len(f.Args) == 0 {
		return Sym(x.S, f.Ret)
	}
	if d := e.p.def(x.S); d != nil && len(d.Params) == 0 {
		return e.callDef(d, nil, x)
	}
	if o := e.p.pkg.Pkg.Scope().Lookup(x.S); o != nil {
		switch o := o.(type) {
		case *types.Const:
			v := o.Val()
			switch v.Kind() {
			case constant.Bool:
				return Bool(constant.BoolVal(v))
			case constant.Int:
				return BigNum(bigFromString(v.ExactString()))
			case constant.String:
				return strConst(constant.StringVal(v))
			}
		case *types.Var:
			return e.p.globalVal(e.s, e.p.pkg.Var(x.S))
		}
	}
	if os.Getenv("GVC_DEBUG") != "" && e.s != nil {
		fmt.Fprintln(os.Stderr, x.S, e.s.names, e.look != nil)
	}
	e.fail(x, "unknown name %s", x.S)
	return nil
}

func (e *Env) binary(x *Ex) Val {
	switch x.S {
	case "==>":
		return Imp(e.bool(x.A[0]), e.bool(x.A[1]))
	case "<==>":
		return Eq(e.bool(x.A[0]), e.bool(x.A[1]))
	case "&&":
		return And(e.bool(x.A[0]), e.bool(x.A[1]))
	case "||":
		return Or(e.bool(x.A[0]), e.bool(x.A[1]))
	}
	if x.S == "==" || x.S == "!=" {
		a, b := force(e, e.ev(x.A[0])), force(e, e.ev(x.A[1]))
		var t *Term
		if sl, ok := a.(*SliceV); ok { // comparison with nil or identity of slices
			if bs, ok := b.(*SliceV); ok {
				t = And(Eq(sl.Arr, bs.Arr), Eq(sl.Len, bs.Len), Eq(sl.Off, bs.Off))
			} else {
				t = Eq(sl.Arr, term(b))
			}
		} else {
			t = eqVals(a, b)
		}
		if x.S == "!=" {
			return Not(t)
		}
		return t
	}
	a, b := e.term(x.A[0]), e.term(x.A[1])
	switch x.S {
	case "=~=":
		return App("FnEq", "Bool", a, b)
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Lt(b, a)
	case ">=":
		return Le(b, a)
	case "+":
		return Add(a, b)
	case "-":
		return Sub(a, b)
	case "*":
		return Mul(a, b)
	case "/":
		return Div(a, b)
	case "%":
		return Mod(a, b)
	}
	e.fail(x, "operator %s", x.S)
	return nil
}

func eqVals(a, b Val) *Term {
	switch x := a.(type) {
	case *ArrV:
		y := b.(*ArrV)
		t := tTrue
		for i := range x.E {
			t = And(t, eqVals(x.E[i], y.E[i]))
		}
		return t
	case *StructV:
		y := b.(*StructV)
		t := tTrue
		for i := range x.F {
			t = And(t, eqVals(x.F[i], y.F[i]))
		}
		return t
	}
	return Eq(term(a), term(b))
}

func (e *Env) derefVal(x *Ex) Val {
	v := force(e, e.ev(x.A[0]))
	if p, ok := v.(*PtrV); ok {
		return e.s.load(ptrLoc(p))
	}
	e.fail(x, "cannot dereference %T", v)
	return nil
}

// ptrLoc is the location a pointer refers to (not for structs, see loadPtr).
func ptrLoc(p *PtrV) *Loc {
	return &Loc{space: "obj", prefix: "box:" + typeName(p.Elem), ref: p.Ref, typ: p.Elem}
}

// access evaluates field and index expressions, giving a location when it can.
func (e *Env) access(x *Ex) Val {
	base := e.ev(x.A[0])
	if x.K == "index" {
		i := e.term(x.A[1])
		if l, ok := base.(*Loc); ok {
			if at, ok := und(l.typ).(*types.Array); ok {
				return e.arrAt(x, e.s.load(l).(*ArrV), at, i)
			}
			base = e.s.load(l)
		}
		switch b := base.(type) {
		case *SliceV:
			return b.at(i)
		case *ArrV:
			return e.arrAt(x, b, b.T, i)
		case *Term:
			return Select(b, i)
		case *MapV:
			return Select(Select(e.s.H(b.Region+"@val", elemKSort(e.p, b.T, false)), b.Ref), i)
		}
		e.fail(x, "cannot index %T", base)
	}
	return e.field(x, base, x.S)
}

func (e *Env) arrAt(x *Ex, a *ArrV, t *types.Array, i *Term) Val {
	if isNum(i) && i.N.IsInt64() && i.N.Int64() >= 0 && i.N.Int64() < t.Len() {
		return a.E[i.N.Int64()]
	}
	v := a.E[len(a.E)-1]
	for k := len(a.E) - 2; k >= 0; k-- {
		v = iteVal(Eq(i, Num(int64(k))), a.E[k], v)
	}
	return v
}

func (e *Env) field(x *Ex, base Val, f string) Val {
	if l, ok := base.(*Loc); ok {
		if st, ok := und(l.typ).(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					nl := *l
					nl.prefix += "." + f
					nl.comp = "." + f
					nl.typ = st.Field(i).Type()
					if l.space == "cell" {
						nl.path = append(append([]int(nil), l.path...), i)
					}
					return &nl
				}
			}
		}
		base = e.s.load(l)
	}
	switch b := base.(type) {
	case *PtrV:
		if f[0] == '@' {
			if l := e.ghostLoc(b, f); l != nil {
				return e.readGhost(l)
			}
			e.fail(x, "no ghost field %s in %s", f, b.Elem)
		}
		if l := findField(e.s, b, f); l != nil {
			return e.norm(l)
		}
	case *StructV:
		st := und(b.T).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				return b.F[i]
			}
		}
	case TupleV:
	}
	e.fail(x, "no field %s in %T", f, base)
	return nil
}

// norm turns the location of a struct field held inside an object into a pointer to it.
func (e *Env) norm(l *Loc) Val {
	if l.space == "obj" && isStruct(l.typ) {
		return &PtrV{Ref: e.s.embOf(l), Elem: l.typ}
	}
	return l
}

type ghostLoc struct {
	name, sort string
	ref        *Term
}

func (e *Env) readGhost(g *ghostLoc) *Term {
	return Select(e.s.H(g.name, objSort(g.sort)), g.ref)
}

func (e *Env) ghostLoc(b *PtrV, f string) *ghostLoc {
	n := typeName(b.Elem) + "." + f
	if s, ok := e.p.spec.Ghost[n]; ok {
		return &ghostLoc{n, s, b.Ref}
	}
	// promoted through embedded fields
	st, ok := und(b.Elem).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Embedded() {
			continue
		}
		l := fieldLoc(b.Ref, b.Elem, i)
		var q *PtrV
		if isStruct(l.typ) {
			q = &PtrV{Ref: e.s.embOf(l), Elem: l.typ}
		} else if pt, ok := und(l.typ).(*types.Pointer); ok && isStruct(pt.Elem()) {
			q = e.s.load(l).(*PtrV)
		} else {
			continue
		}
		if g := e.ghostLoc(q, f); g != nil {
			return g
		}
	}
	return nil
}

// findField resolves a (possibly promoted) field of the struct p points to.
func findField(s *State, p *PtrV, f string) *Loc {
	o, idx, _ := types.LookupFieldOrMethod(p.Elem, true, mainPkg, f)
	v, ok := o.(*types.Var)
	if !ok || !v.IsField() {
		return nil
	}
	cur := p
	for k, i := range idx {
		l := fieldLoc(cur.Ref, cur.Elem, i)
		if k == len(idx)-1 {
			return l
		}
		if isStruct(l.typ) {
			cur = &PtrV{Ref: s.embOf(l), Elem: l.typ}
		} else {
			cur = s.load(l).(*PtrV)
		}
	}
	return nil
}

var mainPkg *types.Package

func elemKSort(p *Prog, m *types.Map, dom bool) string {
	k := keySort(m.Key())
	v := "Bool"
	if !dom {
		v = sortOf(m.Elem())
	}
	return ArraySort("Int", ArraySort(k, v))
}

func keySort(t types.Type) string {
	if _, ok := und(t).(*types.Array); ok {
		return "Key"
	}
	return sortOf(t)
}

func keyTerm(v Val) *Term {
	if a, ok := v.(*ArrV); ok {
		var ts []*Term
		for _, x := range a.E {
			ts = append(ts, term(x))
		}
		return App(fmt.Sprintf("mkkey%d", len(ts)), "Key", ts...)
	}
	return term(v)
}

func (p *Prog) def(n string) *Def {
	if d, ok := p.spec.Defs[p.tagName()+":"+n]; ok {
		return d
	}
	return p.spec.Defs[n]
}

func (e *Env) call(x *Ex) Val {
	if d := e.p.def(x.S); d != nil {
		var args []Val
		for _, a := range x.A {
			args = append(args, force(e, e.ev(a)))
		}
		return e.callDef(d, args, x)
	}
	if f, ok := e.p.spec.Funs[x.S]; ok {
		var args []*Term
		for i, a := range x.A {
			t := e.term(a)
			if i >= len(f.Args) || t.Sort != f.Args[i] {
				e.fail(x, "argument %d of %s has sort %s", i, x.S, t.Sort)
			}
			args = append(args, t)
		}
		if len(args) != len(f.Args) {
			e.fail(x, "wrong number of arguments for %s", x.S)
		}
		return App(x.S, f.Ret, args...)
	}
	if fs := e.p.spec.lookupFunc(x.S, e.p.tag); fs != nil && fs.Pure && len(fs.Params) == len(x.A) {
		// the function symbol of a function without state
		var args []*Term
		for _, a := range x.A {
			args = append(args, e.term(a))
		}
		return App("pure!"+x.S, "Int", args...)
	}
	switch x.S {
	case "len", "cap", "arr", "off":
		v := force(e, e.ev(x.A[0]))
		s, ok := v.(*SliceV)
		if !ok {
			e.fail(x, "%s of %T", x.S, v)
		}
		return map[string]*Term{"len": s.Len, "cap": s.Cap, "arr": s.Arr, "off": s.Off}[x.S]
	case "ref":
		v := force(e, e.ev(x.A[0]))
		return term(v)
	case "elems": // elems(slice) or elems(slice, field)
		v := force(e, e.ev(x.A[0]))
		s := v.(*SliceV)
		name, srt := s.Region+"@", ""
		typ := s.Elem
		if len(x.A) > 1 {
			f := x.A[1].S
			name += "." + f
			st := und(typ).(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					typ = st.Field(i).Type()
				}
			}
			if a, ok := und(typ).(*types.Array); ok && len(x.A) > 2 {
				name += "." + x.A[2].S
				typ = a.Elem()
			}
		} else if a, ok := und(typ).(*types.Array); ok {
			e.fail(x, "elems of array elements %v", a)
		}
		srt = sortOf(typ)
		return Select(e.s.H(name, elemHSort(srt)), s.Arr)
	case "elemsA": // elemsA(slice of arrays, k)
		s := force(e, e.ev(x.A[0])).(*SliceV)
		a := und(s.Elem).(*types.Array)
		return Select(e.s.H(s.Region+"@."+x.A[1].S, elemHSort(sortOf(a.Elem()))), s.Arr)
	case "dom":
		m := force(e, e.ev(x.A[0])).(*MapV)
		return Select(e.s.H(m.Region+"@dom", elemKSort(e.p, m.T, true)), m.Ref)
	case "vals":
		m := force(e, e.ev(x.A[0])).(*MapV)
		return Select(e.s.H(m.Region+"@val", elemKSort(e.p, m.T, false)), m.Ref)
	case "key":
		return keyTerm(force(e, e.ev(x.A[0])))
	case "mkkey20":
		var ts []*Term
		for _, a := range x.A {
			ts = append(ts, e.term(a))
		}
		return App("mkkey20", "Key", ts...)
	case "store":
		return Store(e.term(x.A[0]), e.term(x.A[1]), e.term(x.A[2]))
	case "fresh":
		t := e.term(x.A[0])
		return And(Le(e.old.next, t), Lt(t, e.s.next))
	case "allocated":
		t := e.term(x.A[0])
		return And(Lt(Num(0), t), Lt(t, e.s.next))
	case "abs":
		a := e.term(x.A[0])
		return Ite(Le(Num(0), a), a, Neg(a))
	case "min", "max":
		a, b := e.term(x.A[0]), e.term(x.A[1])
		if x.S == "max" {
			a, b = b, a
		}
		return Ite(Le(e.term(x.A[0]), e.term(x.A[1])), a, b)
	case "box": // contents of a pointer to int given by reference
		return Select(e.s.H("box:int", objSort("Int")), e.term(x.A[0]))
	case "boxes":
		return e.s.H("box:int", objSort("Int"))
	case "gh":
		n := dotted(x.A[0])
		srt, ok := e.p.spec.Ghost[n]
		if !ok {
			e.fail(x, "unknown ghost %s", n)
		}
		return Select(e.s.H(n, objSort(srt)), e.term(x.A[1]))
	case "pow2c":
		n := e.term(x.A[0])
		return BigNum(pow2(int(n.N.Int64())))
	}
	e.fail(x, "unknown function %s", x.S)
	return nil
}

// template of a definition: its body over symbolic parameters and heaps
type tmpl struct {
	body   *Term
	params []*Term // symbols standing for the parameters (flattened)
	heaps  []*Term // heap symbols
	hname  []string
	leaves []*Term
	app    *Term // opaque application over the leaves
	pvals  []Val
}

func (p *Prog) template(d *Def) *tmpl {
	if t, ok := p.tmpls[d]; ok {
		return t
	}
	if p.tmplBusy[d] {
		panic(specError(d.Line + ": recursive definition " + d.Name))
	}
	p.tmplBusy[d] = true
	s := newState("^" + d.Name)
	env := &Env{p: p, s: s, vars: map[string]Val{}}
	t := &tmpl{}
	for _, v := range d.Params {
		srt := v.Sort
		if srt == "" {
			srt = "Int"
		}
		pv := p.paramVal("P!"+d.Name+"!"+v.Name, srt)
		env.vars[v.Name] = pv
		t.pvals = append(t.pvals, pv)
		t.params = append(t.params, term(pv))
	}
	t.body = env.term(d.E)
	if t.body.Sort != d.Sort {
		panic(specError(d.Line + ": body of " + d.Name + " has sort " + t.body.Sort))
	}
	for n, h := range s.heap {
		t.hname = append(t.hname, n)
		_ = h
	}
	sortStrings(t.hname)
	isH := map[*Term]bool{}
	for _, n := range t.hname {
		t.heaps = append(t.heaps, s.heap[n])
		isH[s.heap[n]] = true
	}
	isP := map[*Term]bool{}
	for _, q := range t.params {
		isP[q] = true
	}
	if d.Opaque {
		seen := map[*Term]bool{}
		var heapRead func(x *Term) bool
		heapRead = func(x *Term) bool {
			return isH[x] || x.Op == "select" && x.fv == nil && heapRead(x.Args[0])
		}
		var rec func(x *Term)
		rec = func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			if isP[x] || heapRead(x) {
				t.leaves = append(t.leaves, x)
				return
			}
			for _, a := range x.Args {
				rec(a)
			}
		}
		rec(t.body)
		t.app = App("opq!"+d.Name+"@"+p.tagName(), d.Sort, t.leaves...)
		p.opaque[t.app.Op] = t
	}
	p.tmpls[d] = t
	return t
}

func (e *Env) callDef(d *Def, args []Val, x *Ex) Val {
	if len(args) != len(d.Params) {
		e.fail(x, "wrong number of arguments for %s", d.Name)
	}
	t := e.p.template(d)
	m := map[*Term]*Term{}
	for i, q := range t.params {
		a := term(args[i])
		if a.Sort != q.Sort {
			e.fail(x, "argument %d of %s has sort %s", i, d.Name, a.Sort)
		}
		m[q] = a
	}
	for i, n := range t.hname {
		m[t.heaps[i]] = e.s.H(n, t.heaps[i].Sort)
	}
	if d.Opaque {
		return Subst(t.app, m)
	}
	return Subst(t.body, m)
}

// expander adds the definitions of the revealed opaque predicates.
type expander struct {
	p      *Prog
	reveal map[string]bool
	memo   map[*Term]*Term
	defs   []*Term
	done   map[*Term]bool
}

func (e *expander) expand(t *Term) *Term {
	if len(e.reveal) == 0 || len(t.Args) == 0 {
		return t
	}
	if r, ok := e.memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = e.expand(a)
	}
	r := rebuild(t, args)
	if strings.HasPrefix(t.Op, "opq!") && e.reveal[opqName(t.Op)] {
		tm := e.p.opaque[t.Op]
		m := map[*Term]*Term{}
		open := false
		for i, l := range tm.leaves {
			m[l] = args[i]
			open = open || args[i].fv != nil
		}
		if open {
			r = e.expand(Subst(alphaFresh(tm.body), m))
		} else if !e.done[r] {
			e.done[r] = true
			b := e.expand(Subst(tm.body, m))
			if b != r {
				e.defs = append(e.defs, intern(&Term{Op: "=", Args: []*Term{r, b}, Sort: "Bool"}))
			}
		}
	}
	e.memo[t] = r
	return r
}

// shiftOf returns c if v occurs in the patterns only in indices v + c, for one c without bound variables.
func shiftOf(v *Term, vs []*Term, pats [][]*Term) (*Term, bool) {
	if v.Sort != "Int" {
		return nil, false
	}
	var c *Term
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if !ok {
			return
		}
		if t == v {
			ok = false
			return
		}
		if t.Op == "+" {
			if n, has := linOf(t).coef(v); has {
				if n.IsInt64() && n.Int64() == 1 {
					d := Sub(t, v)
					for _, w := range vs {
						if occurs(w, d) {
							ok = false
							return
						}
					}
					if c != nil && c != d {
						ok = false
					}
					c = d
					return
				}
				ok = false
				return
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, p := range pats {
		for _, t := range p {
			walk(t)
		}
	}
	return c, ok && c != nil
}

func occurs(v, t *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.Args {
		if occurs(v, a) {
			return true
		}
	}
	return false
}

// dotted: the name a.b.c of a field expression
func dotted(x *Ex) string {
	if x.K == "field" {
		return dotted(x.A[0]) + "." + x.S
	}
	return x.S
}

// opqName is the name in the specification of an opaque definition
func opqName(op string) string {
	n, _, _ := strings.Cut(op[len("opq!"):], "@")
	return n
}
