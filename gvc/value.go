package main

// Values, locations and the symbolic heap.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type PtrV struct { // pointer held as a reference
	Ref  *Term
	Elem types.Type
}
type SliceV struct {
	Arr, Off, Len, Cap *Term
	Region             string
	Elem               types.Type
	Owner              *Term // object whose field the slice was loaded from
	Cell               *Cell // slice of a local array
}
type StructV struct {
	T types.Type
	F []Val
}
type ArrV struct {
	T *types.Array
	E []Val
}
type TupleV []Val
type ClosureV struct {
	Fn   *ssa.Function
	Bind []Val
}
type MapV struct {
	Ref    *Term
	Region string
	T      *types.Map
}
type IfaceV struct {
	T   *Term
	Typ types.Type
}
type FuncV struct { // function value of unknown identity (a parameter)
	T    *Term
	Name string
	Typ  types.Type
}

type Cell struct {
	id   int
	typ  types.Type
	name string
}

// Loc is an addressable location.
type Loc struct {
	space    string // obj elem cell glob multi
	prefix   string
	ref, idx *Term
	cell     *Cell
	path     []int
	typ      types.Type
	owner    *Term
	region   string
	comp     string
	alts     []altLoc
}
type altLoc struct {
	cond *Term
	loc  *Loc
}

const refSort = "Int"

func und(t types.Type) types.Type { return t.Underlying() }

func sortOf(t types.Type) string {
	switch u := und(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Kind() == types.UntypedNil:
			return "Int"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return "Int"
	}
	return ""
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && p.Name() != mainPkgName {
			return p.Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), " ", "")
}

var mainPkgName = "rudd"

func intRange(t types.Type) (lo, hi *Term, ok bool) {
	b, isB := und(t).(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	if signed {
		return BigNum(pow2neg(bits - 1)), BigNum(subOne(pow2(bits - 1))), true
	}
	return Num(0), BigNum(subOne(pow2(bits))), true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int, types.Int64:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// component of a flattened type
type compT struct {
	suffix string
	sort   string
	typ    types.Type
}

// comps flattens a type stored in an object field or in a slice element. Nested structs of objects
// are not flattened here (they live at their own embedded reference).
func comps(t types.Type) []compT {
	switch u := und(t).(type) {
	case *types.Slice:
		return []compT{{".arr", "Int", t}, {".len", "Int", t}, {".cap", "Int", t}}
	case *types.Array:
		if u.Len() > 64 {
			return nil
		}
		var out []compT
		for i := int64(0); i < u.Len(); i++ {
			for _, c := range comps(u.Elem()) {
				out = append(out, compT{fmt.Sprintf(".%d%s", i, c.suffix), c.sort, c.typ})
			}
		}
		return out
	case *types.Struct:
		var out []compT
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range comps(u.Field(i).Type()) {
				out = append(out, compT{"." + u.Field(i).Name() + c.suffix, c.sort, c.typ})
			}
		}
		return out
	}
	return []compT{{"", sortOf(t), t}}
}

func mapRegion(m *types.Map) string { return "map:" + typeName(m.Key()) + ":" + typeName(m.Elem()) }

type State struct {
	heap   map[string]*Term
	epoch  string
	cells  map[*Cell]Val
	pc     *pcNode
	lits   map[*Term]bool
	eqs    map[*Term]*Term
	next   *Term
	fresh  map[*Term]bool // references allocated on this path
	names  map[string]Val // source variables of the current function
	defers map[*Frame][]*deferRec
	pre    *State // state at the entry of the innermost loop
	writes *recorder
	dead   bool
	trail  []string
	reach  *Term
	lam    map[*Term]bool // lambda symbols whose definition is assumed
}
type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type recorder struct {
	heaps map[string]map[*Term]bool
	cells map[*Cell]bool
	fresh map[*Term]bool
}

func newState(epoch string) *State {
	return &State{heap: map[string]*Term{}, epoch: epoch, cells: map[*Cell]Val{}, lits: map[*Term]bool{}, eqs: map[*Term]*Term{}, fresh: map[*Term]bool{}, names: map[string]Val{}}
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[*Cell]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.lits = make(map[*Term]bool, len(s.lits))
	for k, v := range s.lits {
		n.lits[k] = v
	}
	n.eqs = make(map[*Term]*Term, len(s.eqs))
	for k, v := range s.eqs {
		n.eqs[k] = v
	}
	n.fresh = make(map[*Term]bool, len(s.fresh))
	for k, v := range s.fresh {
		n.fresh[k] = v
	}
	n.trail = append([]string(nil), s.trail...)
	n.names = make(map[string]Val, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	if s.defers != nil {
		n.defers = map[*Frame][]*deferRec{}
		for k, v := range s.defers {
			n.defers[k] = v[:len(v):len(v)]
		}
	}
	return &n
}

func (s *State) assume(t *Term) {
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if t == tTrue || s.lits[t] {
		return
	}
	if t == tFalse || s.lits[Not(t)] {
		s.dead = true
	}
	s.lits[t] = true
	if t.Op == "=" && isNum(t.Args[1]) && t.fv == nil {
		s.eqs[t.Args[0]] = t.Args[1]
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{t, s.pc, n}
}

func (s *State) pcs() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// decide evaluates a condition against the facts known syntactically.
func (s *State) decide(c *Term) *Term {
	if s.lits[c] {
		return tTrue
	}
	if s.lits[Not(c)] {
		return tFalse
	}
	if len(s.eqs) > 0 {
		c2 := Subst(c, s.eqs)
		if c2 == tTrue || c2 == tFalse {
			return c2
		}
		if s.lits[c2] {
			return tTrue
		}
		if s.lits[Not(c2)] {
			return tFalse
		}
	}
	if c.Op == "and" {
		all := true
		for _, a := range c.Args {
			d := s.decide(a)
			if d == tFalse {
				return tFalse
			}
			all = all && d == tTrue
		}
		if all {
			return tTrue
		}
	}
	if c.Op == "or" {
		all := true
		for _, a := range c.Args {
			d := s.decide(a)
			if d == tTrue {
				return tTrue
			}
			all = all && d == tFalse
		}
		if all {
			return tFalse
		}
	}
	return c
}

// ---- heap access

func (s *State) H(name, sort string) *Term {
	if t, ok := s.heap[name]; ok {
		if t.Sort != sort {
			panic(unsupported("component " + name + " used with two sorts"))
		}
		return t
	}
	t := Sym("H!"+name+s.epoch, sort)
	s.heap[name] = t
	return t
}

func (s *State) setH(name string, t *Term, at *Term) {
	s.heap[name] = t
	if s.writes != nil {
		m := s.writes.heaps[name]
		if m == nil {
			m = map[*Term]bool{}
			s.writes.heaps[name] = m
		}
		m[at] = true
	}
}

func objSort(s string) string   { return ArraySort("Int", s) }
func elemHSort(s string) string { return ArraySort("Int", ArraySort("Int", s)) }

func (s *State) readComp(l *Loc, c compT) *Term {
	n := l.prefix + c.suffix
	if l.space == "obj" {
		return Select(s.H(n, objSort(c.sort)), l.ref)
	}
	return Select(Select(s.H(n, elemHSort(c.sort)), l.ref), l.idx)
}
func (s *State) writeComp(l *Loc, c compT, v *Term) {
	n := l.prefix + c.suffix
	if l.space == "obj" {
		s.setH(n, Store(s.H(n, objSort(c.sort)), l.ref, v), l.ref)
		return
	}
	h := s.H(n, elemHSort(c.sort))
	s.setH(n, Store(h, l.ref, Store(Select(h, l.ref), l.idx, v)), l.ref)
}

type unsupported string

// embRef is the address of an embedded struct; the facts about such addresses (negative, injective,
// different for different fields) are added to the queries by the solver interface.
func embRef(owner, field string, ref *Term) *Term {
	return App("emb!"+owner+"."+field, "Int", ref)
}

// fieldLoc gives the location of field i of the struct at reference ref.
func fieldLoc(ref *Term, st types.Type, i int) *Loc {
	u := und(st).(*types.Struct)
	f := u.Field(i)
	return &Loc{space: "obj", prefix: typeName(st) + "." + f.Name(), ref: ref, typ: f.Type()}
}

func regionOf(elem types.Type) string { return "[]" + typeName(elem) }

func (v *SliceV) at(i *Term) *Loc {
	return &Loc{space: "elem", prefix: v.Region + "@", ref: v.Arr, idx: Add(v.Off, i), typ: v.Elem, owner: v.Owner, region: v.Region}
}

func isStruct(t types.Type) bool { _, ok := und(t).(*types.Struct); return ok }

// load reads the value at a location.
func (s *State) load(l *Loc) Val {
	switch l.space {
	case "multi":
		v := s.load(l.alts[len(l.alts)-1].loc)
		for i := len(l.alts) - 2; i >= 0; i-- {
			v = iteVal(l.alts[i].cond, s.load(l.alts[i].loc), v)
		}
		return v
	case "cell":
		v := s.cells[l.cell]
		for _, p := range l.path {
			switch x := v.(type) {
			case *StructV:
				v = x.F[p]
			case *ArrV:
				v = x.E[p]
			default:
				panic(unsupported(fmt.Sprintf("load through %T", v)))
			}
		}
		return v
	}
	return s.loadT(l, l.typ)
}

func (s *State) loadT(l *Loc, t types.Type) Val {
	switch u := und(t).(type) {
	case *types.Struct:
		v := &StructV{T: t}
		if l.space == "obj" {
			// nested struct of an object
			e := s.embOf(l)
			for i := 0; i < u.NumFields(); i++ {
				v.F = append(v.F, s.load(fieldLoc(e, t, i)))
			}
			return v
		}
		for i := 0; i < u.NumFields(); i++ {
			fl := *l
			fl.prefix += "." + u.Field(i).Name()
			fl.comp = "." + u.Field(i).Name()
			fl.typ = u.Field(i).Type()
			v.F = append(v.F, s.load(&fl))
		}
		return v
	case *types.Array:
		v := &ArrV{T: u}
		if u.Len() > 64 {
			panic(unsupported("large array"))
		}
		for i := int64(0); i < u.Len(); i++ {
			fl := *l
			fl.prefix += fmt.Sprintf(".%d", i)
			fl.typ = u.Elem()
			v.E = append(v.E, s.load(&fl))
		}
		return v
	case *types.Slice:
		cs := comps(t)
		r := &SliceV{Arr: s.readComp(l, cs[0]), Off: Num(0), Len: s.readComp(l, cs[1]), Cap: s.readComp(l, cs[2]), Elem: u.Elem(), Region: regionOf(u.Elem())}
		if l.space == "obj" {
			r.Owner = l.ref
		}
		if r.Arr.fv == nil && s.next != nil {
			s.assume(Le(Num(0), r.Len))
			s.assume(Le(r.Len, r.Cap))
			s.assume(Le(r.Cap, BigNum(pow2(48))))
			s.assume(Le(Num(0), r.Arr))
			s.assume(Or(Lt(Num(0), r.Arr), Eq(r.Cap, Num(0))))
			s.assume(Lt(r.Arr, s.next))
		}
		return r
	}
	x := s.readComp(l, compT{"", sortOf(t), t})
	return s.scalarVal(x, t)
}

func (s *State) rangeRef(x *Term) {
	if x.fv == nil && s.next != nil {
		s.assume(Lt(x, s.next))
	}
}

// scalarVal wraps a scalar term of Go type t, assuming what its type guarantees.
func (s *State) scalarVal(x *Term, t types.Type) Val {
	switch u := und(t).(type) {
	case *types.Pointer:
		s.rangeRef(x)
		return &PtrV{Ref: x, Elem: u.Elem()}
	case *types.Interface:
		s.rangeRef(x)
		return &IfaceV{T: x, Typ: t}
	case *types.Signature:
		s.rangeRef(x)
		return &FuncV{T: x, Typ: t}
	case *types.Map:
		s.rangeRef(x)
		return &MapV{Ref: x, Region: mapRegion(u), T: u}
	}
	if lo, hi, ok := intRange(t); ok && x.fv == nil && !isNum(x) && s.next != nil {
		s.assume(Le(lo, x))
		s.assume(Le(x, hi))
	}
	return x
}

func (s *State) embOf(l *Loc) *Term {
	i := strings.LastIndex(l.prefix, ".")
	return embRef(l.prefix[:i], l.prefix[i+1:], l.ref)
}

// store writes a value at a location.
func (s *State) store(l *Loc, v Val) {
	switch l.space {
	case "multi":
		for _, a := range l.alts {
			s.store(a.loc, iteVal(a.cond, v, s.load(a.loc)))
		}
		return
	case "cell":
		if s.writes != nil {
			s.writes.cells[l.cell] = true
		}
		s.cells[l.cell] = updPath(s.cells[l.cell], l.path, v)
		return
	}
	s.storeT(l, l.typ, v)
}

func updPath(o Val, path []int, v Val) Val {
	if len(path) == 0 {
		return v
	}
	switch x := o.(type) {
	case *StructV:
		n := &StructV{T: x.T, F: append([]Val(nil), x.F...)}
		n.F[path[0]] = updPath(x.F[path[0]], path[1:], v)
		return n
	case *ArrV:
		n := &ArrV{T: x.T, E: append([]Val(nil), x.E...)}
		n.E[path[0]] = updPath(x.E[path[0]], path[1:], v)
		return n
	}
	panic(unsupported(fmt.Sprintf("store through %T", o)))
}

func (s *State) storeT(l *Loc, t types.Type, v Val) {
	switch u := und(t).(type) {
	case *types.Struct:
		sv := v.(*StructV)
		if l.space == "obj" {
			e := s.embOf(l)
			for i := 0; i < u.NumFields(); i++ {
				s.store(fieldLoc(e, t, i), sv.F[i])
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			fl := *l
			fl.prefix += "." + u.Field(i).Name()
			fl.comp = "." + u.Field(i).Name()
			fl.typ = u.Field(i).Type()
			s.store(&fl, sv.F[i])
		}
		return
	case *types.Array:
		av := v.(*ArrV)
		for i := range av.E {
			fl := *l
			fl.prefix += fmt.Sprintf(".%d", i)
			fl.typ = u.Elem()
			s.store(&fl, av.E[i])
		}
		return
	case *types.Slice:
		sv := v.(*SliceV)
		cs := comps(t)
		s.writeComp(l, cs[0], sv.Arr)
		s.writeComp(l, cs[1], sv.Len)
		s.writeComp(l, cs[2], sv.Cap)
		return
	}
	s.writeComp(l, compT{"", sortOf(t), t}, term(v))
}

// term of a scalar value
func term(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *PtrV:
		return x.Ref
	case *IfaceV:
		return x.T
	case *FuncV:
		return x.T
	case *MapV:
		return x.Ref
	case *ClosureV:
		return Sym("closure!"+x.Fn.String(), "Int")
	case *Loc:
		panic(unsupported("address of a component used as a value"))
	}
	panic(unsupported(fmt.Sprintf("scalar expected, got %T", v)))
}

func iteVal(c *Term, a, b Val) Val {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	switch x := a.(type) {
	case *Term:
		return Ite(c, x, b.(*Term))
	case *PtrV:
		return &PtrV{Ref: Ite(c, x.Ref, term(b)), Elem: x.Elem}
	case *IfaceV:
		return &IfaceV{T: Ite(c, x.T, term(b)), Typ: x.Typ}
	case *SliceV:
		y := b.(*SliceV)
		return &SliceV{Arr: Ite(c, x.Arr, y.Arr), Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Cap: Ite(c, x.Cap, y.Cap), Region: x.Region, Elem: x.Elem}
	case *StructV:
		y := b.(*StructV)
		n := &StructV{T: x.T}
		for i := range x.F {
			n.F = append(n.F, iteVal(c, x.F[i], y.F[i]))
		}
		return n
	case *ArrV:
		y := b.(*ArrV)
		n := &ArrV{T: x.T}
		for i := range x.E {
			n.E = append(n.E, iteVal(c, x.E[i], y.E[i]))
		}
		return n
	}
	panic(unsupported(fmt.Sprintf("merge of %T", a)))
}

func zero(t types.Type) Val {
	switch u := und(t).(type) {
	case *types.Struct:
		v := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &ArrV{T: u}
		if u.Len() > 64 {
			panic(unsupported("large array"))
		}
		for i := int64(0); i < u.Len(); i++ {
			v.E = append(v.E, zero(u.Elem()))
		}
		return v
	case *types.Slice:
		return &SliceV{Arr: Num(0), Off: Num(0), Len: Num(0), Cap: Num(0), Region: regionOf(u.Elem()), Elem: u.Elem()}
	case *types.Pointer:
		return &PtrV{Ref: Num(0), Elem: u.Elem()}
	case *types.Interface:
		return &IfaceV{T: Num(0), Typ: t}
	case *types.Map:
		return &MapV{Ref: Num(0), Region: mapRegion(u), T: u}
	case *types.Signature:
		return &FuncV{T: Num(0), Typ: t}
	case *types.Basic:
		switch sortOf(t) {
		case "Bool":
			return tFalse
		case "Int":
			return Num(0)
		case "Str":
			return Sym("str!empty", "Str")
		case "Flt":
			return Sym("flt!0", "Flt")
		}
	}
	panic(unsupported("zero value of " + t.String()))
}

// zeroTerm is the zero of a scalar component.
func zeroTerm(c compT) *Term {
	switch c.sort {
	case "Bool":
		return tFalse
	case "Str":
		return Sym("str!empty", "Str")
	case "Flt":
		return Sym("flt!0", "Flt")
	}
	return Num(0)
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch sortOf(t) {
	case "Bool":
		return Bool(constant.BoolVal(c.Value))
	case "Int":
		v := constant.ToInt(c.Value)
		if b, ok := constant.Val(v).(int64); ok {
			return Num(b)
		}
		n := bigFromString(v.ExactString())
		return BigNum(n)
	case "Str":
		return strConst(constant.StringVal(c.Value))
	case "Flt":
		return Sym("flt!"+c.Value.ExactString(), "Flt")
	}
	panic(unsupported("constant of type " + t.String()))
}

var strIDs = map[string]int{}

func strConst(s string) *Term {
	if s == "" {
		return Sym("str!empty", "Str")
	}
	if _, ok := strIDs[s]; !ok {
		strIDs[s] = len(strIDs) + 1
	}
	return Sym(fmt.Sprintf("str!%d", strIDs[s]), "Str")
}
