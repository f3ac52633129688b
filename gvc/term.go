package main

// Terms of the verification conditions: hash-consed, lightly simplified at construction.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	Op   string // SMT operator, symbol or "num", "true", "false", "forall", "exists", "bv" (bound variable)
	Args []*Term
	Sort string
	N    *big.Int // for "num"
	Vars []*Term  // bound variables of a quantifier; Args[0] is the body, Args[1:] are the triggers
	Npat []int    // sizes of the multi-patterns in Args[1:]
	id   int
	fv   map[*Term]bool // free bound variables (nil when closed)
}

var (
	cons    = map[string]*Term{}
	nterms  int
	symSort = map[string][]string{} // declared symbols: argument sorts then result sort
	gensym  = map[string]int{}
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	if t.N != nil {
		sb.WriteString(t.N.String())
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.Vars != nil {
		sb.WriteByte('!')
		for _, a := range t.Vars {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.id))
		}
		fmt.Fprint(&sb, t.Npat)
	}
	k := sb.String()
	if r, ok := cons[k]; ok {
		return r
	}
	nterms++
	t.id = nterms
	for _, a := range t.Args {
		for v := range a.fv {
			if t.fv == nil {
				t.fv = map[*Term]bool{}
			}
			t.fv[v] = true
		}
	}
	if t.Op == "bv" || strings.HasPrefix(t.Op, "bv!") {
		t.fv = map[*Term]bool{t: true}
	}
	for _, v := range t.Vars {
		delete(t.fv, v)
	}
	if len(t.fv) == 0 {
		t.fv = nil
	}
	cons[k] = t
	return t
}

var tTrue = intern(&Term{Op: "true", Sort: "Bool"})
var tFalse = intern(&Term{Op: "false", Sort: "Bool"})

func Num(n int64) *Term       { return BigNum(big.NewInt(n)) }
func BigNum(n *big.Int) *Term { return intern(&Term{Op: "num", Sort: "Int", N: n}) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

// Sym is a constant symbol.
func Sym(name, sort string) *Term {
	if s, ok := symSort[name]; ok {
		if s[len(s)-1] != sort {
			panic("symbol " + name + " used with sorts " + sort + " and " + s[len(s)-1])
		}
	} else {
		symSort[name] = []string{sort}
	}
	return intern(&Term{Op: name, Sort: sort})
}

func Fresh(base, sort string) *Term {
	base = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			return r
		}
		return '_'
	}, base)
	gensym[base]++
	return Sym(fmt.Sprintf("%s~%d", base, gensym[base]), sort)
}

func BV(name, sort string) *Term { return intern(&Term{Op: "bv!" + name, Sort: sort}) }

// App applies a declared function symbol.
func App(f, sort string, args ...*Term) *Term {
	if _, ok := symSort[f]; !ok {
		var s []string
		for _, a := range args {
			s = append(s, a.Sort)
		}
		symSort[f] = append(s, sort)
	}
	return intern(&Term{Op: f, Args: args, Sort: sort})
}

func isNum(t *Term) bool { return t.Op == "num" }

// ---- linear arithmetic normal form: sums are kept as "+" of a constant and coeff*atom, ordered by id.

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case isNum(t):
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.N))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && len(t.Args) == 2 && isNum(t.Args[0]):
		l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].N))
	default:
		o, ok := l.co[t]
		if !ok {
			o = big.NewInt(0)
		}
		o = new(big.Int).Add(o, k)
		if o.Sign() == 0 {
			delete(l.co, t)
		} else {
			l.co[t] = o
		}
	}
}
func (l lin) term() *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		c := l.co[t]
		if c.IsInt64() && c.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, intern(&Term{Op: "*", Args: []*Term{BigNum(c), t}, Sort: "Int"}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigNum(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&Term{Op: "+", Args: args, Sort: "Int"})
}

func Add(ts ...*Term) *Term {
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	for _, t := range ts {
		l.add(t, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Num(0), a) }
func Mul(a, b *Term) *Term {
	if isNum(b) {
		a, b = b, a
	}
	if isNum(a) {
		l := lin{big.NewInt(0), map[*Term]*big.Int{}}
		l.add(b, a.N)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "*", Args: []*Term{a, b}, Sort: "Int"})
}

// Div and Mod are the SMT-LIB (floor for positive divisor) operations.
func Div(a, b *Term) *Term {
	if isNum(a) && isNum(b) && b.N.Sign() > 0 {
		q, m := new(big.Int).DivMod(a.N, b.N, new(big.Int))
		_ = m
		return BigNum(q)
	}
	if isNum(b) && b.N.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	// (div (div a m) n) = (div a (m*n)) for positive m, n
	if isNum(b) && b.N.Sign() > 0 && a.Op == "div" && isNum(a.Args[1]) && a.Args[1].N.Sign() > 0 {
		return Div(a.Args[0], BigNum(new(big.Int).Mul(b.N, a.Args[1].N)))
	}
	return intern(&Term{Op: "div", Args: []*Term{a, b}, Sort: "Int"})
}
func Mod(a, b *Term) *Term {
	if isNum(b) && b.N.Sign() > 0 {
		if isNum(a) {
			return BigNum(new(big.Int).Mod(a.N, b.N))
		}
		if b.N.Cmp(big.NewInt(1)) == 0 {
			return Num(0)
		}
		if a.Op == "mod" && isNum(a.Args[1]) && a.Args[1].N.Sign() > 0 && new(big.Int).Mod(a.Args[1].N, b.N).Sign() == 0 {
			return Mod(a.Args[0], b)
		}
	}
	return intern(&Term{Op: "mod", Args: []*Term{a, b}, Sort: "Int"})
}

// constant difference of two terms
func constDiff(a, b *Term) (*big.Int, bool) {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	if len(l.co) == 0 {
		return l.c, true
	}
	return nil, false
}

func Le(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() <= 0)
	}
	return intern(&Term{Op: "<=", Args: []*Term{a, b}, Sort: "Bool"})
}
func Lt(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() < 0)
	}
	// a < b is kept as not (b <= a): one shape for each order atom
	return Not(Le(b, a))
}
func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ill-sorted equality %s:%s = %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.Sort == "Int" {
		if d, ok := constDiff(a, b); ok {
			return Bool(d.Sign() == 0)
		}
		if isNum(a) {
			a, b = b, a
		}
		if isNum(b) && a.Op == "ite" {
			if isNum(a.Args[1]) || isNum(a.Args[2]) {
				return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
			}
		}
	}
	if a.Sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	}
	if a.id > b.id && !isNum(b) {
		a, b = b, a
	}
	return intern(&Term{Op: "=", Args: []*Term{a, b}, Sort: "Bool"})
}
func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return intern(&Term{Op: "not", Args: []*Term{a}, Sort: "Bool"})
}
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == tFalse {
			return false
		}
		if t == tTrue || seen[t] {
			return true
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "and", Args: out, Sort: "Bool"})
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tTrue {
			return tTrue
		}
		if t == tFalse || seen[t] {
			continue
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if seen[Not(a)] {
					return tTrue
				}
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if seen[Not(t)] {
			return tTrue
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "or", Args: out, Sort: "Bool"})
}
func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if b.Op == "=>" {
		return Imp(And(a, b.Args[0]), b.Args[1])
	}
	return intern(&Term{Op: "=>", Args: []*Term{a, b}, Sort: "Bool"})
}
func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == "Bool" {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ill-sorted ite %s / %s", a.Sort, b.Sort))
	}
	return intern(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: a.Sort})
}

func ArraySort(i, e string) string { return "(Array " + i + " " + e + ")" }
func elemSort(s string) string {
	// "(Array I E)"
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[i+1:]
			}
		}
	}
	panic("not an array sort: " + s)
}

// distinct reports that two index terms are known to differ.
func distinct(a, b *Term) bool {
	if a.Sort != "Int" {
		return false
	}
	d, ok := constDiff(a, b)
	return ok && d.Sign() != 0
}

func Select(a, i *Term) *Term {
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if Eq(a.Args[1], i) == tTrue {
			return a.Args[2]
		}
		if distinct(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return intern(&Term{Op: "select", Args: []*Term{a, i}, Sort: elemSort(a.Sort)})
}
func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if elemSort(a.Sort) != v.Sort {
		panic(fmt.Sprintf("ill-sorted store of %s in %s", v.Sort, a.Sort))
	}
	return intern(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}
func ConstArr(sort string, v *Term) *Term {
	return intern(&Term{Op: "constarr", Args: []*Term{v}, Sort: sort})
}

func Quant(kind string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	used := false
	for _, v := range vars {
		if body.fv[v] {
			used = true
		}
	}
	if !used {
		return body
	}
	if kind == "forall" && body.Op == "and" && len(pats) == 0 {
		var out []*Term
		for _, b := range body.Args {
			out = append(out, Quant(kind, vars, b, nil))
		}
		return And(out...)
	}
	// only keep the variables in use
	var vs []*Term
	for _, v := range vars {
		if body.fv[v] {
			vs = append(vs, v)
		}
	}
	vars = vs
	args := []*Term{body}
	var np []int
	for _, p := range pats {
		ok := true
		m := map[*Term]bool{}
		for _, x := range p {
			if len(x.Args) == 0 || x.Op == "ite" {
				ok = false
			}
			for v := range x.fv {
				m[v] = true
			}
		}
		for _, v := range vars {
			if !m[v] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		args = append(args, p...)
		np = append(np, len(p))
	}
	return intern(&Term{Op: kind, Args: args, Sort: "Bool", Vars: vars, Npat: np})
}

// Subst replaces bound variables (or arbitrary subterms) by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "forall", "exists":
		var pats [][]*Term
		k := 1
		for _, n := range t.Npat {
			pats = append(pats, a[k:k+n])
			k += n
		}
		return Quant(t.Op, t.Vars, a[0], pats)
	}
	return intern(&Term{Op: t.Op, Args: a, Sort: t.Sort, N: t.N})
}

// ---- printing

func smtName(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("~!@$%^&*_-+=<>.?/", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (t *Term) String() string {
	var sb strings.Builder
	t.print(&sb, nil)
	return sb.String()
}

func (t *Term) print(sb *strings.Builder, names map[*Term]string) {
	if n, ok := names[t]; ok {
		sb.WriteString(n)
		return
	}
	t.printTop(sb, names)
}
func (t *Term) printTop(sb *strings.Builder, names map[*Term]string) {
	switch {
	case t.Op == "num":
		sb.WriteString(numStr(t.N))
	case strings.HasPrefix(t.Op, "bv!"):
		sb.WriteString(smtName("?" + t.Op[3:]))
	case t.Op == "forall" || t.Op == "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + smtName("?"+v.Op[3:]) + " " + v.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Npat) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].print(sb, names)
		k := 1
		for _, n := range t.Npat {
			sb.WriteString(" :pattern (")
			for j := 0; j < n; j++ {
				if j > 0 {
					sb.WriteByte(' ')
				}
				t.Args[k].print(sb, names)
				k++
			}
			sb.WriteString(")")
		}
		if len(t.Npat) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	case t.Op == "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		t.Args[0].print(sb, names)
		sb.WriteString(")")
	case len(t.Args) == 0:
		sb.WriteString(smtName(t.Op))
	default:
		sb.WriteString("(" + smtName(t.Op))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.print(sb, names)
		}
		sb.WriteByte(')')
	}
}

func (l lin) coef(t *Term) (*big.Int, bool) {
	n, ok := l.co[t]
	return n, ok
}
