package main

// Machine arithmetic: exact for unsigned types and conversions, with an obligation that signed
// operations do not overflow.

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) arith(s *State, r *Term, t types.Type, pos token.Pos, counter string) *Term {
	b := und(t).(*types.Basic)
	bits, signed := intBits(b)
	if !signed {
		g := And(Le(Num(0), r), Lt(r, BigNum(pow2(bits))))
		if s.decide(g) == tTrue {
			return r
		}
		m := Mod(r, BigNum(pow2(bits)))
		return m
	}
	lo, hi, _ := intRange(t)
	if isNum(r) {
		if r.N.Cmp(lo.N) >= 0 && r.N.Cmp(hi.N) <= 0 {
			return r
		}
	}
	if counter == "" {
		x.check(s, "safety", "no integer overflow", []string{"C21"}, And(Le(lo, r), Le(r, hi)), pos)
	} else {
		x.trust["counter "+counter+" treated as unbounded"] = true
	}
	return r
}

// isCounter reports whether v is loaded from a field listed under counters in the contract files.
func (x *Exec) isCounter(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	n := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
	if x.p.spec.Counters[n] {
		return n
	}
	return ""
}

func (x *Exec) binop(fr *Frame, s *State, in *ssa.BinOp) Val {
	a, b := x.val(fr, s, in.X), x.val(fr, s, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		_, as := a.(*SliceV)
		_, bs := b.(*SliceV)
		switch {
		case as && bs:
			r = Eq(a.(*SliceV).Arr, b.(*SliceV).Arr) // comparison with nil
		default:
			if ac, ok := a.(*ClosureV); ok {
				_ = ac
				r = tFalse
			} else {
				r = eqVals(a, b)
			}
		}
		if in.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	l, r := term(a), term(b)
	if l.Sort == "Flt" {
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return App("flt!"+in.Op.String(), "Bool", l, r)
		}
		return App("flt!"+in.Op.String(), "Flt", l, r)
	}
	if l.Sort == "Str" {
		if in.Op == token.ADD {
			return App("strcat", "Str", l, r)
		}
		return App("str!"+in.Op.String(), "Bool", l, r)
	}
	t := in.Type()
	switch in.Op {
	case token.LSS:
		return Lt(l, r)
	case token.LEQ:
		return Le(l, r)
	case token.GTR:
		return Lt(r, l)
	case token.GEQ:
		return Le(r, l)
	case token.ADD:
		return x.arith(s, Add(l, r), t, in.Pos(), x.isCounter(in.X))
	case token.SUB:
		return x.arith(s, Sub(l, r), t, in.Pos(), x.isCounter(in.X))
	case token.MUL:
		return x.arith(s, Mul(l, r), t, in.Pos(), "")
	case token.QUO, token.REM:
		x.check(s, "safety", "no division by zero", safetyTags, Not(Eq(r, Num(0))), in.Pos())
		var q *Term
		pos := And(Le(Num(0), l), Lt(Num(0), r))
		if s.decide(Le(Num(0), l)) == tTrue && s.decide(Lt(Num(0), r)) == tTrue {
			if in.Op == token.QUO {
				return Div(l, r)
			}
			return Mod(l, r)
		}
		// truncated division
		al := Ite(Le(Num(0), l), l, Neg(l))
		ar := Ite(Le(Num(0), r), r, Neg(r))
		if in.Op == token.QUO {
			d := Div(al, ar)
			q = Ite(Eq(Bool(true), Eq(Le(Num(0), l), Le(Num(0), r))), d, Neg(d))
			q = Ite(pos, Div(l, r), q)
			return x.arith(s, q, t, in.Pos(), "")
		}
		d := Mod(al, ar)
		q = Ite(Le(Num(0), l), d, Neg(d))
		return Ite(pos, Mod(l, r), q)
	case token.SHL:
		if isNum(r) && r.N.IsInt64() && r.N.Int64() >= 0 && r.N.Int64() < 64 {
			z := Mul(BigNum(pow2(int(r.N.Int64()))), l)
			if lo, hi, ok := intRange(t); ok && mentions(l, "bitor") {
				// bits shifted out are lost, as the language defines
				w := Fresh("shl", "Int")
				s.assume(And(Le(lo, w), Le(w, hi)))
				s.assume(Imp(And(Le(lo, z), Le(z, hi)), Eq(w, z)))
				return w
			}
			return x.arith(s, z, t, in.Pos(), "")
		}
	case token.SHR:
		if isNum(r) && r.N.IsInt64() && r.N.Int64() >= 0 && r.N.Int64() < 64 {
			return Div(l, BigNum(pow2(int(r.N.Int64()))))
		}
	case token.AND:
		if isNum(l) {
			l, r = r, l
		}
		if isNum(r) && r.N.Sign() >= 0 {
			return maskTerm(l, r.N)
		}
	case token.OR:
		if isNum(l) {
			l, r = r, l
		}
		if isNum(r) && r.N.Sign() >= 0 {
			// l | m = l + m - (l & m)
			return Sub(Add(l, r), maskTerm(l, r.N))
		}
		if k := factor2(l); k > 0 {
			return Ite(And(Le(Num(0), r), Lt(r, BigNum(pow2(k)))), Add(l, r), App("bitor", "Int", l, r))
		}
		return App("bitor", "Int", l, r)
	case token.AND_NOT:
		if isNum(r) && r.N.Sign() >= 0 {
			return Sub(l, maskTerm(l, r.N))
		}
	case token.XOR:
		if isNum(r) && r.N.Sign() >= 0 {
			return Sub(Add(l, r), Mul(Num(2), maskTerm(l, r.N)))
		}
	}
	// no exact model: an arbitrary value of the type
	return x.freshVal(s, "bits", t)
}

// maskTerm is l & m for a constant m, by runs of consecutive bits (two's complement: floor division).
func maskTerm(l *Term, m *big.Int) *Term {
	r := Num(0)
	for i := 0; i < m.BitLen(); {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		r = Add(r, Mul(BigNum(pow2(i)), Mod(Div(l, BigNum(pow2(i))), BigNum(pow2(j-i)))))
		i = j
	}
	return r
}

// factor2 is the number of trailing zero bits that a linear term has for sure.
func factor2(t *Term) int {
	l := linOf(t)
	k := 62
	tz := func(n *big.Int) int {
		if n.Sign() == 0 {
			return 62
		}
		return int(new(big.Int).Abs(n).TrailingZeroBits())
	}
	k = min(k, tz(l.c))
	for _, c := range l.co {
		k = min(k, tz(c))
	}
	if k == 62 {
		return 0
	}
	return k
}

func (x *Exec) convert(s *State, v Val, from, to types.Type) Val {
	ft, tt := sortOf(from), sortOf(to)
	if ft == "Int" && tt == "Int" {
		t, ok := v.(*Term)
		if !ok {
			return retype(v, to)
		}
		fl, fh, ok1 := intRange(from)
		tl, th, ok2 := intRange(to)
		if !ok1 || !ok2 || (tl.N.Cmp(fl.N) <= 0 && th.N.Cmp(fh.N) >= 0) {
			return t
		}
		if isNum(t) && t.N.Cmp(tl.N) >= 0 && t.N.Cmp(th.N) <= 0 {
			return t
		}
		bits, signed := intBits(und(to).(*types.Basic))
		if !signed && bits <= 16 {
			return Mod(t, BigNum(pow2(bits)))
		}
		in := And(Le(tl, t), Le(t, th))
		if s.decide(in) == tTrue || s.decide(Le(tl, t)) == tTrue && s.decide(Le(t, th)) == tTrue {
			return t
		}
		var w *Term
		if signed {
			h := BigNum(pow2(bits - 1))
			w = Sub(Mod(Add(t, h), BigNum(pow2(bits))), h)
		} else {
			w = Mod(t, BigNum(pow2(bits)))
		}
		// name the result so that its range is known
		r := Fresh("conv", "Int")
		s.assume(Eq(r, Ite(in, t, w)))
		s.assume(Le(tl, r))
		s.assume(Le(r, th))
		return r
	}
	if ft == "Int" && tt == "Flt" {
		return App("flt!of", "Flt", term(v))
	}
	if ft == "Flt" && tt == "Flt" {
		return v
	}
	if ft == "Flt" && tt == "Int" {
		return x.freshVal(s, "conv", to)
	}
	if ft == tt {
		return v
	}
	return x.freshVal(s, "conv", to)
}

func mentions(t *Term, op string) bool {
	if t.Op == op {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, op) {
			return true
		}
	}
	return false
}
