package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Binary representations of numbers that are linear combinations.

func pow2(n int64) *bigInt { return new(bigInt).Lsh(bigOne, uint(n)) }

// splitBits splits p, which is not negative, into multiples of 2^n and the rest.
func splitBits(st *State, p poly, n int64) (hi, lo poly, ok bool) {
	m := pow2(n)
	hi, lo = poly{}, poly{}
	for t, k := range p {
		if t == "1" {
			continue
		}
		if new(bigInt).And(new(bigInt).Abs(k), new(bigInt).Sub(m, bigOne)).Sign() == 0 {
			hi[t] = new(bigInt).Quo(k, m)
		} else {
			lo[t] = k
		}
	}
	if k := p["1"]; k != nil {
		// The part of the constant that belongs to the terms left behind is known
		// by their range.
		l, _, ok := hull(st, lo)
		if !ok {
			return nil, nil, false
		}
		q := new(bigInt).Add(k, l)
		q.Rsh(q, uint(n)) // rounds down
		if q.Sign() != 0 {
			hi["1"] = q
		}
		if r := new(bigInt).Sub(k, new(bigInt).Lsh(q, uint(n))); r.Sign() != 0 {
			lo["1"] = r
		}
	}
	l, h, ok := hull(st, lo)
	if !ok || l.Sign() < 0 || h.Cmp(m) >= 0 {
		return nil, nil, false
	}
	l, _, ok = hull(st, hi)
	return hi, lo, ok && l.Sign() >= 0
}

// textBits evaluates operators on bits.
func (it *Interp) textBits(st *State, op token.Token, t types.Type, a, b *Val) (*Val, bool) {
	p, ok := it.linOf(st, a)
	q, ok2 := it.linOf(st, b)
	if !ok || !ok2 || isKonst(p) && isKonst(q) {
		return nil, false
	}
	if isKonst(p) && (op == token.AND || op == token.OR) {
		p, q = q, p
	}
	var r poly
	switch op {
	case token.SHL, token.SHR:
		k := int64(0)
		if c := q["1"]; c != nil {
			k = c.Int64()
		}
		if !isKonst(q) || k < 0 || k > 4096 {
			return nil, false
		}
		if op == token.SHL {
			r = poly{}.add(p, pow2(k))
			break
		}
		if r, _, ok = splitBits(st, p, k); !ok {
			return nil, false
		}
	case token.AND:
		c := q["1"]
		if !isKonst(q) || c == nil || c.Sign() < 0 {
			return nil, false
		}
		// a run of ones
		z := int64(c.TrailingZeroBits())
		n := int64(c.BitLen())
		if new(bigInt).Add(c, pow2(z)).Cmp(pow2(n)) != 0 {
			return nil, false
		}
		_, lo, ok := splitBits(st, p, n)
		if !ok {
			return nil, false
		}
		hi, _, ok := splitBits(st, lo, z)
		if !ok {
			return nil, false
		}
		r = poly{}.add(hi, pow2(z))
	case token.OR:
		// disjoint bits
		if isKonst(p) {
			return nil, false
		}
		one := func(p, q poly) bool {
			_, h, ok := hull(st, p)
			if !ok {
				return false
			}
			_, lo, ok := splitBits(st, q, int64(h.BitLen()))
			return ok && len(lo) == 0
		}
		if !one(p, q) && !one(q, p) {
			return nil, false
		}
		r = poly{}.add(p, bigOne).add(q, bigOne)
	default:
		return nil, false
	}
	return it.polyVal(st, r, t)
}

// textNarrow converts x to a smaller unsigned type.
func (it *Interp) textNarrow(st *State, v *ssa.Convert, x *Val) (*Val, bool) {
	lo, hi, ok := typeRange(v.Type())
	if p, okp := it.linOf(st, x); ok && okp && lo.sign() < 0 && !isKonst(p) {
		// all of x is beyond the same end of the type
		size := new(bigInt).Sub(hi.big(), lo.big())
		size.Add(size, bigOne)
		if l, _, ok := hull(st, p); ok {
			k := new(bigInt).Sub(l, lo.big())
			k.Div(k, size)
			return it.polyVal(st, poly{"1": k.Neg(k.Mul(k, size))}.add(p, bigOne), v.Type())
		}
	}
	if !ok || hi.h != 0 {
		return nil, false
	}
	n := int64(hi.big().BitLen())
	if pow2(n).Cmp(new(bigInt).Add(hi.big(), bigOne)) != 0 || n%8 != 0 {
		return nil, false
	}
	p, ok := it.linOf(st, x)
	if !ok || isKonst(p) {
		return nil, false
	}
	_, rest, ok := splitBits(st, p, n)
	if !ok {
		return nil, false
	}
	return it.polyVal(st, rest, v.Type())
}

// bytesPoly is the number whose bytes are bs, the greatest first.
func bytesPoly(it *Interp, st *State, bs []*Val) (poly, bool) {
	r := poly{}
	for i, b := range bs {
		p, ok := it.linOf(st, st.norm(b))
		if !ok {
			return nil, false
		}
		r.add(p, pow2(8*int64(len(bs)-1-i)))
	}
	return normPoly(st, r), true
}

// polyBytes writes p in base 256, without leading zeros.
func (it *Interp) polyBytes(st *State, p poly) ([]*Val, bool) {
	_, h, ok := hull(st, p)
	if !ok {
		return nil, false
	}
	var r []*Val
	for n := (int64(h.BitLen()) + 7) / 8; n > 0; n-- {
		hi, lo, ok := splitBits(st, p, 8*(n-1))
		if !ok {
			return nil, false
		}
		v, ok := it.polyVal(st, hi, types.Typ[types.Uint8])
		if !ok || len(r) == 0 && st.num(v).contains(i64(0)) {
			return nil, false // the length is not known
		}
		r = append(r, v)
		p = lo
	}
	return r, true
}

// fits splits on whether p is in [lo, hi].
func (it *Interp) fits(c *callCtx, p poly, lo, hi I) ([]Outcome, bool) {
	st := c.st
	l, h, ok := hull(st, p)
	if !ok {
		return nil, false
	}
	if n, ok := st.enum(it.x.polyExpr(p)); ok && !n.isBot() {
		l, h = maxBig(l, n.lo.big()), minBig(h, n.hi.big())
	}
	in := l.Cmp(lo.big()) >= 0 && h.Cmp(hi.big()) <= 0
	out := l.Cmp(hi.big()) > 0 || h.Cmp(lo.big()) < 0
	if in || out {
		return ret(st, boolV(in)), true
	}
	a, b := fromBig(l), fromBig(h)
	if l.Sign() < 0 || l.BitLen() > 125 || h.BitLen() > 125 {
		return nil, false
	}
	e := it.x.polyExpr(p)
	s := st.clone()
	var outs []Outcome
	if st.setNum(e, mkRange(a, hi)) {
		outs = append(outs, ret(st, boolV(true))...)
	}
	if s.setNum(e, mkRange(hi.add(i64(1)), b)) {
		outs = append(outs, ret(s, boolV(false))...)
	}
	return outs, true
}

// digitsVal is the number of digits of p.
func (it *Interp) digitsVal(st *State, p poly) (*Val, bool) {
	lo, hi, ok := hull(st, p)
	if !ok || lo.Sign() < 0 {
		return nil, false
	}
	if n, ok := st.enum(it.x.polyExpr(p)); ok && !n.isBot() {
		lo, hi = maxBig(lo, n.lo.big()), minBig(hi, n.hi.big())
	}
	l, h := int64(len(lo.String())), int64(len(hi.String()))
	if l == h {
		return constV(i64(l)), true
	}
	return st.intVal(rng(l, h), it.x.mk("ndigits", it.x.polyExpr(p), nil, I{}, "")), true
}

// isDigits reports whether v is the number of digits of p.
func (it *Interp) isDigits(st *State, v *Val, p poly) bool {
	d, ok := it.digitsVal(st, p)
	if !ok {
		return false
	}
	if k, ok := d.n.isConst(); ok {
		return st.num(v).eq(mkConst(k))
	}
	return v.e != nil && d.e == v.e
}

// isDecimal obliges the decimal cells to be p*10^exp, and returns whether it is.
func (c *Ctx) isDecimal(it *Interp, st *State, cells []*Val, neg bool, p, exp poly, scaled bool, nm, at string) {
	b := it.bl
	form := st.norm(cells[b.form]).n
	c.oblige(form.eq(mkConst(u64(uint64(b2u(neg))))), "sign", nm, at, "the result may be %s, expected a finite number, signbit %v", formsStr(form), neg)
	coef := st.norm(cells[b.compact])
	if n := st.num(coef); n.contains(maxU64) {
		if !n.eq(mkConst(maxU64)) {
			// A number that might be 2^64-1 is not told from one that is not compact.
			c.oblige(false, "coefficient", nm, at, "the coefficient may be compact or not: %s", coef)
			return
		}
		coef = cells[b.unscaled]
	}
	got, ok := it.linOf(st, coef)
	ge, ok2 := it.linOf(st, cells[b.exp])
	if !ok || !ok2 {
		c.oblige(false, "coefficient", nm, at, "the coefficient may be %s, the exponent %s", coef, cells[b.exp])
		return
	}
	want := normPoly(st, p)
	cmp := got
	if scaled {
		// Any coefficient will do, if the value is right.
		d := poly{}.add(exp, bigOne).add(ge, bigN(-1))
		k := d["1"]
		if k == nil {
			k = new(bigInt)
		}
		if isKonst(d) && k.IsInt64() && k.Int64() < 5000 && k.Int64() > -5000 {
			if k.Sign() >= 0 {
				want = poly{}.add(want, pow10(k.Int64()))
			} else {
				cmp = poly{}.add(got, pow10(-k.Int64()))
			}
			ge = exp
		}
	}
	c.oblige(samePoly(cmp, want), "coefficient", nm, at, "the coefficient may be %s, expected %s", got, want)
	c.oblige(samePoly(ge, normPoly(st, exp)), "exponent", nm, at, "the exponent may be %s, expected %s", ge, exp)
	c.oblige(it.isDigits(st, cells[b.precision], got), "length", nm, at, "the length recorded may be %s, expected that of %s", cells[b.precision], got)
}

// sameContext obliges the Context in cells to be as before, with the conditions m.
func (c *Ctx) sameContext(it *Interp, st *State, before, cells []*Val, m uint64, nm, at string) {
	b := it.bl
	for _, l := range []struct {
		i  int
		nm string
	}{{b.prec, "Precision"}, {b.rmode, "RoundingMode"}, {b.omode, "OperatingMode"}, {b.traps, "Traps"}, {b.maxScale, "MaxScale"}, {b.minScale, "MinScale"}} {
		c.oblige(sameVal(st, before[l.i], cells[l.i]), "context", nm, at, "may change the %s of the Context", l.nm)
	}
	n := st.norm(cells[b.conds]).n
	c.oblige(n.eq(mkConst(u64(m))), "conditions", nm, at, "may raise %s, expected %s", condNum(n), condString(m))
}

// byteVals makes the n symbolic bytes of a number, with ranges for the first ones.
func (it *Interp) byteVals(st *State, nm string, first []Num, n int) []*Val {
	var bs []*Val
	for i := 0; i < n; i++ {
		r := rng(0, 255)
		if i < len(first) {
			r = first[i]
		}
		if k, ok := r.isConst(); ok {
			bs = append(bs, constV(k))
			continue
		}
		bs = append(bs, st.intVal(r, it.x.named(fmt.Sprintf("%s%d", nm, i))))
	}
	return bs
}

func bigPow(b *bigInt, n int64) *bigInt { return new(big.Int).Exp(b, bigN(n), nil) }

// zeroSum sets every term of p to zero, if it is n only then.
func (s *State) zeroSum(p poly, n Num) bool {
	v, ok := n.isConst()
	if !ok {
		return true
	}
	c := v.big()
	if k := p["1"]; k != nil {
		c = new(bigInt).Sub(c, k)
	}
	if c.Sign() != 0 {
		return true
	}
	sign := 0
	for t, k := range p {
		if t == "1" {
			continue
		}
		if s.x.terms[t] == nil || s.x.polys[s.x.terms[t]] != nil || sign != 0 && k.Sign() != sign {
			return true
		}
		if m, ok := s.enum(s.x.terms[t]); !ok || m.isBot() || m.lo.sign() < 0 {
			return true
		}
		sign = k.Sign()
	}
	for t := range p {
		if t != "1" && !s.setNum(s.x.terms[t], k64(0)) {
			return false
		}
	}
	return true
}

// setTerm narrows the one unknown term of p, which is n.
func (s *State) setTerm(p poly, n Num) bool {
	if len(p) > 2 || len(p) == 2 && p["1"] == nil {
		return s.zeroSum(p, n)
	}
	t := ""
	for u := range p {
		if u == "1" {
			continue
		}
		if t != "" {
			return true
		}
		t = u
	}
	if t == "" || s.x.terms[t] == nil || s.x.polys[s.x.terms[t]] != nil {
		return true
	}
	c := p["1"]
	if c == nil {
		c = new(bigInt)
	}
	lo, hi := new(bigInt).Sub(n.lo.big(), c), new(bigInt).Sub(n.hi.big(), c)
	k := p[t]
	if k.Sign() < 0 {
		lo, hi = hi.Neg(hi), lo.Neg(lo)
		k = new(bigInt).Neg(k)
	}
	// rounded inwards
	lo.Neg(lo)
	lo.Div(lo, k)
	lo.Neg(lo)
	hi.Div(hi, k)
	if lo.Cmp(hi) > 0 {
		return false
	}
	if lo.BitLen() > 125 || hi.BitLen() > 125 {
		return true
	}
	return s.setNum(s.x.terms[t], mkRange(fromBig(lo), fromBig(hi)))
}
