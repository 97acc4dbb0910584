package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
)

// Floating-point numbers whose bits are linear combinations.

// floatV is the float64 with these bits.
func floatV(bits *Val, e *Expr) *Val { return &Val{k: KOpaque, in: bits, e: e} }

// floatRange returns the least and the greatest value of v; nan means that it
// is a NaN.
func (it *Interp) floatRange(st *State, v *Val) (lo, hi float64, neg, nan, ok bool) {
	if v == nil || v.k != KOpaque {
		return
	}
	if v.in == nil {
		if v.str == nil {
			return
		}
		f, okf := new(big.Float).SetString(*v.str)
		if !okf {
			return
		}
		x, _ := f.Float64()
		return x, x, x < 0, false, true
	}
	p, okp := it.linOf(st, v.in)
	if !okp {
		return
	}
	l, h, okh := hull(st, p)
	if !okh || !l.IsUint64() || !h.IsUint64() {
		return
	}
	a, b := l.Uint64(), h.Uint64()
	if a>>63 != b>>63 {
		return
	}
	neg = a>>63 != 0
	const inf = 0x7ff << 52
	m := ^(uint64(1) << 63)
	switch {
	case a&m > inf:
		return 0, 0, neg, true, true
	case b&m > inf:
		return
	}
	lo, hi = math.Float64frombits(a), math.Float64frombits(b)
	if neg {
		lo, hi = hi, lo
	}
	return lo, hi, neg, false, true
}

// floatBits is the bits of v.
func (it *Interp) floatBits(st *State, v *Val) (*Val, bool) {
	if v == nil || v.k != KOpaque {
		return nil, false
	}
	if v.in != nil {
		return v.in, true
	}
	lo, hi, _, nan, ok := it.floatRange(st, v)
	if !ok || nan || lo != hi {
		return nil, false
	}
	return constV(u64(math.Float64bits(lo))), true
}

// floatCmp compares floats.
func (it *Interp) floatCmp(st *State, op token.Token, a, b *Val) (Num, bool) {
	if a.k != KOpaque || b.k != KOpaque || a.in == nil && b.in == nil {
		return Num{}, false
	}
	al, ah, _, an, ok := it.floatRange(st, a)
	bl, bh, _, bn, ok2 := it.floatRange(st, b)
	if !ok || !ok2 {
		return Num{}, false
	}
	yes, no := false, false
	if an || bn {
		yes, no = op == token.NEQ, op != token.NEQ
		return boolNum(no, yes), true
	}
	if a == b || a.in != nil && b.in != nil && sameVal(st, a.in, b.in) {
		yes = op == token.EQL || op == token.LEQ || op == token.GEQ
		return boolNum(!yes, yes), true
	}
	if op == token.GTR || op == token.GEQ {
		al, ah, bl, bh = bl, bh, al, ah
		op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	switch op {
	case token.LSS:
		yes, no = ah < bl, al >= bh
	case token.LEQ:
		yes, no = ah <= bl, al > bh
	case token.EQL, token.NEQ:
		yes, no = al == ah && bl == bh && al == bl, ah < bl || al > bh
		if op == token.NEQ {
			yes, no = no, yes
		}
	}
	if yes == no {
		return Num{}, false
	}
	return boolNum(no, yes), true
}

// floatCall models the functions of package math on bits.
func (it *Interp) floatCall(c *callCtx) ([]Outcome, bool) {
	st := c.st
	switch c.name {
	case "math.Float64bits":
		if v := c.args[0]; v.k == KOpaque && v.in != nil {
			return ret(st, st.norm(v.in)), true
		}
	case "math.Float64frombits":
		return ret(st, floatV(c.args[0], nil)), true
	case "math.Signbit":
		if _, _, neg, _, ok := it.floatRange(st, c.args[0]); ok && c.args[0].in != nil {
			return ret(st, boolV(neg)), true
		}
	case "math.IsNaN":
		if _, _, _, nan, ok := it.floatRange(st, c.args[0]); ok {
			return ret(st, boolV(nan)), true
		}
	case "math.IsInf":
		lo, hi, _, nan, ok := it.floatRange(st, c.args[0])
		s, ok2 := st.num(c.args[1]).isConst()
		if !ok || !ok2 {
			break
		}
		is := func(x float64) bool { return math.IsInf(x, s.sign()) }
		if nan {
			return ret(st, boolV(false)), true
		}
		if is(lo) == is(hi) && (lo == hi || !math.IsInf(lo, 0) && !math.IsInf(hi, 0)) {
			return ret(st, boolV(is(lo))), true
		}
	case "math.Inf":
		if s, ok := st.num(c.args[0]).isConst(); ok {
			sg := 1
			if s.sign() < 0 {
				sg = -1
			}
			return ret(st, floatV(constV(u64(math.Float64bits(math.Inf(sg)))), nil)), true
		}
	case "math.NaN":
		return ret(st, floatV(constV(u64(math.Float64bits(math.NaN()))), nil)), true
	case "math.Copysign":
		b, ok := it.floatBits(st, c.args[0])
		s, ok2 := it.floatBits(st, c.args[1])
		if !ok || !ok2 {
			break
		}
		sm := st.num(s)
		bm := st.num(b)
		if sm.lo.big().Bit(63) == sm.hi.big().Bit(63) && bm.lo.big().Bit(63) == bm.hi.big().Bit(63) {
			p, ok := it.linOf(st, b)
			if !ok {
				break
			}
			d := int64(sm.lo.big().Bit(63)) - int64(bm.lo.big().Bit(63))
			if r, ok := it.polyVal(st, poly{"1": new(bigInt).Mul(bigN(d), pow2(63))}.add(p, bigOne), types.Typ[types.Uint64]); ok {
				return ret(st, floatV(r, nil)), true
			}
		}
	case "math.Abs":
		v := c.args[0]
		if _, _, neg, _, ok := it.floatRange(st, v); ok && v.in != nil {
			if !neg {
				return ret(st, v), true
			}
			p, _ := it.linOf(st, v.in)
			if b, ok := it.polyVal(st, poly{"1": new(bigInt).Neg(pow2(63))}.add(p, bigOne), types.Typ[types.Uint64]); ok {
				return ret(st, floatV(b, nil)), true
			}
		}
	}
	return nil, false
}

// ---- big.Float --------------------------------------------------------------------

// floatUnit: a big.Float is a linear combination in units of 2^-floatUnit.
const floatUnit = 1200

const floatNm, floatConst, floatSpecial = "bigfloat", "bigfloatconst", "bigfloatspecial"

// floatSpecialV is a zero or an infinity.
func floatSpecialV(it *Interp, nm string) *Val {
	return &Val{k: KBig, sign: 7, e: it.x.mk(floatSpecial, nil, nil, I{}, nm)}
}

// A big.Float has the expression bigfloat(value, precision).

func (it *Interp) floatOf(st *State, ptr *Val) (p poly, prec uint64, ok bool) {
	if ptr.k != KPtr || len(ptr.p) != 1 || ptr.unk || ptr.null {
		return nil, 0, false
	}
	o := st.obj(ptr.p[0].obj)
	if o == nil || ptr.p[0].off >= len(o.cells) {
		return nil, 0, false
	}
	v := o.cells[ptr.p[0].off]
	if v.k != KBig || v.e == nil {
		return nil, 0, false
	}
	if v.e.op == floatConst {
		f, ok := new(big.Float).SetString(v.e.nm)
		if !ok || !f.IsInt() {
			return nil, 0, false
		}
		k, _ := f.Int(nil)
		if k.Sign() == 0 || k.BitLen() > 53 {
			return nil, 0, false
		}
		return konstPoly(k.Lsh(k, floatUnit)), 53, true
	}
	if v.e.op != floatNm {
		return nil, 0, false
	}
	q, err := lin(st, v.e.a)
	return normPoly(st, q), v.e.c.l, err == nil
}

// setFloat makes the big.Float at ptr p.
func (it *Interp) setFloat(c *callCtx, ptr *Val, p poly, prec uint64) ([]Outcome, bool) {
	v := it.floatVal(c.st, p, prec)
	if v == nil {
		return nil, false
	}
	it.bigMutate(c, ptr)
	it.store(c.st, ptr, v, bigIntT, c.pos)
	return ret(c.st, ptr), true
}

func (it *Interp) floatVal(st *State, p poly, prec uint64) *Val {
	lo, hi, ok := hull(st, p)
	if !ok || lo.Sign() <= 0 && hi.Sign() >= 0 {
		return nil
	}
	s := uint8(4)
	if hi.Sign() < 0 {
		s = 1
	}
	return &Val{k: KBig, sign: s, e: it.x.mk(floatNm, it.x.polyExpr(p), nil, u64(prec), "")}
}

// bigFloat models the methods of big.Float that are exact.
func (it *Interp) bigFloat(c *callCtx, m string) ([]Outcome, bool) {
	st := c.st
	sign := func(p poly) int {
		lo, _, _ := hull(st, p)
		return lo.Sign()
	}
	abs := func(p poly) poly {
		if sign(p) < 0 {
			return poly{}.add(p, bigN(-1))
		}
		return p
	}
	// whole returns p/2^floatUnit, and whether it is an integer.
	whole := func(p poly) (q poly, isInt, ok bool) {
		q = poly{}
		one := uint(1 << 30) // the trailing zeros of the constant
		vars := one
		for t, k := range abs(p) {
			z := k.TrailingZeroBits()
			if t == "1" {
				one = z
			} else if z < vars {
				vars = z
			}
			if z >= floatUnit {
				q[t] = new(bigInt).Rsh(k, floatUnit)
			}
		}
		switch {
		case one >= floatUnit && vars >= floatUnit:
			return q, true, true
		case one < floatUnit && one < vars:
			return nil, false, true // an odd multiple of a power of two
		}
		return nil, false, false
	}
	p, prec, ok := it.floatOf(st, c.args[0])
	arg := func(i int) (poly, uint64, bool) { return it.floatOf(st, c.args[i]) }
	switch m {
	case "Copy":
		if q, pr, ok := arg(1); ok {
			return it.setFloat(c, c.args[0], q, pr)
		}
	case "SetPrec":
		if k, okk := st.num(c.args[1]).isConst(); ok && okk && k.cmp(u64(prec)) >= 0 {
			return it.setFloat(c, c.args[0], p, k.l)
		}
	case "Abs", "Neg", "Set":
		q, pr, okq := arg(1)
		if !okq || ok && prec < pr {
			return nil, false
		}
		if ok {
			pr = prec
		} else if !it.fresh(st, c.args[0]) {
			return nil, false
		}
		switch m {
		case "Abs":
			q = abs(q)
		case "Neg":
			q = poly{}.add(q, bigN(-1))
		}
		return it.setFloat(c, c.args[0], q, pr)
	case "Mul":
		x, _, ok1 := arg(1)
		y, _, ok2 := arg(2)
		// The precision must be that of the destination, and suffice.
		if !ok || !ok1 || !ok2 || prec < math.MaxUint32 {
			return nil, false
		}
		for i := 0; i < 2; i++ {
			if isKonst(y) && y["1"] != nil {
				if k, r := new(bigInt).QuoRem(y["1"], pow2(floatUnit), new(bigInt)); r.Sign() == 0 {
					return it.setFloat(c, c.args[0], poly{}.add(x, k), prec)
				}
			}
			x, y = y, x
		}
		return nil, false
	}
	if o := it.object(st, c.args[0]); !ok && o != nil && c.args[0].p[0].off < len(o.cells) {
		if v := o.cells[c.args[0].p[0].off]; v.k == KBig && v.e != nil && v.e.op == floatSpecial {
			neg, inf := v.e.nm[0] == '-', v.e.nm[1:] == "inf"
			s := int64(1)
			switch {
			case !inf:
				s = 0
			case neg:
				s = -1
			}
			switch m {
			case "IsInf":
				return ret(st, boolV(inf)), true
			case "Signbit":
				return ret(st, boolV(neg)), true
			case "Sign":
				return ret(st, constV(i64(s))), true
			case "IsInt":
				return ret(st, boolV(!inf)), true
			}
		}
	}
	special := func(neg bool, nm string) ([]Outcome, bool) {
		it.bigMutate(c, c.args[0])
		s := "+"
		if neg {
			s = "-"
		}
		it.store(st, c.args[0], floatSpecialV(it, s+nm), bigIntT, c.pos)
		return ret(st, c.args[0]), true
	}
	switch m {
	case "SetInf":
		if k, ok := st.num(c.args[1]).isConst(); ok {
			return special(k.sign() != 0, "inf")
		}
	case "SetUint64", "SetInt64":
		if k, ok := st.num(c.args[1]).isConst(); ok && k.sign() == 0 {
			return special(false, "0")
		}
	}
	if !ok {
		return nil, false
	}
	switch m {
	case "IsInf":
		return ret(st, boolV(false)), true
	case "Signbit":
		return ret(st, boolV(sign(p) < 0)), true
	case "Sign":
		return ret(st, constV(i64(int64(sign(p))))), true
	case "Prec":
		return ret(st, constV(u64(prec))), true
	case "IsInt":
		if _, is, ok := whole(p); ok {
			return ret(st, boolV(is)), true
		}
	case "Uint64":
		q, is, ok := whole(p)
		if !ok || !is || sign(p) < 0 {
			return nil, false
		}
		lo, hi, _ := hull(st, q)
		t := c.sig.Results()
		below, exact := constV(i64(-1)), constV(i64(0))
		if hi.Cmp(maxU64.big()) <= 0 {
			v, ok := it.polyVal(st, q, t.At(0).Type())
			if !ok {
				return nil, false
			}
			return ret(st, tuple(v, exact)), true
		}
		if lo.Cmp(maxU64.big()) > 0 {
			return ret(st, tuple(constV(maxU64), below)), true
		}
		a, b := fromBig(lo), fromBig(hi)
		if hi.BitLen() > 125 {
			return nil, false
		}
		e := it.x.polyExpr(q)
		s := st.clone()
		var outs []Outcome
		if st.setNum(e, mkRange(a, maxU64)) {
			if v, ok := it.polyVal(st, q, t.At(0).Type()); ok {
				outs = append(outs, ret(st, tuple(v, exact))...)
			} else {
				return nil, false
			}
		}
		if s.setNum(e, mkRange(maxU64.add(i64(1)), b)) {
			outs = append(outs, ret(s, tuple(constV(maxU64), below))...)
		}
		return outs, true
	case "Int":
		q, is, ok := whole(p)
		if !ok || c.args[1].k != KPtr || c.args[1].null {
			return nil, false
		}
		if !is {
			return nil, false
		}
		if sign(p) < 0 {
			q = poly{}.add(q, bigN(-1))
		}
		cc := *c
		cc.args = []*Val{c.args[1]}
		r, ok := it.setPoly(&cc, q)
		if !ok {
			return nil, false
		}
		r[0].ret = tuple(c.args[1], constV(i64(0)))
		return r, true
	}
	return nil, false
}

// fresh reports whether ptr points to a new zero value.
func (it *Interp) fresh(st *State, ptr *Val) bool {
	if ptr.k != KPtr || len(ptr.p) != 1 || ptr.unk || ptr.null {
		return false
	}
	o := st.obj(ptr.p[0].obj)
	return o != nil && !o.weak && ptr.p[0].off < len(o.cells) && o.cells[ptr.p[0].off].k == KBig && o.cells[ptr.p[0].off].sign == 2 && o.cells[ptr.p[0].off].e == nil
}

// ---- big.Rat ------------------------------------------------------------------------

const ratNm = "bigrat"

// ratOf returns the numerator and the denominator, which is positive.
func (it *Interp) ratOf(st *State, v *Val) (p, q poly, ok bool) {
	if v == nil || v.k != KBig || v.e == nil || v.e.op != ratNm {
		return nil, nil, false
	}
	p, err := lin(st, v.e.a)
	q, err2 := lin(st, v.e.b)
	if err != nil || err2 != nil {
		return nil, nil, false
	}
	return normPoly(st, p), normPoly(st, q), true
}

func (it *Interp) bigRat(c *callCtx, m string) ([]Outcome, bool) {
	st := c.st
	num := func(i int) (poly, bool) {
		v := c.args[i]
		if v.k == KPtr {
			if len(v.p) != 1 || v.unk || v.null {
				return nil, false
			}
			v = it.bigLoad(c, v)
		}
		return it.linOf(st, v)
	}
	set := func(p, q poly) ([]Outcome, bool) {
		lo, hi, ok := hull(st, p)
		if !ok || !isKonst(q) || q["1"] == nil || q["1"].Sign() <= 0 {
			return nil, false
		}
		s := uint8(0)
		if lo.Sign() < 0 {
			s |= 1
		}
		if lo.Sign() <= 0 && hi.Sign() >= 0 {
			s |= 2
		}
		if hi.Sign() > 0 {
			s |= 4
		}
		it.bigMutate(c, c.args[0])
		it.store(st, c.args[0], &Val{k: KBig, sign: s, e: it.x.mk(ratNm, it.x.polyExpr(p), it.x.polyExpr(q), I{}, "")}, bigIntT, c.pos)
		return ret(st, c.args[0]), true
	}
	one := poly1(1)
	switch m {
	case "SetInt64", "SetUint64", "SetInt":
		if p, ok := num(1); ok {
			return set(p, one)
		}
	case "SetFrac", "SetFrac64":
		p, ok := num(1)
		q, ok2 := num(2)
		if ok && ok2 {
			if isKonst(q) && q["1"] != nil && q["1"].Sign() < 0 {
				p, q = poly{}.add(p, bigN(-1)), poly{}.add(q, bigN(-1))
			}
			return set(p, q)
		}
	case "Neg", "Set":
		if p, q, ok := it.ratOf(st, it.bigLoad(c, c.args[1])); ok {
			if m == "Neg" {
				p = poly{}.add(p, bigN(-1))
			}
			return set(p, q)
		}
	}
	return nil, false
}
