package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Intervals of big numbers. With it.mags set, a KBig value and a slice of
// words carry an interval (n) of the number they stand for, as far as it fits
// into 126 bits; n is the zero Num if nothing is known.

func (n Num) unknown() bool { return n.set == nil && n.lo == n.hi }

var magMax = I{1 << 61, 0}

func bounded(n Num) bool {
	return !n.unknown() && !n.isBot() && n.hi.cmp(magMax) < 0 && magMax.neg().cmp(n.lo) < 0
}

// magJoin joins two intervals of numbers.
func magJoin(a, b Num, widen bool) Num {
	if a.unknown() || b.unknown() {
		return Num{}
	}
	r := a.join(b)
	if widen && !r.eq(a) {
		return Num{}
	}
	return r
}

// magOf returns the interval of v.
func (it *Interp) magOf(st *State, v *Val) Num {
	if !it.mags || v == nil {
		return Num{}
	}
	if v.k == KInt {
		return st.num(v)
	}
	if it.bigSign(st, v) == 2 && v.k == KBig {
		return k64(0)
	}
	return v.n
}

// wordsMag returns the interval of the number whose words are s.
func (it *Interp) wordsMag(st *State, s *Val) Num {
	if !it.mags || s.k != KSlice || s.unk {
		return Num{}
	}
	if len(s.p) == 1 {
		if o := st.obj(s.p[0].obj); o != nil && s.p[0].off == 0 {
			c := o.cells[0]
			if c.k == KInt && c.in != nil {
				return c.in.n
			}
			if l, ok := st.num(s.ln).isConst(); s.ln != nil && ok && l == i64(1) && len(o.cells) == 1 && it.objs[s.p[0].obj].typ != nil {
				if n := st.num(c); !n.isBot() && c.k == KInt {
					return n
				}
			}
		}
	}
	return s.n
}

// setMag overwrites *ptr with a number in n.
func (it *Interp) setMag(c *callCtx, ptr *Val, n Num, e *Expr, t Taint) {
	it.bigSet(c, ptr, numSign(n), e, t)
	if !it.mags || !bounded(n) {
		return
	}
	v := *it.load(c.st, ptr, bigIntT, c.pos)
	if v.k == KBig && len(ptr.p) == 1 && !ptr.unk {
		v.n = n
		s := c.st.objW(ptr.p[0].obj)
		s.cells[ptr.p[0].off] = &v
	}
}

func magSet(a, b Num, f func(x, y *big.Int) *big.Int, mono bool) Num {
	if !bounded(a) || !bounded(b) {
		return Num{}
	}
	if a.set != nil && b.set != nil && len(a.set)*len(b.set) <= maxSet {
		var xs []I
		for _, x := range a.set {
			for _, y := range b.set {
				xs = append(xs, fromBig(f(x.big(), y.big())))
			}
		}
		return magFit(mkSet(xs))
	}
	if !mono {
		return Num{}
	}
	var lo, hi I
	for i, x := range []I{a.lo, a.hi} {
		for j, y := range []I{b.lo, b.hi} {
			z := fromBig(f(x.big(), y.big()))
			if i+j == 0 {
				lo, hi = z, z
			}
			lo, hi = minI(lo, z), maxI(hi, z)
		}
	}
	return magFit(mkRange(lo, hi))
}

func magFit(n Num) Num {
	if !bounded(n) {
		return Num{}
	}
	return n
}

func magMul(a, b Num) Num {
	return magSet(a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }, true)
}
func magAdd(a, b Num) Num {
	return magSet(a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }, true)
}
func magSub(a, b Num) Num {
	return magSet(a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }, true)
}

// magQuoRem is the truncated quotient and the remainder of non-negative
// numbers.
func magQuoRem(a, b Num) (q, r Num) {
	if !bounded(a) || !bounded(b) || a.lo.sign() < 0 || b.lo.sign() <= 0 {
		return
	}
	q = magSet(a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Quo(x, y) }, true)
	r = mkRange(i64(0), minI(a.hi, b.hi.sub(i64(1))))
	if k, ok := q.isConst(); ok {
		r = r.meet(magSub(a, magMul(b, mkConst(k))))
	}
	return
}

// magTrunc is the quotient truncated towards zero and the remainder of numbers
// of any sign.
func magTrunc(a, b Num) (q, r Num) {
	if !bounded(a) || !bounded(b) {
		return
	}
	q, r = magQuoRem(magAbs(a), magAbs(b))
	an, bn := a.hi.sign() <= 0, b.hi.sign() < 0
	if !bounded(q) || !an && a.lo.sign() < 0 {
		return Num{}, Num{}
	}
	if an {
		r = magSub(k64(0), r)
	}
	if an != bn {
		q = magSub(k64(0), q)
	}
	return
}

// magCmp is the result of a comparison.
func magCmp(a, b Num) Num {
	n := mkSet([]I{i64(-1), i64(0), i64(1)})
	if !bounded(a) || !bounded(b) {
		return n
	}
	switch {
	case a.hi.cmp(b.lo) < 0:
		return k64(-1)
	case a.lo.cmp(b.hi) > 0:
		return k64(1)
	}
	if _, ok := a.isConst(); ok && a.eq(b) {
		return k64(0)
	}
	var xs []I
	if a.lo.cmp(b.hi) < 0 {
		xs = append(xs, i64(-1))
	}
	if a.hi.cmp(b.lo) > 0 {
		xs = append(xs, i64(1))
	}
	if !a.meet(b).isBot() {
		xs = append(xs, i64(0))
	}
	return mkSet(xs)
}

func magAbs(n Num) Num {
	switch {
	case !bounded(n) || n.lo.sign() >= 0:
		return n
	case n.hi.sign() <= 0:
		return magSub(k64(0), n)
	}
	return mkRange(i64(0), maxI(n.hi, n.lo.neg()))
}

func magLen(n Num) (lo, hi int64) {
	n = magAbs(n)
	return int64(len(n.lo.String())), int64(len(n.hi.String()))
}

// magCall computes the operations of big numbers on intervals. It runs before
// the generic model and only handles what it knows more about.
func (it *Interp) magCall(c *callCtx, m string) ([]Outcome, bool) {
	if !it.mags || len(c.args) == 0 || c.args[0].k != KPtr || len(c.args[0].p) == 0 {
		return nil, false
	}
	st, z := c.st, c.args[0]
	var ns []Num
	var vs []*Val
	t := Taint(0)
	for _, a := range c.args[1:] {
		v := a
		if a.k == KPtr && len(a.p) > 0 {
			v = it.bigLoad(c, a)
		}
		vs = append(vs, v)
		t |= v.t
		ns = append(ns, it.magOf(st, v))
	}
	get := func(i int) Num {
		if i < len(ns) {
			return ns[i]
		}
		return Num{}
	}
	a, b := get(0), get(1)
	var r Num
	switch m {
	case "Set":
		if samePtrs(z.p, c.args[1].p) {
			return nil, false
		}
		if bounded(a) {
			it.setMag(c, z, a, vs[0].e, t)
			return ret(st, z), true
		}
		return nil, false
	case "Neg":
		r = magSub(k64(0), a)
	case "Abs":
		r = magAbs(a)
	case "Add":
		r = magAdd(a, b)
	case "Sub":
		r = magSub(a, b)
	case "Mul":
		r = magMul(a, b)
	case "Quo":
		r, _ = magTrunc(a, b)
	case "Rem":
		_, r = magTrunc(a, b)
	case "Div":
		r, _ = magQuoRem(a, b)
	case "Mod":
		_, r = magQuoRem(a, b)
	case "Lsh":
		if k, ok := b.isConst(); ok && k.sign() >= 0 && k.l < 126 {
			r = magMul(a, mkConst(fromBig(new(big.Int).Lsh(big.NewInt(1), uint(k.l)))))
		}
	case "Rsh":
		if k, ok := b.isConst(); ok && k.sign() >= 0 && k.l < 126 {
			r, _ = magQuoRem(a, mkConst(fromBig(new(big.Int).Lsh(big.NewInt(1), uint(k.l)))))
		}
	case "Exp":
		if len(c.args) > 3 && c.args[3].null && len(c.args[3].p) == 0 && bounded(b) && b.hi.cmp(i64(130)) < 0 && b.lo.sign() >= 0 && bounded(a) && a.lo.sign() >= 0 {
			r = magSet(a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Exp(x, y, nil) }, true)
		}
	case "QuoRem", "DivMod":
		q, rem := magQuoRem(a, b)
		if m == "QuoRem" {
			q, rem = magTrunc(a, b)
		}
		if !bounded(q) {
			return nil, false
		}
		it.setMag(c, c.args[3], rem, nil, t)
		it.setMag(c, z, q, nil, t)
		return ret(st, tuple(z, c.args[3])), true
	case "SetBits":
		n := it.wordsMag(st, c.args[1])
		if !bounded(n) {
			return nil, false
		}
		s := c.args[1]
		v := &Val{k: KBig, sign: numSign(n), e: it.x.newAtom(), t: t, p: s.p, n: n}
		if s.e != nil {
			v.e = s.e
		}
		it.store(st, z, v, bigIntT, c.pos)
		return ret(st, z), true
	case "Cmp", "CmpAbs":
		x, y := it.magOf(st, it.bigLoad(c, z)), a
		if m == "CmpAbs" {
			x, y = magAbs(x), magAbs(y)
		}
		n := magCmp(x, y)
		if len(n.set) == 3 {
			return nil, false
		}
		return ret(st, st.intVal(n, nil).withTaint(t)), true
	case "IsUint64", "IsInt64":
		n := it.magOf(st, it.bigLoad(c, z))
		if !bounded(n) {
			return nil, false
		}
		lo, hi := i64(0), maxU64
		if m == "IsInt64" {
			lo, hi = i64(-1<<63), i64(1<<63-1)
		}
		in := n.lo.cmp(hi) <= 0 && lo.cmp(n.hi) <= 0
		out := n.hi.cmp(hi) > 0 || n.lo.cmp(lo) < 0
		return ret(st, st.intVal(boolNum(out, in), nil)), true
	case "Uint64", "Int64":
		v := it.bigLoad(c, z)
		n := it.magOf(st, v)
		lo, hi := i64(0), maxU64
		if m == "Int64" {
			lo, hi = i64(-1<<63), i64(1<<63-1)
		}
		if k, ok := n.isConst(); ok && bounded(n) {
			n = mkConst(wrapTo(k.big(), types.Typ[types.Uint64]))
			if m == "Int64" {
				n = mkConst(wrapTo(k.big(), types.Typ[types.Int64]))
			}
		}
		if !bounded(n) || n.lo.cmp(lo) < 0 || n.hi.cmp(hi) > 0 {
			return nil, false
		}
		op := "u64"
		if m == "Int64" {
			op = "i64"
		}
		return ret(st, st.intVal(n, it.x.mk(op, v.e, nil, I{}, "")).withTaint(v.t)), true
	case "BitLen":
		n := magAbs(it.magOf(st, it.bigLoad(c, z)))
		if !bounded(n) {
			return nil, false
		}
		return ret(st, st.intVal(mkRange(i64(int64(n.lo.big().BitLen())), i64(int64(n.hi.big().BitLen()))), nil)), true
	case "Bit":
		n := it.magOf(st, it.bigLoad(c, z))
		k, ok := get(0).isConst()
		if !bounded(n) || !ok || k.sign() < 0 || k.l >= 64 || n.lo.sign() < 0 {
			return nil, false
		}
		may0, may1 := n.k1>>k.l&1 == 0, n.k0>>k.l&1 == 0
		return ret(st, st.intVal(boolNum(may0, may1), nil)), true
	case "Bits":
		v := it.bigLoad(c, z)
		n := magAbs(it.magOf(st, v))
		if !bounded(n) {
			return nil, false
		}
		s := &Val{k: KSlice, p: v.p, sign: absSign(it.bigSign(st, v)), role: z.role, e: v.e, t: v.t, n: n}
		w := func(x I) int64 { return int64((x.big().BitLen() + 63) / 64) }
		s.ln = st.intVal(mkRange(i64(w(n.lo)), i64(w(n.hi))), it.x.mk("nwords", v.e, nil, I{}, ""))
		if len(v.p) == 0 {
			s.unk = v.sign != 2
			s.null = true
		}
		return ret(st, s), true
	default:
		return nil, false
	}
	if !bounded(r) {
		return nil, false
	}
	it.setMag(c, z, r, nil, t)
	return ret(st, z), true
}

// pow10Obj is the table entry of 10^k.
func (it *Interp) pow10Obj(k int64) int {
	if o, ok := it.pows[k]; ok {
		return o
	}
	o := it.newObj(bigIntT, "a cached power of ten", OwnShared)
	o.summary = k <= 36
	it.base[o.id] = it.initCells(o, func(l Leaf, i int) *Val {
		v := &Val{k: KBig, sign: 4, e: it.x.newAtom(), p: []Ptr{{it.backing(Ptr{o.id, 0}), 0}}}
		if k > 36 {
			v.e = it.x.mk("tenpow", nil, nil, I{0, uint64(k)}, "")
		} else {
			v.n = mkConst(fromBig(pow10(k)))
		}
		return v
	})
	if it.pows == nil {
		it.pows = map[int64]int{}
	}
	it.pows[k] = o.id
	return o.id
}

// magModel is the contract of an arith helper on intervals, if more is known
// than the general contract says.
func (it *Interp) magModel(name string, c *callCtx) ([]Outcome, bool) {
	if !it.mags {
		return nil, false
	}
	if it.text {
		if r, ok := it.textModel(name, c); ok {
			return r, true
		}
	}
	st := c.st
	a := c.args
	big1 := func(i int) Num { return it.magOf(st, it.bigLoad(c, a[i])) }
	set := func(n Num) ([]Outcome, bool) {
		if !bounded(n) {
			return nil, false
		}
		it.setMag(c, a[0], n, nil, 0)
		return ret(st, a[0]), true
	}
	switch name {
	case "BigLength":
		v := it.bigLoad(c, a[0])
		n := it.magOf(st, v)
		if !bounded(n) {
			return nil, false
		}
		lo, hi := magLen(n)
		return ret(st, st.intVal(mkRange(i64(lo), i64(hi)), it.x.mk("biglen", v.e, nil, I{}, "")).withTaint(v.t)), true
	case "BigPow10":
		if k, ok := st.num(a[0]).isConst(); ok && k.sign() >= 0 && (k.cmp(i64(36)) <= 0 || it.words && k.h == 0) {
			return ret(st, ptrV(RShared, Ptr{it.pow10Obj(int64(k.l)), 0}).withTaint(a[0].t)), true
		}
	case "MulBigPow10":
		if n := st.num(a[2]); !n.isBot() && n.lo.sign() >= 0 && n.hi.cmp(i64(37)) <= 0 {
			return set(magMul(big1(1), mkRange(fromBig(pow10(int64(n.lo.l))), fromBig(pow10(int64(n.hi.l))))))
		}
	case "Add":
		return set(magAdd(big1(1), st.num(a[2])))
	case "Sub":
		return set(magSub(big1(1), st.num(a[2])))
	case "Mul":
		return set(magMul(big1(1), st.num(a[2])))
	case "Set":
		return set(magAdd(magMul(st.num(a[1]), mkConst(fromBig(two64))), st.num(a[2])))
	case "PowOfTenBig":
		n := big1(0)
		if !bounded(n) {
			return nil, false
		}
		in, out := false, true
		for k := int64(0); k < 38; k++ {
			p := fromBig(pow10(k))
			if n.contains(p) {
				in = true
				if _, ok := n.isConst(); ok {
					out = false
				}
			}
		}
		return ret(st, st.intVal(boolNum(out, in), nil)), true
	case "CmpBits":
		n := magCmp(it.wordsMag(st, a[0]), it.wordsMag(st, a[1]))
		if len(n.set) < 3 {
			return ret(st, st.intVal(n, nil).withTaint(a[0].t|a[1].t)), true
		}
	}
	return nil, false
}

// magBodies are the helpers that are analysed through their bodies when
// intervals of numbers are known.
var magBodies = []string{"Length", "MulPow10", "Cmp", "CmpShift", "PowOfTen"}

// magMode turns intervals of numbers on.
func (it *Interp) magMode() {
	it.mags = true
	m := map[*ssa.Function]*contract{}
	for fn, c := range it.models {
		m[fn] = c
	}
	for _, nm := range magBodies {
		if fn := it.P.Func(modPath+"/internal/arith", nm); fn != nil {
			delete(m, fn)
		}
	}
	it.models = m
	for k := int64(0); k <= 36; k++ {
		it.pow10Obj(k)
	}
}

// copyMag notes that dst holds the number whose words are src.
func (it *Interp) copyMag(st *State, dst, src *Val, el types.Type) {
	if !it.mags || len(dst.p) != 1 || dst.unk || dst.ln == nil || src.ln == nil || dst.p[0].off != 0 {
		return
	}
	n := it.wordsMag(st, src)
	nd, _ := st.num(dst.ln).isConst()
	ns, ok := st.num(src.ln).isConst()
	if st.expr(dst.ln) != st.expr(src.ln) && !(ok && nd == ns) || !bounded(n) || it.objs[dst.p[0].obj].elem > 1 {
		return
	}
	s := st.objW(dst.p[0].obj)
	if s.weak {
		return
	}
	s.cells[0] = &Val{k: KInt, n: topNum(el), e: it.x.newAtom(), in: intV(n, nil)}
}
