package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conversions from binary floating point.

func init() {
	register(&Check{id: "C19", floor: 5000, rule: "for every exponent of a float64, every number of trailing zeros of its mantissa (quick: a sample away from the boundaries) and all other bits symbolic: SetFloat64 is interpreted path by path, and coefficient*10^exponent is exactly the value of the bits; likewise SetFloat for a big.Float of up to a bound of bits with symbolic mantissa and every binary exponent in a range; and the zeros, infinities and NaNs of both signs", run: fromFloats})
}

// fcase is a set of positive numbers: (top + 2^k(2j+1)) * 2^exp for every j in [0, n).
type fcase struct {
	top *bigInt
	k   int64
	n   *bigInt // 0: no such term
	exp int64
}

func (f fcase) String() string {
	if f.n.Sign() == 0 {
		return fmt.Sprintf("%s*2^%d", f.top, f.exp)
	}
	return fmt.Sprintf("(%s+%s*(2j+1))*2^%d, j<%s", f.top, pow2(f.k), f.exp, f.n)
}

// mant is the mantissa.
func (f fcase) mant(it *Interp, st *State) poly {
	p := poly{}.add(konstPoly(f.top), bigOne)
	if f.top.Sign() == 0 {
		p = poly{}
	}
	switch {
	case f.n.Sign() == 0:
	case f.n.Cmp(bigOne) == 0:
		p.add(konstPoly(pow2(f.k)), bigOne)
	default:
		// j in words of 60 bits
		q := poly{}
		for i, n := int64(0), new(bigInt).Set(f.n); n.Cmp(bigOne) > 0; i++ {
			top := new(bigInt).Set(n)
			if top.Cmp(pow2(60)) > 0 {
				top = pow2(60)
			}
			j := st.intVal(mkRange(i64(0), fromBig(top.Sub(top, bigOne))), it.x.named(fmt.Sprintf("j%d", i)))
			l, _ := it.linOf(st, j)
			q.add(l, pow2(60*i))
			n.Rsh(n, 60)
		}
		p.add(q, pow2(f.k+1)).add(konstPoly(pow2(f.k)), bigOne)
	}
	return p
}

// value returns p*10^e, as an integer p.
func (f fcase) value(p poly) (poly, poly) {
	if f.exp >= 0 {
		return poly{}.add(p, pow2(f.exp)), poly{}
	}
	return poly{}.add(p, bigPow(bigN(5), -f.exp)), poly1(f.exp)
}

// mants covers the mantissas of bits bits with k trailing zeros.
func mants(bits, k int64) (f fcase, ok bool) {
	f = fcase{top: pow2(bits - 1), k: k, n: new(bigInt)}
	switch {
	case k == bits-1:
	case k > bits-1:
		return f, false
	default:
		f.n = pow2(bits - 2 - k)
	}
	return f, true
}

func fromFloats(c *Ctx) {
	if fn := c.bigMethod("SetFloat64"); fn != nil {
		for e := int64(0); e < 2047; e++ {
			near := e < 4 || e > 2040 || e > 1010 && e < 1090
			c.spawn(fmt.Sprintf("SetFloat64 with the exponent %d", e), func(it *Interp) {
				for k := int64(0); k <= 52; k++ {
					if !c.thorough() && !near && k > 2 && k < 50 && (k+e)%13 != 0 {
						continue
					}
					f, ok := mants(53, k)
					if f.exp = e - 1075; e == 0 {
						// subnormal: no implicit bit
						if k == 52 {
							continue
						}
						f.top, f.n, f.exp = new(bigInt), pow2(51-k), -1074
					}
					if !ok {
						continue
					}
					for _, neg := range []bool{false, true} {
						c.setFloat64(it, fn, f, e, neg)
					}
				}
			})
		}
		c.spawn("SetFloat64 of special values", func(it *Interp) {
			for _, neg := range []bool{false, true} {
				c.floatSpecial(it, fn, "SetFloat64", neg, dec{neg: neg}, k64(0))
				c.floatSpecial(it, fn, "SetFloat64", neg, dec{kind: dInf, neg: neg}, mkConst(u64(0x7ff<<52)))
				c.floatSpecial(it, fn, "SetFloat64", neg, dec{kind: dQ, neg: neg}, mkRange(u64(0x7ff<<52+1), u64(1<<63-1)))
			}
		})
	}
	if fn := c.bigMethod("SetFloat"); fn != nil {
		top, far := int64(130), int64(300)
		if c.thorough() {
			top, far = 256, 1100
		}
		for bits := int64(1); bits <= top; bits++ {
			c.spawn(fmt.Sprintf("SetFloat of %d bits", bits), func(it *Interp) {
				f, ok := mants(bits, 0)
				if !ok {
					return
				}
				for e := int64(-80); e <= 80; e++ {
					if !c.thorough() && (e < -3 || e > 3) && (e+bits)%7 != 0 && e+bits != 64 && e+bits != 65 {
						continue
					}
					f.exp = e
					for _, neg := range []bool{false, true} {
						c.setFloat(it, fn, f, 0, neg)
						if (e+bits)%3 == 0 {
							c.setFloat(it, fn, f, 64-bits%2, neg)
						}
					}
				}
				for _, e := range []int64{-far, -far / 2, far / 2, far} {
					f.exp = e
					c.setFloat(it, fn, f, 0, bits%2 == 0)
				}
				if bits%16 == 5 || bits == 53 || bits == 1 {
					for _, e := range []int64{-1074, -700, 700} {
						f.exp = e
						c.setFloat(it, fn, f, 0, bits%2 == 0)
					}
				}
			})
		}
	}
	if fn := c.bigMethod("SetFloat"); fn != nil {
		c.spawn("SetFloat of special values", func(it *Interp) {
			for _, neg := range []bool{false, true} {
				for _, k := range []dkind{dFin, dInf} {
					it.textMode()
					st := it.newState()
					id, before := it.receiver(st, rng(0, 1))
					d := dec{kind: k, neg: neg}
					s := map[bool]string{false: "+", true: "-"}[neg] + map[dkind]string{dFin: "0", dInf: "inf"}[k]
					x := it.floatOut(st, fn.Signature.Params().At(0).Type(), floatSpecialV(it, s))
					x.role = ROp
					nm, at := "SetFloat("+s+")", c.p.pos(fn.Pos())
					c.results(it, st, fn, nm, id, []*Val{ptrV(RRes, Ptr{id, 0}), x}, func(s *State, cells []*Val) {
						if k == dFin {
							c.isDecimal(it, s, cells, neg, poly{}, poly{}, false, nm, at)
						} else {
							n := s.norm(cells[it.bl.form]).n
							c.oblige(n.eq(mkConst(u64(d.form()))), "special", nm, at, "the result may be %s", formsStr(n))
						}
						c.sameContext(it, s, before, cells, 0, nm, at)
					})
				}
			}
		})
	}
	c.toFloats()
	c.wg.Wait()
}

// floatOut is the big.Float or big.Rat that a conversion sets.
func (it *Interp) floatOut(st *State, pt types.Type, w *Val) *Val {
	o := it.newObj(pt.Underlying().(*types.Pointer).Elem(), "out", OwnResult)
	if w == nil {
		w = &Val{k: KBig, sign: 7, e: it.x.named("out.old")}
	}
	st.heap.set(o.id, it.initCells(o, func(l Leaf, i int) *Val { return w }))
	return ptrV(RRes, Ptr{o.id, 0})
}

// toFloats decides Float for special values and zeros, and Rat.
func (c *Ctx) toFloats() {
	if fn := c.bigMethod("Float"); fn != nil {
		c.spawn("Float of special values", func(it *Interp) {
			for _, k := range []dkind{dFin, dInf, dQ, dS} {
				for _, neg := range []bool{false, true} {
					for _, null := range []bool{false, true} {
						it.textMode()
						st := it.newState()
						d := dec{kind: k, neg: neg, coef: k64(0), exp: expNum}
						if k == dQ || k == dS {
							d.coef = mkRange(i64(0), maxU64)
						}
						id := it.decimal(st, "x", OwnOperand, d, anyCtx(rng(0, 1)))
						out := nullPtr()
						if !null {
							out = it.floatOut(st, fn.Signature.Params().At(0).Type(), nil)
						}
						nm, at := fmt.Sprintf("Float of %s, nil %v", d, null), c.p.pos(fn.Pos())
						want := "0"
						if k == dInf {
							want = "+inf"
							if neg {
								want = "-inf"
							}
						}
						outs := it.enter(st, fn, []*Val{opPtr(id), out})
						c.complete(it, nm)
						c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
						for _, o := range outs {
							if o.pan != "" {
								c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
								continue
							}
							r := o.ret
							if r == nil || r.k != KPtr || len(r.p) != 1 || r.null || r.unk || !null && r.p[0] != out.p[0] {
								c.oblige(false, "result", nm, at, "does not return the number that is set")
								continue
							}
							v := o.st.obj(r.p[0].obj).cells[r.p[0].off]
							got := "?"
							if v.k == KBig && v.e != nil && v.e.op == floatSpecial {
								got = v.e.nm
							} else if v.k == KBig && v.sign == 2 && v.e == nil {
								got = "+0" // new
							}
							c.oblige(got == want || len(got) == 2 && got[1:] == want, "special", nm, at, "the result may be %s, expected %s", got, want)
						}
					}
				}
			}
		})
	}
	if fn := c.bigMethod("Float64"); fn != nil {
		c.spawn("Float64 of special values", func(it *Interp) {
			for _, k := range []dkind{dFin, dInf, dQ, dS} {
				for _, neg := range []bool{false, true} {
					c.float64Of(it, fn, dec{kind: k, neg: neg})
				}
			}
		})
	}
	if fn := c.bigMethod("Rat"); fn != nil {
		for n := 1; n <= 30; n++ {
			c.spawn(fmt.Sprintf("Rat of %d digits", n), func(it *Interp) {
				for z := 0; z < n; z++ {
					ts := toks(strings.Repeat("D", n-z) + strings.Repeat("0", z))
					ts[n-z-1] = digitRange('1', '9')
					ts[0] = digitRange('1', '9')
					if n == 20 {
						// on either side of 2^64
						ts[0] = digitRange('2', '9')
						if z%2 == 0 {
							ts[0] = plain("1")[0]
							ts[1] = digitRange('0', '7')
							if z >= 18 {
								continue
							}
						}
					}
					infl := n > 20 || n == 20 && z%2 == 1
					for _, neg := range []bool{false, true} {
						for e := int64(-n - 3); e <= 22; e++ {
							if !c.thorough() && n > 6 && z > 3 && (e+int64(z+n))%5 != 0 && e != int64(-z) {
								continue
							}
							c.rat(it, fn, tcase{ts: ts, exp: k64(e), infl: infl, dec: dec{neg: neg}})
						}
						for _, e := range []int64{-400, -100, 100, 400} {
							c.rat(it, fn, tcase{ts: ts, exp: k64(e), infl: infl, dec: dec{neg: neg}})
						}
					}
				}
			})
		}
	}
}

// float64Of decides Float64 of a special value or zero.
func (c *Ctx) float64Of(it *Interp, fn *ssa.Function, d dec) {
	it.textMode()
	st := it.newState()
	d.coef, d.exp = k64(0), expNum
	if d.kind == dQ || d.kind == dS {
		d.coef = mkRange(i64(0), maxU64)
	}
	id := it.decimal(st, "x", OwnOperand, d, anyCtx(rng(0, 1)))
	nm, at := fmt.Sprintf("Float64 of %s", d), c.p.pos(fn.Pos())
	outs := it.enter(st, fn, []*Val{opPtr(id)})
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	for _, o := range outs {
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		lo, hi, neg, nan, ok := it.floatRange(o.st, o.ret.fs[0])
		if b, okb := it.floatBits(o.st, o.ret.fs[0]); okb {
			neg = o.st.num(b).lo.big().Bit(63) != 0
		}
		switch d.kind {
		case dFin:
			ok = ok && lo == 0 && hi == 0 && !nan
		case dInf:
			ok = ok && math.IsInf(lo, 0) && lo == hi && !nan
		default:
			ok = ok && nan
		}
		c.oblige(ok && neg == d.neg, "special", nm, at, "the result may be %s", o.ret.fs[0])
		c.oblige(o.st.num(o.ret.fs[1]).eq(k64(1)), "exact", nm, at, "the result may be reported as not exact")
	}
}

// rat decides Rat of one number.
func (c *Ctx) rat(it *Interp, fn *ssa.Function, t tcase) {
	// The values around 2^63 and 2^64 are left to C27.
	e := t.exp.lo.big().Int64()
	switch lo, hi := t.ts[0].vals.lo, t.ts[0].vals.hi; {
	case len(t.ts)+int(e) == 19 && hi.cmp(i64('9')) == 0:
		t.ts = append([]tok{{'d', mkRange(lo, i64('8'))}}, t.ts[1:]...)
	case len(t.ts)+int(e) == 20 && lo.cmp(i64('1')) == 0 && hi.cmp(i64('1')) > 0:
		t.ts = append([]tok{digitRange('2', '9')}, t.ts[1:]...)
	case len(t.ts)+int(e) == 20 && e != 0 && lo.cmp(i64('1')) == 0:
		return
	}
	it.textMode()
	st := it.newState()
	arg, ds, _ := t.build(it, st, anyCtx(rng(0, 1)))
	out := it.floatOut(st, fn.Signature.Params().At(0).Type(), nil)
	nm, at := "Rat of "+t.String(), c.p.pos(fn.Pos())
	outs := it.enter(st, fn, []*Val{arg, out})
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	for _, o := range outs {
		if contradicts(o.st, ds) {
			continue
		}
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		s, r := o.st, o.ret
		if r == nil || r.k != KPtr || len(r.p) != 1 || r.null || r.unk || r.p[0] != out.p[0] {
			c.oblige(false, "result", nm, at, "does not return the number that is set")
			continue
		}
		p, q, ok := it.ratOf(s, s.obj(r.p[0].obj).cells[r.p[0].off])
		want := fromDigits(it, s, ds)
		if t.dec.neg {
			want = poly{}.add(want, bigN(-1))
		}
		if !ok {
			c.oblige(false, "value", nm, at, "the result is not known")
			continue
		}
		if e >= 0 {
			want = poly{}.add(want, pow10(e))
		} else {
			p = poly{}.add(p, pow10(-e))
		}
		want = poly{}.add(normPoly(s, want), q["1"])
		c.oblige(samePoly(p, want), "value", nm, at, "the value may be %s, expected %s", p, want)
	}
}

func (it *Interp) receiver(st *State, omode Num) (int, []*Val) {
	spec := anyCtx(omode)
	spec.prefix = "z."
	id := it.newBig(st, "z", OwnResult, -1, spec, 0)
	return id, append([]*Val{}, st.obj(id).cells...)
}

// results interprets fn, and hands every outcome without a panic to f.
func (c *Ctx) results(it *Interp, st *State, fn *ssa.Function, nm string, id int, args []*Val, f func(s *State, cells []*Val)) {
	at := c.p.pos(fn.Pos())
	outs := it.enter(st, fn, args)
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	for _, o := range outs {
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		r := o.ret
		c.oblige(r != nil && r.k == KPtr && len(r.p) == 1 && r.p[0] == Ptr{id, 0} && !r.null, "result", nm, at, "does not return the receiver")
		f(o.st, o.st.obj(id).cells)
	}
}

func (c *Ctx) setFloat64(it *Interp, fn *ssa.Function, f fcase, e int64, neg bool) {
	it.textMode()
	st := it.newState()
	id, before := it.receiver(st, rng(0, 1))
	m := f.mant(it, st)
	bits := poly{}.add(m, bigOne)
	if e > 0 {
		bits.add(konstPoly(pow2(52)), bigN(-1))
		bits.add(konstPoly(new(bigInt).Lsh(bigN(e), 52)), bigOne)
	}
	sg := ""
	if neg {
		bits.add(konstPoly(pow2(63)), bigOne)
		sg = "-"
	}
	v, ok := it.polyVal(st, normPoly(st, bits), x64())
	nm, at := fmt.Sprintf("SetFloat64(%s%s)", sg, f), c.p.pos(fn.Pos())
	if !ok {
		c.oblige(false, "complete", nm, at, "the bits are not known")
		return
	}
	c.results(it, st, fn, nm, id, []*Val{ptrV(RRes, Ptr{id, 0}), floatV(v, it.x.named("x"))}, func(s *State, cells []*Val) {
		p, x := f.value(m)
		c.isDecimal(it, s, cells, neg, p, x, true, nm, at)
		c.sameContext(it, s, before, cells, 0, nm, at)
	})
}

func (c *Ctx) floatSpecial(it *Interp, fn *ssa.Function, nm string, neg bool, d dec, mag Num) {
	it.textMode()
	st := it.newState()
	omode := rng(0, 1)
	if d.kind == dQ {
		omode = k64(c.p.constInt("GDA")) // C12 decides the panic
	}
	id, before := it.receiver(st, omode)
	v := constV(mag.lo)
	if _, ok := mag.isConst(); !ok {
		v = st.intVal(mag, it.x.named("b"))
	}
	p, _ := it.linOf(st, v)
	if neg {
		p = poly{}.add(p, bigOne).add(konstPoly(pow2(63)), bigOne)
	}
	v, ok := it.polyVal(st, p, x64())
	nm, at := fmt.Sprintf("%s(%s)", nm, d), c.p.pos(fn.Pos())
	if !ok {
		c.oblige(false, "complete", nm, at, "the bits are not known")
		return
	}
	c.results(it, st, fn, nm, id, []*Val{ptrV(RRes, Ptr{id, 0}), floatV(v, it.x.named("x"))}, func(s *State, cells []*Val) {
		if d.kind == dFin {
			c.isDecimal(it, s, cells, neg, poly{}, poly{}, false, nm, at)
		} else {
			n := s.norm(cells[it.bl.form]).n
			c.oblige(n.eq(mkConst(u64(d.form()))), "special", nm, at, "the result may be %s", formsStr(n))
			if d.kind == dQ {
				c.oblige(s.num(cells[it.bl.compact]).eq(k64(0)), "special", nm, at, "the payload may be %s", s.num(cells[it.bl.compact]))
			}
		}
		c.sameContext(it, s, before, cells, 0, nm, at)
	})
}

// setFloat decides SetFloat of a float with extra bits of precision.
func (c *Ctx) setFloat(it *Interp, fn *ssa.Function, f fcase, extra int64, neg bool) {
	it.textMode()
	st := it.newState()
	id, before := it.receiver(st, rng(0, 1))
	m := f.mant(it, st)
	v := poly{}.add(m, pow2(f.exp+floatUnit))
	sg := ""
	if neg {
		v = poly{}.add(v, bigN(-1))
		sg = "-"
	}
	nm, at := fmt.Sprintf("SetFloat(%s%s), %d bits more", sg, f, extra), c.p.pos(fn.Pos())
	pt := fn.Signature.Params().At(0).Type()
	o := it.newObj(pt.Underlying().(*types.Pointer).Elem(), "x", OwnOperand)
	bits, _, _ := hull(st, m)
	w := it.floatVal(st, normPoly(st, v), uint64(int64(bits.BitLen())+extra))
	if w == nil || len(o.leaves) != 1 {
		c.oblige(false, "complete", nm, at, "the value is not known")
		return
	}
	st.heap.set(o.id, it.initCells(o, func(l Leaf, i int) *Val { return w }))
	c.results(it, st, fn, nm, id, []*Val{ptrV(RRes, Ptr{id, 0}), opPtr(o.id)}, func(s *State, cells []*Val) {
		p, x := f.value(m)
		c.isDecimal(it, s, cells, neg, p, x, true, nm, at)
		c.sameContext(it, s, before, cells, 0, nm, at)
	})
}
