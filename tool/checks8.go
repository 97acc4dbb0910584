package main

import "math/big"

// Exact results: where the exact result fits the precision, it is the result,
// with the exponent General Decimal Arithmetic prescribes.

func init() {
	register(&Check{id: "C26", floor: 20000, rule: "for every operation with an exact result that fits the precision, both operating modes, every rounding mode, sign and aliasing: the interval analysis of the operation on constant and interval coefficients (compact, big, and across the boundary) and constant exponents yields a coefficient inside the exact image, exact for constants, with the prescribed exponent and sign, and raises no condition", run: exacts})
}

// coefs are coefficients on both sides of every representation boundary.
func coefs() []Num {
	k := func(s string) Num { return rngS(s, s) }
	return []Num{
		k("0"), k("1"), k("5"), k("9"), k("10"), k("12345"), k("999999999"), k("9999999999999999999"), k("18446744073709551614"), k("18446744073709551615"), k("18446744073709551616"),
		k("100000000000000000000"), k("12345678901234567890123"), k("1000000000000000000000000000007"),
		rngS("100", "150"), rngS("100000000000000000", "100000000000000005"), rngS("18446744073709551613", "18446744073709551614"), rngS("18446744073709551616", "18446744073709551625"), rngS("10000000000000000000000000", "10000000000000000000000099"),
	}
}

// decN makes a class of a coefficient interval.
func decN(n Num, neg bool, exp int64) dec {
	d, ok := decOf(new(bigRat).SetInt(n.lo.big()), new(bigRat).SetInt(n.hi.big()), neg, exp)
	if !ok {
		panic("coefficients of two classes")
	}
	return d
}

// exactWant is an exact result.
type exactWant struct {
	lo, hi *big.Rat // signed values
	exp    int64
	neg    bool // the sign of a zero
	anyExp bool // the exponent is not prescribed
	allow  uint64
}

// coefOf returns the least and greatest coefficient of w, or nil if it is not
// a coefficient at that exponent, or too large for the analysis.
func (w exactWant) coefOf() (lo, hi *bigInt, neg, ok bool) {
	if w.lo.Sign()*w.hi.Sign() < 0 || w.lo.Sign() != w.hi.Sign() {
		return
	}
	l, h := w.lo, w.hi
	neg = w.neg
	if l.Sign() != 0 {
		neg = l.Sign() < 0
	}
	if neg {
		l, h = new(bigRat).Neg(h), new(bigRat).Neg(l)
	}
	s := ratPow(-w.exp)
	l, h = new(bigRat).Mul(l, s), new(bigRat).Mul(h, s)
	if !l.IsInt() || !h.IsInt() || h.Num().BitLen() > 120 {
		return
	}
	return l.Num(), h.Num(), neg, true
}

// isExact obliges the decimal id to be w.
func (c *Ctx) isExact(it *Interp, o Outcome, id int, w exactWant, nm, what, pos string) {
	lo, hi, neg, _ := w.coefOf()
	v := it.outVal(o.st, id)
	f, okf := v.form.isConst()
	c.oblige(okf && f == u64(b2u(neg)), "form", nm, pos, "%s may be %s, expected a number with signbit %v", what, v, neg)
	if !okf || f.l > 1 {
		return
	}
	in := !v.coef.unknown() && !v.coef.isBot()
	if w.anyExp {
		k, okc := v.coef.isConst()
		e, oke := v.exp.isConst()
		ok := in && okc && oke && new(bigRat).Mul(new(bigRat).SetInt(k.big()), ratPow(int64(e.l))).Cmp(new(bigRat).Abs(w.lo)) == 0
		c.oblige(ok, "value", nm, pos, "%s may be %s, expected exactly %s", what, v, ratStr(w.lo))
	} else {
		ok := in && v.coef.lo.big().Cmp(lo) >= 0 && v.coef.hi.big().Cmp(hi) <= 0
		c.oblige(ok, "value", nm, pos, "%s may be %s, expected the coefficient [%s,%s]", what, v, lo, hi)
		c.oblige(v.exp.eq(k64(w.exp)), "exponent", nm, pos, "%s may be %s, expected the exponent %d", what, v, w.exp)
	}
	if in {
		l, h := magLen(v.coef)
		if !v.coef.eq(mkConst(v.coef.lo)) {
			l = 1
		}
		c.oblige(v.prec.lo.cmp(i64(l)) >= 0 && v.prec.hi.cmp(i64(h)) <= 0, "length", nm, pos, "the length recorded for %s %s may be %s", what, v, v.prec)
	}
	n := o.st.norm(o.st.obj(id).cells[it.bl.conds]).n
	c.oblige(^n.k0&0x1fff&^w.allow == 0, "conditions", nm, pos, "%s: may raise %s although the result is exact", what, condString(^n.k0&0x1fff))
}

// exactN runs r with precisions that hold the result w.
func (c *Ctx) exactN(n *int, r rrun, w exactWant) {
	lo, hi, _, ok := w.coefOf()
	if !ok {
		return
	}
	if _, ok := decOf(new(bigRat).SetInt(lo), new(bigRat).SetInt(hi), false, 0); !ok || lo.Cmp(hi) != 0 && lo.Cmp(maxU64.big()) == 0 {
		return // of two representations
	}
	*n++
	digits := int64(len(hi.String()))
	switch *n % 3 {
	case 0:
		r.prec = digits
	case 1:
		r.prec, r.anyP = digits, true
	case 2:
		r.prec = unlimited
	}
	r.big = *n%2 == 0 && r.op.big != nil
	r.omode = rng(0, 1)
	r.al = *n%(len(r.xs)+1) - 1
	if r.op.place {
		r.al = 0
	}
	pos := c.p.pos(r.op.ctx.Pos())
	c.valueRun(r, func(it *Interp, o Outcome, id int, nm string) {
		c.isExact(it, o, id, w, nm, "the result", pos)
	})
}

// atBoundary reports whether the coefficient of f(x, y) is next to the largest
// word.
func atBoundary(f func([]*bigRat) *bigRat, x, y dec) bool {
	lo, hi := image(f, x, y)
	e := x.exp.lo
	if y.exp.lo.cmp(e) < 0 {
		e = y.exp.lo
	}
	l, h, _, ok := exactWant{lo: lo, hi: hi, exp: int64(e.l)}.coefOf()
	m := maxU64.big()
	return ok && l.Cmp(new(bigInt).Add(m, bigN(3))) <= 0 && h.Cmp(new(bigInt).Sub(m, bigN(3))) >= 0
}

const unlimited = maxScale + 1

func exacts(c *Ctx) {
	ops := c.rops()
	cs := coefs()
	n := 0
	bools := []bool{false, true}
	minE := func(a, b int64) int64 {
		if a < b {
			return a
		}
		return b
	}
	// The analysis keeps the two words of a product apart.
	oneWord := func(x, y Num) bool {
		l, h := new(bigInt).Mul(x.lo.big(), y.lo.big()), new(bigInt).Mul(x.hi.big(), y.hi.big())
		return x.hi.cmp(maxU64) >= 0 || y.hi.cmp(maxU64) >= 0 || l.Rsh(l, 64).Cmp(h.Rsh(h, 64)) == 0
	}
	// run derives the expected result from the operands
	run := func(o rop, exp int64, mode int, zeroNeg bool, xs ...dec) {
		lo, hi := image(o.f, xs...)
		c.exactN(&n, rrun{op: o, xs: xs, mode: mode}, exactWant{lo: lo, hi: hi, exp: exp, neg: zeroNeg})
	}
	modes := []int{-1, mNegInf, mNearestEven}
	// zeroSign is the sign of the zero sum of numbers with these signs.
	zeroSign := func(a, b bool, mode int) bool { return a && b || mode == mNegInf && a != b }
	diffs := []int64{0, 1, -1, 3, -5, 12, -12, 19, -19, 20, -20, 25}
	for i, x := range cs {
		for j, y := range cs {
			for k, d := range diffs {
				for _, xn := range bools {
					for _, yn := range bools {
						mode := modes[n%3]
						a, b := decN(x, xn, -7+d), decN(y, yn, -7)
						if !c.thorough() && (i+j+k)%2 != 0 && !atBoundary(ops.add.f, a, b) {
							continue
						}
						if mode < 0 {
							// The sign of a zero depends on the rounding mode.
							if lo, hi := image(ops.add.f, a, b); lo.Sign()*hi.Sign() <= 0 && xn != yn {
								mode = mNearestEven
							}
						}
						run(ops.add, minE(-7+d, -7), mode, zeroSign(xn, yn, mode), a, b)
						run(ops.sub, minE(-7+d, -7), mode, zeroSign(xn, yn, mode), a, b.with(!yn))
					}
				}
			}
			for _, e := range []int64{0, 4, -30} {
				if !oneWord(x, y) {
					break
				}
				for _, xn := range bools {
					for _, yn := range bools {
						a, b := decN(x, xn, e), decN(y, yn, 7)
						run(ops.mul, e+7, -1, xn != yn, a, b)
					}
				}
			}
		}
	}
	// Products around the largest word
	for _, p := range [][2]string{{"3", "6148914691236517205"}, {"4294967295", "4294967297"}, {"2", "9223372036854775807"}, {"4294967296", "4294967296"}, {"274177", "67280421310721"}} {
		for m := 0; m < 8; m++ {
			x, y := rngS(p[0], p[0]), rngS(p[1], p[1])
			if m&4 != 0 {
				x, y = y, x
			}
			a, b := decN(x, m&1 != 0, 3), decN(y, m&2 != 0, -8)
			run(ops.mul, -5, -1, a.neg != b.neg, a, b)
			for _, u := range []string{"0", "1", "7"} {
				run(ops.fma, -5, mNearestEven, a.neg != b.neg, a, b, decN(rngS(u, u), a.neg != b.neg, -5))
				run(ops.fma, -5, mNearestEven, a.neg != b.neg, a, b, decN(rngS(u, u), a.neg == b.neg && u != "0", -5))
			}
		}
	}
	// x*y + u
	for i, x := range cs {
		for j, y := range cs {
			for k, u := range cs {
				if (i+2*j+3*k)%7 != 0 && !c.thorough() || (i+2*j+3*k)%3 != 0 || !oneWord(x, y) {
					continue
				}
				for m := 0; m < 8; m++ {
					xn, yn, un := m&1 != 0, m&2 != 0, m&4 != 0
					ue := []int64{0, 3, -4, 10}[(m+i+k)%4]
					a, b, d := decN(x, xn, 2), decN(y, yn, -2), decN(u, un, ue)
					mode := modes[n%3]
					if mode < 0 {
						if lo, hi := image(ops.fma.f, a, b, d); lo.Sign()*hi.Sign() <= 0 {
							mode = mNearestEven
						}
					}
					run(ops.fma, minE(0, ue), mode, zeroSign(xn != yn, un, mode), a, b, d)
				}
			}
		}
	}
	c.exactUnary(ops, &n)
	c.exactQuo(ops, &n)
	c.wg.Wait()
}

// exactUnary decides the operations of one decimal.
func (c *Ctx) exactUnary(ops *rops, n *int) {
	for _, x := range coefs() {
		zero := x.eq(k64(0))
		for _, neg := range []bool{false, true} {
			for _, e := range []int64{0, 5, -5, -20, 20} {
				d := decN(x, neg, e)
				lo, hi := d.vals()
				run := func(o rop, mode int, w exactWant, args ...*Val) {
					r := rrun{op: o, xs: []dec{d}, mode: mode, args: args, ownMode: o.nm == "Ceil" || o.nm == "Floor"}
					c.exactN(n, r, w)
				}
				same := exactWant{lo: lo, hi: hi, exp: e, neg: neg}
				opp := exactWant{lo: new(bigRat).Neg(hi), hi: new(bigRat).Neg(lo), exp: e, neg: !neg}
				abs := same
				if neg {
					abs = opp
				}
				for _, o := range ops.unary {
					switch o.nm {
					case "Neg":
						if zero {
							for _, m := range []int{mNegInf, mNearestEven} {
								w := opp
								w.neg = !neg && m == mNegInf
								run(o, m, w)
							}
							continue
						}
						run(o, -1, opp)
					case "Abs":
						run(o, -1, abs)
					default:
						run(o, -1, same)
					}
				}
				if r := ops.round; true {
					_, h, _, _ := same.coefOf()
					p := int64(len(h.String()))
					c.valueRun(rrun{op: r, xs: d1(d), al: 0, prec: p, anyP: true, mode: -1, omode: rng(0, 1)}, func(it *Interp, o Outcome, id int, nm string) {
						c.isExact(it, o, id, same, nm, "the result", c.p.pos(r.ctx.Pos()))
					})
				}
				if e >= 0 {
					run(ops.rti, -1, same)
					run(ops.ceil, -1, same)
					run(ops.floor, -1, same)
				}
				// Quantize to the same or a finer exponent, or to a coarser one
				// that drops only zeros.
				for _, f := range []int64{0, -1, -4, -12, -19, -20} {
					w := same
					w.exp += f
					run(ops.quantize, -1, w, constV(i64(-w.exp)))
				}
				if e < 0 && !zero {
					if _, ok := x.isConst(); ok {
						t := int64(1)
						for m := x.lo.big(); t <= 20; t++ {
							if new(bigInt).Mod(m, pow10(t)).Sign() != 0 {
								break
							}
							w := same
							w.exp += t
							w.allow = cRounded
							run(ops.quantize, -1, w, constV(i64(-w.exp)))
							if w.exp == 0 {
								run(ops.rti, -1, w)
							}
						}
					}
				}
			}
		}
	}
	// Reduce
	red := c.rop("Reduce", 0, func(v []*bigRat) *bigRat { return v[0] })
	red.place = true
	for _, s := range []string{"0", "1", "9", "10", "100", "1000", "10000", "100000", "120", "120000", "10101000", "1234567890000000000", "9999999999999999990", "10000000000000000000", "18446744073709551610", "18446744073709551614", "18446744073709551615", "18446744073709551620", "100000000000000000000", "123456789012345678900", "5000000000000000000000000000", "12345678901234567890123400", "100000000000000000000000000000000000", "99999999999999999999000000", "99999999999999999999100000", "99999999999999999999100001", "184467440737095516160000000", "184467440737095516150000000", "18446744073709551615000000"} {
		v, _ := new(bigInt).SetString(s, 10)
		t := int64(0)
		for ; v.Sign() != 0 && new(bigInt).Mod(v, pow10(t+1)).Sign() == 0; t++ {
		}
		for _, neg := range []bool{false, true} {
			for _, e := range []int64{0, 3, -3, -40} {
				d := decN(rngS(s, s), neg, e)
				lo, hi := d.vals()
				w := exactWant{lo: lo, hi: hi, exp: e + t, neg: neg}
				if v.Sign() == 0 {
					w.exp = 0
				}
				_, h, _, _ := exactWant{lo: lo, hi: hi, exp: e, neg: neg}.coefOf()
				p := int64(len(h.String()))
				for _, r := range []rrun{{prec: p}, {prec: p, anyP: true}, {prec: unlimited, big: true}} {
					r.unroll, r.op, r.xs, r.mode, r.omode = true, red, d1(d), -1, rng(0, 1)
					c.valueRun(r, func(it *Interp, o Outcome, id int, nm string) {
						c.isExact(it, o, id, w, nm, "the result", c.p.pos(red.ctx.Pos()))
					})
				}
			}
		}
	}
}

func d1(d dec) []dec { return []dec{d} }

// exactQuo decides divisions.
func (c *Ctx) exactQuo(ops *rops, n *int) {
	trunc := func(x, y dec) (lo, hi, rem *bigRat, ok bool) {
		q := func(v []*bigRat) *bigRat {
			r := new(bigRat).Quo(new(bigRat).Abs(v[0]), new(bigRat).Abs(v[1]))
			return new(bigRat).SetInt(new(bigInt).Quo(r.Num(), r.Denom()))
		}
		if y.zero() {
			return
		}
		x.neg, y.neg = false, false
		lo, hi = image(q, x, y)
		return lo, hi, nil, true
	}
	quoInt := c.rop("QuoInt", 2, nil)
	rem := c.rop("Rem", 2, nil)
	quoRem := c.rop("QuoRem", 2, nil)
	type pair struct{ x, y string }
	var ps []pair
	for _, y := range []string{"1", "2", "3", "7", "10", "25", "999", "4294967296", "9999999999999999999", "18446744073709551614", "18446744073709551615", "18446744073709551616", "12345678901234567890123"} {
		for _, x := range []string{"0", "1", "6", "7", "10", "1000", "123456789", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "12345678901234567890123", "24691357802469135780246", "1000000000000000000000000000007"} {
			ps = append(ps, pair{x, y})
		}
	}
	signed := func(v *bigRat, neg bool) *bigRat {
		if neg {
			return new(bigRat).Neg(v)
		}
		return v
	}
	for _, p := range ps {
		for di, d := range []int64{0, 1, -2, 6, -9, 20, -21} {
			for m := 0; m < 4; m++ {
				if !c.thorough() && (m+di)%2 != 0 && d != 0 {
					continue
				}
				xn, yn := m&1 != 0, m&2 != 0
				x, y := decN(rngS(p.x, p.x), xn, -3+d), decN(rngS(p.y, p.y), yn, -3)
				q, _, _, _ := trunc(x, y)
				xv, _ := x.mags()
				yv, _ := y.mags()
				r := new(bigRat).Sub(xv, new(bigRat).Mul(q, yv))
				re := int64(-3)
				if d < 0 {
					re += d
				}
				qs, rs := signed(q, xn != yn), signed(r, xn)
				wq := exactWant{lo: qs, hi: qs, exp: 0, neg: xn != yn}
				wr := exactWant{lo: rs, hi: rs, exp: re, neg: xn}
				ql, _, _, okq := wq.coefOf()
				rl, _, _, okr := wr.coefOf()
				// The dividend and divisor at the same exponent.
				if big := new(bigRat).Mul(xv, ratPow(-re)); big.Num().BitLen() > 120 {
					continue
				}
				if big := new(bigRat).Mul(yv, ratPow(-re)); big.Num().BitLen() > 120 {
					continue
				}
				if !okq || !okr {
					continue
				}
				c.exactN(n, rrun{op: quoInt, xs: []dec{x, y}, mode: -1}, wq)
				// Rem needs room for the quotient, too.
				l := len(ql.String())
				if len(rl.String()) > l {
					l = len(rl.String())
				}
				for _, pr := range []int64{int64(l), unlimited} {
					*n++
					rr := rrun{op: rem, xs: []dec{x, y}, mode: -1, omode: rng(0, 1), prec: pr, al: *n%3 - 1, big: *n%2 == 0}
					c.valueRun(rr, func(it *Interp, o Outcome, id int, nm string) {
						c.isExact(it, o, id, wr, nm, "the remainder", c.p.pos(rem.ctx.Pos()))
					})
					al2 := (*n/3)%3 - 1
					if al2 >= 0 && al2 == rr.al {
						al2 = -1
					}
					rr.op = quoRem
					id2 := 0
					rr.second, rr.al2 = &id2, al2
					c.valueRun(rr, func(it *Interp, o Outcome, id int, nm string) {
						c.isExact(it, o, id, wq, nm, "the quotient", c.p.pos(quoRem.ctx.Pos()))
						c.isExact(it, o, id2, wr, nm, "the remainder", c.p.pos(quoRem.ctx.Pos()))
					})
				}
				// An exact quotient.
				if !x.zero() {
					v := new(bigRat).Quo(xv, yv)
					if dg, ok := finiteDigits(v); ok {
						vs := signed(v, xn != yn)
						for _, pr := range []int64{dg, dg + 1, 34} {
							if pr < dg || pr > 34 || pr+int64(len(p.y)) > 36 {
								continue
							}
							*n++
							rr := rrun{unroll: true, op: ops.quo, xs: []dec{x, y}, mode: -1, omode: rng(0, 1), prec: pr, al: *n%3 - 1, big: *n%2 == 0}
							c.valueRun(rr, func(it *Interp, o Outcome, id int, nm string) {
								c.isExact(it, o, id, exactWant{lo: vs, hi: vs, neg: xn != yn, anyExp: true, allow: cRounded}, nm, "the quotient", c.p.pos(ops.quo.ctx.Pos()))
							})
						}
					}
				}
			}
		}
	}
}

// finiteDigits is the number of significant digits of v > 0, if that is finite.
func finiteDigits(v *bigRat) (int64, bool) {
	for s := int64(0); s < 60; s++ {
		if u := new(bigRat).Mul(v, ratPow(s)); u.IsInt() {
			k := new(bigInt).Set(u.Num())
			for ten := bigN(10); new(bigInt).Mod(k, ten).Sign() == 0; {
				k.Quo(k, ten)
			}
			return int64(len(k.String())), true
		}
	}
	return 0, false
}
