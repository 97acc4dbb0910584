package main

import (
	"math/big"
)

// Scale limits: overflow, underflow and clamping.

func init() {
	register(&Check{id: "C10", floor: 5000, rule: "for every operation with one rounding, every rounding mode and sign, and intervals of operands whose exact results lie just inside or outside the greatest and the smallest exponent: the interval analysis yields the one prescribed result (Infinity, the greatest number, or the exact value rounded once to the smallest exponent) and the prescribed conditions", run: limits})
}

// limited is the prescribed result for the magnitude v: the value (nil for
// Infinity) and the conditions.
func limited(v *big.Rat, p int64, mode int, neg bool, emax, emin int64) (w *big.Rat, must, may uint64) {
	over := func() (*big.Rat, uint64, uint64) {
		const c = cOverflow | cInexact | cRounded
		if mode == mZero || mode == mPosInf && neg || mode == mNegInf && !neg {
			m := new(big.Rat).SetInt(new(big.Int).Sub(pow10(p), big.NewInt(1)))
			return m.Mul(m, ratPow(emax-p+1)), c, c
		}
		return nil, c, c
	}
	adj := adjustedOf(v)
	if adj > emax {
		return over()
	}
	if adj < emin {
		w, inex := roundAt(v, emin-p+1, mode, neg)
		must = cSubnormal
		if inex {
			must |= cUnderflow | cInexact | cRounded
		}
		if w.Sign() == 0 {
			must |= cClamped
		}
		return w, must, must | cRounded
	}
	w, inex := roundTo(v, p, mode, neg)
	if inex {
		must = cInexact | cRounded
	}
	if adjustedOf(w) > emax {
		return over()
	}
	return w, must, must | cRounded
}

// atLimits runs an operation whose exact results all give one result.
func (c *Ctx) atLimits(r rrun) {
	lo, hi := image(r.op.f, r.xs...)
	if lo.Sign()*hi.Sign() <= 0 {
		return
	}
	neg := lo.Sign() < 0
	if neg {
		lo, hi = new(big.Rat).Neg(hi), new(big.Rat).Neg(lo)
	}
	w, must, may := limited(lo, r.prec, r.mode, neg, r.emax, r.emin)
	w2, must2, may2 := limited(hi, r.prec, r.mode, neg, r.emax, r.emin)
	if (w == nil) != (w2 == nil) || w != nil && w.Cmp(w2) != 0 || must != must2 || may != may2 {
		return
	}
	if must&cInexact != 0 && must&cOverflow == 0 {
		// Skip intervals with an exact result inside.
		e := adjustedOf(lo) - r.prec + 1
		if t := r.emin - r.prec + 1; e < t {
			e = t
		}
		l, _ := roundAt(lo, e, mZero, false)
		h, _ := roundAt(hi, e, mZero, false)
		if l.Cmp(h) != 0 {
			return
		}
	}
	pos := c.p.pos(r.op.ctx.Pos())
	c.valueRun(r, func(it *Interp, o Outcome, id int, nm string) {
		v := it.outVal(o.st, id)
		if w == nil {
			c.oblige(v.form.eq(k64(int64(2|b2u(neg)))), "overflow", nm, pos, "may be %s, expected %sInfinity", v, signStr(neg))
		} else {
			c.isValue(v, w, neg, 0, nm, pos)
			if e, ok := v.exp.isConst(); ok {
				c.oblige(int64(e.l) >= r.emin-r.prec+1, "smallest exponent", nm, pos, "the exponent may be %s, less than Etiny = %d", v.exp, r.emin-r.prec+1)
			}
		}
		n := o.st.norm(o.st.obj(id).cells[it.bl.conds]).n
		l, h := n.k1&0x1fff, ^n.k0&0x1fff
		c.oblige(l&must == must, "conditions raised", nm, pos, "may raise only %s, expected %s", condNum(n), condString(must))
		c.oblige(h&^may == 0, "conditions not raised", nm, pos, "may raise %s, expected %s", condNum(n), condString(must))
	})
}

func signStr(neg bool) string {
	if neg {
		return "-"
	}
	return "+"
}

func limits(c *Ctx) {
	ops := c.rops()
	const emax, emin = 40, -40
	ts := targets([]string{"1", "9", "37", "999", "4995"}, []int64{1, 4})
	ts = append(ts, targets([]string{"9999999999999", "12345678901234567", "99999999999999999"}, []int64{1, 9})...)
	ts = append(ts, targets([]string{"375000", "374999", "369999", "385000", "990", "994", "995", "9995"}, []int64{1, 4})...)
	// Quotients with more digits than the precision, so that it does not
	// matter with how many an implementation starts.
	var qs []target
	for _, b := range []string{"1", "2", "37", "999", "4995", "9999999999999"} {
		for _, e := range []string{"0000", "4999", "5000", "9999", "0500"} {
			qs = append(qs, targets([]string{b + e}, []int64{1, 3})...)
		}
	}
	n := 0
	for i, t := range qs {
		if t.kind == 0 {
			continue
		}
		for mode := 0; mode < numModes; mode++ {
			for _, neg := range []bool{false, true} {
				p := int64(len(t.q) - 4)
				for _, adj := range []int64{emax + 1, emax, emin + 1, emin, emin - 1, emin - p + 1, emin - p, emin - p - 1, emin - p - 30} {
					n++
					if !c.thorough() && n%6 != 0 {
						continue
					}
					e := adj - (p + 4 + t.n - 1)
					ops.hit(shape{t: t, n: n, e: e, p: p, mode: mode, neg: neg, meth: (i+mode)%2 == 0, qe: -t.n, emax: emax, emin: emin, quo: true}, c.atLimits)
					if adj <= emin-1 {
						ops.hit(shape{t: t, n: n, e: e, p: p + 1, mode: mode, neg: neg, meth: (i+mode)%2 == 0, qe: -t.n, emax: emax, emin: emin, quo: true}, c.atLimits)
					}
				}
			}
		}
	}
	for i, t := range ts {
		for mode := 0; mode < numModes; mode++ {
			for _, neg := range []bool{false, true} {
				q := int64(len(t.q))
				seen := map[int64]bool{}
				// The precision, and the exponent of the leading digit.
				for _, p := range []int64{q, q + 3} {
					for _, adj := range []int64{emax + 2, emax + 1, emax, emax - 1, emin + 1, emin, emin - 1, emin - 2, emin - p + q, emin - p + 1, emin - p, emin - p - 1, emin - p - 2, emin - p - 30} {
						if p != q && (adj >= emax || adj >= emin) || seen[adj<<1|p-q] {
							continue
						}
						seen[adj<<1|p-q] = true
						n++
						if !c.thorough() && n%5 != 0 {
							continue
						}
						e := adj - (q + t.n - 1)
						ops.hit(shape{t: t, n: n, e: e, p: p, mode: mode, neg: neg, meth: (i+mode)%2 == 0, me: 0, qe: -t.n, noQuo: true, emax: emax, emin: emin}, c.atLimits)
					}
				}
			}
		}
	}
	c.wg.Wait()
}
