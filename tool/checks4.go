package main

import (
	"golang.org/x/tools/go/ssa"
)

// Comparison and classification tables.

func init() {
	register(&Check{id: "C14", floor: 2000, rule: "for every comparison and predicate and every pair of value classes (special values, signed zeros, intervals of coefficients, exponents and lengths, compact and not), abstract interpretation: the result is the one of the documented order", run: comparisons})
}

func sgn(x int) int64 {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

// cmpDecs is the numeric order of the magnitudes of x and y, if it is the same
// for all values of the classes.
func cmpMag(x, y dec) (int64, bool) {
	if x.kind == dInf || y.kind == dInf {
		return int64(b2i(x.kind == dInf) - b2i(y.kind == dInf)), true
	}
	if x.zero() || y.zero() {
		return int64(b2i(!x.zero()) - b2i(!y.zero())), true
	}
	xl, xh := x.mags()
	yl, yh := y.mags()
	switch {
	case xh.Cmp(yl) < 0:
		return -1, true
	case xl.Cmp(yh) > 0:
		return 1, true
	case xl.Cmp(xh) == 0 && yl.Cmp(yh) == 0:
		return 0, true
	}
	return 0, false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func cmpVal(x, y dec) (int64, bool) {
	if x.zero() && y.zero() {
		return 0, true
	}
	sx, sy := int64(1-2*b2i(x.neg)), int64(1-2*b2i(y.neg))
	if x.zero() {
		sx = 0
	}
	if y.zero() {
		sy = 0
	}
	if sx != sy {
		return sgn(int(sx - sy)), true
	}
	r, ok := cmpMag(x, y)
	return sx * r, ok
}

// cmpDecs lists the classes of values that are compared.
func cmpDecs() []dec {
	big := func(lo, hi int64, exp Num) dec {
		return dec{infl: true, prec: rng(lo, hi), exp: exp, coef: mkConst(maxU64)}
	}
	fs := []dec{
		fin(k64(0), k64(0)), fin(k64(0), rng(-500, 500)),
		fin(k64(1), k64(0)), fin(k64(10), k64(-1)), fin(k64(1000), k64(-3)),
		fin(k64(1), k64(2)), fin(k64(100), k64(0)),
		fin(rng(2, 9), k64(0)), fin(rng(20, 99), k64(-1)), fin(rng(11, 19), k64(-1)), fin(rng(150, 199), k64(-2)),
		fin(rng(1, 9), rng(5, 500)), fin(mkRange(i64(1), maxU64.sub(i64(1))), rng(-500, -40)),
		fin(mkRange(i64(1000000000000000000), i64(1499999999999999999)), k64(-18)),
		fin(mkRange(i64(6000000000000000000), maxU64.sub(i64(1))), k64(0)),
		fin(rng(1000, 9999), k64(16)),
		big(20, 30, k64(0)), big(40, 60, k64(0)), big(20, 60, rng(100, 300)), big(20, 60, rng(-500, -100)), big(25, 25, k64(-30)),
	}
	// Of the same magnitude: told apart by their digits only.
	fs = append(fs, large(digits("2", 24), k64(-24)), large(digits("15", 20), k64(-21)), large(digits("3999", 18), k64(-21)), large(digits("7", 34), k64(-34)),
		fin(rng(21, 29), k64(-1)), fin(rng(310, 350), k64(-2)), fin(digits("4", 17), k64(-17)))
	var r []dec
	for _, f := range fs {
		r = append(r, f, f.with(true))
	}
	r = append(r, dec{kind: dInf}, dec{kind: dInf, neg: true})
	return r
}

func comparisons(c *Ctx) {
	ds := cmpDecs()
	nans := []dec{{kind: dQ}, {kind: dQ, neg: true}, {kind: dS}, {kind: dS, neg: true}}
	spec := anyCtx(rng(0, 1))
	two := func(x, y dec) func(it *Interp, st *State) []*Val {
		return func(it *Interp, st *State) []*Val {
			a, b := it.pair(st, x, y, spec)
			return []*Val{opPtr(a), opPtr(b)}
		}
	}
	type cmpFn struct {
		nm  string
		fn  *ssa.Function
		abs bool
		tot bool
	}
	fns := []cmpFn{{"Cmp", c.bigMethod("Cmp"), false, false}, {"CmpAbs", c.bigMethod("CmpAbs"), true, false},
		{"CmpTotal", c.bigMethod("CmpTotal"), false, true}, {"CmpTotalAbs", c.bigMethod("CmpTotalAbs"), true, true}}
	fns = append(fns, cmpFn{"misc.CmpTotal", c.fnOf("/misc", "CmpTotal"), false, true}, cmpFn{"misc.CmpTotalAbs", c.fnOf("/misc", "CmpTotalAbs"), true, true})
	all := append(append([]dec{}, ds...), nans...)
	for _, f := range fns {
		f := f
		for _, x := range all {
			for _, y := range all {
				want, ok := order(x, y, f.abs, f.tot)
				if !ok {
					continue
				}
				nm := f.nm + "(" + x.String() + ", " + y.String() + ")"
				c.probe(nm, f.fn, two(x, y), func(it *Interp, o Outcome) { c.wantNum("order", nm, f.fn, o, 0, want) })
			}
		}
		// The same number, or almost, at different exponents.
		for _, v := range []string{"1", "9", "1234567890123456789", "12345678901234567890", "18446744073709551615", "99999999999999999999", "9223372036854775808"} {
			b, _ := new(bigInt).SetString(v, 10)
			var near []dec
			for _, k := range []int64{0, 1, 3, 12, 18} {
				if k > 0 && len(v)+int(k) > 36 {
					continue
				}
				for u := int64(-1); u <= 1; u++ {
					m := new(bigInt).Add(new(bigInt).Mul(b, pow10(k)), bigN(u))
					if m.Sign() > 0 {
						near = append(near, decN(mkConst(fromBig(m)), false, 2-k))
					}
				}
			}
			for _, x := range near {
				for _, y := range near {
					for _, neg := range []bool{false, true} {
						x, y := x.with(neg), y.with(neg)
						want, ok := order(x, y, f.abs, f.tot)
						if !ok {
							continue
						}
						nm := f.nm + "(" + x.String() + ", " + y.String() + ")"
						c.probe(nm, f.fn, two(x, y), func(it *Interp, o Outcome) { c.wantNum("order", nm, f.fn, o, 0, want) })
					}
				}
			}
		}
		// The same decimal.
		for _, x := range all {
			x := x
			if x.kind >= dQ && !f.tot {
				continue
			}
			nm := f.nm + "(x, x), x=" + x.String()
			c.probe(nm, f.fn, func(it *Interp, st *State) []*Val {
				v := opPtr(it.decimal(st, "x", OwnOperand, x, spec))
				return []*Val{v, v}
			}, func(it *Interp, o Outcome) { c.wantNum("order", nm, f.fn, o, 0, 0) })
		}
	}
	c.symbolicOrder(fns[0].fn, "Cmp", false)
	c.symbolicOrder(fns[1].fn, "CmpAbs", true)
	c.extremes(ds, spec)
	c.extremes3(spec)
	c.predicates(append(all, fin(mkRange(i64(1), maxU64.sub(i64(1))), rng(-500, 500)), dec{infl: true, prec: rng(20, 60), exp: rng(-500, 500), coef: mkConst(maxU64), neg: true}))
	c.wg.Wait()
}

// rank orders the kinds of values in a total order.
func rank(x dec, abs bool) int64 {
	s := int64(1)
	if x.neg && !abs {
		s = -1
	}
	switch x.kind {
	case dS:
		return s * 2
	case dQ:
		return s * 3
	}
	return 0
}

// order is the documented result of comparing x and y.
func order(x, y dec, abs, tot bool) (int64, bool) {
	if abs {
		x.neg, y.neg = false, false
	}
	if x.kind >= dQ || y.kind >= dQ {
		if !tot {
			return 0, false
		}
		return sgn(int(rank(x, abs) - rank(y, abs))), true
	}
	r, ok := cmpVal(x, y)
	if !ok || r != 0 || !tot {
		return r, ok
	}
	// Equal values: by sign, then by exponent.
	if x.neg != y.neg {
		return int64(b2i(y.neg) - b2i(x.neg)), true
	}
	if x.kind == dInf {
		return 0, true
	}
	switch {
	case x.exp.hi.cmp(y.exp.lo) < 0:
		return -1, true
	case x.exp.lo.cmp(y.exp.hi) > 0:
		return 1, true
	}
	_, kx := x.exp.isConst()
	_, ky := y.exp.isConst()
	return 0, kx && ky
}

// symbolicOrder decides comparisons of decimals with the same exponent for all
// coefficients.
func (c *Ctx) symbolicOrder(fn *ssa.Function, nm string, abs bool) {
	spec := anyCtx(rng(0, 1))
	for _, neg := range []bool{false, true} {
		for _, infl := range []bool{false, true} {
			for rel := int64(-1); rel <= 1; rel++ {
				neg, infl, rel := neg, infl, rel
				want := rel
				if neg && !abs {
					want = -rel
				}
				d := dec{infl: infl, neg: neg, coef: mkRange(i64(1), maxU64.sub(i64(1))), exp: k64(3), prec: rng(20, 1<<30)}
				n := nm + "(" + d.String() + ", same exponent), coefficients ordered " + i64(rel).String()
				c.probe(n, fn, func(it *Interp, st *State) []*Val {
					x, y := it.decimal(st, "x", OwnOperand, d, spec), it.decimal(st, "y", OwnOperand, d, spec)
					it.relate(st, x, y, infl, rel)
					return []*Val{opPtr(x), opPtr(y)}
				}, func(it *Interp, o Outcome) { c.wantNum("order", n, fn, o, 0, want) })
			}
		}
	}
}

// extremes decides that Max, Min and their variants return the right operand.
func (c *Ctx) extremes(ds []dec, spec CtxSpec) {
	for _, pkg := range []string{"", "/misc"} {
		for _, nm := range []string{"Max", "Min", "MaxAbs", "MinAbs"} {
			fn := c.fnOf(pkg, nm)
			if fn == nil {
				continue
			}
			abs, max := len(nm) > 3, nm[1] == 'a'
			a := c.p.apiOf(fn)
			for _, x := range ds {
				for _, y := range ds {
					x, y := x, y
					want, ok := order(x, y, abs, false)
					if !ok || want == 0 {
						continue
					}
					if !max {
						want = -want
					}
					n := "decimal" + pkg + "." + nm + "(" + x.String() + ", " + y.String() + ")"
					ids := make([]int, 2)
					c.probe(n, fn, func(it *Interp, st *State) []*Val {
						ids[0], ids[1] = it.pair(st, x, y, spec)
						if a.has(pOps) {
							return []*Val{it.ptrSlice(st, fn, ids)}
						}
						return []*Val{opPtr(ids[0]), opPtr(ids[1])}
					}, func(it *Interp, o Outcome) {
						w := ids[0]
						if want < 0 {
							w = ids[1]
						}
						v := o.ret
						c.oblige(v != nil && v.k == KPtr && !v.unk && !v.null && len(v.p) == 1 && v.p[0].obj == w, "extreme", n, c.p.pos(fn.Pos()), "may not return the %s of the two", nm)
					})
				}
			}
		}
	}
}

// extremes3 decides the variadic ones for every order of three decimals.
func (c *Ctx) extremes3(spec CtxSpec) {
	neg := func(d dec) dec { return d.with(true) }
	small, mid, big := fin(rng(1, 9), k64(-3)), fin(rng(100, 999), k64(0)), dec{infl: true, prec: rng(30, 40), exp: k64(0), coef: mkConst(maxU64)}
	vs := []dec{neg(big), neg(mid), neg(small), fin(k64(0), rng(-9, 9)), small, mid, big}
	for _, pkg := range []string{"", "/misc"} {
		for _, nm := range []string{"Max", "Min", "MaxAbs", "MinAbs"} {
			fn := c.fnOf(pkg, nm)
			if fn == nil || !c.p.apiOf(fn).has(pOps) {
				continue
			}
			abs, max := len(nm) > 3, nm[1] == 'a'
			for _, x := range vs {
				for _, y := range vs {
					for _, w := range vs {
						t := []dec{x, y, w}
						best, tie := 0, false
						for i := 1; i < 3; i++ {
							r, ok := order(t[i], t[best], abs, false)
							if !max {
								r = -r
							}
							tie = tie || !ok
							if r > 0 {
								best = i
							}
						}
						for i := range t {
							if r, ok := order(t[i], t[best], abs, false); i != best && (!ok || r == 0) {
								tie = true
							}
						}
						if tie {
							continue
						}
						best3 := best
						n := "decimal" + pkg + "." + nm + "(" + x.String() + ", " + y.String() + ", " + w.String() + ")"
						ids := make([]int, 3)
						c.probe(n, fn, func(it *Interp, st *State) []*Val {
							it.unroll = true
							for i := range t {
								ids[i] = it.decimal(st, string(rune('x'+i)), OwnOperand, t[i], spec)
							}
							return []*Val{it.ptrSlice(st, fn, ids)}
						}, func(it *Interp, o Outcome) {
							v := o.ret
							c.oblige(v != nil && v.k == KPtr && !v.unk && !v.null && len(v.p) == 1 && v.p[0].obj == ids[best3], "extreme", n, c.p.pos(fn.Pos()), "may not return the %s of the three", nm)
						})
					}
				}
			}
		}
	}
}

// ptrSlice makes a slice of the decimals ids.
func (it *Interp) ptrSlice(st *State, fn *ssa.Function, ids []int) *Val {
	q := fn.Params[len(fn.Params)-1]
	return it.sliceOf(st, q.Type(), ids)
}

func (c *Ctx) predicates(all []dec) {
	one := func(d dec, spec CtxSpec, more ...*Val) func(it *Interp, st *State) []*Val {
		return func(it *Interp, st *State) []*Val {
			return append([]*Val{opPtr(it.decimal(st, "x", OwnOperand, d, spec))}, more...)
		}
	}
	spec := anyCtx(rng(0, 1))
	b := func(x bool) int64 { return int64(b2i(x)) }
	want := func(nm string, d dec, w int64, more ...*Val) {
		fn := c.bigMethod(nm)
		n := nm + "(" + d.String()
		for _, m := range more {
			n += ", " + m.n.String()
		}
		n += ")"
		c.probe(n, fn, one(d, spec, more...), func(it *Interp, o Outcome) { c.wantNum("predicate", n, fn, o, 0, w) })
	}
	for _, d := range all {
		if d.kind < dQ {
			s := int64(1 - 2*b2i(d.neg))
			if d.zero() {
				s = 0
			}
			want("Sign", d, s)
		}
		want("Signbit", d, b(d.neg))
		want("IsFinite", d, b(d.kind == dFin))
		for _, s := range []int64{-7, -1, 0, 1, 7} {
			want("IsInf", d, b(d.kind == dInf && (s == 0 || (s < 0) == d.neg)), constV(i64(s)))
			want("IsNaN", d, b(d.kind == dQ && s >= 0 || d.kind == dS && s <= 0), constV(i64(s)))
		}
		if d.kind != dFin {
			want("IsInt", d, 0)
			want("IsNormal", d, 0)
			want("IsSubnormal", d, 0)
		}
	}
	for _, t := range []struct {
		d dec
		w bool
	}{
		{fin(k64(0), rng(-500, -1)), true}, {fin(k64(0), rng(0, 500)), true},
		{fin(mkRange(i64(1), maxU64.sub(i64(1))), rng(0, 500)), true},
		{fin(rng(1, 9), rng(-500, -1)), false}, {fin(mkRange(i64(1), maxU64.sub(i64(1))), rng(-500, -20)), false},
		{fin(k64(1234), k64(-1)), false}, {fin(k64(123456789012), k64(-3)), false},
		{dec{infl: true, prec: rng(20, 60), exp: rng(0, 500), coef: mkConst(maxU64)}, true},
		{dec{infl: true, prec: rng(20, 60), exp: rng(-500, -60), coef: mkConst(maxU64)}, false},
	} {
		want("IsInt", t.d, b(t.w))
		want("IsInt", t.d.with(true), b(t.w))
	}
	// Coefficients with trailing zeros.
	isInt := c.bigMethod("IsInt")
	for _, v := range []string{"1", "10", "25", "100", "12300", "100000", "10000000000000000000", "18446744073709551614", "18446744073709551610", "18446744073709551615", "18446744073709551620", "20000000000000000000", "100000000000000000000000", "12345678901234567890001000", "12345678901234567890000001"} {
		m, _ := new(bigInt).SetString(v, 10)
		for e := int64(-26); e <= 1; e++ {
			w := int64(1)
			if e < 0 && new(bigInt).Mod(m, pow10(-e)).Sign() != 0 {
				w = 0
			}
			d := decN(mkConst(fromBig(m)), e%2 == 0, e)
			n := "IsInt(" + d.String() + ")"
			build := one(d, spec)
			c.probe(n, isInt, func(it *Interp, st *State) []*Val {
				it.unroll = true
				return build(it, st)
			}, func(it *Interp, o Outcome) { c.wantNum("predicate", n, isInt, o, 0, w) })
		}
	}
	c.classes()
}

// classes decides Class, IsNormal and IsSubnormal.
func (c *Ctx) classes() {
	spec := anyCtx(rng(0, 1))
	spec.minS = k64(-95)
	fn := c.bigMethod("Class")
	type tc struct {
		d      dec
		cls    string
		normal int64 // 1 normal, -1 subnormal, 0 neither
	}
	ts := []tc{
		{fin(k64(0), rng(-500, 500)), "Zero", 0},
		{fin(rng(1, 9), rng(-95, 500)), "Normal", 1}, {fin(rng(10, 99), rng(-96, 500)), "Normal", 1},
		{fin(rng(1, 9), rng(-500, -96)), "Subnormal", -1}, {fin(rng(10, 99), rng(-500, -97)), "Subnormal", -1},
		{dec{infl: true, prec: rng(20, 60), exp: rng(-114, 500), coef: mkConst(maxU64)}, "Normal", 1},
		{dec{infl: true, prec: rng(20, 60), exp: rng(-800, -155), coef: mkConst(maxU64)}, "Subnormal", -1},
		{dec{kind: dInf}, "Infinity", 0}, {dec{kind: dQ}, "NaN", 0}, {dec{kind: dS}, "sNaN", 0},
	}
	for _, t := range ts {
		for _, neg := range []bool{false, true} {
			d := t.d.with(neg)
			w := t.cls
			if d.kind < dQ {
				w = string("+-"[b2i(neg)]) + w
			}
			build := func(it *Interp, st *State) []*Val {
				return []*Val{opPtr(it.decimal(st, "x", OwnOperand, d, spec))}
			}
			n := "Class(" + d.String() + ")"
			c.probe(n, fn, build, func(it *Interp, o Outcome) {
				got := "?"
				if o.ret != nil && o.ret.k == KStr && o.ret.str != nil {
					got = *o.ret.str
				}
				c.oblige(got == w, "class", n, c.p.pos(fn.Pos()), "may return %q, expected %q", got, w)
			})
			for i, m := range []string{"IsNormal", "IsSubnormal"} {
				f := c.bigMethod(m)
				n := m + "(" + d.String() + ")"
				w := int64(b2i(t.normal == int64(1-2*i)))
				c.probe(n, f, build, func(it *Interp, o Outcome) { c.wantNum("class", n, f, o, 0, w) })
			}
		}
	}
}
