package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Runs on decimals of which more than the class is assumed: intervals of
// coefficients and exponents.

type dkind int

const (
	dFin dkind = iota
	dInf
	dQ
	dS
)

type dec struct {
	name string
	kind dkind
	neg  bool
	infl bool // coefficient does not fit into the compact word
	coef Num  // coefficient, or the payload
	exp  Num
	prec Num // number of digits, if infl
	mag  Num // the coefficient, if infl and short enough
}

// large is a decimal of more than 64 bits.
func large(mag, exp Num) dec {
	lo, hi := magLen(mag)
	return dec{infl: true, mag: mag, prec: rng(lo, hi), exp: exp, coef: mkConst(maxU64)}
}

// digits is the interval of the integers that start like s and have n more
// digits.
func digits(s string, n int64) Num {
	l, _ := new(big.Int).SetString(s, 10)
	l.Mul(l, pow10(n))
	h := new(big.Int).Add(l, pow10(n))
	return mkRange(fromBig(l), fromBig(h.Sub(h, big.NewInt(1))))
}

func fin(coef, exp Num) dec { return dec{coef: coef, exp: exp} }
func k64(x int64) Num       { return mkConst(i64(x)) }
func rng(a, b int64) Num    { return mkRange(i64(a), i64(b)) }
func kU(x uint64) Num       { return mkConst(u64(x)) }

func (d dec) with(neg bool) dec { d.neg = neg; return d }

func (d dec) String() string {
	s := "+"
	if d.neg {
		s = "-"
	}
	switch d.kind {
	case dInf:
		return s + "Inf"
	case dQ:
		return s + "NaN"
	case dS:
		return s + "sNaN"
	}
	c := d.coef.String()
	switch {
	case d.infl && !d.mag.unknown():
		c = d.mag.String()
	case d.infl:
		c = "big(" + d.prec.String() + " digits)"
	}
	return fmt.Sprintf("%s%sE%s", s, c, d.exp)
}

func (d dec) zero() bool { return d.kind == dFin && !d.infl && d.coef.eq(k64(0)) }

func (d dec) form() uint64 {
	return []uint64{0, 2, 8, 4}[d.kind] | b2u(d.neg)
}

func pow10(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil) }

func ratPow(n int64) *big.Rat {
	if n >= 0 {
		return new(big.Rat).SetInt(pow10(n))
	}
	return new(big.Rat).SetFrac(big.NewInt(1), pow10(-n))
}

// mags returns the least and greatest magnitude of d.
func (d dec) mags() (lo, hi *big.Rat) {
	l, h := d.coef.lo.big(), d.coef.hi.big()
	switch {
	case d.infl && !d.mag.unknown():
		l, h = d.mag.lo.big(), d.mag.hi.big()
	case d.infl:
		l = pow10(int64(d.prec.lo.l) - 1)
		if m := maxU64.big(); l.Cmp(m) < 0 {
			l = m
		}
		h = new(big.Int).Sub(pow10(int64(d.prec.hi.l)), big.NewInt(1))
	}
	lo = new(big.Rat).Mul(new(big.Rat).SetInt(l), ratPow(int64(d.exp.lo.l)))
	hi = new(big.Rat).Mul(new(big.Rat).SetInt(h), ratPow(int64(d.exp.hi.l)))
	return
}

// put makes d the value of the decimal id.
func (it *Interp) put(st *State, id int, nm string, d dec, t Taint) {
	b := it.bl
	s := st.objW(id)
	set := func(off int, suffix string, n Num) {
		s.cells[off] = it.named(st, nm+suffix, n, t)
	}
	set(b.form, ".form", mkConst(u64(d.form())))
	if d.kind != dFin {
		if d.kind != dInf && !d.coef.isBot() {
			set(b.compact, ".compact", d.coef)
		}
		return
	}
	set(b.exp, ".exp", d.exp)
	if d.infl {
		set(b.compact, ".compact", mkConst(maxU64))
		set(b.precision, ".precision", d.prec)
		u := *s.cells[b.unscaled]
		u.sign = 4
		u.n = d.mag
		s.cells[b.unscaled] = &u
		return
	}
	set(b.compact, ".compact", d.coef)
	set(b.precision, ".precision", rng(int64(len(d.coef.lo.String())), int64(len(d.coef.hi.String()))))
}

// decimal makes a new decimal with value d.
func (it *Interp) decimal(st *State, nm string, owner Owner, d dec, spec CtxSpec) int {
	cls := -1
	if d.kind == dFin && d.infl {
		cls = clsPosI
	}
	spec.prefix = nm + "."
	id := it.newBig(st, nm, owner, cls, spec, 0)
	it.put(st, id, nm, d, 0)
	return id
}

func opPtr(id int) *Val { return ptrV(ROp, Ptr{id, 0}) }

// fnOf finds an exported function or method by name.
func (c *Ctx) fnOf(pkg, nm string) *ssa.Function {
	f := c.p.Func(modPath+pkg, nm)
	if f == nil {
		c.fail("anchor", pkg+" "+nm, "no such function")
	}
	return f
}

func (c *Ctx) bigMethod(nm string) *ssa.Function {
	f := c.p.Method(c.p.bigType, nm)
	if f == nil {
		c.fail("anchor", "Big."+nm, "no such method")
	}
	return f
}

// probe runs fn on what args builds and hands every outcome to f.
func (c *Ctx) probe(nm string, fn *ssa.Function, build func(it *Interp, st *State) []*Val, f func(it *Interp, o Outcome)) {
	if fn == nil {
		return
	}
	c.spawn(nm, func(it *Interp) {
		it.magMode()
		st := it.newState()
		args := build(it, st)
		outs := it.enter(st, fn, args)
		c.complete(it, nm)
		c.oblige(len(outs) > 0, "outcome", nm, c.p.pos(fn.Pos()), "no outcome was found")
		for _, o := range outs {
			if o.pan != "" {
				c.oblige(false, "no panic", nm, c.p.pos(fn.Pos()), "may panic: %s", o.pan)
				continue
			}
			f(it, o)
		}
	})
}

func retNum(o Outcome, i int) Num {
	v := o.ret
	if v != nil && v.k == KTuple {
		v = v.fs[i]
	}
	return o.st.num(v)
}

// wantNum obliges the result i of every outcome to be the constant want.
func (c *Ctx) wantNum(rule, nm string, fn *ssa.Function, o Outcome, i int, want int64) {
	n := retNum(o, i)
	c.oblige(n.eq(k64(want)), rule, nm, c.p.pos(fn.Pos()), "may return %s, expected %d", n, want)
}

// relate assumes that the coefficients of x and y compare as rel.
func (it *Interp) relate(st *State, x, y int, infl bool, rel int64) {
	off := it.bl.compact
	if infl {
		off = it.bl.unscaled
	}
	ex, ey := st.obj(x).cells[off].e, st.obj(y).cells[off].e
	for _, m := range []string{"Cmp", "CmpAbs", ""} {
		st.facts.set(it.x.mk("sgn3", ex, ey, I{}, m), k64(rel))
		st.facts.set(it.x.mk("sgn3", ey, ex, I{}, m), k64(-rel))
	}
	if !infl {
		st.assume(it.x.mk("<", ex, ey, I{}, ""), rel < 0)
		st.assume(it.x.mk("<", ey, ex, I{}, ""), rel > 0)
		st.assume(st.eqExpr(ex, ey), rel == 0)
	}
}

// pair makes two operands.
func (it *Interp) pair(st *State, x, y dec, spec CtxSpec) (int, int) {
	a, b := it.decimal(st, "x", OwnOperand, x, spec), it.decimal(st, "y", OwnOperand, y, spec)
	if x.infl && y.infl {
		x.exp, y.exp = k64(0), k64(0)
		if r, ok := cmpMag(x, y); ok {
			it.relate(st, a, b, true, r)
		}
	}
	return a, b
}
