package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C06", floor: 1000, rule: "for every operation and every tuple of operand classes with a NaN, abstract interpretation of the operation's SSA form; each outcome must be the quiet NaN of the right sign and signal InvalidOperation exactly for a signaling operand", run: func(c *Ctx) {
		c.special(func(cls []int) bool { return anyNaN(cls) })
	}})
	register(&Check{id: "C07", floor: 400, rule: "for every operation and every tuple of operand classes without a NaN, abstract interpretation of the operation's SSA form; each outcome's class, sign and conditions must be permitted by the specification table", run: func(c *Ctx) {
		c.special(func(cls []int) bool { return !anyNaN(cls) })
	}})
}

func (c *Ctx) special(pick func(cls []int) bool) {
	for i := range opSpecs {
		o := &opSpecs[i]
		if c.method(o.name) == nil {
			continue
		}
		o.classSets(true, func(cls []int) {
			if !pick(cls) {
				return
			}
			e1, e2 := o.expectFor(cls, false), o.expectFor(cls, true)
			if e1 == nil && e2 == nil {
				return
			}
			nm := clsNames(o.name, cls)
			c.spawn(nm, func(it *Interp) {
				r := tableRun(it, o, cls, 0, nil)
				c.complete(it, nm)
				c.matchRun(r, r.z, nm, e1, true)
				if r.r >= 0 {
					c.matchRun(r, r.r, nm+" remainder", e2, false)
				}
			})
		})
	}
	c.wg.Wait()
}

func (c *Ctx) matchRun(r *run, id int, nm string, as []alt, conds bool) {
	if as == nil {
		return
	}
	rs := r.results(id)
	c.oblige(len(rs) > 0, "outcome", nm, "", "no outcome was found")
	for _, rc := range rs {
		if rc.pan != "" {
			c.oblige(false, "class", nm, "", "may panic: %s", rc.pan)
			continue
		}
		c.oblige(match(rc, as, conds), "class", nm, c.p.pos(r.fnPos()), "may be %v, expected %s", rc, altsString(as))
	}
}

func init() {
	register(&Check{id: "C08", floor: 100, rule: "for every operation and every invalid field of the explicit Context (all other fields and all operands arbitrary), abstract interpretation: every outcome is the quiet NaN with InvalidContext", run: invalidContexts})
	register(&Check{id: "C12", floor: 2000, rule: "for every operation and every tuple of operand classes, abstract interpretation in both operating modes: no panic in GDA mode; in Go mode an outcome is a NaN result if and only if the call panics with ErrNaN", run: goMode})
	register(&Check{id: "C11", floor: 2000, rule: "for every operation and every tuple of operand classes, abstract interpretation with the conditions tracked path by path: conditions set before the call are still set after it, the result's class does not depend on them, and the implications between conditions hold on every path", run: conditions})
	register(&Check{id: "C02", floor: 2000, rule: "for every operation, every aliasing pattern of result and operands, and every tuple of operand classes, abstract interpretation: the outcome satisfies the specification table for the original operands, and no operand's field is read after it was overwritten through the result", run: aliasing})
}

type badCtx struct {
	name string
	set  func(s *CtxSpec)
}

var badCtxs = []badCtx{
	{"negative precision", func(s *CtxSpec) { s.prec = mkRange(i64(-1<<63), i64(-1)) }},
	{"precision above the maximum", func(s *CtxSpec) { s.prec = mkRange(i64(maxScale+2), i64(1<<63-1)) }},
	{"unknown rounding mode", func(s *CtxSpec) { s.rmode = mkRange(i64(7), i64(255)) }},
	{"unknown operating mode", func(s *CtxSpec) { s.omode = mkRange(i64(2), i64(255)) }},
	{"scale above the maximum", func(s *CtxSpec) { s.maxS = mkRange(i64(maxScale+1), i64(1<<63-1)) }},
	{"scale below the minimum", func(s *CtxSpec) { s.minS = mkRange(i64(-1<<63), i64(-maxScale-1)) }},
}

// zOps are the operations without decimal operands.
func invalidContexts(c *Ctx) {
	for i := range opSpecs {
		o := &opSpecs[i]
		if c.method(o.name) == nil {
			continue
		}
		for _, b := range badCtxs {
			b := b
			nm := o.name + ", " + b.name
			c.spawn(nm, func(it *Interp) {
				cls := make([]int, o.arity())
				for i := range cls {
					cls[i] = -1
				}
				if o.heavy {
					it.havocPrimitives(o.name) // never reached
				}
				r := tableRun(it, o, cls, 0, func(e *entrySpec) {
					s := anyCtx(mkConst(i64(0)))
					b.set(&s)
					e.ctx = &s
					e.zcls = -1
				})
				c.complete(it, nm)
				c.matchInvalid(r, r.z, nm)
				if r.r >= 0 {
					c.matchInvalid(r, r.r, nm+", remainder")
				}
			})
		}
	}
	for _, nm := range []string{"SetRat", "SetString"} {
		fn := c.method(nm)
		if fn == nil {
			continue
		}
		for _, b := range badCtxs {
			b, nm := b, nm
			c.spawn(nm, func(it *Interp) {
				s := anyCtx(mkConst(i64(0)))
				b.set(&s)
				r := it.runEntry(entrySpec{fn: fn, zcls: -1, ctx: &s}, true)
				c.complete(it, nm+", "+b.name)
				c.matchInvalid(r, r.z, nm+", "+b.name)
			})
		}
	}
	c.wg.Wait()
}

func (c *Ctx) matchInvalid(r *run, id int, nm string) {
	rs := r.results(id)
	c.oblige(len(rs) > 0, "outcome", nm, "", "no outcome was found")
	for _, rc := range rs {
		if rc.pan == "" && rc.rv != nil && rc.rv.k == KTuple && len(rc.rv.fs) == 2 && rc.rv.fs[0].null && len(rc.rv.fs[0].p) == 0 {
			continue // no result is returned
		}
		ok := rc.pan == "" && rc.forms.set != nil && len(rc.forms.set) == 1 && rc.forms.set[0].l&^1 == 8 && rc.must&cInvalidContext != 0
		c.oblige(ok, "invalid context", nm, c.p.pos(r.fnPos()), "may be %v, expected NaN raising InvalidContext", rc)
	}
}

// quickClasses leaves out classes that add little when combined.
func (c *Ctx) coarseSets(o *opSpec, f func(cls []int)) {
	if o.arity() >= 3 {
		tuples(o.arity(), []int{clsPosZero, clsPosC, clsNegC, clsPosInf, clsNegInf, clsPosQ, clsNegS}, f)
		return
	}
	o.classSets(c.thorough(), f)
}

func goMode(c *Ctx) {
	for i := range opSpecs {
		o := &opSpecs[i]
		if c.method(o.name) == nil {
			continue
		}
		c.coarseSets(o, func(cls []int) {
			if o.heavy && o.expectFor(cls, false) == nil {
				return
			}
			for mode := int64(0); mode < 2; mode++ {
				mode := mode
				nm := clsNames(o.name, cls) + []string{" in GDA mode", " in Go mode"}[mode]
				c.spawn(nm, func(it *Interp) {
					r := tableRun(it, o, cls, mode, nil)
					c.complete(it, nm)
					rs := r.results(r.z)
					c.oblige(len(rs) > 0, "outcome", nm, "", "no outcome was found")
					for _, rc := range rs {
						nan := rc.forms.set == nil || rc.forms.set[len(rc.forms.set)-1].l >= 4
						if mode == 0 {
							c.oblige(rc.pan == "", "no panic", nm, c.p.pos(r.fnPos()), "may panic: %s", rc.pan)
							continue
						}
						if rc.pan == "" {
							c.oblige(!nan || o.keepNaN && anyNaN(cls), "no silent NaN", nm, c.p.pos(r.fnPos()), "may return %v without a panic", rc)
							continue
						}
						ok := strings.Contains(rc.pan, "ErrNaN") && (rc.forms.set != nil && rc.forms.set[0].l >= 4)
						if o.exp2 != nil && !ok && strings.Contains(rc.pan, "ErrNaN") {
							// the remainder is the NaN
							for _, rr := range r.results(r.r) {
								ok = ok || rr.pan != "" && rr.forms.set != nil && rr.forms.set[0].l >= 4
							}
						}
						c.oblige(ok, "ErrNaN only", nm, c.p.pos(r.fnPos()), "may panic with %s while the result is %v", rc.pan, rc)
						// a panic needs a NaN result: compare with the specification
						if as := o.expectFor(cls, false); as != nil && o.exp2 == nil {
							may := false
							for _, a := range as {
								may = may || a.nan
							}
							c.oblige(may, "panic permitted", nm, c.p.pos(r.fnPos()), "may panic with %s although the result is defined", rc.pan)
						}
					}
				})
			}
		})
	}
	c.wg.Wait()
}

// impl is an implication between conditions.
type impl struct {
	if_  uint64
	then uint64
	any  bool // one of then suffices
}

var impls = []impl{
	{cOverflow, cInexact | cRounded, false},
	{cUnderflow, cInexact | cRounded | cSubnormal, false},
	{cInexact, cRounded, false},
	{cDivisionUndefined, cInvalidOperation, false},
}

func conditions(c *Ctx) {
	for i := range opSpecs {
		o := &opSpecs[i]
		if c.method(o.name) == nil {
			continue
		}
		c.coarseSets(o, func(cls []int) {
			if o.heavy && o.expectFor(cls, false) == nil {
				return
			}
			nm := clsNames(o.name, cls)
			e1 := o.expectFor(cls, false)
			c.spawn(nm, func(it *Interp) {
				// every condition was set before
				r := tableRun(it, o, cls, 0, func(e *entrySpec) { e.zconds = mkConst(i64(0x1fff)) })
				c.complete(it, nm)
				for _, rc := range r.results(r.z) {
					c.oblige(rc.must&0x1fff == 0x1fff, "sticky", nm, c.p.pos(r.fnPos()), "may clear %s", condString(0x1fff&^rc.must))
				}
				c.matchRun(r, r.z, nm+" after other conditions", e1, false)
			})
			if o.name == "NextPlus" || o.name == "NextMinus" {
				return
			}
			c.spawn(nm, func(it *Interp) {
				it.trackCond = true
				r := tableRun(it, o, cls, 0, nil)
				c.complete(it, nm+" (conditions)")
				for _, rc := range r.results(r.z) {
					c.implications(r, rc, nm)
				}
			})
		})
	}
	for _, fn := range c.parsers() {
		fn := fn
		nm := fnName(fn)
		c.spawn(nm, func(it *Interp) {
			it.trackCond = true
			r := it.runEntry(entrySpec{fn: fn, zcls: -1}, true)
			c.complete(it, nm+" (conditions)")
			rs := r.results(r.z)
			c.oblige(len(rs) > 0, "outcome", nm, "", "no outcome was found")
			for _, rc := range rs {
				c.implications(r, rc, nm)
			}
		})
		c.spawn(nm, func(it *Interp) {
			r := it.runEntry(entrySpec{fn: fn, zcls: -1, zconds: mkConst(i64(0x1fff))}, true)
			c.complete(it, nm+" (sticky)")
			for _, rc := range r.results(r.z) {
				c.oblige(rc.must&0x1fff == 0x1fff, "sticky", nm, c.p.pos(r.fnPos()), "may clear %s", condString(0x1fff&^rc.must))
			}
		})
	}
	c.wg.Wait()
}

// parsers are the conversions from strings: they raise conditions, too.
func (c *Ctx) parsers() []*ssa.Function {
	var r []*ssa.Function
	for _, x := range []struct {
		t *types.Named
		n string
	}{{c.p.ctxType, "SetString"}, {c.p.bigType, "SetString"}, {c.p.bigType, "UnmarshalText"}, {c.p.bigType, "UnmarshalJSON"}, {c.p.bigType, "Scan"}} {
		if f := c.p.Method(x.t, x.n); f != nil {
			r = append(r, f)
		} else {
			c.fail("anchor", x.t.Obj().Name()+"."+x.n, "no such method")
		}
	}
	return r
}

func (c *Ctx) implications(r *run, rc ResCls, nm string) {
	n := rc.st.norm(rc.st.obj(r.z).cells[r.it.bl.conds]).n
	for _, im := range impls {
		bad := ""
		if n.set != nil {
			for _, x := range n.set {
				if x.l&im.if_ != 0 && x.l&im.then != im.then {
					bad = condString(x.l)
				}
			}
		} else if rc.may&im.if_ != 0 && rc.must&im.then != im.then {
			bad = rc.String()
		}
		c.oblige(bad == "", "implies", nm+" "+condString(im.if_), c.p.pos(r.fnPos()), "%s without %s: %s", condString(im.if_), condString(im.then), bad)
	}
}

// aliasPatterns returns the patterns for n operands: for each operand the
// index of the object it shares (see entrySpec.alias).
func aliasPatterns(n int) [][]int {
	switch n {
	case 1:
		return [][]int{{0}}
	case 2:
		return [][]int{{0, -1}, {-1, 0}, {0, 0}, {-1, 1}}
	case 3:
		return [][]int{{0, -1, -1}, {-1, 0, -1}, {-1, -1, 0}, {0, 0, -1}, {0, -1, 0}, {-1, 0, 0}, {0, 0, 0}, {-1, 1, -1}, {-1, -1, 1}, {-1, -1, 2}, {-1, 1, 1}, {0, -1, 2}, {-1, 0, 1}, {-1, 1, 0}}
	}
	return nil
}

func patName(n int, pat []int) string {
	nm := []string{"x", "y", "u"}
	g := map[int][]string{}
	for i := 0; i < n; i++ {
		if pat[i] == 0 {
			g[0] = append(g[0], nm[i])
		} else if pat[i] > 0 {
			g[pat[i]] = append(g[pat[i]], nm[i])
		}
	}
	var s []string
	if len(g[0]) > 0 {
		s = append(s, "z=="+strings.Join(g[0], "=="))
	}
	for k := 1; k <= n; k++ {
		if len(g[k]) > 0 {
			s = append(s, nm[k-1]+"=="+strings.Join(g[k], "=="))
		}
	}
	return strings.Join(s, ", ")
}

func aliasing(c *Ctx) {
	for i := range opSpecs {
		o := &opSpecs[i]
		if c.method(o.name) == nil || o.inPlace {
			continue
		}
		for _, pat := range aliasPatterns(o.n) {
			pat := pat
			c.coarseSets(o, func(cls []int) {
				for j, a := range pat {
					if a > 0 && cls[a-1] != cls[j] {
						return
					}
					for k, b := range pat[:j] {
						if a == 0 && b == 0 && cls[k] != cls[j] {
							return
						}
					}
				}
				spec := o.expectFor(cls, false)
				heavy := o.heavy && spec == nil
				nm := clsNames(o.name, cls) + " with " + patName(o.n, pat)
				c.spawn(nm, func(it *Interp) {
					if heavy {
						it.havocPrimitives(o.name)
					}
					stale := map[string]string{}
					it.hooks.load = func(st *State, ptr *Val, p Ptr, v *Val, pos token.Pos) {
						if ptr.role < ROp || ptr.role >= RShared {
							return
						}
						if s := st.obj(p.obj); s.w[p.off] == RRes || s.w[p.off] == RRes2 {
							stale[it.objs[p.obj].leaves[p.off].path] = c.p.pos(pos)
						}
					}
					r := tableRun(it, o, cls, 0, func(e *entrySpec) { e.alias = pat })
					c.complete(it, nm)
					for k, pos := range stale {
						c.oblige(false, "stale read", fmt.Sprintf("%s with %s, %s", o.name, patName(o.n, pat), k), pos, "an operand's %s is read after the result, which may be the same decimal, was written (%s)", k, nm)
					}
					c.oblige(true, "stale read", nm, "", "")
					if !heavy {
						c.matchRun(r, r.z, nm, spec, true)
						if r.r >= 0 {
							c.matchRun(r, r.r, nm+" remainder", o.expectFor(cls, true), false)
						}
					}
				})
			})
		}
	}
	c.wg.Wait()
}

// havocPrimitives replaces the operations a composite operation is made of.
func (it *Interp) havocPrimitives(except string) {
	for _, n := range []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "Sqrt", "Pow", "Exp", "Log", "Reduce", "Atan", "Asin", "Acos", "Cos", "Sin", "Tan", "Quantize", "FMA", "Wallis", "Lentz", "Pi", "E", "Log10", "Hypot"} {
		if n != except {
			it.useHavoc(havocFinite, it.P.ctxFns(n)...)
		}
	}
}
