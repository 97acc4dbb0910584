package main

import (
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Dependence rules over the sweep: taint from the receiver's previous value
// and from Contexts that do not govern the operation.

func init() {
	register(&Check{id: "C09", floor: 1000, rule: "for every exported function and every tuple of operand classes, taint analysis: no decision and no part of the result depends on the settings of an operand's Context or, where a Context is given explicitly, of the receiver's; no setting of any Context is changed; every method of a decimal hands its own Context, its operands and its result to the operation of the same name", run: governing})
	register(&Check{id: "C25", floor: 1000, rule: "for every exported function that sets its result and every tuple of operand classes, taint analysis: no decision and no part of the result's value depends on the result's previous value", run: oldValue})
}

// valueCells lists the fields that make up the value of the decimal id, with
// the taint of each.
func (it *Interp) valueCells(st *State, id int) map[int]Taint {
	b := it.bl
	s := st.obj(id)
	r := map[int]Taint{b.form: s.cells[b.form].t, b.conds: s.cells[b.conds].t}
	f := st.norm(s.cells[b.form]).n
	fin, nan := true, true
	if f.set != nil {
		fin, nan = false, false
		for _, x := range f.set {
			switch {
			case x.l < 2:
				fin = true
			case x.l >= 4:
				nan = true
			}
		}
	}
	if fin {
		r[b.compact], r[b.exp], r[b.precision] = s.cells[b.compact].t, s.cells[b.exp].t, s.cells[b.precision].t
		if st.norm(s.cells[b.compact]).n.contains(maxU64) {
			r[b.unscaled] = s.cells[b.unscaled].t
		}
	}
	if nan {
		r[b.compact] = s.cells[b.compact].t
	}
	return r
}

func (c *Ctx) taintRule(it *Interp, bad Taint, nm, what string) {
	it.hooks.branch = func(st *State, cond *Val, pos token.Pos) {
		if cond.t&bad != 0 && !it.inString() {
			c.oblige(false, "decision", c.siteOf(it, pos), c.p.pos(pos), "a decision depends on %s (%s, %s)", what, nm, it.trace())
		}
	}
}

// inString tells whether a decimal is being written in full, which does not
// depend on the rounding mode although roundString looks at it.
func (it *Interp) inString() bool {
	for _, a := range it.stack {
		if a.fn != nil && a.fn.Name() == "String" && a.fn.Signature.Recv() != nil && it.isBigPtr(a.fn.Params[0]) {
			return true
		}
	}
	return false
}

func (c *Ctx) taintResult(it *Interp, r *sweepRun, bad Taint, nm, what string) {
	for _, o := range r.outs {
		if o.pan != "" || failed(o) {
			continue
		}
		for _, id := range []int{r.z, r.z2} {
			if id < 0 {
				continue
			}
			for off, t := range it.valueCells(o.st, id) {
				c.oblige(t&bad == 0, "result", r.a.name+" "+it.leafPath(Ptr{id, off}), c.p.pos(r.a.fn.Pos()), "%s of the result depends on %s (%s)", it.leafPath(Ptr{id, off}), what, nm)
			}
		}
		if r.z < 0 && o.ret != nil {
			c.oblige(o.ret.t&bad == 0, "result", r.a.name, c.p.pos(r.a.fn.Pos()), "the result depends on %s (%s)", what, nm)
		}
	}
}

// failed reports whether o returns an error, or no decimal.
func failed(o Outcome) bool {
	v := o.ret
	if v == nil {
		return false
	}
	if v.k == KTuple {
		if len(v.fs) > 0 && v.fs[0].k == KPtr && v.fs[0].null && len(v.fs[0].p) == 0 && !v.fs[0].unk {
			return true
		}
		v = v.fs[len(v.fs)-1]
	}
	return v.k == KIface && !v.null
}

// ownContext names the functions that are about the Context a decimal carries.
var ownContext = map[string]bool{"Class": true, "IsNormal": true, "IsSubnormal": true}

func governing(c *Ctx) {
	bad := func(a *api) Taint {
		if a.has(pCtx) {
			return TXCtx | TZCtx
		}
		return TXCtx
	}
	// A function without a result that converts its only operand, such as
	// Format, is governed by that operand's Context.
	skip := func(a *api) bool {
		return ownContext[a.fn.Name()] || !a.has(pRes) && a.nops == 1 && a.fn.Signature.Recv() != nil
	}
	c.aliased = true
	c.eachRun(sweepPkgs, func(it *Interp, a *api, nm string) {
		if !skip(a) {
			c.taintRule(it, bad(a), nm, "a Context that does not govern the operation")
		}
		it.hooks.store = func(st *State, ptr *Val, p Ptr, old, v *Val, pos token.Pos) {
			ob := it.objs[p.obj]
			if !ob.isBig || ob.owner != OwnResult && ob.owner != OwnOperand || p.off >= len(ob.leaves) {
				return
			}
			l := ob.leaves[p.off].path
			if !strings.HasPrefix(l, "Context.") || p.off == it.bl.conds {
				return
			}
			same := old.e != nil && old.e == v.e || st.num(old).eq(st.num(v)) && old.k == KInt && v.k == KInt && isConstNum(st.num(v))
			c.oblige(same, "settings", c.siteOf(it, pos)+" "+l, c.p.pos(pos), "changes %s of %s (%s)", l, ob.name, nm)
		}
	}, func(it *Interp, r *sweepRun, nm string) {
		if !skip(r.a) {
			c.taintResult(it, r, bad(r.a), nm, "a Context that does not govern the operation")
		}
		c.oblige(true, "settings", nm, "", "")
	})
	c.delegation()
}

func isConstNum(n Num) bool { _, ok := n.isConst(); return ok }

// delegation decides that a method of a decimal, and a function of the math
// and misc packages, hands its arguments to the operation of the same name.
func (c *Ctx) delegation() {
	exported := func(n *types.Named) map[string]*ssa.Function {
		m := map[string]*ssa.Function{}
		for i := 0; i < n.NumMethods(); i++ {
			if f := n.Method(i); f.Exported() {
				if fn := c.p.ssa.FuncValue(f); fn != nil && fn.Blocks != nil {
					m[f.Name()] = fn
				}
			}
		}
		return m
	}
	cm, bm := exported(c.p.ctxType), exported(c.p.bigType)
	fm := map[string]*ssa.Function{}
	for _, m := range c.p.pkgs[modPath].Members {
		if fn, ok := m.(*ssa.Function); ok && fn.Object() != nil && fn.Object().Exported() {
			fm[fn.Name()] = fn
		}
	}
	var n atomic.Int64
	for _, a := range c.p.apis([]string{modPath, modPath + "/math", modPath + "/misc"}) {
		a := a
		nm := a.fn.Name()
		inMain := a.fn.Pkg.Pkg.Path() == modPath
		var sets []map[string]*ssa.Function
		if inMain {
			if a.fn.Signature.Recv() == nil || a.has(pCtx) || cm[nm] == nil || !a.has(pRes) {
				continue
			}
			sets = []map[string]*ssa.Function{cm}
		} else {
			sets = []map[string]*ssa.Function{cm, bm, fm}
			if cm[nm] == nil && bm[nm] == nil && fm[nm] == nil || a.has(pOps) {
				continue
			}
		}
		c.spawn(a.name, func(it *Interp) {
			hooks := map[*ssa.Function]func(*Interp, *callCtx) ([]Outcome, bool){}
			var rets []*Expr
			zname := ""
			for si, set := range sets {
				for _, f := range set {
					f, si := f, si
					if f.Signature.Results().Len() == 0 || f == a.fn {
						continue
					}
					res0 := f.Signature.Results().At(0).Type()
					if f.Name() != nm && !c.p.isBigPtrT(res0) {
						continue
					}
					hooks[f] = func(it *Interp, cc *callCtx) ([]Outcome, bool) {
						n.Add(1)
						cc.st.setG("delegated", cc.st.g("delegated")+1)
						c.oblige(f.Name() == nm, "same operation", a.name, c.p.pos(cc.pos), "calls %s instead of the operation of its own name", fnName(f))
						args := cc.args
						var ctx *Val
						if si == 0 && len(args) > 0 {
							ctx, args = args[0], args[1:]
						}
						var want []*Val
						want = append(want, it.entryArgs...)
						if f.Name() == "Round" {
							want, args = want[:1], args[:1]
						}
						ok := len(args) == len(want)
						for i := 0; ok && i < len(args); i++ {
							ok = sameArg(cc.st, args[i], want[i])
						}
						c.oblige(ok, "same arguments", a.name, c.p.pos(cc.pos), "does not pass its arguments to %s as they are", fnName(f))
						if ctx != nil {
							for i, l := range it.lay.of(c.p.ctxType) {
								if f.Name() == "Round" && l.path == "Precision" || l.path == "Conditions" || i >= len(ctx.fs) {
									continue
								}
								v := ctx.fs[i]
								e := it.x.named(zname + "." + l.path)
								ok := v.e == e
								if k, isC := cc.st.num(v).isConst(); isC && !ok {
									fact, has := cc.st.facts.get(e)
									if k2, c2 := fact.isConst(); has && c2 {
										ok = k == k2
									} else {
										ok = l.path == "OperatingMode"
									}
								}
								c.oblige(ok, "own Context", a.name, c.p.pos(cc.pos), "calls %s with a Context whose %s is not the result's", fnName(f), l.path)
							}
						}
						var rs []*Val
						for i := 0; i < f.Signature.Results().Len(); i++ {
							t := f.Signature.Results().At(i).Type()
							if c.p.isBigPtrT(t) && len(args) > 0 {
								k := 0
								if i == 1 {
									k = len(args) - 1
								}
								if args[k].k == KPtr {
									rs = append(rs, args[k])
									continue
								}
							}
							v := it.unknown(cc.st, t)
							if v.k == KInt {
								v = cc.st.intVal(topNum(t), nil)
								rets = append(rets, v.e)
							}
							rs = append(rs, v)
						}
						if len(rs) == 1 {
							return ret(cc.st, rs[0]), true
						}
						return ret(cc.st, tuple(rs...)), true
					}
				}
			}
			it.fnHook = hooks
			it.hooks.store = func(st *State, ptr *Val, p Ptr, old, v *Val, pos token.Pos) {
				if st.g("delegated") > 0 && it.objs[p.obj].owner == OwnResult {
					c.oblige(false, "same result", a.name, c.p.pos(pos), "changes the result of the operation afterwards")
				}
			}
			r := it.sweepNamed(a, &zname)
			c.complete(it, a.name)
			for _, o := range r.outs {
				k := o.st.g("delegated")
				if inMain && k == 0 {
					continue // an implementation of its own
				}
				c.oblige(k == 1, "delegates once", a.name, c.p.pos(a.fn.Pos()), "calls the operation %d times", k)
				if o.pan == "" && o.ret != nil && o.ret.k == KInt {
					ok := false
					for _, e := range rets {
						ok = ok || o.ret.e == e
					}
					c.oblige(ok, "same result", a.name, c.p.pos(a.fn.Pos()), "does not return the result of the operation")
				}
			}
		})
	}
	c.wg.Wait()
	c.oblige(n.Load() >= 30, "delegation found", "methods and functions that delegate", "", "only %d delegating calls were found", n.Load())
}

func sameArg(st *State, a, b *Val) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.k != b.k {
		return false
	}
	switch a.k {
	case KPtr:
		return samePtrs(a.p, b.p)
	case KInt:
		if a.e != nil && a.e == b.e {
			return true
		}
		x, ok1 := st.num(a).isConst()
		y, ok2 := st.num(b).isConst()
		return ok1 && ok2 && x == y
	case KStruct:
		for i := range a.fs {
			if i >= len(b.fs) || !sameArg(st, a.fs[i], b.fs[i]) {
				return false
			}
		}
		return true
	case KFunc:
		return true
	}
	return eqVal(a, b) || a.e != nil && a.e == b.e
}

// sweepNamed runs a on arbitrary operands; zname receives the name of the
// decimal whose Context governs.
func (it *Interp) sweepNamed(a *api, zname *string) *sweepRun {
	*zname = "z"
	return it.sweep(a, nil, mkConst(i64(0)), -1)
}

var inPlaceOps = map[string]bool{"Reduce": true, "Round": true, "RoundToInt": true, "Quantize": true, "SetScale": true, "SetSignbit": true, "CheckNaNs": true}

func oldValue(c *Ctx) {
	skip := func(a *api) bool {
		if a.fn.Name() == "Lentz" || a.fn.Name() == "Wallis" {
			return true // their value comes from the caller's Generator
		}
		return inPlaceOps[a.fn.Name()] || !a.has(pRes) && !a.has(pWrapRes)
	}
	c.eachRun(sweepPkgs[:5], func(it *Interp, a *api, nm string) {
		if !skip(a) {
			c.taintRule(it, TOld, nm, "the previous value of the result")
		}
	}, func(it *Interp, r *sweepRun, nm string) {
		if !skip(r.a) {
			c.taintResult(it, r, TOld, nm, "the previous value of the result")
		}
	})
}
