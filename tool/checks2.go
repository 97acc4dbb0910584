package main

import (
	"fmt"
	"go/token"
	"strings"
	"sync"
)

// Ownership rules over the sweep of all exported functions.

func init() {
	register(&Check{id: "C01", floor: 1000, rule: "for every exported function and every tuple of operand classes, abstract interpretation with an owner on every object: no store into an operand (value, Context, conditions, slice element) and no in-place write of digits an operand owns", run: operandsUnchanged})
	register(&Check{id: "C03", floor: 1000, rule: "for every exported function, abstract interpretation with an owner on every object: nothing reachable from a package-level variable is stored to or has its digits written, except inside sync.Once.Do or while a mutex is held", run: sharedUnchanged})
	register(&Check{id: "C04", floor: 1000, rule: "for every exported function and every tuple of operand classes, abstract interpretation with an owner on digit storage: at every exit the digits reachable from a result belong to that result, and the returned pointer is the result parameter or a new object", run: noSharing})
	register(&Check{id: "C05", floor: 1000, rule: "for every exported function and every tuple of operand classes, typestate of pooled temporaries: no use after Put, no second Put, only own temporaries are Put, their digits belong to no one else, and no decision or result depends on a recycled decimal's stale content", run: poolDiscipline})
}

// siteOf names the function and position of a violation.
func (c *Ctx) siteOf(it *Interp, pos token.Pos) string {
	for i := len(it.stack) - 1; i >= 0; i-- {
		if it.stack[i].fn != nil {
			return fnName(it.stack[i].fn)
		}
	}
	return "-"
}

func (it *Interp) leafPath(p Ptr) string {
	o := it.objs[p.obj]
	if p.off < len(o.leaves) && o.leaves[p.off].path != "" {
		return o.leaves[p.off].path
	}
	return o.name
}

func operandsUnchanged(c *Ctx) {
	c.aliased = true
	n := c.eachRun(sweepPkgs, func(it *Interp, a *api, nm string) {
		it.hooks.store = func(st *State, ptr *Val, p Ptr, old, v *Val, pos token.Pos) {
			if it.objs[p.obj].owner != OwnOperand {
				return
			}
			c.oblige(false, "operand stored", c.siteOf(it, pos)+" "+it.leafPath(p), c.p.pos(pos), "stores to %s of an operand (%s)", it.leafPath(p), nm)
		}
		it.hooks.mutate = func(st *State, recv *Val, back int, pos token.Pos) {
			if it.objs[back].owner != OwnOperand {
				return
			}
			c.oblige(false, "operand digits written", c.siteOf(it, pos)+" "+it.objs[back].name, c.p.pos(pos), "writes %s, which belong to an operand, in place (%s)", it.objs[back].name, nm)
		}
	}, func(it *Interp, r *sweepRun, nm string) {
		c.oblige(true, "operands unchanged", nm, "", "")
	})
	c.extra["functions_swept"] = n
}

func sharedUnchanged(c *Ctx) {
	c.aliased = true
	guarded := func(st *State) bool {
		for k, v := range st.ghost {
			if v > 0 && (k == "once" || strings.HasPrefix(k, "lock:")) {
				return true
			}
		}
		return false
	}
	shared := func(it *Interp, st *State, id int) bool {
		if it.objs[id].owner == OwnShared {
			return true
		}
		s := st.obj(id)
		return s != nil && s.shr
	}
	// Lazily computed values.
	cs := c.it0.cold
	for _, is := range cs.issues {
		c.oblige(false, is.rule, is.construct, c.p.pos(is.pos), "%s", is.text)
	}
	c.oblige(true, "published through Once", "lazily computed values", "", "")
	c.extra["lazy_values"] = len(c.it0.onceDone)
	c.extra["cold_runs"] = cs.runs

	// Plain reads of what is written under a lock.
	var mu sync.Mutex
	written := map[string]bool{}
	type read struct{ construct, pos, text string }
	reads := map[string]read{}
	n := c.eachRun(sweepPkgs, func(it *Interp, a *api, nm string) {
		it.hooks.load = func(st *State, ptr *Val, p Ptr, v *Val, pos token.Pos) {
			if it.objs[p.obj].owner != OwnShared || guarded(st) {
				return
			}
			f := it.topFn()
			if cs.cells[p] && !cs.fns[f] {
				c.oblige(false, "published through Once", c.siteOf(it, pos)+" "+it.leafPath(p), c.p.pos(pos), "reads %s of %s, which Once.Do computes, directly (%s)", it.leafPath(p), it.objs[p.obj].name, nm)
			}
			k := it.objs[p.obj].name + " " + it.leafPath(p)
			mu.Lock()
			if _, ok := reads[k]; !ok {
				reads[k] = read{c.siteOf(it, pos) + " " + k, c.p.pos(pos), nm}
			}
			mu.Unlock()
		}
		it.hooks.store = func(st *State, ptr *Val, p Ptr, old, v *Val, pos token.Pos) {
			if shared(it, st, p.obj) && guarded(st) && it.objs[p.obj].owner == OwnShared {
				mu.Lock()
				written[it.objs[p.obj].name+" "+it.leafPath(p)] = true
				mu.Unlock()
			}
			if shared(it, st, p.obj) && !guarded(st) {
				c.oblige(false, "shared stored", c.siteOf(it, pos)+" "+it.objs[p.obj].name, c.p.pos(pos), "stores to %s of %s, which is reachable from a package-level variable (%s)", it.leafPath(p), it.objs[p.obj].name, nm)
			}
		}
		it.hooks.mutate = func(st *State, recv *Val, back int, pos token.Pos) {
			if shared(it, st, back) && !guarded(st) {
				c.oblige(false, "shared digits written", c.siteOf(it, pos)+" "+it.objs[back].name, c.p.pos(pos), "writes %s, which are reachable from a package-level variable, in place (%s)", it.objs[back].name, nm)
			}
		}
	}, func(it *Interp, r *sweepRun, nm string) {
		for _, o := range r.outs {
			for k, v := range o.st.ghost {
				if strings.HasPrefix(k, "lock:") {
					c.oblige(v == 0, "lock released", nm, c.p.pos(r.a.fn.Pos()), "may return while holding %s", strings.TrimPrefix(k, "lock:"))
				}
			}
		}
		c.oblige(true, "shared values unchanged", nm, "", "")
	})
	for k, r := range reads {
		c.oblige(!written[k], "locked read", r.construct, r.pos, "reads %s, which is written under a lock, without it (%s)", k, r.text)
	}
	c.extra["functions_swept"] = n
}

// digitsOf lists the digit storage the number cell v may use.
func digitsOf(v *Val) []int {
	var r []int
	if v != nil && v.k == KBig {
		for _, p := range v.p {
			r = append(r, p.obj)
		}
	}
	return r
}

func noSharing(c *Ctx) {
	c.aliased = true
	n := c.eachRun(sweepPkgs, func(it *Interp, a *api, nm string) {}, func(it *Interp, r *sweepRun, nm string) {
		pos := c.p.pos(r.a.fn.Pos())
		own := func(o Outcome, id, back int, what string) {
			b := it.objs[back]
			bad := ""
			s := o.st.obj(b.backOf)
			switch {
			case b.owner == OwnOperand:
				bad = "an operand"
			case b.owner == OwnShared || s != nil && s.shr || o.st.obj(back) != nil && o.st.obj(back).shr:
				bad = "a package-level value"
			case b.owner == OwnCaller:
				bad = "the caller"
			case b.owner == OwnResult && b.backOf != id:
				bad = "another result"
			case s != nil && s.put && !s.weak:
				bad = "a recycled temporary"
			}
			c.oblige(bad == "", "own digits", r.a.name+" "+what, pos, "may share %s with %s (%s)", b.name, bad, nm)
		}
		raw := r.a.fn.Name() == "Raw"
		for _, o := range r.outs {
			if o.pan != "" {
				continue
			}
			for _, id := range []int{r.z, r.z2} {
				if id < 0 {
					continue
				}
				for _, b := range digitsOf(o.st.obj(id).cells[it.bl.unscaled]) {
					own(o, id, b, it.objs[id].name)
				}
			}
			if r.num >= 0 {
				for _, b := range digitsOf(o.st.obj(r.num).cells[0]) {
					own(o, r.num, b, "number")
				}
			}
			rets := []*Val{o.ret}
			if o.ret != nil && o.ret.k == KTuple {
				rets = o.ret.fs
			}
			pick := strings.HasPrefix(r.a.fn.Name(), "Max") || strings.HasPrefix(r.a.fn.Name(), "Min")
			nb := 0
			sig := r.a.fn.Signature.Results()
			for i, v := range rets {
				if v == nil || i >= sig.Len() {
					continue
				}
				if c.p.isBigPtrT(sig.At(i).Type()) {
					want := r.z
					if nb == 1 {
						want = r.z2
					}
					nb++
					for _, p := range v.p {
						ob := it.objs[p.obj]
						switch {
						case pick:
							c.oblige(ob.owner == OwnOperand || ob.owner == OwnLocal && !o.st.obj(p.obj).shr, "returned pointer", r.a.name, pos, "may return %s, which is not an operand (%s)", ob.name, nm)
						case want >= 0:
							c.oblige(p.obj == want, "returned pointer", r.a.name, pos, "may return a pointer to %s instead of its result (%s)", ob.name, nm)
						default:
							ok := ob.owner == OwnLocal && !o.st.obj(p.obj).shr && !(o.st.obj(p.obj).put && !o.st.obj(p.obj).weak)
							c.oblige(ok, "returned pointer", r.a.name, pos, "may return a pointer to %s, which is not a new decimal (%s)", ob.name, nm)
							for _, b := range digitsOf(o.st.obj(p.obj).cells[it.bl.unscaled]) {
								own(o, p.obj, b, ob.name)
							}
						}
					}
					c.oblige(!v.unk, "returned pointer", r.a.name, pos, "the pointer returned is not known (%s)", nm)
				}
				if isNumPtr(sig.At(i).Type()) && !raw {
					for _, p := range v.p {
						ob := it.objs[p.obj]
						ok := p.obj == r.num || ob.owner == OwnLocal && (o.st.obj(p.obj) == nil || !o.st.obj(p.obj).shr)
						if strings.HasPrefix(r.a.name, "arith.BigPow10") {
							ok = true // documented as shared, to be read only
						}
						c.oblige(ok, "returned pointer", r.a.name, pos, "may return a pointer to %s (%s)", ob.name, nm)
						if p.obj != r.num && !strings.HasPrefix(r.a.name, "arith.BigPow10") && o.st.obj(p.obj) != nil && p.off < len(o.st.obj(p.obj).cells) {
							for _, b := range digitsOf(o.st.obj(p.obj).cells[p.off]) {
								own(o, p.obj, b, "new number")
							}
						}
					}
				}
				if v.k == KSlice {
					for _, p := range v.p {
						ob := it.objs[p.obj]
						ok := ob.owner == OwnLocal && !o.st.obj(p.obj).shr || p.obj == r.buf || strings.HasPrefix(r.a.name, "arith.")
						c.oblige(ok, "returned slice", r.a.name, pos, "may return a slice of %s (%s)", ob.name, nm)
					}
				}
			}
		}
		c.oblige(true, "no sharing", nm, "", "")
	})
	c.extra["functions_swept"] = n
}

func poolDiscipline(c *Ctx) {
	c.aliased = true
	n := c.eachRun([]string{modPath}, func(it *Interp, a *api, nm string) {
		it.hooks.use = func(st *State, p Ptr, what string, pos token.Pos) {
			s := st.obj(p.obj)
			if s == nil {
				return
			}
			if s.put && !s.weak {
				c.oblige(false, "use after put", c.siteOf(it, pos), c.p.pos(pos), "a temporary that may have been returned to the pool is %s (%s)", what, nm)
			}
			if !strings.HasPrefix(what, "put") {
				return
			}
			ob := it.objs[p.obj]
			c.oblige(ob.owner == OwnLocal && !s.shr, "own temporary", c.siteOf(it, pos), c.p.pos(pos), "%s, which is not a temporary of the call, is put into the pool (%s)", ob.name, nm)
			if ob.isBig {
				for _, b := range digitsOf(s.cells[it.bl.unscaled]) {
					c.oblige(it.objs[b].backOf == p.obj || it.objs[b].owner == OwnLocal, "own digits", c.siteOf(it, pos), c.p.pos(pos), "a temporary that shares %s is put into the pool (%s)", it.objs[b].name, nm)
				}
			}
		}
		it.hooks.branch = func(st *State, cond *Val, pos token.Pos) {
			if cond.t&TPool != 0 {
				c.oblige(false, "stale content", c.siteOf(it, pos), c.p.pos(pos), "a decision depends on the stale content of a recycled temporary (%s, %s)", nm, it.trace())
			}
		}
	}, func(it *Interp, r *sweepRun, nm string) {
		for _, o := range r.outs {
			if o.pan != "" {
				continue
			}
			for _, id := range []int{r.z, r.z2} {
				if id < 0 {
					continue
				}
				s := o.st.obj(id)
				for i, l := range it.objs[id].leaves {
					c.oblige(s.cells[i].t&TPool == 0, "stale content", r.a.name+" "+l.path, c.p.pos(r.a.fn.Pos()), "%s of the result may be the stale content of a recycled temporary (%s)", l.path, nm)
				}
			}
			for _, v := range o.st.heap.s {
				if it.objs[v.id].isBig && v.o.put && !v.o.weak && o.ret != nil {
					for _, p := range o.ret.p {
						c.oblige(p.obj != v.id, "returned temporary", r.a.name, c.p.pos(r.a.fn.Pos()), "a temporary that was returned to the pool is returned to the caller (%s)", nm)
					}
				}
			}
		}
		c.oblige(true, "pool discipline", nm, "", "")
	})
	c.extra["functions_swept"] = n
	_ = fmt.Sprint
}

// trace names the functions on the stack.
func (it *Interp) trace() string {
	var s []string
	for _, a := range it.stack {
		if a.fn != nil {
			s = append(s, a.fn.Name())
		}
	}
	return strings.Join(s, " > ")
}
