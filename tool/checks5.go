package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Operations that copy a value.

func init() {
	register(&Check{id: "C18", floor: 500, rule: "for Copy, CopyAbs, CopyNeg, CopySign, Canonical, SetSignbit and their equivalents in misc, every class of operands and every aliasing, abstract interpretation with value numbering: sign as documented, coefficient, exponent, payload and kind those of the operand, conditions untouched", run: copies})
}

// copyDecs lists one class of every shape.
func copyDecs() []dec {
	cf := mkRange(i64(1), maxU64.sub(i64(1)))
	all := topNum(types.Typ[types.Uint64])
	fs := []dec{
		fin(k64(0), expNum), fin(cf, expNum), {infl: true, prec: rng(20, 1<<40), exp: expNum, coef: mkConst(maxU64)},
		{kind: dInf}, {kind: dQ, coef: all}, {kind: dS, coef: all},
	}
	var r []dec
	for _, f := range fs {
		r = append(r, f, f.with(true))
	}
	return r
}

// snapshot is the value of a decimal at one time.
type snapshot struct {
	d                     dec
	comp, exp, prec, unsc *Val
	conds                 *Val
}

func (it *Interp) snap(st *State, id int, d dec) snapshot {
	b, s := it.bl, st.obj(id)
	return snapshot{d: d, comp: s.cells[b.compact], exp: s.cells[b.exp], prec: s.cells[b.precision], unsc: s.cells[b.unscaled], conds: s.cells[b.conds]}
}

func sameVal(st *State, a, b *Val) bool {
	if a == b {
		return true
	}
	if a.k == KInt && b.k == KInt {
		x, y := st.num(a), st.num(b)
		if v, ok := x.isConst(); ok && y.eq(mkConst(v)) {
			return true
		}
	}
	return a.e != nil && a.e == b.e
}

// sameValue obliges the decimal id to be x with the given sign.
func (c *Ctx) sameValue(it *Interp, o Outcome, id int, x snapshot, neg bool, nm string, pos string) {
	st, b := o.st, it.bl
	s := st.obj(id)
	d := x.d.with(neg)
	f := st.norm(s.cells[b.form]).n
	c.oblige(f.eq(mkConst(u64(d.form()))), "kind and sign", nm, pos, "the form may be %s, expected %s", formsStr(f), formName(d.form()))
	switch {
	case d.kind == dFin:
		c.oblige(sameVal(st, s.cells[b.compact], x.comp), "coefficient", nm, pos, "the compact word may be %s instead of the operand's", st.num(s.cells[b.compact]))
		c.oblige(sameVal(st, s.cells[b.exp], x.exp), "exponent", nm, pos, "the exponent may be %s instead of the operand's", st.num(s.cells[b.exp]))
		c.oblige(sameVal(st, s.cells[b.precision], x.prec), "precision", nm, pos, "the number of digits may be %s instead of the operand's", st.num(s.cells[b.precision]))
		if d.infl {
			c.oblige(sameVal(st, s.cells[b.unscaled], x.unsc), "coefficient", nm, pos, "the digits may not be the operand's")
		}
	case d.kind >= dQ:
		c.oblige(sameVal(st, s.cells[b.compact], x.comp), "payload", nm, pos, "the payload may be %s instead of the operand's", st.num(s.cells[b.compact]))
	}
}

func formsStr(f Num) string {
	if f.set == nil {
		return "anything"
	}
	s := ""
	for i, x := range f.set {
		if i > 0 {
			s += ", "
		}
		s += formName(x.l)
	}
	return s
}

func (c *Ctx) sameConds(it *Interp, o Outcome, id int, z *Val, nm, pos string) {
	v := o.st.obj(id).cells[it.bl.conds]
	c.oblige(sameVal(o.st, v, z), "conditions", nm, pos, "the conditions may change to %s", condNum(o.st.norm(v).n))
}

func (c *Ctx) sameRet(o Outcome, id int, nm, pos string) {
	v := o.ret
	if v != nil && v.k == KTuple {
		v = v.fs[0]
	}
	c.oblige(v != nil && v.k == KPtr && !v.unk && len(v.p) == 1 && v.p[0].obj == id, "returns the result", nm, pos, "may not return the result parameter")
}

func copies(c *Ctx) {
	type op struct {
		nm   string
		fn   *ssa.Function
		n    int // operands
		sign func(x, y bool) bool
	}
	id := func(x, y bool) bool { return x }
	abs := func(x, y bool) bool { return false }
	neg := func(x, y bool) bool { return !x }
	snd := func(x, y bool) bool { return y }
	ops := []op{{"Big.Copy", c.bigMethod("Copy"), 1, id}, {"Big.Canonical", c.bigMethod("Canonical"), 1, id}, {"Big.CopyAbs", c.bigMethod("CopyAbs"), 1, abs},
		{"Big.CopyNeg", c.bigMethod("CopyNeg"), 1, neg}, {"Big.CopySign", c.bigMethod("CopySign"), 2, snd},
		{"misc.Canonical", c.fnOf("/misc", "Canonical"), 1, id}, {"misc.CopyAbs", c.fnOf("/misc", "CopyAbs"), 1, abs}, {"misc.CopyNeg", c.fnOf("/misc", "CopyNeg"), 1, neg}}
	ds := copyDecs()
	spec := anyCtx(rng(0, 1))
	zspec := spec
	zspec.conds = mkRange(i64(0), i64(0x1fff))
	olds := append(ds, dec{name: "any"})
	for _, op := range ops {
		op := op
		if op.fn == nil {
			continue
		}
		pos := c.p.pos(op.fn.Pos())
		for _, x := range ds {
			// z distinct from the operands
			ys := ds[:1]
			if op.n == 2 {
				ys = ds
			}
			for _, y := range ys {
				// al: 0 distinct, 1 z==x, 2 z==y, 3 x==y, 4 all the same
				for al := 0; al < 5; al++ {
					if al > 1 && op.n < 2 || al >= 3 && x.String() != y.String() {
						continue
					}
					zs := olds
					if al == 1 || al == 2 || al == 4 {
						zs = olds[:1]
					}
					for _, z := range zs {
						x, y, z, al := x, y, z, al
						if op.n == 2 && al == 0 && z.name == "" && z.form()&1 == 0 {
							continue
						}
						nm := op.nm + "(" + x.String()
						if op.n == 2 {
							nm += ", " + y.String()
						}
						nm += []string{")", "), z == x", "), z == y", "), x == y", "), all the same"}[al]
						var xi, zi int
						var sx snapshot
						var zc *Val
						c.probe(nm, op.fn, func(it *Interp, st *State) []*Val {
							var yi int
							if al == 1 || al == 4 {
								xi = it.decimal(st, "x", OwnResult, x, zspec)
							} else {
								xi = it.decimal(st, "x", OwnOperand, x, spec)
							}
							switch {
							case op.n < 2:
							case al >= 3:
								yi = xi
							case al == 2:
								yi = it.decimal(st, "y", OwnResult, y, zspec)
							default:
								yi = it.decimal(st, "y", OwnOperand, y, spec)
							}
							switch al {
							case 1, 4:
								zi = xi
							case 2:
								zi = yi
							default:
								if z.name == "any" {
									zsp := zspec
									zsp.prefix = "z."
									zi = it.newBig(st, "z", OwnResult, -1, zsp, 0)
								} else {
									zi = it.decimal(st, "z", OwnResult, z, zspec)
								}
							}
							sx = it.snap(st, xi, x)
							zc = st.obj(zi).cells[it.bl.conds]
							r := []*Val{ptrV(RRes, Ptr{zi, 0}), opPtr(xi)}
							if op.n == 2 {
								r = append(r, opPtr(yi))
							}
							return r
						}, func(it *Interp, o Outcome) {
							c.sameRet(o, zi, nm, pos)
							c.sameValue(it, o, zi, sx, op.sign(x.neg, y.neg), nm, pos)
							c.sameConds(it, o, zi, zc, nm, pos)
						})
					}
				}
			}
		}
	}
	for _, op := range []op{{"Big.SetSignbit", c.bigMethod("SetSignbit"), 0, nil}, {"misc.SetSignbit", c.fnOf("/misc", "SetSignbit"), 0, nil}} {
		op := op
		if op.fn == nil {
			continue
		}
		pos := c.p.pos(op.fn.Pos())
		for _, x := range ds {
			for _, sg := range []bool{false, true} {
				x, sg := x, sg
				nm := op.nm + "(" + x.String() + ", " + map[bool]string{false: "false", true: "true"}[sg] + ")"
				var zi int
				var sx snapshot
				c.probe(nm, op.fn, func(it *Interp, st *State) []*Val {
					zi = it.decimal(st, "z", OwnResult, x, zspec)
					sx = it.snap(st, zi, x)
					return []*Val{ptrV(RRes, Ptr{zi, 0}), boolV(sg)}
				}, func(it *Interp, o Outcome) {
					c.sameRet(o, zi, nm, pos)
					c.sameValue(it, o, zi, sx, sg, nm, pos)
					c.sameConds(it, o, zi, sx.conds, nm, pos)
				})
			}
		}
	}
	c.wg.Wait()
}
