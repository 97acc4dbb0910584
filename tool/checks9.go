package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Constructors, accessors and conversions to and from integers.

func init() {
	register(&Check{id: "C27", floor: 3000, rule: "for every constructor, accessor and integer conversion, on values and coefficients around every representation boundary, every scale class, any previous state of the receiver and any Context: the interval analysis yields exactly the coefficient, sign and exponent of value x 10^-scale (or the truncated integer and its range flag), touches nothing else and raises no condition", run: ctors})
}

func (it *Interp) bigIntObj(st *State, nm string, o Owner, n Num) int {
	ob := it.newObj(bigIntT, nm, o)
	st.heap.set(ob.id, it.initCells(ob, func(l Leaf, i int) *Val {
		return &Val{k: KBig, sign: numSign(n), n: n, e: it.x.named(nm), p: []Ptr{{it.backing(Ptr{ob.id, 0}), 0}}}
	}))
	return ob.id
}

func ctors(c *Ctx) {
	any := anyCtx(rng(0, 1))
	any.conds = rng(0, 0)
	type val struct{ lo, hi string }
	scales := []Num{k64(0), k64(7), k64(-7), rng(-1000, 1000), rng(-maxScale, maxScale)}
	ints := []val{{"0", "0"}, {"1", "1"}, {"-1", "-1"}, {"9", "9"}, {"10", "10"}, {"-10", "-10"}, {"1", "9"}, {"-99", "-10"}, {"1000000000", "9223372036854775807"}, {"9223372036854775807", "9223372036854775807"}, {"-9223372036854775808", "-9223372036854775808"}, {"-9223372036854775808", "-9223372036854775000"}, {"-9223372036854775807", "-1"}, {"-9999999999", "-1000000000"}}
	uints := []val{{"0", "0"}, {"1", "1"}, {"9", "10"}, {"9223372036854775807", "9223372036854775809"}, {"9999999999999999999", "10000000000000000000"}, {"18446744073709551614", "18446744073709551614"}, {"18446744073709551615", "18446744073709551615"}, {"1", "18446744073709551614"}}
	bigs := append(append([]val{}, ints...), val{"18446744073709551614", "18446744073709551614"}, val{"18446744073709551615", "18446744073709551615"}, val{"18446744073709551616", "18446744073709551619"}, val{"-18446744073709551615", "-18446744073709551615"}, val{"-99999999999999999999999", "-20000000000000000000000"}, val{"100000000000000000000000000000", "100000000000000000000000000000"}, val{"-18446744073709551614", "-1"})

	// want obliges the decimal id to have this coefficient, sign and exponent.
	want := func(it *Interp, o Outcome, id int, v Num, exp Num, nm, pos string) {
		r := it.outVal(o.st, id)
		neg := v.hi.sign() < 0
		m := magAbs(v)
		f, okf := r.form.isConst()
		c.oblige(okf && f == u64(b2u(neg)), "form", nm, pos, "the result may be %s, expected signbit %v", r, neg)
		in := !r.coef.unknown() && !r.coef.isBot() && r.coef.lo.cmp(m.lo) >= 0 && r.coef.hi.cmp(m.hi) <= 0
		c.oblige(in, "value", nm, pos, "the result may be %s, expected the coefficient %s", r, m)
		c.oblige(r.exp.lo.cmp(exp.lo) >= 0 && r.exp.hi.cmp(exp.hi) <= 0, "exponent", nm, pos, "the result may be %s, expected the exponent %s", r, exp)
		if in {
			l, h := magLen(m)
			if l != h {
				l = 1
			}
			c.oblige(r.prec.lo.cmp(i64(l)) >= 0 && r.prec.hi.cmp(i64(h)) <= 0, "length", nm, pos, "the length recorded for %s may be %s", r, r.prec)
		}
		n := o.st.norm(o.st.obj(id).cells[it.bl.conds]).n
		c.oblige(n.eq(k64(0)), "conditions", nm, pos, "may raise %s", condNum(n))
	}
	negated := func(n Num) Num { return mkRange(i64(0).sub(n.hi), i64(0).sub(n.lo)) }
	// A receiver of any previous value.
	recv := func(it *Interp, st *State) int {
		s := any
		s.prefix = "z."
		return it.newBig(st, "z", OwnResult, -1, s, 0)
	}
	scaleV := func(it *Interp, st *State, s Num) (*Val, Num) {
		if k, ok := s.isConst(); ok {
			return constV(k), negated(s)
		}
		return st.intVal(s, it.x.named("scale")), negated(s)
	}
	intV := func(it *Interp, st *State, n Num) *Val {
		if k, ok := n.isConst(); ok {
			return constV(k)
		}
		return st.intVal(n, it.x.named("value"))
	}
	num := func(v val) Num { return rngS(v.lo, v.hi) }
	// scaleExact obliges the exponent to be the negated scale, not just any
	// number in range.
	newF := c.fnOf("", "New")
	sms, su, sbm, ss := c.bigMethod("SetMantScale"), c.bigMethod("SetUint64"), c.bigMethod("SetBigMantScale"), c.bigMethod("SetScale")
	for _, v := range ints {
		n := num(v)
		for _, s := range scales {
			s := s
			desc := "(" + n.String() + ", " + s.String() + ")"
			for _, f := range []*ssa.Function{newF, sms} {
				f := f
				if f == nil {
					continue
				}
				nm, pos := f.Name()+desc, c.p.pos(f.Pos())
				id := -1
				c.probe(nm, f, func(it *Interp, st *State) []*Val {
					sv, _ := scaleV(it, st, s)
					args := []*Val{intV(it, st, n), sv}
					if f == sms {
						id = recv(it, st)
						args = append([]*Val{ptrV(RRes, Ptr{id, 0})}, args...)
					}
					return args
				}, func(it *Interp, o Outcome) {
					id := id
					if f == newF {
						if o.ret == nil || o.ret.k != KPtr || o.ret.unk || len(o.ret.p) != 1 {
							c.oblige(false, "result", nm, pos, "no single result")
							return
						}
						id = o.ret.p[0].obj
					} else {
						c.sameRet(o, id, nm, pos)
					}
					want(it, o, id, n, negated(s), nm, pos)
				})
			}
		}
	}
	for _, v := range uints {
		n := num(v)
		nm, pos := "SetUint64("+n.String()+")", c.p.pos(su.Pos())
		id := -1
		c.probe(nm, su, func(it *Interp, st *State) []*Val {
			id = recv(it, st)
			return []*Val{ptrV(RRes, Ptr{id, 0}), intV(it, st, n)}
		}, func(it *Interp, o Outcome) {
			c.sameRet(o, id, nm, pos)
			want(it, o, id, n, k64(0), nm, pos)
		})
	}
	for _, v := range bigs {
		n := num(v)
		for _, s := range scales {
			s := s
			nm, pos := "SetBigMantScale("+n.String()+", "+s.String()+")", c.p.pos(sbm.Pos())
			id := -1
			c.probe(nm, sbm, func(it *Interp, st *State) []*Val {
				id = recv(it, st)
				sv, _ := scaleV(it, st, s)
				return []*Val{ptrV(RRes, Ptr{id, 0}), opPtr(it.bigIntObj(st, "value", OwnOperand, n)), sv}
			}, func(it *Interp, o Outcome) {
				c.sameRet(o, id, nm, pos)
				want(it, o, id, n, negated(s), nm, pos)
			})
		}
	}
	// SetScale, Scale, Precision, Mantissa and the conversions.
	scale, precision, mantissa := c.bigMethod("Scale"), c.bigMethod("Precision"), c.bigMethod("Mantissa")
	toInt, toI64, toU64 := c.bigMethod("Int"), c.bigMethod("Int64"), c.bigMethod("Uint64")
	setInf, setNaN, setSign, payload := c.bigMethod("SetInf"), c.bigMethod("SetNaN"), c.bigMethod("SetSignbit"), c.bigMethod("Payload")
	specials := []dec{{kind: dInf}, {kind: dInf, neg: true}, {kind: dQ}, {kind: dS, neg: true}}
	var all []dec
	for _, k := range append(coefs(), rngS("9223372036854775807", "9223372036854775807"), rngS("9223372036854775808", "9223372036854775808"), rngS("9223372036854775809", "9223372036854775809"), rngS("92233720368547758079", "92233720368547758079"), rngS("9223372036854775808000000000000", "9223372036854775808000000000000"), rngS("99999999999999999999", "99999999999999999999"), rngS("1234567890", "1234567999")) {
		for _, e := range []int64{0, 1, -1, 5, -5, -11, -12, -18, -19, -20, -21, -31, 18, 19, 20, -400} {
			for _, neg := range []bool{false, true} {
				all = append(all, decN(k, neg, e))
			}
		}
	}
	probe1 := func(fn *ssa.Function, d dec, own Owner, more func(it *Interp, st *State) []*Val, f func(it *Interp, o Outcome, id int, nm, pos string)) {
		if fn == nil {
			return
		}
		nm, pos := fn.Name()+"("+d.String()+")", c.p.pos(fn.Pos())
		id := -1
		c.probe(nm, fn, func(it *Interp, st *State) []*Val {
			id = it.decimal(st, "x", own, d, any)
			args := []*Val{opPtr(id)}
			if more != nil {
				args = append(args, more(it, st)...)
			}
			return args
		}, func(it *Interp, o Outcome) { f(it, o, id, nm, pos) })
	}
	within := func(r, w Num) bool {
		return !r.unknown() && !r.isBot() && r.lo.cmp(w.lo) >= 0 && r.hi.cmp(w.hi) <= 0
	}
	for _, d := range all {
		d := d
		e := int64(d.exp.lo.l)
		probe1(scale, d, OwnOperand, nil, func(it *Interp, o Outcome, id int, nm, pos string) {
			c.oblige(retNum(o, 0).eq(k64(-e)), "accessor", nm, pos, "may return %s, expected %d", retNum(o, 0), -e)
		})
		lo, hi := d.digitCount()
		probe1(precision, d, OwnOperand, nil, func(it *Interp, o Outcome, id int, nm, pos string) {
			c.oblige(within(retNum(o, 0), rng(lo, hi)), "accessor", nm, pos, "may return %s, expected [%d,%d]", retNum(o, 0), lo, hi)
		})
		probe1(mantissa, d, OwnOperand, nil, func(it *Interp, o Outcome, id int, nm, pos string) {
			c.oblige(retNum(o, 1).eq(k64(int64(1-b2i(d.infl)))), "accessor", nm, pos, "may report %s", retNum(o, 1))
			if !d.infl {
				c.oblige(within(retNum(o, 0), d.coef), "accessor", nm, pos, "may return %s", retNum(o, 0))
			}
		})
		for _, s := range []int64{0, 3, -e, 77} {
			s := s
			w := d
			w.exp = k64(-s)
			probe1(ss, d, OwnResult, func(it *Interp, st *State) []*Val { return []*Val{constV(i64(s))} }, func(it *Interp, o Outcome, id int, nm, pos string) {
				c.sameRet(o, id, nm, pos)
				lo, hi := w.vals()
				c.isExact(it, o, id, exactWant{lo: lo, hi: hi, exp: -s, neg: d.neg}, nm, "the result", pos)
			})
		}
		for _, sg := range []bool{false, true} {
			w := d.with(sg)
			probe1(setSign, d, OwnResult, func(it *Interp, st *State) []*Val { return []*Val{constV(i64(int64(b2i(sg))))} }, func(it *Interp, o Outcome, id int, nm, pos string) {
				c.sameRet(o, id, nm, pos)
				lo, hi := w.vals()
				c.isExact(it, o, id, exactWant{lo: lo, hi: hi, exp: e, neg: sg}, nm, "the result", pos)
			})
		}
		// The truncated magnitude.
		l, h := d.mags()
		tl, th := new(bigInt).Quo(l.Num(), l.Denom()), new(bigInt).Quo(h.Num(), h.Denom())
		if th.BitLen() > 120 || e < -40 && d.infl {
			continue
		}
		mag := mkRange(fromBig(tl), fromBig(th))
		sv := mag
		if d.neg {
			sv = negated(mag)
		}
		toInt := toInt
		if e < -40 {
			toInt = nil // 10^400 is beyond the analysis
		}
		probe1(toInt, d, OwnOperand, func(it *Interp, st *State) []*Val {
			return []*Val{ptrV(RRes, Ptr{it.bigIntObj(st, "z", OwnResult, Num{}), 0})}
		}, func(it *Interp, o Outcome, id int, nm, pos string) {
			v := o.ret
			ok := v != nil && v.k == KPtr && !v.unk && len(v.p) == 1
			var r Num
			if ok {
				r = it.magOf(o.st, it.load(o.st, v, bigIntT, token.NoPos))
				ok = within(r, sv)
			}
			c.oblige(ok, "truncated", nm, pos, "may return %s, expected %s", r, sv)
		})
		conv := func(fn *ssa.Function, min, max I) {
			yes := within(sv, mkRange(min, max))
			if fn == toU64 && d.neg {
				if sv.hi.sign() == 0 {
					return
				}
				yes = false
			}
			if !yes && !(sv.lo.cmp(max) > 0 || sv.hi.cmp(min) < 0) {
				return
			}
			probe1(fn, d, OwnOperand, nil, func(it *Interp, o Outcome, id int, nm, pos string) {
				c.oblige(retNum(o, 1).eq(k64(int64(b2i(yes)))), "range", nm, pos, "reports success %s, expected %v", retNum(o, 1), yes)
				if yes {
					c.oblige(within(retNum(o, 0), sv), "truncated", nm, pos, "may return %s, expected %s", retNum(o, 0), sv)
				}
			})
		}
		conv(toI64, i64(-1<<63), i64(1<<63-1))
		conv(toU64, i64(0), maxU64)
	}
	for _, d := range specials {
		for _, fn := range []*ssa.Function{toI64, toU64, mantissa} {
			fn := fn
			probe1(fn, d, OwnOperand, nil, func(it *Interp, o Outcome, id int, nm, pos string) {
				c.oblige(retNum(o, 1).eq(k64(0)), "range", nm, pos, "may report success")
			})
		}
	}
	forms := append(append([]dec{}, specials...), fin(k64(0), k64(3)), fin(rng(5, 50), k64(-3)).with(true), dec{infl: true, prec: rng(20, 40), exp: k64(0), coef: mkConst(maxU64)})
	for _, d := range forms {
		for _, b := range []int64{0, 1} {
			b := b
			arg := func(it *Interp, st *State) []*Val { return []*Val{constV(i64(b))} }
			form := func(w uint64) func(it *Interp, o Outcome, id int, nm, pos string) {
				return func(it *Interp, o Outcome, id int, nm, pos string) {
					c.sameRet(o, id, nm, pos)
					f := o.st.norm(o.st.obj(id).cells[it.bl.form]).n
					c.oblige(f.eq(mkConst(u64(w))), "form", nm, pos, "the form may be %s", formsStr(f))
					n := o.st.norm(o.st.obj(id).cells[it.bl.conds]).n
					c.oblige(n.eq(k64(0)), "conditions", nm, pos, "may raise %s", condNum(n))
				}
			}
			probe1(setInf, d, OwnResult, arg, form(dec{kind: dInf, neg: b == 1}.form()))
			k := dQ
			if b == 1 {
				k = dS
			}
			probe1(setNaN, d, OwnResult, arg, func(it *Interp, o Outcome, id int, nm, pos string) {
				form(dec{kind: k}.form())(it, o, id, nm, pos)
				n := o.st.num(o.st.obj(id).cells[it.bl.compact])
				c.oblige(n.eq(k64(0)), "payload", nm, pos, "the payload may be %s", n)
			})
			probe1(setSign, d, OwnResult, arg, form(d.with(b == 1).form()))
		}
		if d.kind >= dQ {
			d.coef = rng(17, 19)
		}
		probe1(payload, d, OwnOperand, nil, func(it *Interp, o Outcome, id int, nm, pos string) {
			w := k64(0)
			if d.kind >= dQ {
				w = d.coef
			}
			c.oblige(within(retNum(o, 0), w), "payload", nm, pos, "may return %s, expected %s", retNum(o, 0), w)
		})
	}
	c.wg.Wait()
}
