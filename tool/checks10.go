package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// The arithmetic helpers do what their names say. The other checks rely on
// this: they replace calls of the helpers by their meaning.

func init() {
	register(&Check{id: "C24", floor: 1500, rule: "the bodies of the helpers of internal/arith: digit counts and powers of ten on intervals between consecutive powers of ten and two; sums, differences and products of up to four words with symbolic words, as polynomial identities on every path of carries; comparisons for every relation of symbolic words", run: helpers})
}

func helpers(c *Ctx) {
	c.helperWords()
	c.helperInts()
	c.helperPowers()
	c.wg.Wait()
}

func (c *Ctx) arith(nm string) *ssa.Function { return c.fnOf("/internal/arith", nm) }

var wordT = types.Typ[types.Uint]

// wordObj makes a big.Int of these words, with some spare capacity.
func (it *Interp) wordObj(st *State, nm string, o Owner, ws []*Val, spare int) (id int, words int) {
	arr := it.newObj(types.NewArray(wordT, int64(len(ws)+spare)), nm+" words", o)
	st.heap.set(arr.id, it.initCells(arr, func(l Leaf, i int) *Val {
		if i < len(ws) {
			return ws[i]
		}
		return st.intVal(topNum(wordT), it.x.newAtom())
	}))
	ob := it.newObj(bigIntT, nm, o)
	v := &Val{k: KBig, sign: 4, e: it.x.named(nm), ln: constV(i64(int64(len(ws)))), p: []Ptr{{arr.id, 0}}}
	if len(ws) == 0 {
		v.sign = 2
	}
	if len(ws)+spare == 0 {
		v.p = nil
	}
	st.heap.set(ob.id, it.initCells(ob, func(l Leaf, i int) *Val { return v }))
	return ob.id, arr.id
}

// helperWords decides Add, Sub, Mul, Set and CmpBits on symbolic words.
func (c *Ctx) helperWords() {
	// Classes of a word on which the usual formulas for a carry are constant.
	top := maxU64
	half := u64(1 << 63)
	one := i64(1)
	cls := []Num{k64(0), mkRange(one, half.sub(i64(2))), mkConst(half.sub(one)), mkConst(half), mkRange(half.add(one), top.sub(one)), mkConst(top)}
	full, pos := mkRange(i64(0), top), mkRange(one, top)
	maxM := 3
	if c.thorough() {
		maxM = 4
	}
	type zkind struct {
		words, spare int
		alias        bool
	}
	zs := []zkind{{0, 0, false}, {1, 0, false}, {2, 6, false}, {0, 0, true}}
	run := func(nm string, fn *ssa.Function, xs []Num, y Num, zk zkind, before func(it *Interp, st *State, x []*Val, y *Val) bool, k func(yp poly) poly, plusX bool) {
		if fn == nil {
			return
		}
		at := c.p.pos(fn.Pos())
		c.spawn(nm, func(it *Interp) {
			it.magMode()
			it.words, it.unroll, it.bndCap = true, true, 4000
			st := it.newState()
			word := func(n Num, nm string) *Val {
				if k, ok := n.isConst(); ok {
					return constV(k)
				}
				return st.intVal(n, it.x.named(nm))
			}
			var ws []*Val
			for i, n := range xs {
				ws = append(ws, word(n, fmt.Sprintf("x%d", i)))
			}
			yv := word(y, "y")
			spare := 0
			if zk.alias {
				spare = zk.spare
			}
			x, xw := it.wordObj(st, "x", OwnOperand, ws, spare)
			z := x
			if !zk.alias {
				var zw []*Val
				for i := 0; i < zk.words; i++ {
					zw = append(zw, st.intVal(pos, it.x.named(fmt.Sprintf("z%d", i))))
				}
				z, _ = it.wordObj(st, "z", OwnResult, zw, zk.spare)
			}
			if before != nil && !before(it, st, ws, yv) {
				return
			}
			st0 := st.clone()
			// The expected polynomial: the sum of the words of x, or nothing,
			// plus the share of y.
			want := poly{}
			b := bigN(1)
			for _, w := range ws {
				e := st0.expr(w)
				q, err := lin(st0, e)
				if !plusX {
					q, err = prod(e, st0.expr(yv)), nil
				}
				if err != nil {
					it.undecided("%v", err)
					return
				}
				want.add(q, b)
				b = new(bigInt).Mul(b, two64)
			}
			yp, err := lin(st0, st0.expr(yv))
			if err != nil {
				it.undecided("%v", err)
				return
			}
			if k != nil {
				want.add(k(yp), bigOne)
			}
			outs := it.enter(st, fn, []*Val{ptrV(RRes, Ptr{z, 0}), ptrV(ROp, Ptr{x, 0}), yv})
			c.complete(it, nm)
			c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
			for _, o := range outs {
				if o.pan != "" {
					c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
					continue
				}
				if it.impossible(o.st, o.st.obj(z).cells[0]) {
					continue
				}
				c.sameRet(o, z, nm, at)
				v := o.st.obj(z).cells[0]
				got, err := it.number(o.st, v)
				if err == errImpossible {
					continue
				}
				if err != nil {
					c.oblige(false, "value", nm, at, "the result is not decided: %v", err)
					continue
				}
				// Words that this path knows to be zero.
				w := poly{}.add(want, bigOne).add(got, bigN(-1))
				c.oblige(len(w.known(it, o.st)) == 0, "value", nm, at, "the result may be %s, expected %s", got, want)
				if !zk.alias {
					s := o.st.obj(xw)
					same := len(s.cells) == len(ws)
					for i := range ws {
						same = same && i < len(s.cells) && o.st.expr(s.cells[i]) == st0.expr(ws[i])
					}
					c.oblige(same, "operand", nm, at, "the operand changes")
					c.oblige(len(v.p) == 0 || v.p[0].obj != xw, "storage", nm, at, "the result shares the words of the operand")
				}
			}
		})
	}
	var words func(m int, f func(xs []Num))
	words = func(m int, f func(xs []Num)) {
		if m == 0 {
			f(nil)
			return
		}
		if m == 1 {
			f([]Num{pos})
			return
		}
		var rec func(xs []Num)
		rec = func(xs []Num) {
			if len(xs) == m {
				f(append([]Num{}, xs...))
				return
			}
			for i, n := range cls {
				if i == 0 && len(xs) == m-1 {
					continue
				}
				rec(append(xs, n))
			}
		}
		rec([]Num{full})
	}
	for m := 0; m <= maxM; m++ {
		for zi, zk := range zs {
			if zk.alias {
				zk.spare = zi % 2 * 4
			}
			zk := zk
			if m == 0 && zk.alias {
				zk.spare = 4
			}
			words(m, func(xs []Num) {
				d := fmt.Sprintf("(%v, y) z=%v", xs, zk)
				for _, y := range []Num{k64(0), pos} {
					run("Add"+d, c.arith("Add"), xs, y, zk, nil, func(y poly) poly { return y }, true)
					if m > 0 || y.eq(k64(0)) {
						var before func(it *Interp, st *State, x []*Val, y *Val) bool
						if m == 1 {
							before = func(it *Interp, st *State, x []*Val, y *Val) bool {
								return st.assume(it.x.mk("<", st.expr(x[0]), st.expr(y), I{}, ""), false)
							}
						}
						run("Sub"+d, c.arith("Sub"), xs, y, zk, before, func(y poly) poly { return poly{}.add(y, bigN(-1)) }, true)
					}
				}
			})
			xs := []Num{}
			for i := 0; i < m; i++ {
				xs = append(xs, full)
			}
			if m > 0 {
				xs[m-1] = pos
			}
			for _, y := range []Num{k64(0), pos, k64(1)} {
				run(fmt.Sprintf("Mul(%v, %s) z=%v", xs, y, zk), c.arith("Mul"), xs, y, zk, nil, nil, false)
			}
		}
	}
	// Set
	if fn := c.arith("Set"); fn != nil {
		for _, zk := range zs[:3] {
			nm, at := fmt.Sprintf("Set(hi, lo) z=%v", zk), c.p.pos(fn.Pos())
			zk := zk
			c.spawn(nm, func(it *Interp) {
				it.magMode()
				it.words, it.unroll, it.bndCap = true, true, 4000
				for fn, m := range it.models {
					if m.name == "Set" {
						delete(it.models, fn)
					}
				}
				st := it.newState()
				var zw []*Val
				for i := 0; i < zk.words; i++ {
					zw = append(zw, st.intVal(pos, it.x.newAtom()))
				}
				z, _ := it.wordObj(st, "z", OwnResult, zw, zk.spare)
				hi, lo := st.intVal(full, it.x.named("hi")), st.intVal(full, it.x.named("lo"))
				outs := it.enter(st, fn, []*Val{ptrV(RRes, Ptr{z, 0}), hi, lo})
				c.complete(it, nm)
				c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
				for _, o := range outs {
					c.sameRet(o, z, nm, at)
					got, err := it.number(o.st, o.st.obj(z).cells[0])
					want := poly{}.add(term("hi"), two64).add(term("lo"), bigOne)
					c.oblige(err == nil && len(poly{}.add(want, bigOne).add(got, bigN(-1)).known(it, o.st)) == 0, "value", nm, at, "the result may be %s (%v), expected %s", got, err, want)
				}
			})
		}
	}
	if fn := c.arith("Words"); fn != nil {
		c.wordProbe("Words(x)", fn, func(it *Interp, st *State) []*Val {
			return []*Val{st.intVal(full, it.x.named("x"))}
		}, func(it *Interp, o Outcome, nm, at string) {
			cs, ok := it.cellsOf(o.st, o.ret)
			c.oblige(ok && len(cs) == 1 && o.st.expr(cs[0]) == it.x.named("x"), "value", nm, at, "the result is not the word x")
		})
	}
	// CmpBits
	fn := c.arith("CmpBits")
	if fn == nil {
		return
	}
	slice := func(it *Interp, st *State, nm string, ws []*Val) *Val {
		arr := it.newObj(types.NewArray(wordT, int64(len(ws))), nm, OwnOperand)
		st.heap.set(arr.id, it.initCells(arr, func(l Leaf, i int) *Val { return ws[i] }))
		v := &Val{k: KSlice, sign: 6, ln: constV(i64(int64(len(ws)))), p: []Ptr{{arr.id, 0}}}
		if len(ws) == 0 {
			v.p, v.null = nil, true
		}
		return v
	}
	for m := 0; m <= 4; m++ {
		for n := 0; n <= 4; n++ {
			for at := -1; at < m; at++ {
				if m != n && at >= 0 {
					break
				}
				for _, rel := range []int{-1, 1} {
					m, n, at, rel := m, n, at, rel
					want := int64(0)
					switch {
					case m < n:
						want = -1
					case m > n:
						want = 1
					case at >= 0:
						want = int64(rel)
					}
					if want != int64(rel) && want != 0 || want == 0 && rel == 1 {
						continue
					}
					c.wordProbe(fmt.Sprintf("CmpBits of %d and %d words, first difference %d at %d", m, n, rel, at), fn, func(it *Interp, st *State) []*Val {
						var xs, ys []*Val
						for i := 0; i < m || i < n; i++ {
							x := st.intVal(full, it.x.named(fmt.Sprintf("x%d", i)))
							y := st.intVal(full, it.x.named(fmt.Sprintf("y%d", i)))
							if m == n && i > at {
								y = x
							}
							if m == n && i == at {
								a, b := x, y
								if rel > 0 {
									a, b = y, x
								}
								st.assume(it.x.mk("<", a.e, b.e, I{}, ""), true)
								st.assume(it.x.mk("<", b.e, a.e, I{}, ""), false)
								st.assume(st.eqExpr(a.e, b.e), false)
							}
							if i < m {
								xs = append(xs, x)
							}
							if i < n {
								ys = append(ys, y)
							}
						}
						return []*Val{slice(it, st, "x", xs), slice(it, st, "y", ys)}
					}, func(it *Interp, o Outcome, nm, at string) {
						c.oblige(retNum(o, 0).eq(k64(want)), "comparison", nm, at, "may return %s, expected %d", retNum(o, 0), want)
					})
				}
			}
		}
	}
}

// known removes the terms of p that are zero on this path.
func (p poly) known(it *Interp, st *State) poly {
	q := poly{}
	for t, k := range p {
		if n, ok := st.facts.get(it.x.named(t)); ok && n.eq(k64(0)) {
			continue
		}
		q[t] = k
	}
	return q
}

// wordProbe interprets the body of fn, following every path.
func (c *Ctx) wordProbe(nm string, fn *ssa.Function, build func(it *Interp, st *State) []*Val, f func(it *Interp, o Outcome, nm, at string)) {
	if fn == nil {
		return
	}
	c.spawn(nm, func(it *Interp) { c.wordRun(it, nm, fn, build, f) })
}

func (c *Ctx) wordRun(it *Interp, nm string, fn *ssa.Function, build func(it *Interp, st *State) []*Val, f func(it *Interp, o Outcome, nm, at string)) {
	it.magMode()
	delete(it.models, fn)
	it.words, it.unroll, it.bndCap = true, true, 4000
	st := it.newState()
	args := build(it, st)
	at := c.p.pos(fn.Pos())
	outs := it.enter(st, fn, args)
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	for _, o := range outs {
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		f(it, o, nm, at)
	}
}

// helperInts decides the helpers of 64-bit numbers.
func (c *Ctx) helperInts() {
	full := mkRange(i64(0), maxU64)
	arg := func(n Num) func(it *Interp, st *State) []*Val {
		return func(it *Interp, st *State) []*Val { return []*Val{it.argOf(st, n, "x")} }
	}
	within := func(r, w Num) bool {
		return !r.unknown() && !r.isBot() && r.lo.cmp(w.lo) >= 0 && r.hi.cmp(w.hi) <= 0
	}
	ten := func(k int64) I { return fromBig(pow10(k)) }
	length, isPow, mul, cmpShift := c.arith("Length"), c.arith("PowOfTen"), c.arith("MulPow10"), c.arith("CmpShift")
	for k := int64(0); k < 20; k++ {
		lo, hi := ten(k), ten(k+1).sub(i64(1))
		if k == 0 {
			lo = i64(0)
		}
		if k == 19 {
			hi = maxU64
		}
		ns := []Num{mkRange(lo, hi), mkConst(lo), mkConst(hi)}
		k := k
		for _, n := range ns {
			c.wordProbe("Length("+n.String()+")", length, arg(n), func(it *Interp, o Outcome, nm, at string) {
				c.oblige(retNum(o, 0).eq(k64(k+1)), "length", nm, at, "may return %s, expected %d", retNum(o, 0), k+1)
			})
		}
		for _, t := range []struct {
			n Num
			w int64
		}{{mkConst(ten(k)), 1}, {mkRange(ten(k).add(i64(1)), hi), 0}, {mkConst(ten(k).add(i64(1))), 0}, {mkConst(hi), 0}} {
			w := t.w
			if k == 0 && t.n.hi == i64(9) && t.n.lo == i64(9) || t.n.isBot() {
				continue
			}
			if k == 0 && t.n.eq(mkConst(i64(1))) {
				w = 1
			}
			c.wordProbe("PowOfTen("+t.n.String()+")", isPow, arg(t.n), func(it *Interp, o Outcome, nm, at string) {
				c.oblige(retNum(o, 0).eq(k64(w)), "power of ten", nm, at, "may return %s, expected %d", retNum(o, 0), w)
			})
		}
	}
	c.wordProbe("PowOfTen(0)", isPow, arg(k64(0)), func(it *Interp, o Outcome, nm, at string) {
		c.oblige(retNum(o, 0).eq(k64(0)), "power of ten", nm, at, "may return %s, expected 0", retNum(o, 0))
	})
	// x*10^n fits exactly if x <= (2^64-1)/10^n.
	for n := int64(0); n <= 21; n++ {
		n := n
		q := i64(0)
		if n < 20 {
			q = fromBig(new(bigInt).Quo(maxU64.big(), pow10(n)))
		}
		for _, t := range []struct {
			x  Num
			ok bool
		}{{k64(0), true}, {mkRange(i64(0), q), true}, {mkConst(q), true}, {mkRange(q.add(i64(1)), maxU64), false}, {mkConst(q.add(i64(1))), false}, {mkConst(maxU64), n == 0}} {
			if t.x.lo.cmp(maxU64) > 0 || t.x.isBot() {
				continue
			}
			t := t
			c.wordProbe(fmt.Sprintf("MulPow10(%s, %d)", t.x, n), mul, func(it *Interp, st *State) []*Val {
				return []*Val{it.argOf(st, t.x, "x"), constV(i64(n))}
			}, func(it *Interp, o Outcome, nm, at string) {
				c.oblige(retNum(o, 1).eq(k64(int64(b2i(t.ok)))), "range", nm, at, "may report %s, expected %v", retNum(o, 1), t.ok)
				if t.ok {
					w := magMul(t.x, mkConst(ten(n%20)))
					c.oblige(within(retNum(o, 0), w), "value", nm, at, "may return %s, expected %s", retNum(o, 0), w)
					_, isC := t.x.isConst()
					c.oblige(isC || retNum(o, 0).lo == w.lo && retNum(o, 0).hi == w.hi, "value", nm, at, "returns %s, expected %s", retNum(o, 0), w)
				}
			})
		}
	}
	for _, nm := range []string{"Pow10", "Pow10Int", "Safe"} {
		fn := c.p.Func(modPath+"/internal/arith", nm)
		if fn == nil {
			continue
		}
		lim := int64(20)
		if nm == "Pow10Int" {
			lim = 19
		}
		is := nm == "Safe"
		for k := int64(0); k <= 22; k++ {
			k := k
			n := k64(k)
			if k == 22 {
				n = mkRange(i64(k), maxU64)
			}
			c.wordProbe(nm+"("+n.String()+")", fn, arg(n), func(it *Interp, o Outcome, nm, at string) {
				i := 1
				if is {
					i = 0
				}
				c.oblige(retNum(o, i).eq(k64(int64(b2i(k < lim)))), "range", nm, at, "may report %s", retNum(o, i))
				if k < lim && !is {
					c.oblige(retNum(o, 0).eq(mkConst(ten(k))), "value", nm, at, "may return %s, expected 10^%d", retNum(o, 0), k)
				}
			})
		}
	}
	abs := c.arith("Abs")
	for _, t := range [][2]Num{
		{k64(0), k64(0)}, {k64(1), k64(1)}, {k64(-1), k64(1)}, {k64(math.MaxInt64), k64(math.MaxInt64)}, {k64(math.MinInt64), mkConst(u64(1 << 63))}, {k64(math.MinInt64 + 1), k64(math.MaxInt64)}, {k64(-12345), k64(12345)},
		{rng(0, math.MaxInt64), rng(0, math.MaxInt64)}, {rng(math.MinInt64+1, -1), rng(1, math.MaxInt64)}, {rng(-7, -3), rng(3, 7)}} {
		t := t
		c.wordProbe("Abs("+t[0].String()+")", abs, arg(t[0]), func(it *Interp, o Outcome, nm, at string) {
			c.oblige(within(retNum(o, 0), t[1]), "value", nm, at, "may return %s, expected %s", retNum(o, 0), t[1])
		})
	}
	// Cmp for each relation of two words, and CmpShift on boxes of one order.
	for _, rel := range []int64{-1, 0, 1} {
		rel := rel
		c.wordProbe(fmt.Sprintf("Cmp(x, y) with x ? y = %d", rel), c.arith("Cmp"), func(it *Interp, st *State) []*Val {
			x, y := st.intVal(full, it.x.named("x")), st.intVal(full, it.x.named("y"))
			if rel == 0 {
				return []*Val{x, x}
			}
			a, b := x, y
			if rel > 0 {
				a, b = y, x
			}
			st.assume(it.x.mk("<", a.e, b.e, I{}, ""), true)
			st.assume(it.x.mk("<", b.e, a.e, I{}, ""), false)
			st.assume(st.eqExpr(a.e, b.e), false)
			return []*Val{x, y}
		}, func(it *Interp, o Outcome, nm, at string) {
			c.oblige(retNum(o, 0).eq(k64(rel)), "comparison", nm, at, "may return %s, expected %d", retNum(o, 0), rel)
		})
	}
	for k := int64(0); k < 20; k++ {
		s := ten(k)
		ys := []I{i64(1), i64(7), i64(999), u64(1 << 63), maxU64, fromBig(new(bigInt).Quo(maxU64.big(), s.big())), fromBig(new(bigInt).Quo(maxU64.big(), s.big())).add(i64(1))}
		for _, y := range ys {
			if y.cmp(maxU64) > 0 {
				continue
			}
			p := new(bigInt).Mul(y.big(), s.big())
			try := func(x Num, w int64) {
				if x.isBot() || x.lo.cmp(x.hi) > 0 {
					return
				}
				c.wordProbe(fmt.Sprintf("CmpShift(%s, %s, 10^%d)", x, y, k), cmpShift, func(it *Interp, st *State) []*Val {
					return []*Val{it.argOf(st, x, "x"), constV(y), constV(s)}
				}, func(it *Interp, o Outcome, nm, at string) {
					c.oblige(retNum(o, 0).eq(k64(w)), "comparison", nm, at, "may return %s, expected %d", retNum(o, 0), w)
				})
			}
			if p.BitLen() > 64 {
				try(full, -1)
				try(mkConst(maxU64), -1)
				continue
			}
			q := fromBig(p)
			try(mkConst(q), 0)
			if q.sign() > 0 {
				try(mkRange(i64(0), q.sub(i64(1))), -1)
			}
			if q.cmp(maxU64) < 0 {
				try(mkRange(q.add(i64(1)), maxU64), 1)
			}
		}
	}
}

func (it *Interp) argOf(st *State, n Num, nm string) *Val {
	if k, ok := n.isConst(); ok {
		return constV(k)
	}
	return st.intVal(n, it.x.named(nm))
}

// helperPowers decides the helpers of big powers of ten.
func (c *Ctx) helperPowers() {
	fn := c.arith("BigPow10")
	if fn == nil {
		return
	}
	wantTen := func(it *Interp, o Outcome, v *Val, k int64, nm, at string) {
		var got *Val
		if v != nil && v.k == KPtr && len(v.p) == 1 && !v.unk && !v.null {
			got = o.st.norm(it.load(o.st, v, bigIntT, 0))
		}
		t, ok := tenOf(got)
		c.oblige(ok && t == k, "value", nm, at, "may return %s, expected 10^%d", got, k)
	}
	ks := []int64{99998, 99999, 100000, 100001, 100019, 100020, 123456, 999999999, 1 << 40}
	for k := int64(0); k < 170; k++ {
		ks = append(ks, k)
	}
	ks = append(ks, 319, 320, 639)
	for _, k := range ks {
		k := k
		if k > 639 && k < 100000 {
			continue // grows a table beyond the analysis
		}
		c.wordProbe(fmt.Sprintf("BigPow10(%d)", k), fn, func(it *Interp, st *State) []*Val {
			return []*Val{constV(i64(k))}
		}, func(it *Interp, o Outcome, nm, at string) {
			wantTen(it, o, o.ret, k, nm, at)
			c.powTable(it, o, nm, at)
		})
	}
	// MulBigPow10
	mul := c.arith("MulBigPow10")
	for _, x := range coefs() {
		for _, n := range []int64{0, 1, 2, 5, 19, 20} {
			x, n := x, n
			for _, alias := range []bool{false, true} {
				alias := alias
				w := magMul(x, mkConst(fromBig(pow10(n))))
				if !bounded(w) || mul == nil {
					continue
				}
				nm, at := fmt.Sprintf("MulBigPow10(%s, %d) %v", x, n, alias), c.p.pos(mul.Pos())
				id := -1
				c.spawn(nm, func(it *Interp) {
					it.magMode()
					delete(it.models, mul)
					st := it.newState()
					xid := it.bigIntObj(st, "x", OwnOperand, x)
					id = xid
					if !alias {
						id = it.bigIntObj(st, "z", OwnResult, rng(1, 1000))
					}
					outs := it.enter(st, mul, []*Val{ptrV(RRes, Ptr{id, 0}), ptrV(ROp, Ptr{xid, 0}), constV(i64(n))})
					c.complete(it, nm)
					c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
					for _, o := range outs {
						c.sameRet(o, id, nm, at)
						r := it.load(o.st, ptrV(RRes, Ptr{id, 0}), bigIntT, 0)
						v := it.magOf(o.st, r)
						c.oblige(bounded(v) && v.lo == w.lo && v.hi == w.hi, "value", nm, at, "the result may be %s, expected %s", v, w)
						own := it.backing(Ptr{id, 0})
						for _, p := range r.p {
							ob := it.objs[p.obj]
							c.oblige(p.obj == own || ob.owner == OwnLocal, "storage", nm, at, "the result may share %s", ob.name)
						}
					}
				})
			}
		}
	}
	// PowOfTenBig
	pb := c.arith("PowOfTenBig")
	for k := int64(1); k < 36; k++ {
		t := fromBig(pow10(k))
		for _, p := range []struct {
			n I
			w int64
		}{{t, 1}, {t.add(i64(1)), 0}, {t.add(i64(10)), 0}, {t.add(t), 0}, {t.add(fromBig(pow10(k - 1))), 0}, {t.sub(i64(2)), 0}, {t.sub(i64(10)), 0}, {t.add(t).add(t).add(t).add(t), 0}, {two64I.add(t), 0}, {two64I.add(two64I).add(t), 0}, {two64I.sub(i64(int64(k))), 0}} {
			p := p
			if p.n.sign() <= 0 {
				continue
			}
			c.wordProbe("PowOfTenBig("+p.n.String()+")", pb, func(it *Interp, st *State) []*Val {
				return []*Val{ptrV(ROp, Ptr{it.bigIntObj(st, "x", OwnOperand, mkConst(p.n)), 0})}
			}, func(it *Interp, o Outcome, nm, at string) {
				c.oblige(retNum(o, 0).eq(k64(p.w)), "power of ten", nm, at, "may return %s, expected %d", retNum(o, 0), p.w)
			})
		}
	}
	// BigLength for every number of bits and digits, up to a limit.
	bl := c.arith("BigLength")
	if bl == nil {
		return
	}
	c.wordProbe("BigLength(0)", bl, func(it *Interp, st *State) []*Val {
		return []*Val{ptrV(ROp, Ptr{it.bigIntObj(st, "x", OwnOperand, k64(0)), 0})}
	}, func(it *Interp, o Outcome, nm, at string) {
		c.oblige(retNum(o, 0).eq(k64(1)), "length", nm, at, "may return %s, expected 1", retNum(o, 0))
	})
	max := int64(3400)
	if c.thorough() {
		max = 34000
	}
	bits := []int64{50000, 100000, 332193, 332194, 500000}
	for b := int64(1); b <= max; b++ {
		bits = append(bits, b)
	}
	const chunk = 100
	for i := 0; i < len(bits); i += chunk {
		bs := bits[i:]
		if len(bs) > chunk {
			bs = bs[:chunk]
		}
		c.spawn(fmt.Sprintf("BigLength of %d bits", bs[0]), func(it *Interp) {
			for _, b := range bs {
				// 2^(b-1) <= x < 2^b
				lo := int64(len(new(bigInt).Lsh(bigOne, uint(b-1)).String()))
				h := new(bigInt).Lsh(bigOne, uint(b))
				hi := int64(len(h.Sub(h, bigOne).String()))
				for d := lo; d <= hi; d++ {
					c.wordRun(it, fmt.Sprintf("BigLength of %d digits, %d bits", d, b), bl, func(it *Interp, st *State) []*Val {
						ob := it.newObj(bigIntT, "x", OwnOperand)
						v := &Val{k: KBig, sign: 4, e: it.x.mk("digits", nil, nil, I{b, uint64(d)}, ""), p: []Ptr{{it.backing(Ptr{ob.id, 0}), 0}}}
						st.heap.set(ob.id, it.initCells(ob, func(l Leaf, i int) *Val { return v }))
						return []*Val{ptrV(ROp, Ptr{ob.id, 0})}
					}, func(it *Interp, o Outcome, nm, at string) {
						c.oblige(retNum(o, 0).eq(k64(d)), "length", nm, at, "may return %s, expected %d", retNum(o, 0), d)
					})
				}
			}
		})
	}
}

// powTable obliges the shared table to hold the powers of ten, after it grew.
func (c *Ctx) powTable(it *Interp, o Outcome, nm, at string) {
	pkg := c.p.pkgs[modPath+"/internal/arith"]
	if pkg == nil {
		return
	}
	for _, m := range pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || g.Type().String() != "*sync/atomic.Value" {
			continue
		}
		v := o.st.ghostVal(it, Ptr{it.globalObj(g), 0})
		ok = v != nil && v.in != nil && v.in.k == KPtr && len(v.in.p) == 1
		var cs []*Val
		if ok {
			s := o.st.obj(v.in.p[0].obj)
			if ok = s != nil && v.in.p[0].off < len(s.cells); ok {
				cs, ok = it.cellsOf(o.st, s.cells[v.in.p[0].off])
			}
		}
		c.oblige(ok && len(cs) >= 20, "table", nm, at, "the table of powers of ten is not decided")
		for i, e := range cs {
			var t int64
			good := e.k == KPtr && len(e.p) == 1 && !e.unk && !e.null
			if good {
				t, good = tenOf(o.st.norm(it.load(o.st, e, bigIntT, 0)))
			}
			c.oblige(good && t == int64(i), "table", nm, at, "entry %d of the table is not 10^%d", i, i)
		}
	}
}
