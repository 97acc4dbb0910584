package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The database interfaces.

func init() {
	register(&Check{id: "C20", floor: 2000, rule: "for coefficients of every number of bytes up to a bound, with symbolic bytes, symbolic int32 exponents, both signs and every form: Decompose and Compose are interpreted path by path, and give exactly the parts of the value, and the value of the parts; for coefficients with symbolic digits and exponents on both sides of the limits of DECIMAL, postgres.Decimal.Value gives exactly the text, or the length that is too long; for strings of the grammar with symbolic digits and near misses, Scan gives the number, or an error", run: databases})
}

// bcase is a coefficient whose bytes are known by name.
type bcase struct {
	zeros int   // leading zero bytes
	first []Num // ranges of the bytes that follow
	n     int   // how many bytes follow
}

func (b bcase) String() string {
	s := strings.Repeat("00 ", b.zeros)
	for i, f := range b.first {
		if i > 0 {
			s += " "
		}
		if k, ok := f.isConst(); ok {
			s += fmt.Sprintf("%02x", k.l)
		} else {
			s += fmt.Sprintf("%02x..%02x", f.lo.l, f.hi.l)
		}
	}
	if r := b.n - len(b.first); r > 0 {
		s += fmt.Sprintf(" and %d bytes", r)
	}
	return strings.TrimSpace(s)
}

// byteCases covers the numbers of up to max bytes; none is on both sides of 2^64-1.
func byteCases(max int) []bcase {
	r := []bcase{{}}
	for n := 1; n <= max; n++ {
		if n != 8 {
			r = append(r, bcase{first: []Num{rng(1, 255)}, n: n})
			if n < 8 {
				r = append(r, bcase{first: []Num{rng(0, 127)}, n: n})
			} else {
				r = append(r, bcase{first: []Num{rng(1, 127)}, n: n}, bcase{first: []Num{k64(1), k64(0)}, n: n})
			}
			continue
		}
		var pre []Num
		for i := 0; i < 8; i++ {
			lo := int64(0)
			if i == 0 {
				lo = 1
			}
			r = append(r, bcase{first: append(append([]Num{}, pre...), rng(lo, 254)), n: 8})
			pre = append(pre, k64(255))
		}
		r = append(r, bcase{first: []Num{rng(0, 127)}, n: 8}, bcase{first: []Num{rng(128, 254)}, n: 8}, bcase{first: pre, n: 8})
	}
	return r
}

func (b bcase) vals(it *Interp, st *State) []*Val {
	var bs []*Val
	for i := 0; i < b.zeros; i++ {
		bs = append(bs, constV(i64(0)))
	}
	return append(bs, it.byteVals(st, "b", b.first, b.n)...)
}

func (b bcase) isZero() bool { return b.n == 0 }

// data makes a slice of bytes with spare capacity.
func (it *Interp) data(st *State, nm string, bs []*Val, spare int, owner Owner) (*Val, int) {
	arr := it.newObj(types.NewArray(types.Typ[types.Uint8], int64(len(bs)+spare)), nm, owner)
	st.heap.set(arr.id, it.initCells(arr, func(l Leaf, i int) *Val {
		if i < len(bs) {
			return bs[i]
		}
		return st.intVal(rng(0, 255), it.x.named(fmt.Sprintf("%s.spare%d", nm, i)))
	}))
	return &Val{k: KSlice, p: []Ptr{{arr.id, 0}}, ln: constV(i64(int64(len(bs)))), sign: 6, role: ROp}, arr.id
}

func databases(c *Ctx) {
	max := 12
	if c.thorough() {
		max = 40
	}
	bytes := byteCases(max)
	if fn := c.bigMethod("Compose"); fn != nil {
		var cs []bcase
		for _, b := range bytes {
			for z := 0; z <= 2; z++ {
				b.zeros = z
				cs = append(cs, b)
			}
		}
		cs = append(cs, bcase{zeros: 8}, bcase{zeros: 30}, bcase{zeros: 12, first: []Num{rng(1, 255)}, n: 3})
		for _, b := range cs {
			c.spawn("Compose of "+b.String(), func(it *Interp) {
				for _, neg := range []bool{false, true} {
					c.compose(it, fn, b, 0, neg)
				}
			})
		}
		c.spawn("Compose of special values", func(it *Interp) {
			for _, b := range []bcase{{}, {first: []Num{rng(1, 255)}, n: 3}} {
				for f := 0; f < 256; f++ {
					for _, neg := range []bool{false, true} {
						if f > 0 {
							c.compose(it, fn, b, f, neg)
						}
					}
				}
			}
		})
	}
	if fn := c.bigMethod("Decompose"); fn != nil {
		for _, b := range bytes {
			c.spawn("Decompose of "+b.String(), func(it *Interp) {
				for _, neg := range []bool{false, true} {
					for _, buf := range []int{-1, 0, 3, 7, 8, 20} {
						c.decompose(it, fn, &b, dec{neg: neg}, buf)
					}
				}
			})
		}
		c.spawn("Decompose of special values", func(it *Interp) {
			for _, k := range []dkind{dInf, dQ, dS} {
				for _, neg := range []bool{false, true} {
					for _, buf := range []int{-1, 8} {
						c.decompose(it, fn, nil, dec{kind: k, neg: neg, coef: mkRange(i64(0), maxU64)}, buf)
					}
				}
			}
		})
	}
	if fn := c.bigMethod("Decompose"); fn != nil {
		c.spawn("Decompose with other exponents", func(it *Interp) {
			for _, e := range []Num{rng(1<<31, maxScale), rng(-maxScale, -1<<31-1)} {
				for cls := 0; cls <= clsNegI; cls++ {
					it.textMode()
					st := it.newState()
					spec := anyCtx(rng(0, 1))
					spec.prefix = "x."
					id := it.newBig(st, "x", OwnOperand, cls, spec, 0)
					st.objW(id).cells[it.bl.exp] = st.intVal(e, it.x.named("x.exp"))
					nm := fmt.Sprintf("Decompose of %s with the exponent in %s", clsName[cls], e)
					outs := it.enter(st, fn, []*Val{opPtr(id), {k: KSlice, null: true, ln: constV(i64(0))}})
					c.oblige(len(outs) > 0, "outcome", nm, c.p.pos(fn.Pos()), "no outcome was found")
					for _, o := range outs {
						c.oblige(o.pan != "", "exponent", nm, c.p.pos(fn.Pos()), "may return an exponent that is not that of the value")
					}
				}
			}
		})
	}
	c.postgres()
	c.wg.Wait()
}

var int32Num = rng(-1<<31, 1<<31-1)

// compose interprets Compose of one set of parts.
func (c *Ctx) compose(it *Interp, fn *ssa.Function, b bcase, form int, neg bool) {
	it.textMode()
	st := it.newState()
	spec := anyCtx(rng(0, 1))
	spec.prefix = "z."
	id := it.newBig(st, "z", OwnResult, -1, spec, 0)
	bs := b.vals(it, st)
	s, arr := it.data(st, "data", bs, 2, OwnOperand)
	exp := st.intVal(int32Num, it.x.named("e"))
	nm, at := fmt.Sprintf("Compose(%d, %v, %s, e)", form, neg, b), c.p.pos(fn.Pos())
	before := append([]*Val{}, st.obj(id).cells...)
	data := append([]*Val{}, st.obj(arr).cells...)
	outs := it.enter(st, fn, []*Val{ptrV(RRes, Ptr{id, 0}), constV(i64(int64(form))), boolV(neg), s, exp})
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	for _, o := range outs {
		if contradicts(o.st, append(bs[:len(bs):len(bs)], exp)) {
			continue
		}
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		s := o.st
		isNil, _ := it.nilTest(s, o.ret)
		cells := s.obj(id).cells
		for i, v := range s.obj(arr).cells {
			c.oblige(sameVal(s, data[i], v), "argument", nm, at, "may modify byte %d of the coefficient", i)
		}
		if form > 2 {
			c.oblige(isNil.eq(k64(0)), "unknown form", nm, at, "may return no error")
			continue
		}
		c.oblige(isNil.eq(k64(1)), "result", nm, at, "may return an error")
		switch form {
		case 0:
			p, ok := bytesPoly(it, s, bs)
			e, ok2 := it.linOf(s, exp)
			if !ok || !ok2 {
				c.oblige(false, "complete", nm, at, "the parts are not known")
				continue
			}
			c.isDecimal(it, s, cells, neg, p, e, true, nm, at)
			c.sameContext(it, s, before, cells, 0, nm, at)
		default:
			f := s.norm(cells[it.bl.form]).n
			k := dInf
			if form == 2 {
				k = dQ
			}
			// The sign of a NaN is not specified.
			good := f.eq(mkConst(u64(dec{kind: k, neg: neg}.form())))
			if form == 2 {
				good = good || f.eq(mkConst(u64(dec{kind: k, neg: !neg}.form())))
			}
			c.oblige(good, "special", nm, at, "the result may be %s", formsStr(f))
			c.sameContext(it, s, before, cells, 0, nm, at)
		}
	}
}

// decompose interprets Decompose of one value; buf < 0 means a nil buffer, and
// otherwise its capacity.
func (c *Ctx) decompose(it *Interp, fn *ssa.Function, b *bcase, d dec, buf int) {
	it.textMode()
	st := it.newState()
	spec := anyCtx(rng(0, 1))
	spec.prefix = "x."
	var id int
	var bs []*Val
	var exp *Val
	nm, at := "", c.p.pos(fn.Pos())
	bl := it.bl
	if b == nil {
		id = it.decimal(st, "x", OwnOperand, d, spec)
		nm = "Decompose of " + d.String()
	} else {
		bs = b.vals(it, st)
		p, ok := bytesPoly(it, st, bs)
		if !ok {
			it.undecided("the bytes %s are not known", b)
			return
		}
		lo, _, _ := hull(st, p)
		infl := lo.Cmp(maxU64.big()) >= 0
		cls := -1
		if infl {
			cls = clsPosI
		}
		id = it.newBig(st, "x", OwnOperand, cls, spec, 0)
		cells := st.objW(id).cells
		cells[bl.form] = constV(i64(int64(b2u(d.neg))))
		exp = st.intVal(int32Num, it.x.named("x.exp"))
		cells[bl.exp] = exp
		if infl {
			cells[bl.compact] = constV(maxU64)
			u := *cells[bl.unscaled]
			u.sign, u.e = 4, it.x.polyExpr(p)
			if lo, hi, _ := hull(st, p); true {
				if n, ok := clampNum(lo, hi); ok {
					u.n = n
				}
			}
			cells[bl.unscaled] = &u
		} else {
			v, ok := it.polyVal(st, p, types.Typ[types.Uint64])
			if !ok {
				it.undecided("the coefficient %s does not fit", b)
				return
			}
			cells[bl.compact] = v
		}
		sg := ""
		if d.neg {
			sg = "-"
		}
		nm = fmt.Sprintf("Decompose of %s%s e", sg, b)
	}
	arg := &Val{k: KSlice, null: true, ln: constV(i64(0))}
	if buf >= 0 {
		arg, _ = it.data(st, "buf", nil, buf, OwnResult)
	}
	nm += fmt.Sprintf(", buffer %d", buf)
	outs := it.enter(st, fn, []*Val{opPtr(id), arg})
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	for _, o := range outs {
		if contradicts(o.st, bs) {
			continue
		}
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		s, r := o.st, o.ret.fs
		form := 0
		switch {
		case d.kind == dInf:
			form = 1
		case d.kind != dFin:
			form = 2
		}
		c.oblige(s.num(r[0]).eq(k64(int64(form))), "form", nm, at, "the form may be %s", s.num(r[0]))
		if d.kind == dQ || d.kind == dS {
			continue // the rest is ignored
		}
		if b == nil || !b.isZero() {
			// The sign of a zero is not required.
			if b != nil {
				p, _ := bytesPoly(it, s, bs)
				if lo, _, ok := hull(s, p); ok && lo.Sign() > 0 || !d.neg {
					c.oblige(s.num(r[1]).eq(boolNum(!d.neg, d.neg)), "sign", nm, at, "the sign may be %s", s.num(r[1]))
				}
			} else {
				c.oblige(s.num(r[1]).eq(boolNum(!d.neg, d.neg)), "sign", nm, at, "the sign may be %s", s.num(r[1]))
			}
		}
		if b == nil {
			continue
		}
		want, ok := bytesPoly(it, s, bs)
		got, ok2 := it.bytesOf(s, r[2])
		if ok2 {
			for i, g := range got {
				if got[i] = s.norm(g); got[i].k != KInt {
					ok2 = false
				}
			}
		}
		if !ok || !ok2 {
			c.oblige(false, "coefficient", nm, at, "the bytes are not known: %s", r[2])
			continue
		}
		if n, okn := s.enum(it.x.polyExpr(want)); ok && okn && n.eq(k64(0)) {
			want = poly{} // the zero among these numbers
		}
		p, ok := bytesPoly(it, s, got)
		c.oblige(ok && samePoly(p, want), "coefficient", nm, at, "the coefficient may be %s, expected %s", p, want)
		e, ok := it.linOf(s, r[3])
		w, ok2 := it.linOf(s, exp)
		c.oblige(ok && ok2 && samePoly(e, w), "exponent", nm, at, "the exponent may be %s", r[3])
	}
}

// pgType returns the type of a DECIMAL.
func (c *Ctx) pgType() *types.Named {
	if pk := c.p.ssa.ImportedPackage(modPath + "/sql/postgres"); pk != nil {
		if t := pk.Type("Decimal"); t != nil {
			n, _ := t.Type().(*types.Named)
			return n
		}
	}
	c.fail("anchor", "postgres.Decimal", "no such type")
	return nil
}

const (
	pgIntegral   = 131072
	pgFractional = 16383
)

// pgDecimal makes a DECIMAL that holds v.
func (it *Interp) pgDecimal(st *State, t types.Type, v *Val, round, zero *Val) int {
	o := it.newObj(t, "d", OwnOperand)
	st.heap.set(o.id, it.initCells(o, func(l Leaf, i int) *Val {
		switch {
		case strings.HasSuffix(l.path, "Round"):
			return round
		case strings.HasSuffix(l.path, "Zero"):
			return zero
		}
		return v
	}))
	return o.id
}

func (c *Ctx) postgres() {
	t := c.pgType()
	if t == nil {
		return
	}
	if fn := c.p.Method(t, "Value"); fn != nil {
		c.pgValue(t, fn)
	} else {
		c.fail("anchor", "postgres.Decimal.Value", "no such method")
	}
	if fn := c.p.Method(t, "Scan"); fn != nil {
		c.pgScan(t, fn)
	} else {
		c.fail("anchor", "postgres.Decimal.Scan", "no such method")
	}
}

func (c *Ctx) pgValue(t types.Type, fn *ssa.Function) {
	goMode := c.p.constInt("Go")
	var cases []tcase
	add := func(x tcase) {
		n := int64(len(x.ts))
		es := []Num{
			rng(-maxScale, -pgFractional-1), rng(-pgFractional, -n-6), rng(1, pgIntegral-n), rng(pgIntegral-n+1, maxScale),
			k64(-pgFractional - 1), k64(-pgFractional), k64(pgIntegral - n), k64(pgIntegral - n + 1),
		}
		for e := -n - 7; e <= 2; e++ {
			es = append(es, k64(e))
		}
		for _, e := range es {
			x.exp = e
			cases = append(cases, x)
		}
	}
	below, above := around(maxU64.String())
	for n := 1; n <= 19; n++ {
		ts := append(toks("N"), toks(strings.Repeat("D", n-1))...)
		add(tcase{ts: ts})
		add(tcase{ts: ts, dec: dec{neg: true}})
	}
	add(tcase{ts: below[0]})
	add(tcase{ts: above[0], infl: true})
	add(tcase{ts: plain(maxU64.String()), infl: true})
	top := 30
	if c.thorough() {
		top = 80
	}
	for n := 21; n <= top; n++ {
		add(tcase{ts: append(toks("N"), toks(strings.Repeat("D", n-1))...), infl: true, dec: dec{neg: n%2 == 0}})
	}
	add(tcase{ts: toks("0")})
	add(tcase{ts: toks("0"), dec: dec{neg: true}})
	for _, k := range []dkind{dInf, dQ, dS} {
		for _, neg := range []bool{false, true} {
			cases = append(cases, tcase{dec: dec{kind: k, neg: neg, coef: mkRange(i64(0), maxU64)}})
		}
	}
	cases = append(cases, tcase{null: true})
	const chunk = 30
	for i := 0; i < len(cases); i += chunk {
		cs := cases[i:]
		if len(cs) > chunk {
			cs = cs[:chunk]
		}
		c.spawn("postgres Value of "+cs[0].String(), func(it *Interp) {
			for _, x := range cs {
				for _, m := range []int64{0, goMode} {
					for flags := 0; flags < 4; flags++ {
						c.pgOne(it, t, fn, x, m, m == goMode, flags&1 != 0, flags&2 != 0)
					}
					if goMode == 0 {
						break
					}
				}
			}
		})
	}
}

// pgOne interprets Value of one decimal.
func (c *Ctx) pgOne(it *Interp, t types.Type, fn *ssa.Function, x tcase, mode int64, goMode, round, zero bool) {
	over, part := false, ""
	n := int64(len(x.ts))
	if x.dec.kind == dFin && !x.null {
		switch {
		case x.exp.lo.cmp(i64(pgIntegral-n)) > 0:
			over, part = true, "integral"
		case x.exp.hi.cmp(i64(-pgFractional)) < 0:
			over, part = true, "fractional"
		}
	}
	if over && round {
		return // C13 decides rounding
	}
	it.textMode()
	st := it.newState()
	arg, ds, exp := x.build(it, st, anyCtx(k64(mode)))
	d := it.pgDecimal(st, t, arg, boolV(round), boolV(zero))
	nm, at := fmt.Sprintf("postgres Value of %s, mode %d, Round %v, Zero %v", x, mode, round, zero), c.p.pos(fn.Pos())
	outs := it.enter(st, fn, []*Val{opPtr(d)})
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	for _, o := range outs {
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		s, v, err := o.st, o.ret.fs[0], o.ret.fs[1]
		nilV, _ := it.nilTest(s, v)
		nilE, _ := it.nilTest(s, err)
		text := func(w []*Val) {
			c.oblige(nilE.eq(k64(1)), "result", nm, at, "may return an error")
			ok := v.k == KIface && v.dyn != nil && v.in != nil && types.Identical(v.dyn, types.Typ[types.String])
			var got []*Val
			if ok {
				got, ok = it.bytesOf(s, v.in)
			}
			c.oblige(ok && it.sameText(s, got, w), "text", nm, at, "the text may be %s, expected %s", textStr(s, got), textStr(s, w))
		}
		switch {
		case x.null && zero:
			text(lit("0"))
		case x.null:
			c.oblige(nilV.eq(k64(1)) && nilE.eq(k64(1)), "null", nm, at, "may not be NULL")
		case x.dec.kind == dInf:
			c.oblige(nilE.eq(k64(0)) && nilV.eq(k64(1)), "infinity", nm, at, "may return no error")
		case x.dec.kind != dFin:
			text(lit("NaN"))
		case over:
			c.oblige(nilE.eq(k64(0)) && nilV.eq(k64(1)), "too long", nm, at, "may return no error")
			c.lengthError(it, s, err, part, n, exp, nm, at)
		case goMode && tokStr(x.ts) == `"0"`:
			text(lit("0"))
		default:
			e := byte('E')
			if goMode {
				e = 'e'
			}
			w := it.want(s, ds, exp, 0, fNormal, e)
			if x.dec.neg {
				w = cat(lit("-"), w)
			}
			text(w)
		}
	}
}

// lengthError obliges err to be the *LengthError of n digits and the exponent.
func (c *Ctx) lengthError(it *Interp, s *State, err *Val, part string, n int64, exp *Val, nm, at string) {
	var o *Obj
	if err.k == KIface && err.in != nil && err.in.k == KPtr && len(err.in.p) == 1 && err.dyn != nil && strings.HasSuffix(err.dyn.String(), "postgres.LengthError") {
		o = it.objs[err.in.p[0].obj]
	}
	if o == nil {
		c.oblige(false, "too long", nm, at, "the error may not be a *LengthError")
		return
	}
	e, _ := it.linOf(s, exp)
	want, max := poly{}.add(e, bigOne).add(poly1(n), bigOne), int64(pgIntegral)
	if part == "fractional" {
		want, max = poly{}.add(e, bigN(-1)), pgFractional
	}
	for i, l := range o.leaves {
		v := s.norm(s.obj(o.id).cells[i])
		switch {
		case strings.HasSuffix(l.path, "Part"):
			bs, ok := it.bytesOf(s, v)
			c.oblige(ok && it.sameText(s, bs, lit(part)), "too long", nm, at, "the part may be %s", textStr(s, bs))
		case strings.HasSuffix(l.path, "N"):
			p, ok := it.linOf(s, v)
			c.oblige(ok && samePoly(p, normPoly(s, want)), "too long", nm, at, "the length may be %s, expected %s", v, want)
		case strings.HasSuffix(l.path, "max"):
			c.oblige(s.num(v).eq(k64(max)), "too long", nm, at, "the limit may be %s", v)
		}
	}
}

func (c *Ctx) pgScan(t types.Type, fn *ssa.Function) {
	arg := func(it *Interp, st *State, bs []*Val, text bool) *Val {
		if text {
			return &Val{k: KIface, dyn: types.Typ[types.String], in: mkStr(bs)}
		}
		s, _ := it.data(st, "data", bs, 1, OwnOperand)
		return &Val{k: KIface, dyn: types.NewSlice(types.Typ[types.Uint8]), in: s}
	}
	var targets []parseTarget
	flag := func(it *Interp, st *State, nm string) *Val { return st.intVal(rng(0, 1), it.x.named("d."+nm)) }
	_, vi := derefStruct(t)
	for _, text := range []bool{true, false} {
		nm := "postgres Scan of a string "
		if !text {
			nm = "postgres Scan of bytes "
		}
		for _, conds := range []uint64{0, cConversionSyntax, cConversionSyntax | cInexact} {
			targets = append(targets, parseTarget{nm: nm, fn: fn, errs: true, conds: conds, args: func(it *Interp, st *State, id int, bs []*Val) []*Val {
				d := it.pgDecimal(st, t, ptrV(RRes, Ptr{id, 0}), flag(it, st, "Round"), flag(it, st, "Zero"))
				return []*Val{ptrV(RRes, Ptr{d, 0}), arg(it, st, bs, text)}
			}})
		}
		zero := CtxSpec{prec: k64(0), omode: k64(0), rmode: k64(0), maxS: k64(0), minS: k64(0), traps: k64(0), conds: k64(0)}
		targets = append(targets, parseTarget{nm: nm + "to nil ", fn: fn, errs: true, spec: &zero, args: func(it *Interp, st *State, id int, bs []*Val) []*Val {
			n := it.pgDecimal(st, t, nullPtr(), flag(it, st, "Round"), flag(it, st, "Zero"))
			return []*Val{ptrV(RRes, Ptr{n, 0}), arg(it, st, bs, text)}
		}, result: func(s *State, args []*Val) int {
			v := s.norm(s.obj(args[0].p[0].obj).cells[vi])
			if v.k != KPtr || len(v.p) != 1 || v.null || v.p[0].off != 0 {
				return -1
			}
			return v.p[0].obj
		}})
	}
	strs := []string{"", "D", "-D", "+DD", "DDD.DD", "-.DD", "DD.", "NeD", "N.De-DD", "DDDDDDDDDDDDDDDDDDD", "0", "-0.00", "0e5", "inf", "-infinity", "nan", "-snanDD", "qnan0", "D D", "DxD", "D.D.D", "e5", ".", "-", "+", "--D", "De", "De+", "De-", "in", "infi", "infinityD", "na", "nanx", "NDDDDDDDDDDDDDDDDDDDDDDDDD", "-NDDDDDDDDDDDDDDDDDDDDDDDDD.DDDe-DDD", "X", "D,D"}
	below, above := around(maxU64.String())
	var all [][]tok
	for _, s := range strs {
		all = append(all, toks(s))
	}
	all = append(all, below[0], above[0], plain(maxU64.String()))
	if c.thorough() {
		for _, s := range strs {
			ts := toks(s)
			if len(ts) > 19 {
				continue
			}
			for i := range ts {
				all = append(all, append(append([]tok{}, ts[:i]...), ts[i+1:]...))
				for _, x := range toks("D.e+-iasqnfty") {
					if x.cls == 'e' && len(ts)-i > 8 {
						continue // an exponent on both sides of the limits
					}
					all = append(all, append(append(append([]tok{}, ts[:i]...), x), ts[i:]...))
				}
			}
		}
	}
	for _, tg := range targets {
		for lo := 0; lo < len(all); lo += 60 {
			part := all[lo:min(lo+60, len(all))]
			c.spawn(fmt.Sprintf("%s (%d)", tg.nm, lo), func(it *Interp) {
				for _, ts := range part {
					c.parseOne(it, tg, ts)
				}
			})
		}
	}
	c.spawn("postgres Scan of other types", func(it *Interp) {
		for i, v := range []*Val{
			{k: KIface, null: true},
			{k: KIface, dyn: types.Typ[types.Int64], in: constV(i64(7))},
			{k: KIface, dyn: types.Typ[types.Bool], in: boolV(true)},
		} {
			it.textMode()
			st := it.newState()
			spec := anyCtx(rng(0, 1))
			spec.prefix = "z."
			id := it.newBig(st, "z", OwnResult, -1, spec, 0)
			d := it.pgDecimal(st, t, ptrV(RRes, Ptr{id, 0}), flag(it, st, "Round"), flag(it, st, "Zero"))
			nm, at := fmt.Sprintf("postgres Scan of other types %d", i), c.p.pos(fn.Pos())
			outs := it.enter(st, fn, []*Val{ptrV(RRes, Ptr{d, 0}), v})
			c.complete(it, nm)
			c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
			for _, o := range outs {
				n := k64(1)
				if o.pan == "" {
					n, _ = it.nilTest(o.st, o.ret)
				}
				c.oblige(n.eq(k64(0)), "result", nm, at, "may return no error, or panic")
			}
		}
	})
}

// derefStruct returns the index of the first field that is a pointer.
func derefStruct(t types.Type) (*types.Struct, int) {
	s, _ := t.Underlying().(*types.Struct)
	if s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
				return s, i
			}
		}
	}
	return s, 0
}
