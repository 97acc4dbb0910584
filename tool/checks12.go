package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Text: formatting.

func init() {
	register(&Check{id: "C15", floor: 3000, rule: "for coefficients of every number of digits up to a bound, with symbolic digits, on both sides of 2^64, every exponent near the thresholds and symbolic ones beyond, zeros, special values and nil, in both operating modes: the formatters are interpreted path by path, and the text is exactly the one that to-scientific-string (or the verb) assigns to the value, character by character", run: formatting})
}

// tcase is a decimal whose digits are known by name.
type tcase struct {
	dec  dec   // what it is, if it is not finite
	ts   []tok // the digits of the coefficient
	exp  Num
	infl bool
	null bool
}

func (t tcase) String() string {
	switch {
	case t.null:
		return "nil"
	case t.dec.kind != dFin:
		return t.dec.String()
	}
	s := ""
	if t.dec.neg {
		s = "-"
	}
	if t.infl {
		s += "big "
	}
	return s + tokStr(t.ts) + "e" + t.exp.String()
}

// build makes the decimal, and returns its digits and exponent.
func (t tcase) build(it *Interp, st *State, spec CtxSpec) (arg *Val, ds []*Val, exp *Val) {
	if t.null {
		return nullPtr(), nil, nil
	}
	if t.dec.kind != dFin {
		id := it.decimal(st, "x", OwnOperand, t.dec, spec)
		return opPtr(id), nil, nil
	}
	spec.prefix = "x."
	cls := -1
	if t.infl {
		cls = clsPosI
	}
	id := it.newBig(st, "x", OwnOperand, cls, spec, 0)
	for i, x := range t.ts {
		if k, ok := x.vals.isConst(); ok {
			ds = append(ds, constV(k))
			continue
		}
		ds = append(ds, st.intVal(x.vals, it.x.named(fmt.Sprintf("c%d", i))))
	}
	b := it.bl
	cells := st.objW(id).cells
	cells[b.form] = constV(i64(int64(b2u(t.dec.neg))))
	exp = constV(t.exp.lo)
	if _, ok := t.exp.isConst(); !ok {
		exp = st.intVal(t.exp, it.x.named("x.exp"))
	}
	cells[b.exp] = exp
	cells[b.precision] = constV(i64(int64(len(ds))))
	p := fromDigits(it, st, ds)
	if t.infl {
		cells[b.compact] = constV(maxU64)
		u := *cells[b.unscaled]
		u.sign = 4
		u.e = it.x.polyExpr(p)
		lo, hi, _ := hull(st, p)
		if n, ok := clampNum(lo, hi); ok {
			u.n = n
		}
		cells[b.unscaled] = &u
		return opPtr(id), ds, exp
	}
	v, ok := it.polyVal(st, p, types.Typ[types.Uint64])
	if !ok {
		it.undecided("the coefficient %s does not fit", tokStr(t.ts))
		v = constV(i64(0))
	}
	cells[b.compact] = v
	return opPtr(id), ds, exp
}

func nullPtr() *Val { return &Val{k: KPtr, null: true} }

func lit(s string) []*Val {
	var r []*Val
	for i := 0; i < len(s); i++ {
		r = append(r, constV(i64(int64(s[i]))))
	}
	return r
}

func cat(xs ...[]*Val) []*Val {
	var r []*Val
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

// tform says how a number is written.
type tform int

const (
	fNormal tform = iota
	fPlain
	fSci
)

// want writes the number ds*10^exp (exp + shift, if exp is symbolic).
func (it *Interp) want(st *State, ds []*Val, exp *Val, shift int64, f tform, e byte) []*Val {
	p, _ := it.linOf(st, exp)
	p = poly{}.add(p, bigOne).add(poly1(shift), bigOne)
	n := int64(len(ds))
	if lo, hi, ok := hull(st, p); ok && f != fSci {
		adj := n - 1
		if hi.Sign() <= 0 && lo.Cmp(hi) == 0 && (f == fPlain || lo.Int64()+adj >= -6) {
			x := int(lo.Int64())
			switch at := len(ds) + x; {
			case x == 0:
				return ds
			case at > 0:
				return cat(ds[:at:at], lit("."), ds[at:])
			default:
				return cat(lit("0."+strings.Repeat("0", -at)), ds)
			}
		}
		if f == fPlain {
			return cat(ds, lit(strings.Repeat("0", int(lo.Int64()))))
		}
	}
	r := ds[:1:1]
	if n > 1 {
		r = cat(r, lit("."), ds[1:])
	}
	adj := poly{}.add(p, bigOne).add(poly1(n-1), bigOne)
	sign := string(rune(e))
	if lo, _, _ := hull(st, adj); lo.Sign() > 0 {
		sign += "+"
	}
	if k := adj["1"]; len(adj) == 0 {
		return cat(r, lit(sign+"0"))
	} else if len(adj) == 1 && k != nil {
		return cat(r, lit(sign+k.String()))
	}
	return cat(r, lit(sign), []*Val{{k: KOpaque, e: it.x.mk("numeral", it.x.polyExpr(adj), nil, I{}, "")}})
}

func specialText(d dec, omode int64) string {
	if omode == 1 { // Go
		switch {
		case d.kind != dInf:
			return "NaN"
		case d.neg:
			return "-Inf"
		}
		return "+Inf"
	}
	s := map[dkind]string{dInf: "Infinity", dQ: "NaN", dS: "sNaN"}[d.kind]
	if d.neg {
		s = "-" + s
	}
	return s
}

func formatting(c *Ctx) {
	goMode := c.p.constInt("Go")
	modes := []int64{c.p.constInt("GDA"), goMode}
	expE := func(m int64) byte {
		if m == goMode {
			return 'e'
		}
		return 'E'
	}
	var cases []tcase
	reps := func(t string, n int) []tok { return toks(strings.Repeat(t, n)) }
	digits := func(n int) []tok { return append(toks("N"), reps("D", n-1)...) }
	below, above := around(maxU64.String())
	addExps := func(t tcase, full bool) {
		n := int64(len(t.ts))
		es := []Num{rng(1, maxScale), rng(-maxScale, -n-6)}
		if full {
			for e := -n - 7; e <= 3; e++ {
				es = append(es, k64(e))
			}
		} else {
			for _, e := range []int64{-n - 7, -n - 6, -n - 5, -n - 4, -n - 1, -n, -n + 1, -n / 2, -1, 0, 1, 2} {
				es = append(es, k64(e))
			}
		}
		for _, e := range es {
			t.exp = e
			cases = append(cases, t)
		}
	}
	for n := 1; n <= 19; n++ {
		addExps(tcase{ts: digits(n)}, true)
		addExps(tcase{ts: digits(n), dec: dec{neg: true}}, n < 6)
		if n > 1 {
			addExps(tcase{ts: append(toks("N"), reps("0", n-1)...)}, n < 6)
		}
	}
	w64 := maxU64.String()
	for _, ts := range below[:len(below)-1] {
		addExps(tcase{ts: ts}, false)
	}
	addExps(tcase{ts: append(plain(w64[:19]), digitRange('0', '4'))}, true)
	addExps(tcase{ts: plain(w64), infl: true}, true)
	for _, ts := range above {
		addExps(tcase{ts: ts, infl: true}, false)
	}
	top := 45
	if c.thorough() {
		top = 140
	}
	for n := 21; n <= top; n++ {
		addExps(tcase{ts: digits(n), infl: true}, n < 30)
		addExps(tcase{ts: digits(n), infl: true, dec: dec{neg: true}}, false)
	}
	addExps(tcase{ts: toks("0")}, true)
	addExps(tcase{ts: toks("0"), dec: dec{neg: true}}, true)
	for _, k := range []dkind{dInf, dQ, dS} {
		for _, neg := range []bool{false, true} {
			d := dec{kind: k, neg: neg, coef: k64(0)}
			cases = append(cases, tcase{dec: d})
			if k != dInf {
				d.coef = mkRange(i64(1), maxU64)
				cases = append(cases, tcase{dec: d})
			}
		}
	}
	cases = append(cases, tcase{null: true})

	type target struct {
		nm   string
		verb byte
	}
	targets := []target{{"String", 0}, {"MarshalText", 0}}
	text := func(it *Interp, t tcase, st *State, ds []*Val, exp *Val, m int64, f tform, e byte) []*Val {
		switch {
		case t.null:
			return lit("<nil>")
		case t.dec.kind != dFin:
			s := lit(specialText(t.dec, m))
			if m != goMode && t.dec.kind != dInf && !t.dec.coef.eq(k64(0)) {
				s = append(s, &Val{k: KOpaque, e: it.x.mk("numeral", it.x.named("x.compact"), nil, I{}, "")})
			}
			return s
		case m == goMode && tokStr(t.ts) == `"0"`:
			return lit("0")
		}
		s := it.want(st, ds, exp, 0, f, e)
		if t.dec.neg {
			s = cat(lit("-"), s)
		}
		return s
	}
	const chunk = 60
	for _, tg := range targets {
		fn := c.bigMethod(tg.nm)
		if fn == nil {
			continue
		}
		for i := 0; i < len(cases); i += chunk {
			cs := cases[i:]
			if len(cs) > chunk {
				cs = cs[:chunk]
			}
			c.spawn(tg.nm+" of "+cs[0].String(), func(it *Interp) {
				for _, t := range cs {
					for _, m := range modes {
						it.textMode()
						it.state = nil
						st := it.newState()
						arg, ds, exp := t.build(it, st, anyCtx(k64(m)))
						nm, at := fmt.Sprintf("%s of %s, mode %d", tg.nm, t, m), c.p.pos(fn.Pos())
						outs := it.enter(st, fn, []*Val{arg})
						c.complete(it, nm)
						c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
						for _, o := range outs {
							if o.pan != "" {
								c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
								continue
							}
							r := o.ret
							if r.k == KTuple {
								n, _ := it.nilTest(o.st, r.fs[1])
								c.oblige(n.eq(k64(1)), "result", nm, at, "may return an error")
								r = r.fs[0]
							}
							got, ok := it.bytesOf(o.st, r)
							w := text(it, t, o.st, ds, exp, m, fNormal, expE(m))
							c.oblige(ok && it.sameText(o.st, got, w), "text", nm, at, "the text may be %s, expected %s", textStr(o.st, got), textStr(o.st, w))
						}
					}
				}
			})
		}
	}
	c.verbs(cases)
	c.wg.Wait()
}

// verbTest is one call of Format.
type verbTest struct {
	x           tcase
	verb        byte
	prec, width int // -1 if not given
	flags       string
	omode       int64
	rmode       int64
}

func (v verbTest) String() string {
	s := "%" + v.flags
	if v.width >= 0 {
		s += fmt.Sprint(v.width)
	}
	if v.prec >= 0 {
		s += fmt.Sprintf(".%d", v.prec)
	}
	return fmt.Sprintf("%s%c of %s, mode %d", s, v.verb, v.x, v.omode)
}

func (v verbTest) has(f byte) bool { return strings.IndexByte(v.flags, f) >= 0 }

// roundTok rounds the digits ds after the first k, which may be none, and
// says whether the result has a digit more.
func (it *Interp) roundTok(st *State, ds []*Val, ts []tok, k int, mode string, neg bool) ([]*Val, bool, bool) {
	rest := ts[k:]
	is0 := func(ts []tok) bool {
		for _, t := range ts {
			if !t.vals.eq(k64('0')) {
				return false
			}
		}
		return true
	}
	if is0(rest) {
		return ds[:k:k], false, true
	}
	in := func(t tok, lo, hi int64) bool { return t.vals.lo.cmp(i64(lo)) >= 0 && t.vals.hi.cmp(i64(hi)) <= 0 }
	pos := false // that the rest is not zero is known
	for _, t := range rest {
		pos = pos || t.vals.lo.cmp(i64('0')) > 0
	}
	if !pos {
		return nil, false, false
	}
	half := 0
	switch {
	case in(rest[0], '0', '4'):
		half = -1
	case in(rest[0], '6', '9'):
		half = 1
	case !in(rest[0], '5', '5'):
		return nil, false, false
	case !is0(rest[1:]):
		for _, t := range rest[1:] {
			if t.vals.lo.cmp(i64('0')) > 0 {
				half = 1
			}
		}
		if half == 0 {
			return nil, false, false
		}
	}
	odd := false
	if k > 0 {
		n := ts[k-1].vals
		odd = n.set != nil && n.set[0].l%2 == 1 || n.eq(k64('9'))
		if _, isK := n.isConst(); n.set == nil && !isK && mode == "ToNearestEven" {
			return nil, false, false
		}
	}
	up := false
	switch mode {
	case "ToNearestEven":
		up = half > 0 || half == 0 && odd
	case "ToNearestAway":
		up = half >= 0
	case "ToNearestTowardZero":
		up = half > 0
	case "AwayFromZero":
		up = true
	case "ToPositiveInf":
		up = !neg
	case "ToNegativeInf":
		up = neg
	}
	r := append([]*Val{}, ds[:k]...)
	if !up {
		return r, false, true
	}
	for i := k - 1; i >= 0; i-- {
		if ts[i].vals.eq(k64('9')) {
			r[i] = constV(i64('0'))
			continue
		}
		p, ok := it.linOf(st, r[i])
		if ok {
			r[i], ok = it.polyVal(st, poly{}.add(p, bigOne).add(poly1(1), bigOne), types.Typ[types.Uint8])
		}
		return r, false, ok
	}
	return append(lit("1"), r...), true, true
}

// verbText is what a verb writes.
func (it *Interp) verbText(st *State, v verbTest, ds []*Val, exp *Val, e byte, goMode bool) ([]*Val, bool) {
	x := v.x
	sign := ""
	switch {
	case x.dec.neg:
		sign = "-"
	case v.verb == 'q':
	case v.has('+'):
		sign = "+"
	case v.has(' '):
		sign = " "
	}
	var body []*Val
	zero := tokStr(x.ts) == `"0"`
	switch {
	case x.dec.kind != dFin:
		body, sign = lit(specialText(x.dec, v.omode)), ""
	case zero && goMode:
		body, sign = lit("0"), ""
	default:
		f := fNormal
		switch v.verb {
		case 'e', 'E':
			f, e = fSci, v.verb
		case 'f', 'F', 'g', 'G':
			f = fPlain
		}
		shift := int64(0)
		zeros := func(n int) {
			ds = cat(ds, lit(strings.Repeat("0", n)))
			shift -= int64(n)
		}
		fixed := v.prec >= 0 && (v.verb == 'f' || v.verb == 'F')
		k := v.prec
		if fixed {
			k = len(ds) + v.prec + int(x.exp.lo.l)
		}
		switch {
		case v.prec < 0:
		case k >= len(ds):
			zeros(k - len(ds))
		default:
			ts := x.ts
			for ; k < 0; k++ { // zeros before the first digit
				ds, ts = cat(lit("0"), ds), append(toks("0"), ts...)
			}
			drop, mode := len(ds)-k, ""
			if v.rmode >= 0 {
				mode = modeNames[v.rmode]
			}
			r, carry, ok := it.roundTok(st, ds, ts, k, mode, x.dec.neg)
			if !ok {
				return nil, false
			}
			shift += int64(drop)
			if carry && !fixed {
				r = r[:len(r)-1]
				shift++
			}
			ds = r
			if len(ds) == 0 {
				ds = lit("0")
			}
		}
		body = it.want(st, ds, exp, shift, f, e)
	}
	q := ""
	if v.verb == 'q' {
		q = "\""
		if v.has('#') {
			q = "`"
		}
	}
	all := cat(lit(q), lit(sign), body, lit(q))
	if pad := v.width - len(all); pad > 0 {
		switch {
		case v.has('-'):
			return cat(all, lit(strings.Repeat(" ", pad))), true
		case v.has('0') && x.dec.kind == dFin:
			return cat(lit(sign), lit(strings.Repeat("0", pad)), body), true
		}
		return cat(lit(strings.Repeat(" ", pad)), all), true
	}
	return all, true
}

// verbs decides Format.
func (c *Ctx) verbs(cases []tcase) {
	fn := c.bigMethod("Format")
	if fn == nil {
		return
	}
	gda, goMode := c.p.constInt("GDA"), c.p.constInt("Go")
	var tests []verbTest
	const verbs = "sdvqeEfFgG"
	// Every verb.
	for i, x := range cases {
		if x.null {
			continue
		}
		k, isK := x.exp.isConst()
		isK = isK && !x.exp.isBot()
		for j := 0; j < len(verbs); j++ {
			v := verbs[j]
			if f := strings.IndexByte("fFgG", v) >= 0; f && x.dec.kind == dFin && (!isK || tokStr(x.ts) == `"0"` && k.sign() > 0) {
				continue
			}
			if !c.thorough() && len(x.ts) > 5 && (i+j)%3 != 0 {
				continue
			}
			tests = append(tests, verbTest{x: x, verb: v, prec: -1, width: -1, omode: int64((i + j) % 2), rmode: -1})
		}
	}
	// Widths and flags.
	fin := func(s string, e int64, neg bool) tcase { return tcase{ts: toks(s), exp: k64(e), dec: dec{neg: neg}} }
	some := []tcase{fin("N", 0, false), fin("N", 0, true), fin("NDD", -1, false), fin("NDD", -1, true), fin("ND", -12, true), fin("ND", -12, false), fin("NDD", 2, true), fin("NDDDDD", -4, false), fin("0", 0, false), fin("0", 0, true), fin("0", -2, false), fin("NDDDD", -7, true)}
	for _, k := range []dkind{dInf, dQ, dS} {
		some = append(some, tcase{dec: dec{kind: k, coef: k64(0)}}, tcase{dec: dec{kind: k, neg: true, coef: k64(0)}})
	}
	for _, x := range some {
		for j := 0; j < len(verbs); j++ {
			for fl := 0; fl < 32; fl++ {
				flags := ""
				for b, r := range "#+ -0" {
					if fl>>b&1 != 0 {
						flags += string(r)
					}
				}
				t := verbTest{x: x, verb: verbs[j], prec: -1, flags: flags, rmode: -1}
				if t.verb == 'v' && (t.has('#') || t.has('+')) || t.verb == 'q' && t.has('0') {
					continue
				}
				if (t.has('+') || t.has(' ')) && x.dec.kind != dFin {
					continue
				}
				for _, w := range []int{-1, 1, 4, 6, 7, 12, 17, 40} {
					for _, t.omode = range []int64{gda, goMode} {
						if t.has('+') || t.has(' ') {
							if t.omode == goMode && tokStr(x.ts) == `"0"` {
								continue
							}
						}
						t.width = w
						tests = append(tests, t)
					}
				}
			}
		}
	}
	// Precisions.
	set := func(cls byte, s string) tok {
		var vs []I
		for _, b := range s {
			vs = append(vs, i64(int64(b)))
		}
		return tok{cls, mkSet(vs)}
	}
	var kept [][]tok
	for n := 1; n <= 4; n++ {
		pre := func(k int) []tok {
			if k == 0 {
				return nil
			}
			return append(toks("N"), toks(strings.Repeat("D", k-1))...)
		}
		ev := set('d', "02468")
		if n == 1 {
			ev = set('d', "2468")
		}
		kept = append(kept, append(pre(n-1), ev), append(pre(n-1), set('d', "1357")))
		for k := 1; k <= n; k++ { // k nines
			ts := []tok{}
			if k < n {
				lo := byte('0')
				if n-k == 1 {
					lo = '1'
				}
				ts = append(pre(n-k-1), digitRange(lo, '8'))
			}
			kept = append(kept, append(ts, plain(strings.Repeat("9", k))...))
		}
	}
	var rests [][]tok
	for n := 1; n <= 3; n++ {
		ds := toks(strings.Repeat("D", n-1))
		join := func(t tok, ts []tok) []tok { return append([]tok{t}, ts...) }
		rests = append(rests, plain(strings.Repeat("0", n)), join(digitRange('1', '4'), ds), append(plain("5"), plain(strings.Repeat("0", n-1))...), join(digitRange('6', '9'), ds))
		if n > 1 {
			rests = append(rests, append(plain("0"), append(toks("N"), ds[1:]...)...), append(plain("5"), append(toks("N"), ds[1:]...)...))
		}
		if n > 2 {
			rests = append(rests, plain("000"), append(plain("00"), toks("N")...), append(plain("50"), toks("N")...))
		}
	}
	var rnd []verbTest
	for i, k := range kept {
		for j, r := range rests {
			ts := append(k[:len(k):len(k)], r...)
			for m := range modeNames {
				t := verbTest{prec: len(k), width: -1, rmode: int64(m), omode: int64((i + j) % 2)}
				t.x = tcase{ts: ts, dec: dec{neg: (i+j+m)%2 == 0}}
				for n, v := range []byte("sevgdqEG") {
					es := []int64{0, -int64(len(r)), 3, -12}
					if n >= 2 {
						es = es[(i+j+m)%4:][:1]
					}
					for _, e := range es {
						t.x.exp, t.verb = k64(e), v
						rnd = append(rnd, t)
					}
				}
				for f := 0; f < 6; f++ {
					t.prec, t.x.exp, t.verb = f, k64(int64(-f-len(r))), "fF"[(i+j+m)%2]
					t.x.dec.neg = (i+j+m+f)%2 == 0
					rnd = append(rnd, t)
				}
			}
		}
	}
	// %f of less than a unit in the last place
	for _, r := range rests {
		first := r[0]
		if first.vals.eq(k64('0')) {
			continue
		}
		for m := range modeNames {
			for z := 0; z < 3; z++ {
				for f := 0; f < 3; f++ {
					rnd = append(rnd, verbTest{x: tcase{ts: r, exp: k64(int64(-f - len(r) - z)), dec: dec{neg: (m+z+f)%2 == 0}}, verb: 'f', prec: f, width: -1, rmode: int64(m)})
				}
			}
		}
	}
	// more digits than there are
	for _, s := range []string{"N", "ND", "NDDD", "0"} {
		for _, e := range []int64{-9, -3, -1, 0, 2} {
			for _, p := range []int{5, 7, 21} {
				for j := 0; j < len(verbs); j++ {
					if (s == "0" && e > 0 || s != "0" && e < int64(-p)) && strings.IndexByte("fFgG", verbs[j]) >= 0 {
						continue
					}
					rnd = append(rnd, verbTest{x: fin(s, e, j%2 == 0), verb: verbs[j], prec: p, width: -1, rmode: -1, omode: gda})
				}
			}
		}
	}
	// precision, width and flags together
	for i := 0; i < len(rnd); i += 17 {
		t := rnd[i]
		t.width = 5 + i%11
		t.flags = []string{"", "-", "0", "+", "-0", "+0", " "}[i%7]
		if t.verb == 'q' && t.has('0') || t.verb == 'v' && t.has('+') {
			t.flags = "-"
		}
		rnd = append(rnd, t)
	}
	tests = append(tests, rnd...)
	const chunk = 300
	for i := 0; i < len(tests); i += chunk {
		ts := tests[i:]
		if len(ts) > chunk {
			ts = ts[:chunk]
		}
		c.spawn("Format "+ts[0].String(), func(it *Interp) {
			for _, t := range ts {
				c.verb(it, t, goMode)
			}
		})
	}
}

func (c *Ctx) verb(it *Interp, t verbTest, goMode int64) {
	fn := c.bigMethod("Format")
	it.textMode()
	it.state = func(cc *callCtx, m string) []Outcome {
		s := cc.st
		num := func(k int) []Outcome {
			if k < 0 {
				return ret(s, tuple(constV(i64(0)), boolV(false)))
			}
			return ret(s, tuple(constV(i64(int64(k))), boolV(true)))
		}
		switch m {
		case "Precision":
			return num(t.prec)
		case "Width":
			return num(t.width)
		case "Flag":
			if k, ok := constOf(s, cc.args[1]); ok && k > 0 && k < 128 {
				return ret(s, boolV(t.has(byte(k))))
			}
		}
		return nil
	}
	st := it.newState()
	spec := anyCtx(k64(t.omode))
	if t.rmode >= 0 {
		spec.rmode = k64(c.p.constInt(modeNames[t.rmode]))
	}
	arg, ds, exp := t.x.build(it, st, spec)
	nm, at := t.String(), c.p.pos(fn.Pos())
	if t.rmode >= 0 {
		nm += " " + modeNames[t.rmode]
	}
	outs := it.enter(st, fn, []*Val{arg, {k: KIface, unk: true, e: it.x.named("state")}, constV(i64(int64(t.verb)))})
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	e := byte('E')
	if t.omode == goMode {
		e = 'e'
	}
	for _, o := range outs {
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		w, ok := it.verbText(o.st, t, ds, exp, e, t.omode == goMode)
		if !ok {
			c.oblige(false, "complete", nm, at, "the expected digits are not decided")
			continue
		}
		got := o.st.outv
		if t.x.dec.kind != dFin && t.x.dec.kind != dInf && t.omode != goMode && !t.x.dec.coef.eq(k64(0)) {
			q := ""
			if t.verb == 'q' {
				q, w = "\"", w[:len(w)-1]
			}
			w = cat(w, []*Val{{k: KOpaque, e: it.x.mk("numeral", it.x.named("x.compact"), nil, I{}, "")}}, lit(q))
		}
		c.oblige(it.sameText(o.st, got, w), "verb", nm, at, "writes %q, expected %q", textStr(o.st, got), textStr(o.st, w))
	}
}
