package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text: parsing.

func init() {
	register(&Check{id: "C16", floor: 20000, rule: "for every string of up to five (thorough: six) tokens of the numeric grammar, with symbolic digits and letters of either case, every near miss, and digit strings around every limit: the parsers are interpreted path by path, and the result is exactly the sign, the linear combination of the digits and the exponent that the grammar assigns to the string, or a quiet NaN with ConversionSyntax", run: parsing})
}

// tok is one character of a test string: its class in the grammar, and the
// characters it stands for.
type tok struct {
	cls  byte // d . e + - or a letter; x for anything else
	vals Num
}

func tokOf(b byte) tok {
	switch {
	case b >= '0' && b <= '9':
		return tok{'d', mkConst(i64(int64(b)))}
	case b == '.' || b == '+' || b == '-':
		return tok{b, mkConst(i64(int64(b)))}
	}
	if strings.IndexByte("eniaftysq", b|0x20) >= 0 && (b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z') {
		return tok{b | 0x20, mkConst(i64(int64(b)))}
	}
	return tok{'x', mkConst(i64(int64(b)))}
}

// toks reads a test string: D is any digit, N any digit but zero, a letter in
// lower case stands for both cases, upper case and others for themselves.
func toks(s string) []tok {
	var r []tok
	for i := 0; i < len(s); i++ {
		switch b := s[i]; {
		case b == 'D':
			r = append(r, tok{'d', rng('0', '9')})
		case b == 'N':
			r = append(r, tok{'d', rng('1', '9')})
		case b >= 'a' && b <= 'z':
			t := tokOf(b)
			t.vals = mkSet([]I{i64(int64(b - 32)), i64(int64(b))})
			r = append(r, t)
		default:
			r = append(r, tokOf(b))
		}
	}
	return r
}

// plain reads a string that stands for itself.
func plain(s string) []tok {
	var r []tok
	for i := 0; i < len(s); i++ {
		r = append(r, tokOf(s[i]))
	}
	return r
}

func digitRange(lo, hi byte) tok { return tok{'d', rng(int64(lo), int64(hi))} }

// otherToks are the characters that no numeral contains, in ranges.
func otherToks() []tok {
	var r []tok
	lo := -1
	for b := 0; b <= 256; b++ {
		in := b < 256 && (b >= 0x80 || tokOf(byte(b)).cls == 'x')
		if b == 0x80 && lo >= 0 {
			r = append(r, tok{'x', rng(int64(lo), int64(b-1))})
			lo = -1
		}
		if in && lo < 0 {
			lo = b
		}
		if !in && lo >= 0 {
			r = append(r, tok{'x', rng(int64(lo), int64(b-1))})
			lo = -1
		}
	}
	return r
}

func tokStr(ts []tok) string {
	var b strings.Builder
	for _, t := range ts {
		switch k, ok := t.vals.isConst(); {
		case ok:
			fmt.Fprintf(&b, "%c", rune(k.l))
		case t.vals.set != nil:
			fmt.Fprintf(&b, "%c", rune(t.vals.set[len(t.vals.set)-1].l))
		default:
			fmt.Fprintf(&b, "[%c-%c]", rune(t.vals.lo.l), rune(t.vals.hi.l))
		}
	}
	return fmt.Sprintf("%q", b.String())
}

var (
	numRE = regexp.MustCompile(`^([+-]?)(?:(d+)(\.?)(d*)|(\.)(d+))(?:e([+-]?)(d+))?$`)
	infRE = regexp.MustCompile(`^([+-]?)inf(inity)?$`)
	nanRE = regexp.MustCompile(`^([+-]?)([sq]?)nan(d*)$`)
)

// parsed is what the grammar says a string means.
type parsed struct {
	kind   byte // f, i, n, or x if the string is not valid
	neg    bool
	signal bool
	digits [2]int // the characters of the coefficient, without the point
	skip   int    // the position of the point, or -1
	frac   int
	eneg   bool
	exp    [2]int // the characters of the exponent
}

func parseToks(ts []tok) parsed {
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = t.cls
	}
	s := string(b)
	r := parsed{kind: 'x', skip: -1}
	if len(s) > 0 {
		r.neg = s[0] == '-'
	}
	if infRE.MatchString(s) {
		r.kind = 'i'
		return r
	}
	if m := nanRE.FindStringSubmatchIndex(s); m != nil {
		r.kind, r.signal = 'n', m[5] > m[4] && s[m[4]] == 's'
		r.digits = [2]int{m[6], m[7]}
		return r
	}
	m := numRE.FindStringSubmatchIndex(s)
	if m == nil {
		return r
	}
	r.kind = 'f'
	at := func(i int) (int, int) { return m[2*i], m[2*i+1] }
	if l, h := at(5); l >= 0 {
		_, dh := at(6)
		r.digits, r.skip, r.frac = [2]int{l, dh}, l, dh-h
	} else {
		dl, _ := at(2)
		pl, ph := at(3)
		_, fh := at(4)
		r.digits = [2]int{dl, fh}
		if ph > pl {
			r.skip, r.frac = pl, fh-ph
		}
	}
	if l, h := at(8); l >= 0 {
		r.exp = [2]int{l, h}
		sl, sh := at(7)
		r.eneg = sh > sl && s[sl] == '-'
	}
	return r
}

type parseTarget struct {
	nm   string
	fn   *ssa.Function
	args func(it *Interp, st *State, id int, bs []*Val) []*Val

	errs   bool                     // an invalid string is an error
	spec   *CtxSpec                 // the Context of the receiver, if not any
	conds  uint64                   // the conditions in the Context before
	result func(*State, []*Val) int // the decimal that is set, if not the receiver
}

func parsing(c *Ctx) {
	var targets []parseTarget
	add := func(nm string, args func(it *Interp, st *State, id int, bs []*Val) []*Val) {
		if fn := c.bigMethod(nm); fn != nil {
			targets = append(targets, parseTarget{nm: nm, fn: fn, args: args})
		}
	}
	add("SetString", func(it *Interp, st *State, id int, bs []*Val) []*Val {
		return []*Val{ptrV(RRes, Ptr{id, 0}), mkStr(bs)}
	})
	slice := func(it *Interp, st *State, id int, bs []*Val) []*Val {
		arr := it.newObj(types.NewArray(types.Typ[types.Uint8], int64(len(bs)+1)), "data", OwnOperand)
		st.heap.set(arr.id, it.initCells(arr, func(l Leaf, i int) *Val {
			if i < len(bs) {
				return bs[i]
			}
			return st.intVal(rng(0, 255), it.x.newAtom())
		}))
		return []*Val{ptrV(RRes, Ptr{id, 0}), {k: KSlice, p: []Ptr{{arr.id, 0}}, ln: constV(i64(int64(len(bs)))), sign: 6, role: ROp}}
	}
	add("UnmarshalText", slice)
	add("UnmarshalJSON", slice)
	add("UnmarshalJSON", func(it *Interp, st *State, id int, bs []*Val) []*Val {
		q := constV(i64('"'))
		return slice(it, st, id, append(append([]*Val{q}, bs...), q))
	})
	targets[len(targets)-1].nm += " in quotes"
	add("Scan", func(it *Interp, st *State, id int, bs []*Val) []*Val {
		it.state = func(cc *callCtx, m string) []Outcome {
			s := cc.st
			nilErr := func(i int) *Val { return it.zero(cc.sig.Results().At(i).Type()) }
			pos := s.g("pos")
			switch m {
			case "ReadRune":
				if pos == len(bs) {
					return ret(s, tuple(constV(i64(0)), constV(i64(0)), it.eof()))
				}
				s.setG("pos", pos+1)
				return ret(s, tuple(s.norm(bs[pos]), constV(i64(1)), nilErr(2)))
			case "UnreadRune":
				s.setG("pos", pos-1)
				return ret(s, nilErr(0))
			}
			return nil
		}
		verb := st.intVal(rng(0, 127), it.x.named("verb"))
		return []*Val{ptrV(RRes, Ptr{id, 0}), {k: KIface, unk: true, e: it.x.named("state")}, verb}
	})

	type job struct {
		t  parseTarget
		ts []tok
	}
	var jobs []job
	seen := map[string]bool{}
	put := func(ts []tok, all bool) {
		ts = append([]tok{}, ts...)
		k := ""
		for _, t := range ts {
			k += string(t.cls) + t.vals.String() + ";"
		}
		if seen[k] {
			return
		}
		seen[k] = true
		for i, t := range targets {
			if i > 0 && (!all || len(ts) == 0) {
				break
			}
			ascii := true
			for _, x := range ts {
				ascii = ascii && x.vals.hi.cmp(i64(128)) < 0
			}
			if t.nm == "Scan" && !ascii {
				continue
			}
			if strings.Contains(t.nm, "JSON") && !strings.Contains(t.nm, "quotes") && (ts[0].cls == 'x') {
				continue // might be quoted
			}
			jobs = append(jobs, job{t, ts})
		}
	}

	// Every string of the tokens of a number.
	max := 5
	if c.thorough() {
		max = 6
	}
	alpha := toks("D.e+-")
	var walk func(ts []tok)
	walk = func(ts []tok) {
		put(ts, len(ts) <= 3 || parseToks(ts).kind == 'f')
		if len(ts) == max {
			return
		}
		for _, t := range alpha {
			walk(append(ts[:len(ts):len(ts)], t))
		}
	}
	walk(nil)
	// Longer valid numbers, and special values.
	valid := []string{"DD.DDeDD", "-DDDD.DDe+DDD", "+.DDDe-DDD", "DDDDDDDDDDDDe-DDDDDDD", "-D.DDDDDDDDe+DDDD", "DDDDDD.", "DDD.eDD", "inf", "-inf", "+inf", "infinity", "-infinity", "nan", "-nan", "+nan", "qnan", "snan", "-snan", "+qnan", "nanD", "nanDD", "snanDDD", "-qnanDDDDDDDDDDDDDDDDDD", "nan0DD"}
	others := append(otherToks(), toks("D.e+-iasqnfty")...)
	for _, s := range valid {
		ts := toks(s)
		put(ts, true)
		for n := 0; n <= len(ts); n++ {
			put(ts[:n], false)
			// near misses: a character more, another one, or one less
			if n > 12 {
				continue
			}
			for _, t := range others {
				put(append(append(append([]tok{}, ts[:n]...), t), ts[n:]...), false)
				if n < len(ts) {
					put(append(append(append([]tok{}, ts[:n]...), t), ts[n+1:]...), false)
				}
			}
			if n < len(ts) {
				put(append(append([]tok{}, ts[:n]...), ts[n+1:]...), false)
			}
		}
	}
	// Coefficients of any length: one word, on both sides of 2^64, and more.
	reps := func(t string, n int) string { return strings.Repeat(t, n) }
	dot := func(ts []tok, at int) []tok {
		return append(append(append([]tok{}, ts[:at]...), toks(".")...), ts[at:]...)
	}
	w64 := maxU64.String()
	below, above := around(w64)
	var longs [][]tok
	for n := 1; n <= 19; n++ {
		longs = append(longs, toks(reps("D", n)), toks("N"+reps("D", n-1)))
	}
	longs = append(longs, below...)
	longs = append(longs, above...)
	longs = append(longs, plain(w64), plain("18446744073709551614"), plain("18446744073709551616"), plain("00000000000000000000"), plain(reps("0", 40)), toks("0000000000000000000000000DDDD"), append(toks("000"), above[0]...), append(toks("0000"), plain(w64)...))
	top := 40
	if c.thorough() {
		top = 60
	}
	for n := 21; n <= top; n++ {
		for _, ts := range [][]tok{below[0], above[0], below[len(below)-1], above[len(above)-1]} {
			longs = append(longs, append(ts[:len(ts):len(ts)], toks(reps("D", n-20))...))
		}
	}
	for i, ts := range longs {
		put(ts, len(ts) < 30)
		put(append(toks("-"), ts...), false)
		for _, at := range []int{0, 1, len(ts) / 2, len(ts)} {
			put(dot(ts, at), false)
		}
		if i%3 == 0 {
			put(append(append(toks("-"), dot(ts, len(ts)/2)...), toks("e-DD")...), true)
			put(append(ts[:len(ts):len(ts)], toks("x")...), false)
		}
	}
	// Exponents of any size.
	lim := "9223372036854775807"
	eb, ea := around(lim)
	var exps [][]tok
	for n := 1; n <= 18; n++ {
		exps = append(exps, toks(reps("D", n)))
	}
	exps = append(exps, eb[:len(eb)-1]...)
	exps = append(exps, ea...)
	for _, s := range []string{lim, "9223372036854775808", "9223372036854775809", "9223372036854775806", "9223372036854775805", w64, "18446744073709551616", "99999999999999999999", reps("9", 30), "000" + lim, reps("0", 30) + "7", "0" + w64} {
		exps = append(exps, plain(s))
	}
	for _, ts := range [][]tok{below[0], above[0]} {
		exps = append(exps, ts, append(ts[:len(ts):len(ts)], toks("D")...), append(ts[:len(ts):len(ts)], toks("DDDDDD")...))
	}
	for i, e := range exps {
		for j, m := range []string{"N", "-N.D", "0", "-0.00", ".N", "NDDDDDDDDDDD.DDD"} {
			for _, s := range []string{"e", "e+", "e-"} {
				put(append(append(toks(m), toks(s)...), e...), j < 2)
			}
			if j == 1 {
				put(append(append(append(toks(m), toks("e-")...), e...), others[i%len(others)]), false)
			}
		}
	}
	// Payloads.
	for _, ts := range append(append([][]tok{plain(w64), plain("18446744073709551614"), plain("18446744073709551616"), toks("NDDDDDDDDDDDDDDDDD")}, below...), above...) {
		put(append(toks("nan"), ts...), false)
		put(append(append(toks("-snan"), ts...), toks("D")...), false)
	}

	const chunk = 60
	for i := 0; i < len(jobs); i += chunk {
		js := jobs[i:]
		if len(js) > chunk {
			js = js[:chunk]
		}
		c.spawn(fmt.Sprintf("strings from %s", tokStr(js[0].ts)), func(it *Interp) {
			for _, j := range js {
				c.parseOne(it, j.t, j.ts)
			}
		})
	}
	c.wg.Wait()
}

// parseOne interprets a parser on one test string.
func (c *Ctx) parseOne(it *Interp, t parseTarget, ts []tok) {
	it.textMode()
	it.state = nil
	st := it.newState()
	spec := anyCtx(rng(0, 1))
	if t.spec != nil {
		spec = *t.spec
	}
	spec.prefix, spec.conds = "z.", mkConst(u64(t.conds))
	id := it.newBig(st, "z", OwnResult, -1, spec, 0)
	var bs []*Val
	for i, x := range ts {
		if k, ok := x.vals.isConst(); ok {
			bs = append(bs, constV(k))
			continue
		}
		bs = append(bs, st.intVal(x.vals, it.x.named(fmt.Sprintf("c%d", i))))
	}
	nm, at := t.nm+"("+tokStr(ts)+")", c.p.pos(t.fn.Pos())
	args := t.args(it, st, id, bs)
	before := append([]*Val{}, st.obj(id).cells...)
	outs := it.enter(st, t.fn, args)
	c.complete(it, nm)
	c.oblige(len(outs) > 0, "outcome", nm, at, "no outcome was found")
	w := parseToks(ts)
	b := it.bl
	for _, o := range outs {
		if contradicts(o.st, bs) {
			continue // no string takes this path
		}
		if o.pan != "" {
			c.oblige(false, "no panic", nm, at, "may panic: %s", o.pan)
			continue
		}
		s := o.st
		res := id
		if t.result != nil {
			if res = t.result(s, args); res < 0 {
				c.oblige(false, "result", nm, at, "the decimal that is set is not known")
				continue
			}
		}
		cells := s.obj(res).cells
		// the result
		r := o.ret
		valid := true
		if t.errs {
		} else if r != nil && r.k == KTuple {
			ok := r.fs[0].k == KPtr && len(r.fs[0].p) == 1 && r.fs[0].p[0] == Ptr{id, 0} && !r.fs[0].null
			c.oblige(ok, "result", nm, at, "does not return the receiver")
			c.oblige(s.num(r.fs[1]).eq(k64(1)), "result", nm, at, "may report failure")
		} else if len(ts) > 0 && !(len(ts) == 1 && (ts[0].cls == '+' || ts[0].cls == '-')) || w.kind != 'x' {
			n, _ := it.nilTest(s, r)
			c.oblige(n.eq(k64(1)), "result", nm, at, "may return an error")
		}
		for _, l := range []struct {
			i  int
			nm string
		}{{b.prec, "Precision"}, {b.rmode, "RoundingMode"}, {b.omode, "OperatingMode"}, {b.traps, "Traps"}, {b.maxScale, "MaxScale"}, {b.minScale, "MinScale"}} {
			c.oblige(sameVal(s, before[l.i], cells[l.i]), "context", nm, at, "may change the %s of the Context", l.nm)
		}
		form := s.norm(cells[b.form]).n
		conds := s.norm(cells[b.conds]).n
		isForm := func(f uint64) bool { return form.eq(mkConst(u64(f))) }
		isConds := func(m uint64) {
			m |= t.conds
			c.oblige(conds.eq(mkConst(u64(m))), "conditions", nm, at, "may raise %s, expected %s", condNum(conds), condString(m))
		}
		poly := func(r [2]int, skip int) []*Val {
			var ds []*Val
			for i := r[0]; i < r[1]; i++ {
				if i != skip {
					ds = append(ds, bs[i])
				}
			}
			return ds
		}
		isPoly := func(rule, what string, v *Val, p map[string]*bigInt, sum []*Val) {
			got, ok := it.linOf(s, v)
			if sum != nil {
				p = fromDigits(it, s, sum)
			}
			c.oblige(ok && samePoly(got, normPoly(s, p)), rule, nm, at, "%s may be %s", what, v)
		}
		form0 := uint64(b2u(w.neg))
		syntax := func() {
			valid = false
			f := form.eq(mkConst(u64(dec{kind: dQ}.form()))) || form.eq(mkConst(u64(dec{kind: dQ, neg: true}.form())))
			c.oblige(f, "invalid", nm, at, "the result may be %s, expected a quiet NaN", formsStr(form))
			c.oblige(s.num(cells[b.compact]).eq(k64(0)), "payload", nm, at, "the payload may be %s", s.num(cells[b.compact]))
			isConds(cConversionSyntax)
		}
		switch w.kind {
		case 'x':
			syntax()
		case 'i':
			c.oblige(isForm(dec{kind: dInf, neg: w.neg}.form()), "infinity", nm, at, "the result may be %s", formsStr(form))
			isConds(0)
		case 'n':
			ds := poly(w.digits, -1)
			if len(ds) > 0 {
				lo, hi, _ := hull(s, normPoly(s, fromDigits(it, s, ds)))
				if lo.Cmp(maxU64.big()) > 0 {
					syntax()
					break
				}
				if hi.Cmp(maxU64.big()) > 0 {
					c.oblige(false, "complete", nm, at, "the payload is on both sides of the limit")
					break
				}
			}
			k := dQ
			if w.signal {
				k = dS
			}
			c.oblige(isForm(dec{kind: k, neg: w.neg}.form()), "NaN", nm, at, "the result may be %s", formsStr(form))
			isPoly("payload", "the payload", cells[b.compact], poly1(0), ds)
			isConds(0)
		case 'f':
			ds := poly(w.digits, w.skip)
			pc := normPoly(s, fromDigits(it, s, ds))
			lo, _, okd := hull(s, pc)
			if !okd {
				c.oblige(false, "complete", nm, at, "the digits are not known: %s", pc.String())
				break
			}
			zero := len(pc) == 0
			if !zero && lo.Sign() == 0 && w.exp[1]-w.exp[0] > 18 {
				c.oblige(false, "complete", nm, at, "the coefficient may be zero or not")
				break
			}
			exp := poly1(int64(-w.frac))
			maxE := bigN(1<<63 - 1)
			over, under := false, false
			if w.exp[1] > w.exp[0] {
				pe := normPoly(s, fromDigits(it, s, poly(w.exp, -1)))
				el, eh, _ := hull(s, pe)
				if w.eneg {
					exp.add(pe, bigN(-1))
					a, z := new(bigInt).Add(el, bigN(int64(w.frac))), new(bigInt).Add(eh, bigN(int64(w.frac)))
					m := new(bigInt).Add(maxE, bigOne)
					if under = a.Cmp(m) > 0; !under && z.Cmp(m) > 0 {
						c.oblige(false, "complete", nm, at, "the exponent is on both sides of the limit")
						break
					}
				} else {
					exp.add(pe, bigOne)
					if over = el.Cmp(maxE) > 0; !over && eh.Cmp(maxE) > 0 {
						c.oblige(false, "complete", nm, at, "the exponent is on both sides of the limit")
						break
					}
				}
			}
			if over && !zero {
				c.oblige(isForm(dec{kind: dInf, neg: w.neg}.form()), "overflow", nm, at, "the result may be %s", formsStr(form))
				isConds(cOverflow | cInexact | cRounded)
				break
			}
			c.oblige(isForm(form0), "sign", nm, at, "the result may be %s, expected signbit %v", formsStr(form), w.neg)
			coef := cells[b.compact]
			if n := s.num(coef); n.contains(maxU64) {
				c.oblige(n.eq(mkConst(maxU64)), "coefficient", nm, at, "the coefficient may be compact or not")
				coef = cells[b.unscaled]
			}
			if over || under {
				m := int64(maxScale)
				if under {
					m = -m
				}
				isPoly("coefficient", "the coefficient", coef, poly1(0), nil)
				isPoly("exponent", "the exponent", cells[b.exp], poly1(m), nil)
				if over {
					isConds(cClamped)
				} else if !zero {
					isConds(cUnderflow | cInexact | cRounded | cSubnormal)
				}
				break
			}
			isPoly("coefficient", "the coefficient", coef, pc, nil)
			isPoly("exponent", "the exponent", cells[b.exp], normPoly(s, exp), nil)
			isConds(0)
			l, h, _ := hull(s, pc)
			if n := s.num(coef); coef.k == KInt && !n.isBot() {
				l, h = maxBig(l, n.lo.big()), minBig(h, n.hi.big())
			}
			ll, hl := int64(len(l.String())), int64(len(h.String()))
			n := s.num(cells[b.precision])
			c.oblige(!n.isBot() && n.lo.cmp(i64(ll)) >= 0 && n.hi.cmp(i64(hl)) <= 0, "length", nm, at, "the length recorded may be %s, expected [%d,%d]", n, ll, hl)
		}
		if t.errs {
			n, _ := it.nilTest(s, r)
			c.oblige(n.eq(boolNum(!valid, valid)), "result", nm, at, "may return an error: %v, expected %v", n.contains(k64(0).lo), !valid)
		}
	}
}

func poly1(k int64) poly {
	if k == 0 {
		return poly{}
	}
	return konstPoly(bigN(k))
}

// around lists the digit strings of the length of lim, split at lim.
func around(lim string) (below, above [][]tok) {
	for i := range lim {
		pre := plain(lim[:i])
		rest := toks(strings.Repeat("D", len(lim)-1-i))
		lo := byte('0')
		if i == 0 {
			lo = '1'
		}
		if lim[i] > lo {
			below = append(below, append(append(append([]tok{}, pre...), digitRange(lo, lim[i]-1)), rest...))
		}
		if lim[i] < '9' {
			above = append(above, append(append(append([]tok{}, pre...), digitRange(lim[i]+1, '9')), rest...))
		}
	}
	return
}

// contradicts reports whether a byte can have no value.
func contradicts(st *State, bs []*Val) bool {
	for _, b := range bs {
		if b = st.norm(b); b.k == KInt && st.num(b).isBot() {
			return true
		}
	}
	return false
}
