package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Rounding: operands are intervals chosen so that every exact result in the
// image rounds to the same decimal; the analysis must find that decimal.

func init() {
	register(&Check{id: "C13", floor: 20000, rule: "for every operation with one rounding, every rounding mode, sign, aliasing, and intervals of operands whose exact results lie on one side of (or on) the midpoint: the interval analysis of the operation yields the one decimal the mode prescribes, Inexact exactly if it differs from the exact result", run: rounding})
}

// Rounding modes in declaration order.
const (
	mNearestEven = iota
	mNearestAway
	mZero
	mAway
	mNegInf
	mPosInf
	mNearestZero
	numModes
)

var modeNames = [numModes]string{"ToNearestEven", "ToNearestAway", "ToZero", "AwayFromZero", "ToNegativeInf", "ToPositiveInf", "ToNearestTowardZero"}

// roundAt rounds the magnitude r to a multiple of 10^exp.
func roundAt(r *big.Rat, exp int64, mode int, neg bool) (v *big.Rat, inexact bool) {
	s := new(big.Rat).Quo(r, ratPow(exp))
	q, m := new(big.Int).QuoRem(s.Num(), s.Denom(), new(big.Int))
	if m.Sign() == 0 {
		return r, false
	}
	half := new(big.Int).Lsh(m, 1).Cmp(s.Denom())
	inc := false
	switch mode {
	case mNearestEven:
		inc = half > 0 || half == 0 && q.Bit(0) != 0
	case mNearestAway:
		inc = half >= 0
	case mNearestZero:
		inc = half > 0
	case mAway:
		inc = true
	case mNegInf:
		inc = neg
	case mPosInf:
		inc = !neg
	}
	if inc {
		q.Add(q, big.NewInt(1))
	}
	return new(big.Rat).Mul(new(big.Rat).SetInt(q), ratPow(exp)), true
}

// adjustedOf is the exponent of the leading digit of r > 0.
func adjustedOf(r *big.Rat) int64 {
	a := int64(len(r.Num().String()) - len(r.Denom().String()))
	for ratPow(a).Cmp(r) > 0 {
		a--
	}
	for ratPow(a+1).Cmp(r) <= 0 {
		a++
	}
	return a
}

// roundTo rounds the magnitude r to p digits.
func roundTo(r *big.Rat, p int64, mode int, neg bool) (*big.Rat, bool) {
	if r.Sign() == 0 {
		return r, false
	}
	return roundAt(r, adjustedOf(r)-p+1, mode, neg)
}

// vals returns the least and greatest value of d.
func (d dec) vals() (lo, hi *big.Rat) {
	lo, hi = d.mags()
	if d.neg {
		lo, hi = new(big.Rat).Neg(hi), new(big.Rat).Neg(lo)
	}
	return
}

// image is the interval of f on the classes xs, for f monotonic in each
// argument.
func image(f func(v []*big.Rat) *big.Rat, xs ...dec) (lo, hi *big.Rat) {
	v := make([]*big.Rat, len(xs))
	for m := 0; m < 1<<uint(len(xs)); m++ {
		for i, x := range xs {
			l, h := x.vals()
			v[i] = l
			if m>>uint(i)&1 != 0 {
				v[i] = h
			}
		}
		r := f(v)
		if lo == nil || r.Cmp(lo) < 0 {
			lo = r
		}
		if hi == nil || r.Cmp(hi) > 0 {
			hi = r
		}
	}
	return
}

// decOf makes a class of the integers in [lo, hi]; ok is false if there are
// none or they belong to different classes.
func decOf(lo, hi *big.Rat, neg bool, exp int64) (d dec, ok bool) {
	l := new(big.Int).Add(lo.Num(), new(big.Int).Sub(lo.Denom(), big.NewInt(1)))
	l.Div(l, lo.Denom())
	h := new(big.Int).Div(hi.Num(), hi.Denom())
	if l.Sign() < 0 || l.Cmp(h) > 0 || h.BitLen() > 120 {
		return d, false
	}
	m := maxU64.big()
	switch {
	case l.Cmp(m) >= 0:
		d = large(mkRange(fromBig(l), fromBig(h)), k64(exp))
	case h.Cmp(m) < 0:
		d = fin(mkRange(fromBig(l), fromBig(h)), k64(exp))
	default:
		return d, false
	}
	d.neg = neg
	return d, true
}

// digitCount returns the least and greatest number of digits of d.
func (d dec) digitCount() (lo, hi int64) {
	if d.infl {
		return magLen(d.mag)
	}
	return magLen(d.coef)
}

// byLength splits d by its number of digits.
func (d dec) byLength() []dec {
	lo, hi := d.mags()
	s := ratPow(int64(d.exp.lo.l))
	lo, hi = lo.Quo(lo, s), hi.Quo(hi, s)
	var r []dec
	for lo.Cmp(hi) <= 0 {
		end := new(big.Rat).Sub(ratPow(int64(len(lo.Num().String()))), big.NewRat(1, 1))
		if end.Cmp(hi) > 0 {
			end = hi
		}
		x, ok := decOf(lo, end, d.neg, int64(d.exp.lo.l))
		if !ok {
			return []dec{d}
		}
		r = append(r, x)
		lo = new(big.Rat).Add(end, big.NewRat(1, 1))
	}
	return r
}

// target is an interval of magnitudes that start with q and go on with n more
// digits: zeros, less than half, half or more than half a unit.
type target struct {
	q      string
	n      int64
	kind   int
	lo, hi *big.Rat
}

func (t target) String() string {
	return t.q + "." + []string{"0", "(<half)", "(half)", "(>half)"}[t.kind]
}

func targets(qs []string, ns []int64) []target {
	var r []target
	for _, q := range qs {
		b, _ := new(big.Int).SetString(q, 10)
		for _, n := range ns {
			for k := 0; k < 4; k++ {
				base := new(big.Int).Mul(b, pow10(n))
				h := new(big.Int).Mul(big.NewInt(5), pow10(n-1))
				one := big.NewInt(1)
				lo, hi := new(big.Int), new(big.Int)
				switch k {
				case 1:
					lo, hi = one, new(big.Int).Sub(h, one)
				case 2:
					lo, hi = h, h
				case 3:
					lo, hi = new(big.Int).Add(h, one), new(big.Int).Sub(pow10(n), one)
				}
				x := func(v *big.Int) *big.Rat { return new(big.Rat).SetInt(new(big.Int).Add(base, v)) }
				r = append(r, target{q, n, k, x(lo), x(hi)})
			}
		}
	}
	return r
}

// rngS is the interval between two numbers.
func rngS(a, b string) Num {
	l, _ := new(big.Int).SetString(a, 10)
	h, _ := new(big.Int).SetString(b, 10)
	return mkRange(fromBig(l), fromBig(h))
}

// rop is an operation with one rounding.
type rop struct {
	nm    string
	ctx   *ssa.Function // method of Context, with the Context first
	big   *ssa.Function // method of Big
	n     int           // decimals besides the result
	place bool          // in place: the result is the operand
	f     func(v []*big.Rat) *big.Rat
	// args are further arguments
	args func(exp int64) []*Val
}

func (c *Ctx) rop(nm string, n int, f func(v []*big.Rat) *big.Rat) rop {
	return rop{nm: nm, ctx: c.p.Method(c.p.ctxType, nm), big: c.p.Method(c.p.bigType, nm), n: n, f: f}
}

// resultOf reads the value of a decimal.
type outVal struct {
	ok   bool
	form Num
	coef Num
	exp  Num
	prec Num
}

func (it *Interp) outVal(st *State, id int) outVal {
	b, s := it.bl, st.obj(id)
	v := outVal{ok: true, form: st.norm(s.cells[b.form]).n, exp: st.num(s.cells[b.exp]), prec: st.num(s.cells[b.precision])}
	v.coef = st.num(s.cells[b.compact])
	if v.coef.eq(mkConst(maxU64)) {
		v.coef = it.magOf(st, s.cells[b.unscaled])
	}
	return v
}

func (v outVal) String() string {
	return fmt.Sprintf("%s %sE%s", formsStr(v.form), v.coef, v.exp)
}

// isValue obliges the decimal to have the one value want.
func (c *Ctx) isValue(v outVal, want *big.Rat, neg bool, p int64, nm, pos string) {
	f, okf := v.form.isConst()
	k, okc := v.coef.isConst()
	e, oke := v.exp.isConst()
	ok := okf && f == u64(b2u(neg)) && okc && !v.coef.unknown() && oke
	if ok {
		ok = new(big.Rat).Mul(new(big.Rat).SetInt(k.big()), ratPow(int64(e.l))).Cmp(want) == 0
	}
	s := "+"
	if neg {
		s = "-"
	}
	c.oblige(ok, "rounded value", nm, pos, "may be %s, expected %s%s", v, s, ratStr(want))
	if ok && p > 0 {
		n := int64(len(k.String()))
		c.oblige(n <= p, "digits", nm, pos, "may have %d digits, more than the precision %d", n, p)
		q, _ := v.prec.isConst()
		c.oblige(q == i64(n), "length", nm, pos, "the length recorded may be %s, expected %d", v.prec, n)
	}
}

func ratStr(r *big.Rat) string {
	if r.IsInt() {
		return r.Num().String()
	}
	return r.FloatString(40)
}

// rrun describes one run of an operation.
type rrun struct {
	op    rop
	big   bool // the method of Big, governed by the result's Context
	xs    []dec
	al    int // the operand that is the result, or -1
	prec  int64
	mode  int
	omode Num
	args  []*Val
	// ownMode: the operation rounds in this mode whatever the Context says.
	ownMode bool

	anyP bool // any precision from prec on
	noP  bool // the default precision: 0 stands for 16

	emax, emin int64 // scale limits, if not 0

	unroll bool // follow the iterations of loops separately
	second *int // the second result, if any
	al2    int  // the operand that is the second result, or -1
}

func (r rrun) String() string {
	s := "Context."
	if r.big {
		s = "Big."
	}
	s += r.op.nm + "("
	for i, x := range r.xs {
		if i > 0 {
			s += ", "
		}
		s += x.String()
	}
	for _, a := range r.args {
		if a.k == KInt {
			s += ", " + a.n.String()
		}
	}
	s += ")"
	if r.al >= 0 {
		s += ", the result is operand " + strconv.Itoa(r.al+1)
	}
	if r.second != nil && r.al2 >= 0 {
		s += ", the remainder is operand " + strconv.Itoa(r.al2+1)
	}
	s += ", precision " + strconv.FormatInt(r.prec, 10)
	if r.noP {
		s += " (by default)"
	}
	if r.mode >= 0 && !r.ownMode {
		s += ", " + modeNames[r.mode]
	}
	if r.emax != 0 {
		s += fmt.Sprintf(", scales %d to %d", r.emin, r.emax)
	}
	return s
}

// valueRun interprets r and hands every outcome to f, with the result.
func (c *Ctx) valueRun(r rrun, f func(it *Interp, o Outcome, id int, nm string)) {
	fn := r.op.ctx
	if r.big {
		fn = r.op.big
	}
	if fn == nil {
		return
	}
	spec := anyCtx(r.omode)
	spec.prec = k64(r.prec)
	if r.anyP {
		spec.prec = rng(r.prec, 1<<40)
	}
	if r.noP && r.prec == 16 {
		spec.prec = k64(0)
	}
	spec.rmode = rng(0, numModes-1)
	if r.mode >= 0 && !r.ownMode {
		spec.rmode = k64(c.p.constInt(modeNames[r.mode]))
	}
	spec.maxS, spec.minS = mkSet([]I{i64(0), i64(1000), i64(maxScale)}), mkSet([]I{i64(0), i64(-1000), i64(-maxScale)})
	if r.emax != 0 {
		spec.maxS, spec.minS = k64(r.emax), k64(r.emin)
	}
	other := anyCtx(rng(0, 1))
	nm := r.String()
	var id int
	c.probe(nm, fn, func(it *Interp, st *State) []*Val {
		it.unroll = r.unroll
		zs := other
		if r.big {
			zs = spec
		}
		var ids []int
		for i, x := range r.xs {
			n := "xyu"[i : i+1]
			if r.al == i || r.second != nil && r.al2 == i {
				zs := zs
				if r.al != i {
					zs = other
				}
				ids = append(ids, it.decimal(st, n, OwnResult, x, zs))
			} else {
				ids = append(ids, it.decimal(st, n, OwnOperand, x, other))
			}
		}
		if r.al >= 0 {
			id = ids[r.al]
		} else {
			zs.prefix = "z."
			id = it.newBig(st, "z", OwnResult, -1, zs, 0)
		}
		var args []*Val
		if !r.big {
			cs := spec
			cs.prefix = "c."
			args = append(args, it.ctxVal(st, cs))
		}
		args = append(args, ptrV(RRes, Ptr{id, 0}))
		if !r.op.place {
			for _, i := range ids {
				args = append(args, opPtr(i))
			}
		}
		if r.second != nil {
			if r.al2 >= 0 {
				*r.second = ids[r.al2]
			} else {
				zs := other
				zs.prefix = "r."
				*r.second = it.newBig(st, "r", OwnResult, -1, zs, 0)
			}
			args = append(args, ptrV(RRes, Ptr{*r.second, 0}))
		}
		return append(args, r.args...)
	}, func(it *Interp, o Outcome) { f(it, o, id, nm) })
}

// rounded runs an operation whose exact results all round to one decimal; at
// is the exponent to round to, if fixed.
func (c *Ctx) rounded(r rrun, at *int64) {
	lo, hi := image(r.op.f, r.xs...)
	if lo.Sign()*hi.Sign() <= 0 {
		return
	}
	neg := lo.Sign() < 0
	if neg {
		lo, hi = new(big.Rat).Neg(hi), new(big.Rat).Neg(lo)
	}
	rd := func(v *big.Rat) (*big.Rat, bool) {
		if at != nil {
			return roundAt(v, *at, r.mode, neg)
		}
		return roundTo(v, r.prec, r.mode, neg)
	}
	r.noP = r.prec == 16 && !r.anyP && r.op.nm != "Round"
	w, inex := rd(lo)
	w2, inex2 := rd(hi)
	if w.Cmp(w2) != 0 || inex != inex2 {
		return
	}
	if inex {
		// Skip intervals with an exact result inside.
		e := adjustedOf(lo) - r.prec + 1
		if at != nil {
			e = *at
		}
		l, _ := roundAt(lo, e, mZero, false)
		h, _ := roundAt(hi, e, mZero, false)
		if l.Cmp(h) != 0 {
			return
		}
	}
	p := r.prec
	if at != nil {
		p = 0
	}
	pos := c.p.pos(r.op.ctx.Pos())
	c.valueRun(r, func(it *Interp, o Outcome, id int, nm string) {
		c.isValue(it.outVal(o.st, id), w, neg, p, nm, pos)
		n := o.st.norm(o.st.obj(id).cells[it.bl.conds]).n
		must, may := n.k1&0x1fff, ^n.k0&0x1fff
		if inex {
			c.oblige(must&(cInexact|cRounded) == cInexact|cRounded, "inexact", nm, pos, "conditions %s although the result is not exact", condNum(n))
			may &^= cInexact | cRounded
		}
		c.oblige(may&^cRounded == 0, "conditions", nm, pos, "may raise %s", condString(may))
	})
}

// constInt is the value of a constant of package decimal.
func (p *Prog) constInt(nm string) int64 {
	if k, ok := p.bigType.Obj().Pkg().Scope().Lookup(nm).(*types.Const); ok {
		if v, ok := constant.Int64Val(k.Val()); ok {
			return v
		}
	}
	panic("no constant " + nm)
}

// rops are the operations with one rounding.
type rops struct {
	round, quantize, rti, ceil, floor, add, sub, mul, quo, fma rop
	unary                                                      []rop
}

func (c *Ctx) rops() *rops {
	id := func(v []*big.Rat) *big.Rat { return v[0] }
	neg := func(v []*big.Rat) *big.Rat { return new(big.Rat).Neg(v[0]) }
	abs := func(v []*big.Rat) *big.Rat { return new(big.Rat).Abs(v[0]) }
	add := func(v []*big.Rat) *big.Rat { return new(big.Rat).Add(v[0], v[1]) }
	sub := func(v []*big.Rat) *big.Rat { return new(big.Rat).Sub(v[0], v[1]) }
	mul := func(v []*big.Rat) *big.Rat { return new(big.Rat).Mul(v[0], v[1]) }
	quo := func(v []*big.Rat) *big.Rat { return new(big.Rat).Quo(v[0], v[1]) }
	fma := func(v []*big.Rat) *big.Rat { return new(big.Rat).Add(new(big.Rat).Mul(v[0], v[1]), v[2]) }
	pl := func(o rop) rop { o.place = true; return o }
	set := c.rop("Set", 1, id)
	set.big = nil // Big.Set does not round
	return &rops{
		round: pl(c.rop("Round", 0, id)), quantize: pl(c.rop("Quantize", 0, id)), rti: pl(c.rop("RoundToInt", 0, id)),
		ceil: c.rop("Ceil", 1, id), floor: c.rop("Floor", 1, id),
		add: c.rop("Add", 2, add), sub: c.rop("Sub", 2, sub), mul: c.rop("Mul", 2, mul), quo: c.rop("Quo", 2, quo), fma: c.rop("FMA", 3, fma),
		unary: []rop{c.rop("Neg", 1, neg), c.rop("Abs", 1, abs), set},
	}
}

// shape says which operands hit a target.
type shape struct {
	t          target
	n          int
	e          int64 // exponent of the target's last digit
	p          int64
	mode       int
	neg        bool
	meth       bool  // the method of Big
	me, qe     int64 // exponents of the second operand of Mul and Quo
	emax, emin int64
	quo, noQuo bool // only or not Quo
}

// hit runs the operations with operands that hit the target.
func (ops *rops) hit(s shape, run func(r rrun)) {
	t, e, n, neg := s.t, s.e, s.n, s.neg
	both := rng(0, 1)
	do := func(o rop, meth bool, al int, xs ...dec) {
		if s.quo && o.nm != "Quo" {
			return
		}
		r := rrun{op: o, big: meth && o.big != nil, xs: xs, al: al, prec: s.p, mode: s.mode, omode: k64(0), emax: s.emax, emin: s.emin}
		if o.nm == "Round" {
			r.omode = both
			if r.big {
				r.args = []*Val{constV(i64(s.p))} // Big.Round takes the precision
			}
		}
		if o.nm == "Quo" {
			r.omode = both
		}
		run(r)
	}
	meth := s.meth
	if x, ok := decOf(t.lo, t.hi, neg, e); ok {
		do(ops.round, meth, 0, x)
		for _, o := range ops.unary {
			do(o, meth, n%2-1, x)
		}
	}
	// x + y in the target
	al := n%3 - 1
	sg := func(d dec) dec { return d.with(d.neg != neg) }
	for _, k := range []struct{ yc, ye int64 }{{7, 0}, {1, 1}, {123, -3}, {3, 4}} {
		for _, opp := range []bool{false, true} {
			y := fin(k64(k.yc), k64(e+k.ye))
			y.neg = opp
			// x = t - y, in units of 10^e
			u := new(bigRat).Mul(new(bigRat).SetInt64(k.yc), ratPow(k.ye))
			lo, hi := new(bigRat).Sub(t.lo, u), new(bigRat).Sub(t.hi, u)
			if opp {
				lo, hi = new(bigRat).Add(t.lo, u), new(bigRat).Add(t.hi, u)
			}
			xe := e
			if k.ye < 0 {
				lo, hi, xe = lo.Mul(lo, ratPow(-k.ye)), hi.Mul(hi, ratPow(-k.ye)), e+k.ye
			}
			if k.ye == 4 {
				// x has the greater exponent
				lo, hi, xe = lo.Mul(lo, ratPow(-2)), hi.Mul(hi, ratPow(-2)), e+2
			}
			x, ok := decOf(lo, hi, false, xe)
			if !ok {
				continue
			}
			do(ops.add, meth, al, sg(x), sg(y))
			do(ops.add, !meth, al, sg(y), sg(x))
			do(ops.sub, meth, al, sg(x), sg(y.with(!opp)))
			do(ops.sub, !meth, al, sg(y), sg(x.with(true)))
		}
	}
	// x * y in the target
	for _, yc := range []int64{1, 5, 3, -25} {
		y := fin(k64(yc), k64(s.me))
		if yc < 0 {
			y = fin(k64(-yc), k64(s.me)).with(true)
		}
		d := new(bigRat).SetInt64(1)
		d.SetFrac64(1, int64(new(bigInt).Abs(bigN(yc)).Int64()))
		x, ok := decOf(new(bigRat).Mul(t.lo, d), new(bigRat).Mul(t.hi, d), neg, e)
		if !ok {
			continue
		}
		do(ops.mul, meth, al, x, y)
		do(ops.mul, !meth, al, y, x)
		// x*y + u
		u := fin(k64(9), k64(e+s.me)).with(neg != y.neg)
		u9 := new(bigRat).SetInt64(9)
		x, ok = decOf(new(bigRat).Mul(new(bigRat).Sub(t.lo, u9), d), new(bigRat).Mul(new(bigRat).Sub(t.hi, u9), d), neg, e)
		if ok {
			do(ops.fma, meth, n%4-1, x, y, u)
		}
	}
	if s.noQuo {
		return
	}
	// x / y in the target
	for _, k := range []struct {
		y     string
		shift int64
	}{{"2", 0}, {"2000000000", 0}, {"2000000000", 7}, {"4000000006", 0}, {"7", 0}, {"24", 1}, {"12345678", 3}, {"9999999999999999999", 0}, {"12345678901234567890", 0}, {"98765432109876543210", 0}, {"20000000000000000000000", 4}} {
		yb, _ := new(bigInt).SetString(k.y, 10)
		yr := new(bigRat).SetInt(yb)
		y, _ := decOf(yr, yr, meth, s.qe)
		m := new(bigRat).Mul(yr, ratPow(-t.n-k.shift))
		x, ok := decOf(new(bigRat).Mul(t.lo, m), new(bigRat).Mul(t.hi, m), neg, e+k.shift)
		if xl, _ := x.digitCount(); !ok || t.kind == 0 || s.p+int64(len(k.y)) > 36 || xl > 36 {
			continue
		}
		for _, x := range x.byLength() {
			do(ops.quo, meth, al, x, y)
		}
	}
}

func rounding(c *Ctx) {
	ops := c.rops()
	gda, both := k64(0), rng(0, 1)

	all := append(targets([]string{"1", "8", "9", "37", "99", "4998"}, []int64{1, 3, 14}), targets([]string{"1234567890123", "9999999999998", "9999999999999"}, []int64{1, 4})...)
	all = append(all, targets([]string{"1234567890123456", "9999999999999999"}, []int64{1, 3})...)
	all = append(all, targets([]string{"1", "8", "9", "37", "99", "4998"}, []int64{21, 30})...)
	all = append(all, targets([]string{"12345678901234567", "99999999999999999", "12345678901234567890123", "99999999999999999999999"}, []int64{1, 4, 11})...)

	all = append(all, targets([]string{"0"}, []int64{1, 2, 14, 19, 20, 22, 30})...)

	n := 0
	each := func(f func(t target, p int64, mode int, neg bool, meth bool)) {
		for i, t := range all {
			for mode := 0; mode < numModes; mode++ {
				for _, neg := range []bool{false, true} {
					n++
					f(t, int64(len(t.q)), mode, neg, (i+mode)%2 == 0)
				}
			}
		}
	}
	each(func(t target, p int64, mode int, neg, meth bool) {
		exps := []int64{0, -7, 12}
		e := exps[n%3]
		if t.q == "0" && t.kind == 0 {
			return
		}
		if x, ok := decOf(t.lo, t.hi, neg, e); ok {
			at := e + t.n
			c.rounded(rrun{op: ops.quantize, big: !meth, xs: []dec{x}, al: 0, prec: p + 1, anyP: true, mode: mode, omode: both, args: []*Val{constV(i64(-at))}}, &at)
			x.exp = k64(-t.n)
			zero := int64(0)
			c.rounded(rrun{op: ops.rti, big: meth, xs: []dec{x}, al: 0, prec: 1, anyP: true, mode: mode, omode: both}, &zero)
			switch mode {
			case mPosInf:
				c.rounded(rrun{op: ops.ceil, xs: []dec{x}, al: n%2 - 1, prec: 1, anyP: true, mode: mode, ownMode: true, omode: both}, &zero)
			case mNegInf:
				c.rounded(rrun{op: ops.floor, xs: []dec{x}, al: n%2 - 1, prec: 1, anyP: true, mode: mode, ownMode: true, omode: both}, &zero)
			}
		}
		if t.q == "0" {
			return
		}
		ops.hit(shape{t: t, n: n, e: e, p: p, mode: mode, neg: neg, meth: meth, me: 3, qe: 2}, func(r rrun) { c.rounded(r, nil) })
		// q with a tiny operand of a much smaller exponent
		if t.kind == 0 && t.n <= 3 {
			al := n%3 - 1
			sg := func(d dec) dec { return d.with(d.neg != neg) }
			q, _ := decOf(new(bigRat).Mul(t.lo, ratPow(-t.n)), new(bigRat).Mul(t.hi, ratPow(-t.n)), false, e)
			for _, opp := range []bool{false, true} {
				y := fin(rng(1, 999), k64(e-60)).with(opp)
				if n%2 == 0 {
					y = large(rngS("20000000000000000000", "900000000000000000000"), k64(e-60)).with(opp)
				}
				c.rounded(rrun{op: ops.add, big: meth, xs: []dec{sg(q), sg(y)}, al: al, prec: p, mode: mode, omode: gda}, nil)
				c.rounded(rrun{op: ops.sub, big: meth, xs: []dec{sg(y), sg(q.with(true))}, al: al, prec: p + 2, mode: mode, omode: gda}, nil)
			}
		}
	})
	c.wg.Wait()
}

type (
	bigRat = big.Rat
	bigInt = big.Int
)

func bigN(x int64) *big.Int { return big.NewInt(x) }
