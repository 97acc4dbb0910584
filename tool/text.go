package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text. With it.text set (on top of it.words), strings and slices of bytes of a
// known length have one value per byte, numbers are linear combinations of the
// characters they were read from, and the digits of such a number are known.

// textMode turns text on.
func (it *Interp) textMode() {
	it.magMode()
	it.words, it.unroll, it.bndCap, it.text = true, true, 4000, true
	it.memoable = nil
	if fn := it.P.Func(modPath+"/internal/arith", "Length"); fn != nil {
		if it.fnHook == nil {
			it.fnHook = map[*ssa.Function]func(*Interp, *callCtx) ([]Outcome, bool){}
		}
		it.fnHook[fn] = (*Interp).decades
	}
	if it.x.polys == nil {
		it.x.polys, it.x.terms = map[*Expr]poly{}, map[string]*Expr{}
	}
}

// mkStr makes a string of these bytes.
func mkStr(bs []*Val) *Val {
	s := make([]byte, 0, len(bs))
	for _, b := range bs {
		k, ok := b.n.isConst()
		if !ok || b.k != KInt || b.n.isBot() {
			return &Val{k: KStr, fs: bs, ln: constV(i64(int64(len(bs))))}
		}
		s = append(s, byte(k.l))
	}
	return strV(string(s))
}

// bytesOf returns the bytes of a string or slice.
func (it *Interp) bytesOf(st *State, v *Val) ([]*Val, bool) {
	switch {
	case v == nil:
	case v.k == KStr && v.str != nil:
		var r []*Val
		for i := 0; i < len(*v.str); i++ {
			r = append(r, constV(i64(int64((*v.str)[i]))))
		}
		return r, true
	case v.k == KStr && v.fs != nil && v.ln != nil:
		return v.fs, true
	case v.k == KSlice:
		return it.cellsOf(st, v)
	}
	return nil, false
}

// isNumeral marks the element of a string that stands for all the digits of a
// number.
func isNumeral(b *Val) bool { return b != nil && b.k == KOpaque && b.e != nil && b.e.op == "numeral" }

func hasNumeral(bs []*Val) bool {
	for _, b := range bs {
		if b == nil || b.k != KInt {
			return true
		}
	}
	return false
}

func (it *Interp) byteSlice(c *callCtx, bs []*Val) *Val {
	return it.byteSliceAt(c.st, c.ins, bs)
}

func (it *Interp) byteSliceAt(st *State, ins ssa.Instruction, bs []*Val) *Val {
	p := it.alloc(st, 0, ins, 5, types.NewArray(types.Typ[types.Uint8], int64(len(bs)+8)), "bytes")
	copy(st.objW(p.p[0].obj).cells, bs)
	return &Val{k: KSlice, p: p.p, ln: constV(i64(int64(len(bs)))), sign: 6}
}

// ---- linear combinations ------------------------------------------------------

// normPoly replaces the terms that are known.
func normPoly(st *State, p poly) poly {
	r := poly{}
	for t, k := range p {
		if t != "1" {
			if n, ok := st.enum(st.x.terms[t]); ok {
				if c, ok := n.isConst(); ok && !n.isBot() {
					r.add(poly{"1": new(bigInt).Mul(k, c.big())}, bigOne)
					continue
				}
			}
		}
		r.add(poly{t: k}, bigOne)
	}
	return r
}

// linOf expands the number v.
func (it *Interp) linOf(st *State, v *Val) (poly, bool) {
	if v == nil || v.k != KInt && v.k != KBig {
		return nil, false
	}
	if v.k == KInt {
		if k, ok := st.num(v).isConst(); ok {
			return konstPoly(k.big()), true
		}
	} else if n := it.magOf(st, v); !n.unknown() && !n.isBot() {
		if k, ok := n.isConst(); ok {
			return konstPoly(k.big()), true
		}
	}
	if v.e == nil {
		return nil, false
	}
	p, err := lin(st, v.e)
	if err != nil {
		return nil, false
	}
	p = normPoly(st, p)
	for t := range p {
		if t != "1" && st.x.terms[t] == nil {
			return nil, false
		}
	}
	return p, true
}

// hull is the range of p.
func hull(st *State, p poly) (lo, hi *bigInt, ok bool) {
	lo, hi = new(bigInt), new(bigInt)
	for t, k := range p {
		if t == "1" {
			lo, hi = new(bigInt).Add(lo, k), new(bigInt).Add(hi, k)
			continue
		}
		n, ok := st.enum(st.x.terms[t])
		if !ok || n.isBot() {
			return nil, nil, false
		}
		a, b := new(bigInt).Mul(k, n.lo.big()), new(bigInt).Mul(k, n.hi.big())
		if k.Sign() < 0 {
			a, b = b, a
		}
		lo, hi = new(bigInt).Add(lo, a), new(bigInt).Add(hi, b)
	}
	return lo, hi, true
}

// polyExpr names the number p.
func (x *ExprTab) polyExpr(p poly) *Expr {
	var t0 string
	n := 0
	for t := range p {
		if t != "1" {
			t0 = t
			n++
		}
	}
	k := p["1"]
	small := k == nil || k.IsInt64()
	switch {
	case n == 0 && k == nil:
		return x.konst(i64(0))
	case n == 0 && k.BitLen() < 126:
		return x.konst(fromBig(k))
	case n == 1 && p[t0].Cmp(bigOne) == 0 && x.terms[t0] != nil && small:
		if k == nil {
			return x.terms[t0]
		}
		if e := x.mk("+", x.terms[t0], x.konst(fromBig(k)), I{}, "nw"); e != nil {
			return e
		}
	}
	e := x.named("{" + p.String() + "}")
	x.polys[e] = poly{}.add(p, bigOne)
	return e
}

func clampNum(lo, hi *bigInt) (Num, bool) {
	if lo.BitLen() > 125 || hi.BitLen() > 125 {
		return Num{}, false
	}
	return mkRange(fromBig(lo), fromBig(hi)), true
}

// oneTerm is the set of the values of p, if it depends on one term with few.
func oneTerm(st *State, p poly) (Num, bool) {
	var xs []I
	k, t := bigOne, ""
	for u, c := range p {
		if u == "1" {
			continue
		}
		if t != "" {
			return Num{}, false
		}
		k, t = c, u
	}
	if t == "" {
		return Num{}, false
	}
	n, ok := st.enum(st.x.terms[t])
	if !ok || n.set == nil {
		return Num{}, false
	}
	for _, v := range n.set {
		r := new(bigInt).Mul(k, v.big())
		if c := p["1"]; c != nil {
			r.Add(r, c)
		}
		if r.BitLen() > 125 {
			return Num{}, false
		}
		xs = append(xs, fromBig(r))
	}
	return mkSet(xs), true
}

// polyVal makes an integer of the type t that is p, if p fits.
func (it *Interp) polyVal(st *State, p poly, t types.Type) (*Val, bool) {
	lo, hi, ok := hull(st, p)
	if !ok {
		return nil, false
	}
	n, ok := clampNum(lo, hi)
	if ok && n.isBot() {
		return nil, false
	}
	if m, ok := oneTerm(st, p); ok {
		n = m
	}
	if m, found := st.enum(it.x.polyExpr(p)); found && ok {
		n = n.meet(m)
	}
	tl, th, okt := typeRange(t)
	if !ok || !okt || n.lo.cmp(tl) < 0 || n.hi.cmp(th) > 0 {
		return nil, false
	}
	if k, ok := n.isConst(); ok {
		return constV(k), true
	}
	return st.intVal(n, it.x.polyExpr(p)), true
}

// textBinop evaluates sums, differences, multiples, quotients by powers of ten.
func (it *Interp) textBinop(st *State, v *ssa.BinOp, a, b *Val) (*Val, bool) {
	if a.k != KInt || b.k != KInt {
		return nil, false
	}
	switch v.Op {
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
	case token.SHL, token.SHR, token.AND, token.OR:
		return it.textBits(st, v.Op, v.Type(), a, b)
	default:
		return nil, false
	}
	p, ok := it.linOf(st, a)
	q, ok2 := it.linOf(st, b)
	if !ok || !ok2 {
		return nil, false
	}
	isK := func(p poly) bool { return len(p) == 0 || len(p) == 1 && p["1"] != nil }
	konst := func(p poly) *bigInt {
		if k := p["1"]; k != nil {
			return k
		}
		return new(bigInt)
	}
	if isK(p) && isK(q) {
		return nil, false
	}
	// Plain offsets keep their usual form.
	single := func(p poly) bool {
		n := 0
		for t, k := range p {
			if t != "1" {
				n++
				if k.Cmp(bigOne) != 0 {
					return false
				}
			}
		}
		return n == 1
	}
	var r poly
	switch v.Op {
	case token.ADD:
		r = poly{}.add(p, bigOne).add(q, bigOne)
	case token.SUB:
		r = poly{}.add(p, bigOne).add(q, bigN(-1))
	case token.MUL:
		if isK(p) {
			p, q = q, p
		}
		if !isK(q) {
			return nil, false
		}
		r = poly{}.add(p, konst(q))
	case token.QUO, token.REM:
		if !isK(q) {
			return nil, false
		}
		if n := int64(konst(q).BitLen()) - 1; n > 0 && konst(q).Cmp(pow2(n)) == 0 {
			hi, lo, ok := splitBits(st, p, n)
			if !ok {
				return nil, false
			}
			if v.Op == token.QUO {
				return it.polyVal(st, hi, v.Type())
			}
			return it.polyVal(st, lo, v.Type())
		}
		k := len(konst(q).String()) - 1
		ds, ok := it.digitsOf(st, p)
		if !ok || konst(q).Cmp(pow10(int64(k))) != 0 {
			return nil, false
		}
		cut := len(ds) - k
		if cut < 0 {
			cut = 0
		}
		if v.Op == token.QUO {
			ds = ds[:cut]
		} else {
			ds = ds[cut:]
		}
		r = fromDigits(it, st, ds)
	}
	if single(r) && r["1"] == nil && (single(p) || single(q)) && v.Op != token.SUB && v.Op != token.ADD {
		return nil, false
	}
	return it.polyVal(st, r, v.Type())
}

func isKonst(p poly) bool { return len(p) == 0 || len(p) == 1 && p["1"] != nil }

// fromDigits is the number written as ds.
func fromDigits(it *Interp, st *State, ds []*Val) poly {
	r := poly{}
	for i, d := range ds {
		k := pow10(int64(len(ds) - 1 - i))
		p, ok := it.linOf(st, d)
		if !ok {
			return nil
		}
		r.add(p, k)
		r.add(poly{"1": new(bigInt).Mul(k, bigN(-'0'))}, bigOne)
	}
	return r
}

// digitsOf writes p, whose digits are characters, and has a known length.
func (it *Interp) digitsOf(st *State, p poly) ([]*Val, bool) {
	p = normPoly(st, p)
	rest := new(bigInt)
	if k := p["1"]; k != nil {
		rest.Set(k)
	}
	at := map[int]string{}
	max := 0
	for t, k := range p {
		if t == "1" {
			continue
		}
		s := k.String()
		if s[0] != '1' || strings.Trim(s[1:], "0") != "" {
			return nil, false
		}
		n, ok := st.enum(st.x.terms[t])
		if !ok || n.isBot() || n.lo.cmp(i64('0')) < 0 || n.hi.cmp(i64('9')) > 0 {
			return nil, false
		}
		i := len(s) - 1
		at[i] = t
		if i > max {
			max = i
		}
		rest.Add(rest, new(bigInt).Mul(k, bigN('0')))
	}
	if rest.Sign() < 0 {
		return nil, false
	}
	s := rest.String()
	if len(s) > max+1 {
		max = len(s) - 1
	}
	var r []*Val
	for i := max; i >= 0; i-- {
		c := byte('0')
		if i < len(s) {
			c = s[len(s)-1-i]
		}
		if t := at[i]; t != "" {
			if c != '0' {
				return nil, false
			}
			e := st.x.terms[t]
			n, _ := st.enum(e)
			if len(r) == 0 && n.lo.cmp(i64('0')) == 0 && i > 0 {
				return nil, false // its length is not known
			}
			r = append(r, st.intVal(n, e))
			continue
		}
		if len(r) == 0 && c == '0' && i > 0 {
			continue
		}
		r = append(r, constV(i64(int64(c))))
	}
	return r, true
}

// numeral writes the number v in base ten.
func (it *Interp) numeral(st *State, v *Val) []*Val {
	if p, ok := it.linOf(st, v); ok {
		if len(p) == 0 {
			return []*Val{constV(i64('0'))}
		}
		if k := p["1"]; len(p) == 1 && k != nil {
			bs, _ := it.bytesOf(st, strV(k.String()))
			return bs
		}
		if ds, ok := it.digitsOf(st, p); ok {
			return ds
		}
		return []*Val{{k: KOpaque, e: it.x.mk("numeral", it.x.polyExpr(p), nil, I{}, "")}}
	}
	return []*Val{{k: KOpaque, e: it.x.newAtom()}}
}

// textCmp compares a and b: the sign of a-b, as a set.
func (it *Interp) textCmp(st *State, a, b *Val) (lo, hi int, ok bool) {
	if a.k != KInt || b.k != KInt {
		return
	}
	p, ok1 := it.linOf(st, a)
	q, ok2 := it.linOf(st, b)
	if !ok1 || !ok2 {
		return
	}
	l, h, ok := hull(st, poly{}.add(p, bigOne).add(q, bigN(-1)))
	if !ok {
		return
	}
	return l.Sign(), h.Sign(), true
}

// textEq compares strings: whether they may differ, and may be equal.
func (it *Interp) textEq(st *State, a, b *Val) (ne, eq, ok bool) {
	x, ok1 := it.bytesOf(st, a)
	y, ok2 := it.bytesOf(st, b)
	if !ok1 || !ok2 || hasNumeral(x) || hasNumeral(y) {
		return
	}
	if len(x) != len(y) {
		return true, false, true
	}
	eq = true
	for i := range x {
		n, _ := it.cmpEq(st, x[i], y[i])
		ne = ne || n.contains(i64(0))
		eq = eq && n.contains(i64(1))
	}
	return ne, eq, true
}

// textIndex is the byte i of the string x.
func (it *Interp) textIndex(st *State, x, i *Val) (*Val, bool) {
	bs, ok := it.bytesOf(st, x)
	k, ok2 := constOf(st, i)
	if !ok || !ok2 || hasNumeral(bs) {
		return nil, false
	}
	if k >= len(bs) {
		it.undecided("index %d of a string of %d bytes", k, len(bs))
		return nil, false
	}
	return st.norm(bs[k]), true
}

func (it *Interp) textSlice(st *State, x, lo, hi *Val) (*Val, bool) {
	bs, ok := it.bytesOf(st, x)
	if !ok || hasNumeral(bs) {
		return nil, false
	}
	l, h := 0, len(bs)
	okl, okh := true, true
	if lo != nil {
		l, okl = constOf(st, lo)
	}
	if hi != nil {
		h, okh = constOf(st, hi)
	}
	if !okl || !okh {
		return nil, false
	}
	if l > h || h > len(bs) {
		it.undecided("slice bounds [%d:%d] of a string of %d bytes", l, h, len(bs))
		return nil, false
	}
	return mkStr(bs[l:h:h]), true
}

// ---- the library ----------------------------------------------------------------

// object returns the one object the pointer v points to.
func (it *Interp) object(st *State, v *Val) *ObjSt {
	if v != nil && v.k == KIface {
		v = v.in
	}
	if v == nil || v.k != KPtr || len(v.p) != 1 || v.unk || v.p[0].off != 0 {
		return nil
	}
	o := st.objW(v.p[0].obj)
	if o == nil || o.weak || len(o.cells) != 1 {
		return nil
	}
	return o
}

// written returns what the buffer w holds.
func (it *Interp) written(st *State, w *Val) ([]*Val, bool) {
	o := it.object(st, w)
	if o == nil {
		return nil, false
	}
	if o.cells[0].k != KStr || o.cells[0].fs == nil && o.cells[0].str == nil {
		return nil, true // nothing yet
	}
	return it.bytesOf(st, o.cells[0])
}

func rawStr(bs []*Val) *Val {
	if bs == nil {
		return strV("")
	}
	return &Val{k: KStr, fs: bs[:len(bs):len(bs)], ln: constV(i64(int64(len(bs))))}
}

// emit writes bytes to w: a buffer, or whatever the caller passed.
func (it *Interp) emit(st *State, w *Val, bs []*Val, ok bool) {
	if !ok {
		bs = []*Val{{k: KOpaque, e: it.x.newAtom()}}
	}
	bs = append([]*Val{}, bs...)
	for i, b := range bs {
		bs[i] = st.norm(b)
	}
	if o := it.object(st, w); o != nil {
		old, _ := it.written(st, w)
		o.cells[0] = rawStr(append(old[:len(old):len(old)], bs...))
		return
	}
	st.outv = append(st.outv[:len(st.outv):len(st.outv)], bs...)
}

// count is the number of bytes written.
func (it *Interp) count(c *callCtx, bs []*Val, ok bool) []Outcome {
	st := c.st
	n := it.rangeV(st, 0, 1<<40)
	if ok && !hasNumeral(bs) {
		n = constV(i64(int64(len(bs))))
	}
	r := c.sig.Results()
	if r.Len() < 2 {
		return ret(st, it.zeroErr(c))
	}
	return ret(st, tuple(n, it.zero(r.At(1).Type())))
}

func (it *Interp) textBuffer(c *callCtx, m string) ([]Outcome, bool) {
	st, w := c.st, c.args[0]
	if it.object(st, w) == nil {
		return nil, false
	}
	switch m {
	case "WriteString", "Write":
		bs, ok := it.bytesOf(st, c.args[1])
		it.emit(st, w, bs, ok)
		return it.count(c, bs, ok), true
	case "WriteByte":
		it.emit(st, w, []*Val{c.args[1]}, true)
		return ret(st, it.zeroErr(c)), true
	case "WriteRune":
		bs := []*Val{c.args[1]}
		n := st.num(c.args[1])
		ok := !n.isBot() && n.lo.sign() >= 0 && n.hi.cmp(i64(128)) < 0
		it.emit(st, w, bs, ok)
		return it.count(c, bs, ok), true
	case "Grow":
		return ret(st, nil), true
	case "Reset":
		it.object(st, w).cells[0] = strV("")
		return ret(st, nil), true
	case "String", "Bytes", "Len":
		bs, ok := it.written(st, w)
		switch {
		case !ok:
		case m == "String":
			return ret(st, mkStr(bs)), true
		case m == "Bytes":
			return ret(st, it.byteSlice(c, bs)), true
		case !hasNumeral(bs):
			return ret(st, constV(i64(int64(len(bs))))), true
		}
	}
	return nil, false
}

var eofNm = "io.EOF"

func (it *Interp) eof() *Val { return &Val{k: KIface, unk: true, e: it.x.named(eofNm)} }

// textReader reads from a string: its cell holds the string and the position.
func (it *Interp) textReader(c *callCtx, m string) ([]Outcome, bool) {
	st := c.st
	o := it.object(st, c.args[0])
	if o == nil || o.cells[0].k != KTuple || len(o.cells[0].fs) != 2 {
		return nil, false
	}
	bs, _ := it.bytesOf(st, o.cells[0].fs[0])
	at, _ := constOf(st, o.cells[0].fs[1])
	move := func(n int) {
		o.cells[0] = tuple(o.cells[0].fs[0], constV(i64(int64(n))))
	}
	nilErr := func(i int) *Val { return it.zero(c.sig.Results().At(i).Type()) }
	switch m {
	case "ReadByte":
		if at == len(bs) {
			return ret(st, tuple(constV(i64(0)), it.eof())), true
		}
		move(at + 1)
		return ret(st, tuple(st.norm(bs[at]), nilErr(1))), true
	case "ReadRune":
		if at == len(bs) {
			return ret(st, tuple(constV(i64(0)), constV(i64(0)), it.eof())), true
		}
		if n := st.num(bs[at]); n.isBot() || n.hi.cmp(i64(128)) >= 0 {
			return nil, false
		}
		move(at + 1)
		return ret(st, tuple(st.norm(bs[at]), constV(i64(1)), nilErr(2))), true
	case "UnreadByte", "UnreadRune":
		if at == 0 {
			return ret(st, &Val{k: KIface, unk: true, e: it.x.newAtom()}), true
		}
		move(at - 1)
		return ret(st, nilErr(0)), true
	case "Len":
		return ret(st, constV(i64(int64(len(bs)-at)))), true
	}
	return nil, false
}

// textExtern models library functions on text.
func (it *Interp) textExtern(c *callCtx) ([]Outcome, bool) {
	st, n := c.st, c.name
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		if strings.HasPrefix(n, p) {
			return it.textBuffer(c, n[len(p):])
		}
	}
	for _, p := range []string{"(*strings.Reader).", "(*bytes.Reader)."} {
		if strings.HasPrefix(n, p) {
			return it.textReader(c, n[len(p):])
		}
	}
	if strings.HasPrefix(n, "math.") {
		return it.floatCall(c)
	}
	if p := "(*math/big.Rat)."; strings.HasPrefix(n, p) {
		if r, ok := it.bigRat(c, n[len(p):]); ok {
			return r, true
		}
		return nil, false
	}
	if p := "(*math/big.Float)."; strings.HasPrefix(n, p) {
		return it.bigFloat(c, n[len(p):])
	}
	str := func(bs []*Val) ([]Outcome, bool) { return ret(st, mkStr(bs)), true }
	base10 := func(i int) bool {
		k, ok := constOf(st, c.args[i])
		return ok && k == 10
	}
	switch n {
	case "strings.NewReader", "bytes.NewReader":
		bs, ok := it.bytesOf(st, c.args[0])
		if !ok || hasNumeral(bs) {
			return nil, false
		}
		p := it.alloc(st, 0, c.ins, 2, c.sig.Results().At(0).Type().(*types.Pointer).Elem(), "reader")
		st.objW(p.p[0].obj).cells[0] = tuple(rawStr(bs), constV(i64(0)))
		return ret(st, p), true
	case "strconv.AppendUint", "strconv.AppendInt":
		old, ok := it.bytesOf(st, c.args[0])
		if !ok || !base10(2) {
			return nil, false
		}
		return ret(st, it.byteSlice(c, append(append([]*Val{}, old...), it.numeral(st, c.args[1])...))), true
	case "strconv.FormatUint", "strconv.FormatInt":
		if !base10(1) {
			return nil, false
		}
		return str(it.numeral(st, c.args[0]))
	case "strconv.Itoa":
		return str(it.numeral(st, c.args[0]))
	case "bytes.Repeat", "strings.Repeat":
		bs, ok := it.bytesOf(st, c.args[0])
		k, ok2 := constOf(st, c.args[1])
		if !ok || !ok2 || k*len(bs) > 1000 {
			return nil, false
		}
		var r []*Val
		for i := 0; i < k; i++ {
			r = append(r, bs...)
		}
		if n == "strings.Repeat" {
			return str(r)
		}
		return ret(st, it.byteSlice(c, r)), true
	case "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "internal/bytealg.CountString", "internal/bytealg.Count":
		return it.textFind(c, strings.Contains(n, "Count"))
	case "math/bits.TrailingZeros64", "math/bits.TrailingZeros":
		p, ok := it.linOf(st, c.args[0])
		if !ok || len(p) == 0 {
			return nil, false
		}
		tz, at := uint(64), ""
		for t, k := range p {
			if z := k.TrailingZeroBits(); z < tz {
				tz, at = z, t
			} else if z == tz {
				at = ""
			}
		}
		if at != "1" {
			return nil, false
		}
		return ret(st, constV(i64(int64(tz)))), true
	case "math/bits.Mul64", "math/bits.Mul", "math/bits.Add64", "math/bits.Add":
		p, ok := it.linOf(st, c.args[0])
		q, ok2 := it.linOf(st, c.args[1])
		if !ok || !ok2 {
			return nil, false
		}
		if strings.Contains(n, "Mul") {
			if !isKonst(q) {
				p, q = q, p
			}
			if !isKonst(q) {
				return nil, false
			}
			k := q["1"]
			if k == nil {
				k = new(bigInt)
			}
			p = poly{}.add(p, k)
		} else {
			r, ok := it.linOf(st, c.args[2])
			if !ok {
				return nil, false
			}
			p = poly{}.add(p, bigOne).add(q, bigOne).add(r, bigOne)
		}
		t := c.sig.Results().At(0).Type()
		if v, ok := it.polyVal(st, p, t); ok {
			if strings.Contains(n, "Mul") {
				return ret(st, tuple(constV(i64(0)), v)), true
			}
			return ret(st, tuple(v, constV(i64(0)))), true
		}
		// In the range of the higher word the rest is known, too.
		lo, hi, ok := hull(st, p)
		if !ok || lo.Sign() < 0 {
			return nil, false
		}
		k := new(bigInt).Rsh(lo, 64)
		if k.Cmp(new(bigInt).Rsh(hi, 64)) != 0 {
			return nil, false
		}
		v, ok := it.polyVal(st, poly{"1": new(bigInt).Neg(new(bigInt).Lsh(k, 64))}.add(p, bigOne), t)
		if !ok {
			return nil, false
		}
		if strings.Contains(n, "Mul") {
			return ret(st, tuple(constV(fromBig(k)), v)), true
		}
		return ret(st, tuple(v, constV(fromBig(k)))), true
	case "io.WriteString":
		if it.object(st, c.args[0]) == nil && (c.args[0].k != KIface || c.args[0].dyn != nil) {
			if r, ok := it.method(c, c.args[0], "WriteString", c.args[1]); ok {
				return r, true
			}
		}
		bs, ok := it.bytesOf(st, c.args[1])
		it.emit(st, c.args[0], bs, ok)
		return it.count(c, bs, ok), true
	case "io.CopyN":
		return it.copyN(c)
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		it.emit(st, c.args[0], nil, false)
	}
	return nil, false
}

// method calls a method of the value in the interface v.
func (it *Interp) method(c *callCtx, v *Val, nm string, args ...*Val) ([]Outcome, bool) {
	if v == nil || v.k != KIface || v.dyn == nil || v.in == nil {
		return nil, false
	}
	m := it.P.ssa.LookupMethod(v.dyn, nil, nm)
	if m == nil {
		return nil, false
	}
	return it.callOne(c.act, c.st, m, append([]*Val{v.in}, args...), nil, c.ins, m.Signature), true
}

// copyN copies n bytes: it reads them from the reader and passes them on.
func (it *Interp) copyN(c *callCtx) ([]Outcome, bool) {
	st := c.st
	n := st.num(c.args[2])
	if !n.isBot() && n.hi.sign() <= 0 {
		if n.hi.sign() == 0 && n.lo.sign() == 0 {
			return ret(st, tuple(constV(i64(0)), it.zero(c.sig.Results().At(1).Type()))), true
		}
		return nil, false
	}
	k, ok := constOf(st, c.args[2])
	if !ok || k > 1000 {
		return nil, false
	}
	var zs []*Val
	for i := 0; i < k; i++ {
		zs = append(zs, st.intVal(topNum(types.Typ[types.Uint8]), it.x.newAtom()))
	}
	buf := it.byteSlice(c, zs)
	rd, ok := it.method(c, c.args[1], "Read", buf)
	if !ok {
		return nil, false
	}
	var outs []Outcome
	for _, o := range rd {
		if o.pan != "" {
			outs = append(outs, o)
			continue
		}
		if o.ret == nil || o.ret.k != KTuple || !o.st.num(o.ret.fs[0]).eq(k64(int64(k))) {
			return nil, false
		}
		c2 := *c
		c2.st = o.st
		bs, ok := it.cellsOf(o.st, buf)
		if w, ok2 := it.method(&c2, c.args[0], "Write", buf); ok2 {
			for _, o2 := range w {
				if o2.pan == "" {
					o2.ret = tuple(constV(i64(int64(k))), it.zero(c.sig.Results().At(1).Type()))
				}
				outs = append(outs, o2)
			}
			continue
		}
		it.emit(o.st, c.args[0], bs, ok)
		outs = append(outs, it.count(&c2, bs, ok)...)
	}
	return outs, true
}

// textInvoke models the methods of the caller's own readers and writers.
func (it *Interp) textInvoke(c *callCtx) ([]Outcome, bool) {
	st := c.st
	m := c.name[strings.LastIndex(c.name, ".")+1:]
	switch m {
	case "Write", "WriteString":
		bs, ok := it.bytesOf(st, c.args[1])
		it.emit(st, nil, bs, ok)
		return it.count(c, bs, ok), true
	case "WriteByte":
		it.emit(st, nil, []*Val{c.args[1]}, true)
		return ret(st, it.zeroErr(c)), true
	}
	if it.state != nil {
		if r := it.state(c, m); r != nil {
			return r, true
		}
	}
	return nil, false
}

// ---- numbers --------------------------------------------------------------------

// textBig models operations on numbers that are linear combinations.
func (it *Interp) textBig(c *callCtx, m string) ([]Outcome, bool) {
	st := c.st
	arg := func(i int) (poly, bool) {
		if i >= len(c.args) {
			return nil, false
		}
		v := c.args[i]
		if v.k == KPtr {
			if len(v.p) != 1 || v.unk {
				return nil, false
			}
			v = it.bigLoad(c, v)
		}
		return it.linOf(st, v)
	}
	set := func(p poly) ([]Outcome, bool) { return it.setPoly(c, p) }
	isK := isKonst
	// Small constants need no linear form.
	small := func(p poly) bool { return isK(p) && (len(p) == 0 || p["1"].BitLen() <= 64) }
	switch m {
	case "SetString":
		bs, ok := it.bytesOf(st, c.args[1])
		if k, okk := constOf(st, c.args[2]); !ok || !okk || k != 10 || len(bs) == 0 {
			return nil, false
		}
		for _, b := range bs {
			if b.k != KInt {
				return nil, false
			}
			if n := st.num(b); n.isBot() || n.lo.cmp(i64('0')) < 0 || n.hi.cmp(i64('9')) > 0 {
				return nil, false
			}
		}
		r, ok := set(fromDigits(it, st, bs))
		if !ok {
			return nil, false
		}
		r[0].ret = tuple(c.args[0], boolV(true))
		return r, true
	case "SetUint64", "SetInt64", "Set":
		if p, ok := arg(1); ok && !small(p) {
			return set(p)
		}
	case "Add", "Sub":
		p, ok := arg(1)
		q, ok2 := arg(2)
		if ok && ok2 && (!small(p) || !small(q)) {
			k := bigOne
			if m == "Sub" {
				k = bigN(-1)
			}
			return set(poly{}.add(p, bigOne).add(q, k))
		}
	case "Mul":
		p, ok := arg(1)
		q, ok2 := arg(2)
		if ok && ok2 && (isK(p) || isK(q)) {
			if isK(p) {
				p, q = q, p
			}
			k := q["1"]
			if k == nil {
				k = new(bigInt)
			}
			return set(poly{}.add(p, k))
		}
	case "MarshalText", "Append", "String", "Text":
		v := it.bigLoad(c, c.args[0])
		if m == "Append" || m == "Text" {
			if k, ok := constOf(st, c.args[len(c.args)-1]); !ok || k != 10 {
				return nil, false
			}
		}
		ds := it.numeral(st, v)
		switch m {
		case "String", "Text":
			return ret(st, mkStr(ds)), true
		case "MarshalText":
			return ret(st, tuple(it.byteSlice(c, ds), it.zero(c.sig.Results().At(1).Type()))), true
		}
		old, ok := it.bytesOf(st, c.args[1])
		if !ok {
			return nil, false
		}
		return ret(st, it.byteSlice(c, append(append([]*Val{}, old...), ds...))), true
	case "SetBytes":
		bs, ok := it.bytesOf(st, c.args[1])
		if !ok || hasNumeral(bs) {
			return nil, false
		}
		if p, ok := bytesPoly(it, st, bs); ok {
			return set(p)
		}
	case "Bytes":
		if p, ok := arg(0); ok {
			if bs, ok := it.polyBytes(st, p); ok {
				return ret(st, it.byteSlice(c, bs)), true
			}
		}
	case "FillBytes":
		p, ok := arg(0)
		buf, ok2 := it.bytesOf(st, c.args[1])
		if !ok || !ok2 {
			return nil, false
		}
		bs, ok := it.polyBytes(st, p)
		if !ok || len(bs) > len(buf) {
			return nil, false
		}
		s := c.args[1]
		o := st.objW(s.p[0].obj)
		for i := range buf {
			v := constV(i64(0))
			if j := i - (len(buf) - len(bs)); j >= 0 {
				v = bs[j]
			}
			o.cells[s.p[0].off+i] = v
		}
		return ret(st, s), true
	case "IsUint64", "IsInt64":
		if p, ok := arg(0); ok && !small(p) {
			if m == "IsUint64" {
				return it.fits(c, p, i64(0), maxU64)
			}
			return it.fits(c, p, i64(-1<<63), i64(1<<63-1))
		}
	case "Abs":
		if p, ok := arg(1); ok && !small(p) {
			if lo, hi, ok := hull(st, p); ok && lo.Sign() >= 0 {
				return set(p)
			} else if ok && hi.Sign() <= 0 {
				return set(poly{}.add(p, bigN(-1)))
			}
		}
	case "Neg":
		if p, ok := arg(1); ok && !small(p) {
			return set(poly{}.add(p, bigN(-1)))
		}
	case "Lsh":
		p, ok := arg(1)
		q, ok2 := arg(2)
		if ok && ok2 && isK(q) && len(p) > 0 {
			k := int64(0)
			if x := q["1"]; x != nil {
				k = x.Int64()
			}
			if k <= 4096 {
				return set(poly{}.add(p, pow2(k)))
			}
		}
	case "Exp":
		p, ok := arg(1)
		q, ok2 := arg(2)
		if ok && ok2 && isK(p) && isK(q) && c.args[3].k == KPtr && c.args[3].null {
			x, y := p["1"], q["1"]
			if x == nil || y == nil || y.Sign() < 0 || y.BitLen() > 12 {
				return nil, false
			}
			return set(konstPoly(new(bigInt).Exp(x, y, nil)))
		}
	case "QuoRem", "DivMod", "Quo", "Div", "Rem", "Mod":
		p, ok := arg(1)
		q, ok2 := arg(2)
		if !ok || !ok2 || !isK(q) || q["1"] == nil || small(p) && small(q) {
			return nil, false
		}
		neg := false
		if _, hi, ok := hull(st, p); ok && hi.Sign() < 0 {
			if m[0] == 'D' || m == "Mod" {
				return nil, false
			}
			neg, p = true, poly{}.add(p, bigN(-1))
		}
		k := len(q["1"].String()) - 1
		ds, ok := it.digitsOf(st, p)
		if !ok || q["1"].Cmp(pow10(int64(k))) != 0 {
			return nil, false
		}
		cut := len(ds) - k
		if cut < 0 {
			cut = 0
		}
		signed := func(ds []*Val) poly {
			r := fromDigits(it, st, ds)
			if neg {
				r = poly{}.add(r, bigN(-1))
			}
			return r
		}
		switch m {
		case "Quo", "Div":
			return set(signed(ds[:cut]))
		case "Rem", "Mod":
			return set(signed(ds[cut:]))
		}
		cc := *c
		cc.args = []*Val{c.args[3]}
		if _, ok := it.setPoly(&cc, signed(ds[cut:])); !ok {
			return nil, false
		}
		r, ok := set(signed(ds[:cut]))
		if ok {
			r[0].ret = tuple(c.args[0], c.args[3])
		}
		return r, ok
	case "Sign":
		if p, ok := arg(0); ok && !small(p) {
			lo, hi, ok := hull(st, p)
			if ok && lo.Sign() == hi.Sign() {
				return ret(st, constV(i64(int64(lo.Sign())))), true
			}
		}
		if p, ok := arg(0); ok && !isKonst(p) {
			// zero or not
			lo, hi, ok := hull(st, p)
			if !ok || lo.Sign() >= 0 || hi.Sign() != 0 {
				break
			}
			e := it.x.polyExpr(p)
			var outs []Outcome
			zero := st.clone()
			if zero.setNum(e, k64(0)) {
				cc := *c
				cc.st = zero
				it.bigSet(&cc, c.args[0], 2, it.x.polyExpr(poly{}), 0)
				it.setMag(&cc, c.args[0], k64(0), it.x.polyExpr(poly{}), 0)
				outs = append(outs, ret(zero, constV(i64(0)))...)
			}
			n, ok := clampNum(lo, bigN(-1))
			if !ok || st.setNum(e, n) {
				outs = append(outs, ret(st, constV(i64(-1)))...)
			}
			return outs, true
		}
	case "Uint64", "Int64":
		if p, ok := arg(0); ok && !small(p) {
			if v, ok := it.polyVal(st, p, c.sig.Results().At(0).Type()); ok {
				return ret(st, v), true
			}
		}
	}
	return nil, false
}

// textModel is the contract of an arith helper on linear combinations.
func (it *Interp) textModel(name string, c *callCtx) ([]Outcome, bool) {
	switch name {
	case "BigPow10":
		if k, ok := constOf(c.st, c.args[0]); ok && k > 36 && k < 5000 {
			p := it.alloc(c.st, it.ctxOf(c.act, c.ins, c.fn), c.ins, 2, bigIntT, "BigPow10")
			cc := *c
			cc.args = []*Val{p}
			return it.setPoly(&cc, konstPoly(pow10(int64(k))))
		}
		return nil, false
	case "BigLength":
		if len(c.args) != 1 || c.args[0].k != KPtr || len(c.args[0].p) != 1 {
			return nil, false
		}
		p, ok := it.linOf(c.st, it.bigLoad(c, c.args[0]))
		if !ok {
			return nil, false
		}
		if _, h, ok := hull(c.st, p); ok && h.Sign() <= 0 {
			p = poly{}.add(p, bigN(-1))
		}
		v, ok := it.digitsVal(c.st, p)
		if !ok {
			return nil, false
		}
		return ret(c.st, v), true
	case "Mul", "MulBigPow10":
		p, ok := it.linOf(c.st, it.bigLoad(c, c.args[1]))
		q, ok2 := it.linOf(c.st, c.args[2])
		if !ok || !ok2 {
			return nil, false
		}
		k := q["1"]
		if k == nil {
			k = new(bigInt)
		}
		if name == "MulBigPow10" {
			if !isKonst(q) || isKonst(p) && len(p) == 0 || k.Sign() < 0 || k.BitLen() > 12 {
				return nil, false
			}
			return it.setPoly(c, poly{}.add(p, pow10(k.Int64())))
		}
		if isKonst(p) {
			p, q = q, p
		}
		if !isKonst(q) {
			return nil, false
		}
		if k = q["1"]; k == nil {
			k = new(bigInt)
		}
		return it.setPoly(c, poly{}.add(p, k))
	}
	return nil, false
}

// decades is the contract of arith.Length: one outcome for each length. (C24
// decides its body.)
func (it *Interp) decades(c *callCtx) ([]Outcome, bool) {
	st, v := c.st, c.args[0]
	n := st.num(v)
	if n.isBot() {
		return nil, false
	}
	var outs []Outcome
	lo, hi := int64(len(n.lo.String())), int64(len(n.hi.String()))
	for l := lo; l <= hi; l++ {
		s := st
		if l < hi {
			s = st.clone()
		}
		a, b := fromBig(pow10(l-1)), fromBig(pow10(l)).sub(i64(1))
		if l == 1 {
			a = i64(0)
		}
		if m := n.meet(mkRange(a, b)); m.isBot() || !s.setNum(s.expr(v), m) {
			continue
		}
		outs = append(outs, ret(s, constV(i64(l)))...)
	}
	return outs, true
}

// textStr shows text.
func textStr(st *State, bs []*Val) string {
	var b strings.Builder
	for _, v := range bs {
		v = st.norm(v)
		switch {
		case v == nil:
			b.WriteString("<?>")
		case isNumeral(v):
			fmt.Fprintf(&b, "<%s>", v.e.a)
		case v.k != KInt:
			b.WriteString("<?>")
		default:
			n := st.num(v)
			if k, ok := n.isConst(); ok {
				b.WriteByte(byte(k.l))
				continue
			}
			if n.set != nil {
				b.WriteByte('[')
				for _, k := range n.set {
					b.WriteByte(byte(k.l))
				}
				b.WriteByte(']')
				continue
			}
			e := ""
			if v.e != nil {
				e = v.e.String() + ":"
			}
			fmt.Fprintf(&b, "[%s%q-%q]", e, rune(n.lo.l), rune(n.hi.l))
		}
	}
	return b.String()
}

// sameText reports whether the bytes are the expected ones, each the same
// character.
func (it *Interp) sameText(st *State, got, want []*Val) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		g, w := st.norm(got[i]), st.norm(want[i])
		if isNumeral(g) || isNumeral(w) {
			if !isNumeral(g) || !isNumeral(w) {
				return false
			}
			p, err1 := lin(st, g.e.a)
			q, err2 := lin(st, w.e.a)
			if err1 != nil || err2 != nil || !samePoly(normPoly(st, p), normPoly(st, q)) {
				return false
			}
			continue
		}
		p, ok1 := it.linOf(st, g)
		q, ok2 := it.linOf(st, w)
		if !ok1 || !ok2 || !samePoly(p, q) {
			return false
		}
	}
	return true
}

func samePoly(p, q poly) bool { return len(poly{}.add(p, bigOne).add(q, bigN(-1))) == 0 }

// textFind is the index of the first byte args[1] of args[0], or how many there
// are.
func (it *Interp) textFind(c *callCtx, count bool) ([]Outcome, bool) {
	bs, ok := it.bytesOf(c.st, c.args[0])
	if !ok || hasNumeral(bs) {
		return nil, false
	}
	type path struct {
		st *State
		n  int64
	}
	at := []path{{c.st, 0}}
	var outs []Outcome
	for i, b := range bs {
		var next []path
		for _, p := range at {
			st := p.st
			x, y := st.norm(b), st.norm(c.args[1])
			nx, ny := st.num(x), st.num(y)
			if _, ok := nx.isConst(); ok {
				x, y, nx, ny = y, x, ny, nx
			}
			k, ok := ny.isConst()
			if !ok || nx.isBot() || len(at) > 64 {
				return nil, false
			}
			if nx.contains(k) {
				s := st
				if d, isK := nx.isConst(); !isK || d != k {
					s = st.clone()
					if !s.setNum(s.expr(x), mkConst(k)) {
						s = nil
					}
				}
				switch {
				case s == nil:
				case count:
					next = append(next, path{s, p.n + 1})
				default:
					outs = append(outs, ret(s, constV(i64(int64(i))))...)
				}
				if s == st {
					continue
				}
				if !st.setNum(st.expr(x), remove(nx, k)) {
					continue
				}
			}
			next = append(next, path{st, p.n})
		}
		at = next
	}
	for _, p := range at {
		n := p.n
		if !count {
			n = -1
		}
		outs = append(outs, ret(p.st, constV(i64(n)))...)
	}
	return outs, true
}

// setPoly sets the number args[0] points to.
func (it *Interp) setPoly(c *callCtx, p poly) ([]Outcome, bool) {
	st := c.st
	lo, hi, ok := hull(st, p)
	if !ok {
		return nil, false
	}
	s := uint8(0)
	if lo.Sign() < 0 {
		s |= 1
	}
	if lo.Sign() <= 0 && hi.Sign() >= 0 {
		s |= 2
	}
	if hi.Sign() > 0 {
		s |= 4
	}
	it.bigSet(c, c.args[0], s, it.x.polyExpr(p), 0)
	if n, ok := clampNum(lo, hi); ok && bounded(n) {
		it.setMag(c, c.args[0], n, it.x.polyExpr(p), 0)
	}
	return ret(st, c.args[0]), true
}
