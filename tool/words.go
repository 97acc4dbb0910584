package main

import (
	"errors"
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Slices of words. With it.words set, every path is followed separately, slices
// of a known length have one cell per element, and carries and the halves of
// products stay related to the words they come from. A number is then a sum of
// words that can be compared as a polynomial.

func constOf(st *State, v *Val) (int, bool) {
	if v == nil {
		return 0, false
	}
	k, ok := st.num(v).isConst()
	if !ok || k.h != 0 || k.l > 1<<40 {
		return 0, false
	}
	return int(k.l), true
}

// room is the capacity of the slice x.
func (it *Interp) room(x *Val) (int, bool) {
	if len(x.p) == 0 && !x.unk {
		return 0, true
	}
	if len(x.p) != 1 || x.unk {
		return 0, false
	}
	o := it.objs[x.p[0].obj]
	if o.elem == 0 {
		return 0, false
	}
	return (len(o.leaves) - x.p[0].off) / o.elem, true
}

func (it *Interp) inBounds(st *State, idx Num, x *Val) {
	n, ok := constOf(st, x.ln)
	if !ok || !x.unk && len(x.p) == 1 && it.objs[x.p[0].obj].elem == 0 {
		return
	}
	if idx.isBot() || idx.lo.sign() < 0 || idx.hi.cmp(i64(int64(n))) >= 0 {
		it.undecided("index %s of a slice of %d elements", idx, n)
	}
}

func (it *Interp) sliceWords(st *State, x, lo, hi *Val) (*Val, bool) {
	c, ok := it.room(x)
	n, okn := constOf(st, x.ln)
	l, h := 0, n
	okl, okh := true, okn
	if lo != nil {
		l, okl = constOf(st, lo)
	}
	if hi != nil {
		h, okh = constOf(st, hi)
	}
	if !ok || !okl || !okh {
		return nil, false
	}
	if l > h || h > c {
		it.undecided("slice bounds [%d:%d] with capacity %d", l, h, c)
		return nil, false
	}
	r := *x
	r.ln = constV(i64(int64(h - l)))
	r.sign = 6
	if len(x.p) == 1 && l > 0 {
		p := x.p[0]
		p.off += l * it.objs[p.obj].elem
		r.p = []Ptr{p}
	}
	return &r, true
}

// cellsOf returns the elements of a slice, if each is known.
func (it *Interp) cellsOf(st *State, x *Val) ([]*Val, bool) {
	n, ok := constOf(st, x.ln)
	c, okc := it.room(x)
	if !ok || !okc || n > c {
		return nil, false
	}
	if n == 0 {
		return nil, true
	}
	s := st.obj(x.p[0].obj)
	if s == nil || s.weak || it.objs[x.p[0].obj].elem != 1 {
		return nil, false
	}
	return append([]*Val{}, s.cells[x.p[0].off:x.p[0].off+n]...), true
}

func (it *Interp) wordBuiltin(st *State, nm string, args []*Val, ins ssa.Instruction) ([]Outcome, bool) {
	if it.text {
		for i, x := range args {
			if x.k != KStr {
				continue
			}
			bs, ok := it.bytesOf(st, x)
			if !ok {
				return nil, false
			}
			if nm == "len" {
				if hasNumeral(bs) {
					return nil, false
				}
				return ret(st, constV(i64(int64(len(bs))))), true
			}
			args = append([]*Val{}, args...)
			args[i] = it.byteSliceAt(st, ins, bs)
		}
	}
	switch nm {
	case "cap":
		if args[0].k == KSlice {
			if c, ok := it.room(args[0]); ok {
				return ret(st, constV(i64(int64(c)))), true
			}
		}
	case "copy":
		if args[0].k != KSlice || args[1].k != KSlice {
			break
		}
		src, ok := it.cellsOf(st, args[1])
		dst, ok2 := it.cellsOf(st, args[0])
		if !ok || !ok2 {
			break
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		if n > 0 {
			s := st.objW(args[0].p[0].obj)
			copy(s.cells[args[0].p[0].off:], src[:n])
		}
		return ret(st, constV(i64(int64(n)))), true
	case "append":
		if len(args) != 2 {
			break
		}
		a, ok := it.cellsOf(st, args[0])
		b, ok2 := it.cellsOf(st, args[1])
		if !ok || !ok2 {
			break
		}
		c, _ := it.room(args[0])
		n := len(a) + len(b)
		r := *args[0]
		r.k, r.null = KSlice, false
		r.ln = constV(i64(int64(n)))
		if n > c {
			el := ins.(ssa.Value).Type().Underlying().(*types.Slice).Elem()
			m := 2*len(a) + len(b)
			if m > 1024 {
				break
			}
			p := it.alloc(st, 0, ins, 1, types.NewArray(el, int64(m)), "append")
			r.p = p.p
			if it.objs[p.p[0].obj].elem != 1 {
				break
			}
			copy(st.objW(p.p[0].obj).cells, a)
		}
		if n > 0 {
			copy(st.objW(r.p[0].obj).cells[r.p[0].off+len(a):], b)
		}
		return ret(st, &r), true
	}
	return nil, false
}

// tenOf returns k if v is 10^k.
func tenOf(v *Val) (int64, bool) {
	if v == nil {
		return 0, false
	}
	if v.e != nil && v.e.op == "tenpow" {
		return int64(v.e.c.l), true
	}
	if c, ok := v.n.isConst(); ok && !v.n.unknown() && c.sign() > 0 {
		if s := c.String(); s[0] == '1' && strings.Trim(s[1:], "0") == "" {
			return int64(len(s) - 1), true
		}
	}
	return 0, false
}

func (it *Interp) setTen(c *callCtx, z *Val, k int64) {
	if k <= 36 {
		it.setMag(c, z, mkConst(fromBig(pow10(k))), nil, 0)
		return
	}
	it.bigSet(c, z, 4, it.x.mk("tenpow", nil, nil, I{0, uint64(k)}, ""), 0)
}

// lengthsOf returns the bits and the digits of a number of known lengths.
func lengthsOf(v *Val) (bits, digits int64, ok bool) {
	if v == nil || v.e == nil || v.e.op != "digits" {
		return
	}
	return v.e.c.h, int64(v.e.c.l), true
}

// wordCall computes the operations of big numbers whose words, decimal
// exponent, or lengths are known.
func (it *Interp) wordCall(c *callCtx, m string) ([]Outcome, bool) {
	if len(c.args) == 0 || c.args[0].k != KPtr || len(c.args[0].p) != 1 || c.args[0].unk {
		return nil, false
	}
	st, z := c.st, c.args[0]
	zv := it.bigLoad(c, z)
	arg := func(i int) *Val {
		if i < len(c.args) && c.args[i].k == KPtr && len(c.args[i].p) == 1 {
			return it.bigLoad(c, c.args[i])
		}
		return nil
	}
	store := func(v *Val) ([]Outcome, bool) {
		it.store(st, z, v, bigIntT, c.pos)
		return ret(st, z), true
	}
	switch m {
	case "Bits":
		if zv.ln == nil {
			return nil, false
		}
		return ret(st, &Val{k: KSlice, p: zv.p, ln: zv.ln, sign: absSign(zv.sign), role: z.role, null: len(zv.p) == 0}), true
	case "SetBits":
		if cs, ok := it.cellsOf(st, c.args[1]); ok {
			s := uint8(6)
			if len(cs) == 0 {
				s = 2
			}
			return store(&Val{k: KBig, sign: s, e: it.x.newAtom(), p: c.args[1].p, ln: c.args[1].ln})
		}
	case "SetUint64":
		if n := st.num(c.args[1]); zv.ln != nil && n.eq(k64(0)) {
			v := *zv
			v.sign, v.ln, v.e, v.n = 2, constV(i64(0)), it.x.newAtom(), Num{}
			return store(&v)
		}
	case "Set":
		if x := arg(1); x != nil && x.ln != nil && zv.ln != nil {
			if samePtrs(z.p, c.args[1].p) {
				return ret(st, z), true
			}
			src := &Val{k: KSlice, p: x.p, ln: x.ln}
			cs, ok := it.cellsOf(st, src)
			if !ok {
				return nil, false
			}
			p := it.alloc(st, 0, c.ins, 3, types.NewArray(types.Typ[types.Uint], int64(len(cs)+4)), "words")
			copy(st.objW(p.p[0].obj).cells, cs)
			v := *x
			v.p = p.p
			return store(&v)
		}
	case "Mul":
		a, ok := tenOf(arg(1))
		b, ok2 := tenOf(arg(2))
		if ok && ok2 {
			it.setTen(c, z, a+b)
			return ret(st, z), true
		}
	case "Exp":
		a, ok := tenOf(arg(1))
		b := arg(2)
		if ok && a == 1 && b != nil && len(c.args) > 3 && len(c.args[3].p) == 0 {
			if k, ok := b.n.isConst(); ok && !b.n.unknown() && k.sign() >= 0 && k.h == 0 {
				it.setTen(c, z, int64(k.l))
				return ret(st, z), true
			}
		}
	case "BitLen":
		if b, _, ok := lengthsOf(zv); ok {
			return ret(st, constV(i64(b))), true
		}
	case "Cmp", "CmpAbs":
		r := int64(1)
		_, d, ok := lengthsOf(zv)
		k, ok2 := tenOf(arg(1))
		if !ok {
			r = -1
			_, d, ok = lengthsOf(arg(1))
			k, ok2 = tenOf(zv)
		}
		if ok && ok2 {
			switch {
			case d <= k:
				return ret(st, constV(i64(-r))), true
			case d == k+1:
				return ret(st, st.intVal(mkSet([]I{i64(0), i64(r)}), nil)), true
			}
			return ret(st, constV(i64(r))), true
		}
	}
	return nil, false
}

// carry adds or subtracts words with a carry: one outcome for each carry.
func (it *Interp) carry(c *callCtx, sub bool) []Outcome {
	st := c.st
	x, y := c.args[0], c.args[1]
	ex, ey := orAtom(it, st, x), orAtom(it, st, y)
	var outs []Outcome
	for _, ci := range []int64{0, 1} {
		if !st.num(c.args[2]).contains(i64(ci)) {
			continue
		}
		for _, co := range []int64{0, 1} {
			s := st.clone()
			if !s.setNum(s.expr(c.args[2]), k64(ci)) {
				continue
			}
			nx, ny := s.num(x), s.num(y)
			op := "add"
			lo, hi := nx.lo.add(ny.lo).add(i64(ci)), nx.hi.add(ny.hi).add(i64(ci))
			if sub {
				op = "sub"
				lo, hi = nx.lo.sub(ny.hi).sub(i64(ci)), nx.hi.sub(ny.lo).sub(i64(ci))
				lt := it.x.mk("<", ex, ey, I{}, "")
				if co == 0 && !s.assume(lt, false) || co == 1 && ci == 0 && !s.assume(lt, true) {
					continue
				}
				if co == 1 {
					lo, hi = lo.add(two64I), hi.add(two64I)
				}
			} else if co == 1 {
				lo, hi = lo.sub(two64I), hi.sub(two64I)
			}
			lo, hi = maxI(lo, i64(0)), minI(hi, maxU64)
			if lo.cmp(hi) > 0 {
				continue
			}
			v := s.intVal(mkRange(lo, hi), it.x.mk(op, ex, ey, I{ci, uint64(co)}, ""))
			outs = append(outs, ret(s, tuple(v, constV(i64(co))))...)
		}
	}
	return outs
}

var two64I = fromBig(two64)

// poly is a polynomial in the words of the operands.
type poly map[string]*bigInt

func (p poly) add(q poly, k *bigInt) poly {
	for t, c := range q {
		o := p[t]
		if o == nil {
			o = new(bigInt)
		}
		o = new(bigInt).Add(o, new(bigInt).Mul(c, k))
		if o.Sign() == 0 {
			delete(p, t)
		} else {
			p[t] = o
		}
	}
	return p
}

func (p poly) String() string {
	var ts []string
	for t, c := range p {
		ts = append(ts, c.String()+"*"+t)
	}
	sort.Strings(ts)
	return strings.Join(ts, " + ")
}

var bigOne = bigN(1)

func term(t string) poly { return poly{t: bigOne} }
func konstPoly(k *bigInt) poly {
	return poly{}.add(poly{"1": k}, bigOne)
}

// prod is the product of two words.
func prod(a, b *Expr) poly {
	if a.op == "const" && b.op == "const" {
		return konstPoly(new(bigInt).Mul(a.c.big(), b.c.big()))
	}
	if b.op == "const" {
		a, b = b, a
	}
	if a.op == "const" {
		return poly{}.add(term(b.String()), a.c.big())
	}
	x, y := a.String(), b.String()
	if x > y {
		x, y = y, x
	}
	return term(x + "*" + y)
}

var errImpossible = errors.New("this path is impossible")

// lin expands the word e.
func lin(st *State, e *Expr) (poly, error) {
	if e == nil {
		return nil, fmt.Errorf("a word without an expression")
	}
	n, known := st.enum(e)
	zero := known && n.eq(k64(0))
	two := func(cb *bigInt, k *bigInt) (poly, error) {
		a, err := lin(st, e.a)
		if err != nil {
			return nil, err
		}
		b, err := lin(st, e.b)
		if err != nil {
			return nil, err
		}
		return poly{}.add(a, bigOne).add(b, cb).add(poly{"1": k}, bigOne), nil
	}
	neg := func(k *bigInt) *bigInt { return new(bigInt).Neg(k) }
	lt := func(a, b *Expr) (v, ok bool) {
		t := st.x.mk("<", a, b, I{}, "")
		if v, ok := st.truth(t); ok {
			return v, true
		}
		na, ok1 := st.enum(a)
		nb, ok2 := st.enum(b)
		if ok1 && ok2 {
			if na.hi.cmp(nb.lo) < 0 {
				return true, true
			}
			if na.lo.cmp(nb.hi) >= 0 {
				return false, true
			}
		}
		return false, false
	}
	switch e.op {
	case "const":
		return konstPoly(e.c.big()), nil
	case "atom":
		if zero {
			return poly{}, nil
		}
		if q, ok := st.x.polys[e]; ok {
			return poly{}.add(q, bigOne), nil
		}
		t := e.String()
		if st.x.terms != nil {
			st.x.terms[t] = e
		}
		return term(t), nil
	case "neg":
		if e.nm == "nw" {
			a, err := lin(st, e.a)
			if err != nil {
				return nil, err
			}
			return poly{}.add(a, bigN(-1)), nil
		}
	case "*":
		if e.nm == "nw" && e.b != nil && e.b.op == "const" {
			a, err := lin(st, e.a)
			if err != nil {
				return nil, err
			}
			return poly{}.add(a, e.b.c.big()), nil
		}
	case "add":
		return two(bigOne, new(bigInt).Sub(bigN(e.c.h), new(bigInt).Mul(two64, bigN(int64(e.c.l)))))
	case "sub":
		return two(neg(bigOne), new(bigInt).Sub(new(bigInt).Mul(two64, bigN(int64(e.c.l))), bigN(e.c.h)))
	case "mul64h":
		if zero {
			return poly{}, nil
		}
		na, ok1 := st.enum(e.a)
		nb, ok2 := st.enum(e.b)
		if ok1 && ok2 {
			hi := func(x, y I) *bigInt { z := new(bigInt).Mul(x.big(), y.big()); return z.Rsh(z, 64) }
			if l, u := hi(na.lo, nb.lo), hi(na.hi, nb.hi); l.Cmp(u) == 0 {
				return konstPoly(l), nil
			}
		}
		return term(e.String()), nil
	case "mul64l":
		p := poly{}.add(prod(e.a, e.b), bigOne)
		h := st.x.mk("mul64h", e.a, e.b, I{}, "")
		q, err := lin(st, h)
		if err != nil {
			return nil, err
		}
		return p.add(q, neg(two64)), nil
	case "+":
		if e.nm == "nw" {
			return two(bigOne, new(bigInt))
		}
		// The sum wraps if it is less than both, and not if it is less than
		// neither.
		w1, ok1 := lt(e, e.a)
		w2, ok2 := lt(e, e.b)
		if ok1 && ok2 && w1 != w2 {
			return nil, errImpossible
		}
		for _, x := range []*Expr{e.a, e.b} {
			if w, ok := lt(e, x); ok {
				if w {
					return two(bigOne, neg(two64))
				}
				return two(bigOne, new(bigInt))
			}
		}
		if x, y := e.a, e.b; x != nil && y != nil {
			na, ok1 := st.enum(x)
			nb, ok2 := st.enum(y)
			if ok1 && ok2 {
				if na.lo.add(nb.lo).cmp(maxU64) > 0 {
					return two(bigOne, neg(two64))
				}
				if na.hi.add(nb.hi).cmp(maxU64) <= 0 {
					return two(bigOne, new(bigInt))
				}
			}
		}
	case "-":
		if e.nm == "nw" {
			return two(neg(bigOne), new(bigInt))
		}
		if w, ok := lt(e.a, e.b); ok {
			if w {
				return two(neg(bigOne), two64)
			}
			return two(neg(bigOne), new(bigInt))
		}
		if w, ok := lt(e.a, e); ok {
			if w {
				return two(neg(bigOne), two64)
			}
			return two(neg(bigOne), new(bigInt))
		}
	}
	return nil, fmt.Errorf("no value for the word %s", e)
}

// number expands the words of z: its value, plus words that were cut off
// because they are zero.
func (it *Interp) number(st *State, z *Val) (poly, error) {
	n, ok := constOf(st, z.ln)
	if !ok {
		return nil, fmt.Errorf("a number of unknown length")
	}
	p := poly{}
	b := bigN(1)
	if len(z.p) != 1 {
		return p, nil
	}
	s := st.obj(z.p[0].obj)
	if s == nil || s.weak || it.objs[z.p[0].obj].elem != 1 {
		return nil, fmt.Errorf("unknown words")
	}
	for i, c := range s.cells[z.p[0].off:] {
		if i >= n && !st.num(c).eq(k64(0)) {
			break
		}
		e := c.e
		if e == nil {
			e = st.expr(c)
		}
		q, err := lin(st, e)
		if k, ok := st.num(c).isConst(); ok && err != nil && err != errImpossible {
			q, err = konstPoly(k.big()), nil
		}
		if err != nil {
			return nil, err
		}
		p.add(q, b)
		b = new(big.Int).Mul(b, two64)
	}
	return p, nil
}

// impossible reports whether a word that this path takes for zero is a sum of
// words and a positive number.
func (it *Interp) impossible(st *State, z *Val) bool {
	if len(z.p) != 1 || it.objs[z.p[0].obj].elem != 1 {
		return false
	}
	for _, c := range st.obj(z.p[0].obj).cells {
		if c.e == nil || c.e.op == "const" || !st.num(c).eq(k64(0)) {
			continue
		}
		p, err := lin(st, c.e)
		if err != nil || p["1"] == nil {
			continue
		}
		pos := true
		for _, k := range p {
			pos = pos && k.Sign() > 0
		}
		if pos {
			return true
		}
	}
	return false
}
