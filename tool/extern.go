package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ret(st *State, v *Val) []Outcome { return []Outcome{{st: st, ret: v}} }

func tuple(vs ...*Val) *Val { return &Val{k: KTuple, fs: vs} }

func (it *Interp) anyBool(st *State) *Val {
	return st.intVal(boolNum(true, true), it.x.newAtom())
}
func (it *Interp) rangeV(st *State, lo, hi int64) *Val {
	return st.intVal(mkRange(i64(lo), i64(hi)), it.x.newAtom())
}

// ---- builtins ----------------------------------------------------------------

func (it *Interp) builtin(act *activation, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Val, ins ssa.Instruction) []Outcome {
	rt := func() types.Type {
		if v, ok := ins.(ssa.Value); ok {
			return v.Type()
		}
		return types.NewTuple()
	}
	if it.words {
		if o, ok := it.wordBuiltin(st, b.Name(), args, ins); ok {
			return o
		}
	}
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		switch x.k {
		case KStr:
			if x.str != nil {
				return ret(st, constV(i64(int64(len(*x.str)))))
			}
			return ret(st, st.intVal(mkRange(i64(0), i64(1<<62)), it.x.mk("len", x.e, nil, I{}, "")))
		case KSlice:
			if len(x.p) == 0 && !x.unk {
				return ret(st, constV(i64(0)))
			}
			if b.Name() == "len" && x.ln != nil {
				return ret(st, st.norm(x.ln))
			}
			var e *Expr
			if len(x.p) == 1 && !x.unk {
				e = it.x.mk(b.Name(), it.x.mk("slice", nil, nil, I{int64(x.p[0].obj), uint64(x.p[0].off)}, ""), x.e, I{}, "")
			}
			return ret(st, st.intVal(mkRange(i64(0), i64(1<<62)), e))
		}
		if at, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return ret(st, constV(i64(at.Len())))
		}
		return ret(st, st.intVal(mkRange(i64(0), i64(1<<62)), nil))
	case "append":
		x := args[0]
		el := rt().Underlying().(*types.Slice).Elem()
		if it.hooks.mutate != nil {
			for _, q := range x.p {
				// Spare capacity of the slice is written.
				it.hooks.mutate(st, x, q.obj, ins.Pos())
			}
		}
		p := it.alloc(st, act.ctx, ins, 1, types.NewArray(el, 1<<30), "append@"+fnName(act.fn))
		r := &Val{k: KSlice, p: joinPtrs(x.p, p.p), role: x.role, unk: x.unk, sign: 6}
		old := it.elemVal(st, x, el)
		if old != nil {
			it.store(st, p, old, el, ins.Pos())
		}
		if len(args) > 1 {
			if y := it.elemVal(st, args[1], el); y != nil {
				// The elements past the length of x are not visible through x.
				it.store(st, p, y, el, ins.Pos())
			}
			if x.ln != nil && args[1].ln != nil {
				r.ln = st.intVal(addNum(st.num(x.ln), st.num(args[1].ln)).meet(mkRange(i64(0), i64(1<<62))), nil)
			}
		}
		if r.ln == nil {
			r.ln = st.intVal(mkRange(i64(0), i64(1<<62)), nil)
		}
		return ret(st, r)
	case "copy":
		dst, src := args[0], args[1]
		if dst.k == KSlice {
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			y := it.elemVal(st, src, el)
			if y == nil {
				y = it.unknown(st, el)
			}
			for _, p := range dst.p {
				o := it.objs[p.obj]
				if it.hooks.mutate != nil {
					it.hooks.mutate(st, dst, p.obj, ins.Pos())
				}
				if st.obj(p.obj) == nil {
					continue
				}
				if o.elem > 0 {
					for k := 0; k+o.elem <= len(o.leaves); k += o.elem {
						it.weakStore(st, Ptr{p.obj, k}, y, el)
					}
				} else {
					it.weakStore(st, p, y, el)
				}
			}
			it.copyMag(st, dst, src, el)
		}
		return ret(st, st.intVal(mkRange(i64(0), i64(1<<62)), nil))
	case "recover":
		st.setG("recovered", 1)
		return ret(st, it.unknown(st, rt()))
	case "panic":
		return []Outcome{{st: st, pan: "panic@" + fnName(act.fn), pv: args[0]}}
	}
	if v, ok := ins.(ssa.Value); ok {
		return ret(st, it.unknown(st, v.Type()))
	}
	return ret(st, nil)
}

func (it *Interp) weakStore(st *State, p Ptr, v *Val, t types.Type) {
	// two targets make the store weak
	it.store(st, &Val{k: KPtr, p: []Ptr{p}, unk: true}, v, t, 0)
}

// elemVal joins the elements of a slice; nil if there are none.
func (it *Interp) elemVal(st *State, x *Val, el types.Type) *Val {
	if x.k == KStr {
		return it.unknown(st, el)
	}
	if x.unk {
		return it.unknown(st, el)
	}
	var r *Val
	jn := &joiner{x: it.x}
	n := len(it.lay.of(el))
	for _, p := range x.p {
		o := it.objs[p.obj]
		s := st.obj(p.obj)
		if s == nil {
			return it.unknown(st, el)
		}
		var offs []int
		if o.elem > 0 {
			for k := p.off; k+o.elem <= len(o.leaves); k += o.elem {
				offs = append(offs, k)
			}
		} else {
			offs = []int{p.off}
		}
		for _, off := range offs {
			if off+n > len(s.cells) {
				continue
			}
			var v *Val
			if it.isAgg(el) {
				v = &Val{k: KStruct, fs: s.cells[off : off+n]}
			} else {
				v = s.cells[off]
			}
			v = st.norm(v)
			if v.k == KInt && v.in != nil {
				w := *v
				w.in = nil
				v = &w
			}
			if r == nil {
				r = v
			} else {
				r = jn.val(r, v, nil)
			}
		}
	}
	return r
}

// ---- math/big ------------------------------------------------------------------

// bigLoad returns the number ptr points to.
func (it *Interp) bigLoad(c *callCtx, ptr *Val) *Val {
	t := bigIntType(c.sig, ptr)
	v := it.load(c.st, ptr, t, c.pos)
	if v.k != KBig {
		v = &Val{k: KBig, sign: 7, e: it.x.newAtom()}
	}
	if v.e == nil {
		w := *v
		w.e = it.x.newAtom()
		v = &w
	}
	return v
}

var bigIntT types.Type

func bigIntType(sig *types.Signature, ptr *Val) types.Type { return bigIntT }

func (it *Interp) bigSign(st *State, v *Val) uint8 {
	s := v.sign
	if s == 0 {
		s = 7
	}
	if v.e != nil {
		if f, ok := st.facts.get(it.x.mk("bsign", v.e, nil, I{}, "")); ok {
			var m uint8
			if f.contains(i64(-1)) {
				m |= 1
			}
			if f.contains(i64(0)) {
				m |= 2
			}
			if f.contains(i64(1)) {
				m |= 4
			}
			s &= m
		}
	}
	return s
}

// bigMutate notes that the digits of *ptr are about to be overwritten.
func (it *Interp) bigMutate(c *callCtx, ptr *Val) []Ptr {
	var keep []Ptr
	if ptr.k != KPtr {
		return nil
	}
	for _, p := range ptr.p {
		s := c.st.obj(p.obj)
		if s == nil || p.off >= len(s.cells) {
			continue
		}
		cell := s.cells[p.off]
		if cell.k != KBig {
			continue
		}
		for _, b := range cell.p {
			if it.hooks.mutate != nil {
				it.hooks.mutate(c.st, ptr, b.obj, c.pos)
			}
		}
		keep = joinPtrs(keep, cell.p)
	}
	return keep
}

// bigSet overwrites *ptr with a new number.
func (it *Interp) bigSet(c *callCtx, ptr *Val, sign uint8, e *Expr, taint Taint) {
	keep := it.bigMutate(c, ptr)
	if ptr.k != KPtr {
		return
	}
	v := &Val{k: KBig, sign: sign, e: e, t: taint}
	if v.e == nil {
		v.e = it.x.newAtom()
	}
	v.p = keep
	for _, p := range ptr.p {
		v.p = joinPtrs(v.p, []Ptr{{it.backing(p), 0}})
	}
	it.store(c.st, ptr, v, bigIntT, c.pos)
}

func negSign(s uint8) uint8 { return s&2 | (s&1)<<2 | (s&4)>>2 }
func absSign(s uint8) uint8 {
	r := s & 6
	if s&1 != 0 {
		r |= 4
	}
	return r
}
func mulSign(a, b uint8) uint8 {
	var r uint8
	if a&2 != 0 || b&2 != 0 {
		r |= 2
	}
	if a&1 != 0 && b&4 != 0 || a&4 != 0 && b&1 != 0 {
		r |= 1
	}
	if a&1 != 0 && b&1 != 0 || a&4 != 0 && b&4 != 0 {
		r |= 4
	}
	return r
}
func addSign(a, b uint8) uint8 {
	var r uint8
	for _, x := range []uint8{1, 2, 4} {
		for _, y := range []uint8{1, 2, 4} {
			if a&x == 0 || b&y == 0 {
				continue
			}
			switch {
			case x == 2:
				r |= y
			case y == 2 || x == y:
				r |= x
			default:
				r |= 7
			}
		}
	}
	return r
}
func signNum(s uint8) Num {
	var xs []I
	if s&1 != 0 {
		xs = append(xs, i64(-1))
	}
	if s&2 != 0 {
		xs = append(xs, i64(0))
	}
	if s&4 != 0 {
		xs = append(xs, i64(1))
	}
	return mkSet(xs)
}
func numSign(n Num) uint8 {
	var s uint8
	if n.isBot() {
		return 7
	}
	if n.lo.sign() < 0 {
		s |= 1
	}
	if n.hi.sign() > 0 {
		s |= 4
	}
	if n.contains(i64(0)) {
		s |= 2
	}
	return s
}

func (it *Interp) bigCall(c *callCtx, m string) []Outcome {
	if it.text {
		if o, ok := it.textBig(c, m); ok {
			return o
		}
	}
	if it.words {
		if o, ok := it.wordCall(c, m); ok {
			return o
		}
	}
	if o, ok := it.magCall(c, m); ok {
		return o
	}
	st := c.st
	a := c.args
	t := Taint(0)
	var vs []*Val // loaded operands
	var ss []uint8
	for i := 1; i < len(a); i++ {
		if a[i].k == KPtr {
			v := it.bigLoad(c, a[i])
			vs = append(vs, v)
			ss = append(ss, it.bigSign(st, v))
			t |= v.t
		} else {
			t |= a[i].t
		}
	}
	z := a[0]
	set := func(sign uint8) []Outcome {
		it.bigSet(c, z, sign, nil, t)
		return ret(st, z)
	}
	recv := func() *Val { return it.bigLoad(c, z) }
	switch m {
	case "Set":
		if samePtrs(z.p, a[1].p) && len(z.p) == 1 {
			return ret(st, z)
		}
		it.bigSet(c, z, ss[0], vs[0].e, t)
		return ret(st, z)
	case "Neg":
		return set(negSign(ss[0]))
	case "Abs":
		if samePtrs(z.p, a[1].p) && ss[0]&1 == 0 {
			return ret(st, z)
		}
		return set(absSign(ss[0]))
	case "Add":
		return set(addSign(ss[0], ss[1]))
	case "Sub":
		return set(addSign(ss[0], negSign(ss[1])))
	case "Mul":
		return set(mulSign(ss[0], ss[1]))
	case "Quo", "Div":
		return set(mulSign(ss[0], ss[1]) | 2)
	case "Rem":
		return set(ss[0] | 2)
	case "Mod", "GCD", "ModInverse", "Sqrt":
		return set(6)
	case "And", "Or", "Xor", "AndNot":
		s := uint8(7)
		if (ss[0]|ss[1])&1 == 0 {
			s = 6
		}
		return set(s)
	case "QuoRem", "DivMod":
		// z, x, y, r
		r := a[3]
		it.bigSet(c, r, ss[0]|2, nil, vs[0].t|vs[1].t)
		it.bigSet(c, z, mulSign(ss[0], ss[1])|2, nil, vs[0].t|vs[1].t)
		return ret(st, tuple(z, r))
	case "Exp":
		s := uint8(7)
		if ss[0]&1 == 0 {
			s = ss[0]
			if ss[1]&2 != 0 {
				s |= 4
			}
		}
		return set(s)
	case "Lsh":
		return set(ss[0])
	case "Rsh":
		return set(ss[0] | 2)
	case "SetUint64", "SetInt64":
		n := st.num(a[1])
		e := it.x.mk("big", orAtom(it, st, a[1]), nil, I{}, "")
		it.setMag(c, z, n, e, t)
		if e != nil {
			if m == "SetUint64" {
				st.facts.set(it.x.mk("isu64", e, nil, I{}, ""), mkConst(i64(1)))
			}
			st.facts.set(it.x.mk("u64", e, nil, I{}, ""), n)
		}
		return ret(st, z)
	case "SetBit":
		return set(7)
	case "SetBytes":
		return set(6)
	case "SetBits":
		// The number adopts the slice.
		s := a[1]
		v := &Val{k: KBig, sign: absSign(s.sign) | 2, e: it.x.newAtom(), t: t, p: s.p}
		if s.unk {
			v.sign = 6
		}
		if s.sign == 4 {
			v.sign = 4
		}
		if len(s.p) == 0 && !s.unk {
			v.sign = 2
		}
		it.store(st, z, v, bigIntT, c.pos)
		return ret(st, z)
	case "SetString":
		st2 := st.clone()
		it.bigSet(c, z, 7, nil, t)
		c2 := *c
		c2.st = st2
		it.bigSet(&c2, z, 7, nil, t)
		return []Outcome{
			{st: st, ret: tuple(z, boolV(true))},
			{st: st2, ret: tuple(nilPtr(), boolV(false))},
		}
	case "Sign":
		v := recv()
		return ret(st, st.intVal(signNum(it.bigSign(st, v)), it.x.mk("bsign", v.e, nil, I{}, "")).withTaint(v.t))
	case "Cmp", "CmpAbs":
		v := recv()
		sx, sy := it.bigSign(st, v), ss[0]
		if m == "CmpAbs" {
			sx, sy = absSign(sx), absSign(sy)
		}
		n := mkSet([]I{i64(-1), i64(0), i64(1)})
		nx, ny := signNum(sx), signNum(sy)
		if nx.hi.cmp(ny.lo) < 0 {
			n = mkConst(i64(-1))
		} else if nx.lo.cmp(ny.hi) > 0 {
			n = mkConst(i64(1))
		} else if sx == 2 && sy == 2 {
			n = mkConst(i64(0))
		} else if v.e == vs[0].e {
			n = mkConst(i64(0))
		}
		e := it.x.mk("sgn3", v.e, vs[0].e, I{}, m)
		if v.e.id > vs[0].e.id {
			e0 := it.x.mk("sgn3", vs[0].e, v.e, I{}, m)
			e = it.x.mk("neg", e0, nil, I{}, "nw")
			if f, ok := st.facts.get(e0); ok {
				n = n.meet(shift(f, true))
			} else {
				st.facts.set(e0, shift(n, true))
			}
		}
		return ret(st, st.intVal(n, e).withTaint(v.t|vs[0].t))
	case "IsUint64", "IsInt64":
		v := recv()
		op := "isu64"
		if m == "IsInt64" {
			op = "isi64"
		}
		s := it.bigSign(st, v)
		n := boolNum(true, true)
		if m == "IsUint64" && s == 1 {
			n = boolNum(true, false)
		}
		if s == 2 {
			n = boolNum(false, true)
		}
		return ret(st, st.intVal(n, it.x.mk(op, v.e, nil, I{}, "")).withTaint(v.t))
	case "Uint64", "Int64":
		v := recv()
		s := it.bigSign(st, v)
		n := topNum(c.sig.Results().At(0).Type())
		if s == 2 {
			n = mkConst(i64(0))
		} else if m == "Uint64" {
			if f, ok := st.facts.get(it.x.mk("isu64", v.e, nil, I{}, "")); ok {
				if b, ok := f.isConst(); ok && b.sign() != 0 && s&2 == 0 {
					n = remove(n, i64(0))
				}
			}
		}
		e := it.x.mk("u64", v.e, nil, I{}, "")
		if m == "Int64" {
			e = it.x.mk("i64", v.e, nil, I{}, "")
		}
		return ret(st, st.intVal(n, e).withTaint(v.t))
	case "BitLen":
		v := recv()
		lo := int64(0)
		s := it.bigSign(st, v)
		if s&2 == 0 {
			lo = 1
		}
		n := mkRange(i64(lo), i64(1<<40))
		if s == 2 {
			n = mkConst(i64(0))
		}
		return ret(st, st.intVal(n, it.x.mk("bitlen", v.e, nil, I{}, "")).withTaint(v.t))
	case "Bit":
		v := recv()
		return ret(st, st.intVal(boolNum(true, true), it.x.mk("bit", v.e, st.expr(a[1]), I{}, "")).withTaint(v.t))
	case "Bits":
		v := recv()
		r := &Val{k: KSlice, p: v.p, sign: absSign(it.bigSign(st, v)), role: z.role, e: v.e, t: v.t}
		r.ln = st.intVal(mkRange(i64(0), i64(1<<40)), it.x.mk("nwords", v.e, nil, I{}, ""))
		if len(v.p) == 0 {
			// digits that belong to nobody we know of
			r.unk = v.sign != 2
			r.null = true
		}
		return ret(st, r)
	}
	// Unknown method: one that returns its receiver's type overwrites the
	// receiver; anything else only reads.
	if c.sig.Results().Len() > 0 && z.k == KPtr {
		if types.Identical(c.sig.Results().At(0).Type(), types.NewPointer(bigIntT)) {
			it.bigSet(c, z, 7, nil, t)
			if c.sig.Results().Len() == 1 {
				return ret(st, z)
			}
		}
	}
	r := it.unkResult(st, c.sig)
	return ret(st, r)
}

// ---- dispatch --------------------------------------------------------------------

func (it *Interp) extern(c *callCtx) []Outcome {
	n := c.name
	st := c.st
	if it.text {
		if r, ok := it.textExtern(c); ok {
			return r
		}
	}
	switch {
	case strings.HasPrefix(n, "(*math/big.Int)."):
		return it.bigCall(c, n[len("(*math/big.Int)."):])
	case strings.HasPrefix(n, "(*math/big.Rat).") || strings.HasPrefix(n, "(*math/big.Float)."):
		return it.ratFloat(c, n[strings.LastIndex(n, ".")+1:])
	case strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer)."):
		return it.builder(c, n[strings.LastIndex(n, ".")+1:])
	}
	switch n {
	case "math/big.NewInt":
		p := it.alloc(st, it.ctxOf(c.act, c.ins, c.fn), c.ins, 2, bigIntT, "big.NewInt@"+fnName(c.act.fn))
		it.setMag(c, p, st.num(c.args[0]), nil, 0)
		return ret(st, p)
	case "math/big.NewFloat":
		if v := c.args[0]; v.k == KOpaque && v.str != nil {
			pt := c.sig.Results().At(0).Type()
			p := it.alloc(st, it.ctxOf(c.act, c.ins, c.fn), c.ins, 2, pt.(*types.Pointer).Elem(), "big.NewFloat@"+fnName(c.act.fn))
			it.store(st, p, &Val{k: KBig, sign: 7, e: it.x.mk(floatConst, nil, nil, I{}, *v.str)}, pt.(*types.Pointer).Elem(), c.pos)
			return ret(st, p)
		}
		return ret(st, it.unknown(st, c.sig.Results().At(0).Type()))
	case "(*sync.Once).Do":
		return it.once(c)
	case "(*sync.Pool).Get":
		return it.poolGet(c)
	case "(*sync.Pool).Put":
		if it.hooks.use != nil {
			it.poolPut(c)
		}
		for _, o := range pointees(c.args[1]) {
			if st.obj(o) != nil {
				st.objW(o).put = true
			}
		}
		return ret(st, nil)
	case "(*sync/atomic.Value).Load":
		g := c.args[0]
		for _, p := range g.p {
			if v := st.ghostVal(it, p); v != nil {
				return ret(st, v)
			}
		}
		return ret(st, it.unknown(st, c.sig.Results().At(0).Type()))
	case "(*sync/atomic.Value).Store":
		for _, p := range c.args[0].p {
			it.shareVal(st, c.args[1])
			if st.obj(p.obj) != nil {
				s := st.objW(p.obj)
				jn := &joiner{x: it.x}
				old := s.cells[p.off]
				if old.k == KIface && !it.words {
					s.cells[p.off] = jn.val(old, c.args[1], nil)
				} else {
					s.cells[p.off] = c.args[1]
				}
			}
		}
		return ret(st, nil)
	case "(*sync.Mutex).Lock":
		for _, p := range c.args[0].p {
			st.setG("lock:"+it.objs[p.obj].name, 1)
		}
		return ret(st, nil)
	case "(*sync.Mutex).Unlock":
		for _, p := range c.args[0].p {
			delete(st.ghost, "lock:"+it.objs[p.obj].name)
		}
		return ret(st, nil)
	case "errors.New", "fmt.Errorf":
		return ret(st, &Val{k: KIface, unk: true, e: it.x.newAtom()})
	case "io.WriteString":
		return it.writeTo(c, c.args[0], c.args[1])
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		st.taintOut()
		return ret(st, it.unkResult(st, c.sig))
	case "io.CopyN", "io.Copy":
		st.taintOut()
		return ret(st, it.unkResult(st, c.sig))
	case "fmt.Sprintf":
		return ret(st, &Val{k: KStr, e: it.x.newAtom()})
	case "math/bits.TrailingZeros64", "math/bits.TrailingZeros":
		if k, ok := st.num(c.args[0]).isConst(); ok && k.sign() != 0 {
			return ret(st, constV(i64(int64(k.big().TrailingZeroBits()))))
		}
		return ret(st, st.intVal(rng(0, 64), it.x.newAtom()))
	case "math/bits.Len64", "math/bits.Len":
		v := c.args[0]
		x := st.num(v)
		lo, hi := int64(0), int64(64)
		if !x.isBot() && x.lo.sign() >= 0 {
			lo = int64(x.lo.big().BitLen())
			hi = int64(x.hi.big().BitLen())
		}
		if it.mags && hi > lo && hi-lo <= 4 {
			// Split, so that the bit length and the value stay related.
			var outs []Outcome
			for n := lo; n <= hi; n++ {
				s := st
				if n < hi {
					s = st.clone()
				}
				r := mkRange(i64(0), i64(0))
				if n > 0 {
					l := new(big.Int).Lsh(big.NewInt(1), uint(n-1))
					h := new(big.Int).Lsh(l, 1)
					r = mkRange(fromBig(l), fromBig(h.Sub(h, big.NewInt(1))))
				}
				if s.setNum(s.expr(v), r) {
					outs = append(outs, ret(s, s.intVal(k64(n), it.x.mk("bits.Len", s.expr(v), nil, I{}, "")).withTaint(v.t))...)
				}
			}
			return outs
		}
		return ret(st, st.intVal(mkRange(i64(lo), i64(hi)), it.x.mk("bits.Len", st.expr(v), nil, I{}, "")).withTaint(v.t))
	case "math/bits.Add64", "math/bits.Add", "math/bits.Sub64", "math/bits.Sub":
		if it.words {
			return it.carry(c, strings.HasPrefix(n, "math/bits.Sub"))
		}
	case "math/bits.Mul":
		if it.words {
			return it.wide(c, func(x, y, z *big.Int) *big.Int { return x.Mul(x, y) }, "mul64", true)
		}
	}
	switch n {
	case "math/bits.Mul64":
		return it.wide(c, func(x, y, z *big.Int) *big.Int { return x.Mul(x, y) }, "mul64", true)
	case "math/bits.Add64":
		return it.wide(c, func(x, y, z *big.Int) *big.Int { return x.Add(x.Add(x, y), z) }, "add64", false)
	case "math/bits.Sub64":
		x, y := c.args[0], c.args[1]
		t := x.t | y.t
		d := addNum(st.num(x), shift(st.num(y), true))
		lo := topNum(types.Typ[types.Uint64])
		br := boolNum(true, true)
		if !d.isBot() && d.lo.sign() >= 0 {
			br = boolNum(true, false)
			lo = d
		} else if !d.isBot() && d.hi.sign() < 0 {
			br = boolNum(false, true)
		}
		// borrow == (x < y) when no borrow comes in
		e := it.x.mk("<", orAtom(it, st, x), orAtom(it, st, y), I{}, "")
		if v, ok := st.truth(e); ok {
			br = boolNum(!v, v)
		}
		if ci, ok := st.num(c.args[2]).isConst(); !ok || ci.sign() != 0 {
			e = it.x.newAtom()
			br = boolNum(true, true)
			lo = topNum(types.Typ[types.Uint64])
		}
		// The difference is zero exactly when the operands are equal.
		if v, ok := st.truth(st.eqExpr(orAtom(it, st, x), orAtom(it, st, y))); ok && !v && lo.contains(i64(0)) {
			lo = remove(lo, i64(0))
		}
		ed := it.x.mk("sub64", st.expr(x), st.expr(y), I{}, "")
		if br.contains(i64(0)) && br.contains(i64(1)) && e.op == "<" && !d.isBot() {
			// no borrow: the difference is exact
			s1 := st.clone()
			var r []Outcome
			ex := mkRange(maxI(d.lo, i64(0)), d.hi).meet(lo)
			if !ex.isBot() && st.assume(e, false) {
				r = append(r, Outcome{st: st, ret: tuple(st.intVal(ex, ed).withTaint(t), constV(i64(0)).withTaint(t))})
			}
			if s1.assume(e, true) {
				r = append(r, Outcome{st: s1, ret: tuple(s1.intVal(remove(lo, i64(0)), ed).withTaint(t), constV(i64(1)).withTaint(t))})
			}
			return r
		}
		return ret(st, tuple(st.intVal(lo, ed).withTaint(t), st.intVal(br, e).withTaint(t)))
	case "math/bits.Add", "math/bits.Sub", "math/bits.Mul":
		return ret(st, it.unkResult(st, c.sig))
	case "strings.NewReader", "bytes.NewReader":
		p := it.alloc(st, it.ctxOf(c.act, c.ins, c.fn), c.ins, 2, c.sig.Results().At(0).Type().(*types.Pointer).Elem(), "reader")
		if s := c.args[0]; s.k == KStr && s.str != nil {
			if o := st.objW(p.p[0].obj); !o.weak {
				o.cells[0] = strV("\x00" + *s.str) // read so far, NUL, rest
			}
		}
		return ret(st, p)
	case "(*strings.Reader).ReadByte":
		if s, o, ok := it.constReader(c); ok {
			i := strings.IndexByte(s, 0)
			if i+1 == len(s) {
				return ret(st, tuple(constV(i64(0)), &Val{k: KIface, unk: true, e: it.x.named("io.EOF")}))
			}
			b := s[i+1]
			o.cells[0] = strV(s[:i] + string([]byte{b, 0}) + s[i+2:])
			return ret(st, tuple(constV(u64(uint64(b))), it.zero(c.sig.Results().At(1).Type())))
		}
	case "(*strings.Reader).UnreadByte":
		if s, o, ok := it.constReader(c); ok {
			if i := strings.IndexByte(s, 0); i > 0 {
				o.cells[0] = strV(s[:i-1] + string([]byte{0, s[i-1]}) + s[i+1:])
				return ret(st, it.zero(c.sig.Results().At(0).Type()))
			}
		}
	case "math.Float64bits":
		return ret(st, it.unkResult(st, c.sig))
	}
	return it.fallback(c)
}

// constReader returns the content of a reader of a constant string.
func (it *Interp) constReader(c *callCtx) (string, *ObjSt, bool) {
	r := c.args[0]
	if r.k != KPtr || len(r.p) != 1 || r.unk {
		return "", nil, false
	}
	o := c.st.objW(r.p[0].obj)
	if o == nil || o.weak || r.p[0].off != 0 || len(o.cells) != 1 {
		return "", nil, false
	}
	v := o.cells[0]
	if v.k != KStr || v.str == nil || strings.Count(*v.str, "\x00") != 1 {
		o.cells[0] = it.zero(it.objs[r.p[0].obj].typ)
		return "", nil, false
	}
	return *v.str, o, true
}

// ghostVal returns the value held by the atomic.Value at p.
func (s *State) ghostVal(it *Interp, p Ptr) *Val {
	o := s.obj(p.obj)
	if o == nil || p.off >= len(o.cells) || o.cells[p.off].k != KIface {
		return nil
	}
	return o.cells[p.off]
}

func (s *State) taintOut() {
	if s.out != "" || s.g("out") != 0 {
		s.out += "?"
	}
}

func (it *Interp) wide(c *callCtx, f func(x, y, z *big.Int) *big.Int, nm string, mul bool) []Outcome {
	st := c.st
	x, y := c.args[0], c.args[1]
	t := x.t | y.t
	nx, ny := st.num(x), st.num(y)
	zlo, zhi := new(big.Int), new(big.Int)
	if len(c.args) > 2 {
		nz := st.num(c.args[2])
		zlo, zhi = nz.lo.big(), nz.hi.big()
		t |= c.args[2].t
	}
	lo := f(nx.lo.big(), ny.lo.big(), zlo)
	hi := f(nx.hi.big(), ny.hi.big(), zhi)
	mask := new(big.Int).Sub(two64, big.NewInt(1))
	h0, h1 := new(big.Int).Rsh(lo, 64), new(big.Int).Rsh(hi, 64)
	nh := mkRange(fromBig(h0), fromBig(h1))
	nl := topNum(types.Typ[types.Uint64])
	if h0.Cmp(h1) == 0 {
		nl = mkRange(fromBig(new(big.Int).And(lo, mask)), fromBig(new(big.Int).And(hi, mask)))
	}
	eh := it.x.mk(nm+"h", st.expr(x), st.expr(y), I{}, "")
	el := it.x.mk(nm+"l", st.expr(x), st.expr(y), I{}, "")
	if len(c.args) > 2 {
		eh, el = it.x.newAtom(), it.x.newAtom()
	}
	pair := func(st *State, nh, nl Num) []Outcome {
		vh, vl := st.intVal(nh, eh).withTaint(t), st.intVal(nl, el).withTaint(t)
		if mul {
			return ret(st, tuple(vh, vl))
		}
		return ret(st, tuple(vl, vh))
	}
	d := new(big.Int).Sub(h1, h0)
	if !it.mags || d.Sign() == 0 || d.Cmp(big.NewInt(2)) > 0 {
		return pair(st, nh, nl)
	}
	// Split, so that the halves stay related to each other and to x.
	var outs []Outcome
	for h := new(big.Int).Set(h0); h.Cmp(h1) <= 0; h = new(big.Int).Add(h, big.NewInt(1)) {
		from := new(big.Int).Lsh(h, 64)
		to := new(big.Int).Or(from, mask)
		s := st.clone()
		rx := nx
		if _, ok := ny.isConst(); ok && len(c.args) == 2 {
			// f increases with x.
			g := func(bound *big.Int, strict bool) *big.Int {
				a, b := nx.lo.big(), new(big.Int).Add(nx.hi.big(), big.NewInt(1))
				for a.Cmp(b) < 0 {
					m := new(big.Int).Rsh(new(big.Int).Add(a, b), 1)
					if k := f(new(big.Int).Set(m), ny.lo.big(), zlo).Cmp(bound); k > 0 || k == 0 && !strict {
						b = m
					} else {
						a = m.Add(m, big.NewInt(1))
					}
				}
				return a
			}
			l, u := g(from, false), g(to, true)
			if l.Cmp(u) >= 0 {
				continue
			}
			rx = mkRange(fromBig(l), fromBig(u.Sub(u, big.NewInt(1))))
			if !s.setNum(s.expr(x), rx) {
				continue
			}
			from = maxBig(from, f(rx.lo.big(), ny.lo.big(), zlo))
			to = minBig(to, f(rx.hi.big(), ny.lo.big(), zlo))
		}
		from, to = maxBig(from, lo), minBig(to, hi)
		outs = append(outs, pair(s, mkConst(fromBig(h)), mkRange(fromBig(new(big.Int).And(from, mask)), fromBig(new(big.Int).And(to, mask))))...)
	}
	return outs
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func pointees(v *Val) []int {
	if v == nil {
		return nil
	}
	var r []int
	for _, p := range v.p {
		r = append(r, p.obj)
	}
	return append(r, pointees(v.in)...)
}

func (it *Interp) ratFloat(c *callCtx, m string) []Outcome {
	st := c.st
	res := c.sig.Results()
	for i := 0; i < res.Len(); i++ {
		// Num and Denom give access to the number's own digits.
		if isPtrToBig(res.At(i).Type()) && (m == "Num" || m == "Denom") {
			p := it.alloc(st, it.ctxOf(c.act, c.ins, c.fn), c.ins, 3, bigIntT, m+"@"+fnName(c.act.fn))
			id := p.p[0].obj
			// The digits are the fraction's own.
			it.objs[id].owner = OwnCaller
			for _, q := range c.args[0].p {
				if o := it.objs[q.obj]; o.owner == OwnOperand || o.owner == OwnLocal || o.owner == OwnShared || o.owner == OwnResult {
					it.objs[id].owner, it.objs[id].opnd = o.owner, o.opnd
				}
			}
			s := st.objW(id)
			sg := uint8(7)
			if m == "Denom" {
				sg = 4
			}
			s.cells[0] = &Val{k: KBig, sign: sg, e: it.x.newAtom(), p: []Ptr{{it.backing(Ptr{id, 0}), 0}}}
			return ret(st, p)
		}
	}
	if m == "Int" && len(c.args) == 2 && c.args[1].k == KPtr && len(c.args[1].p) > 0 {
		it.bigSet(c, c.args[1], 7, nil, 0)
		return ret(st, tuple(c.args[1], it.unknown(st, res.At(1).Type())))
	}
	if res.Len() == 1 && len(c.args) > 0 && types.Identical(res.At(0).Type(), c.sig.Recv().Type()) {
		// These overwrite their receiver.
		t := Taint(0)
		for _, x := range c.args[1:] {
			t |= x.t
			if x.k == KPtr && len(x.p) > 0 {
				if v := it.bigLoad(c, x); v != nil {
					t |= v.t
				}
			}
		}
		it.bigSet(c, c.args[0], 7, nil, t)
		return ret(st, c.args[0])
	}
	return ret(st, it.unkResult(st, c.sig))
}

func isPtrToBig(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigNum(p.Elem())
}

func (it *Interp) builder(c *callCtx, m string) []Outcome {
	st := c.st
	switch m {
	case "WriteString":
		return it.writeTo(c, c.args[0], c.args[1])
	case "WriteByte", "WriteRune":
		it.emitByte(c, c.args[1])
		return ret(st, it.zeroErr(c))
	case "Write":
		st.taintOut()
	case "String":
		if st.g("out") == 1 && !strings.Contains(st.out, "?") {
			return ret(st, strV(st.out))
		}
	case "Len":
		return ret(st, it.rangeV(st, 0, 1<<40))
	}
	return ret(st, it.unkResult(st, c.sig))
}

func (it *Interp) zeroErr(c *callCtx) *Val {
	r := c.sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return it.zero(r.At(0).Type())
	}
	v := &Val{k: KTuple}
	for i := 0; i < r.Len(); i++ {
		if i == r.Len()-1 {
			v.fs = append(v.fs, it.zero(r.At(i).Type()))
		} else {
			v.fs = append(v.fs, it.unknown(c.st, r.At(i).Type()))
		}
	}
	return v
}

func (it *Interp) writeTo(c *callCtx, w, s *Val) []Outcome {
	if c.st.g("out") == 1 {
		if s.k == KStr && s.str != nil {
			c.st.out += *s.str
		} else {
			c.st.out += "?"
		}
	}
	return ret(c.st, it.zeroErr(c))
}

func (it *Interp) emitByte(c *callCtx, b *Val) {
	if c.st.g("out") != 1 {
		return
	}
	if v, ok := c.st.num(b).isConst(); ok {
		c.st.out += string(rune(v.l))
	} else {
		c.st.out += "?"
	}
}

func (it *Interp) once(c *callCtx) []Outcome {
	st := c.st
	f := c.args[1]
	if o := c.args[0]; len(o.p) == 1 && it.onceDone[o.p[0]] {
		return ret(st, nil)
	}
	// The function runs at most once per Once: either now, or before.
	var r []Outcome
	for i, fr := range f.fn {
		s := st
		if i < len(f.fn)-1 {
			s = st.clone()
		}
		s.setG("once", s.g("once")+1)
		outs := it.callOne(c.act, s, fr.fn, nil, fr.binds, c.ins, c.sig)
		for _, o := range outs {
			o.st.setG("once", o.st.g("once")-1)
			if o.st.g("once") == 0 {
				delete(o.st.ghost, "once")
			}
			if it.coldRun {
				o.st.setG("onced", 1)
			}
			o.ret = nil
			// what the function stored is shared from now on
			for _, b := range fr.binds {
				it.shareVal(o.st, b)
				for _, p := range b.p {
					if s := o.st.obj(p.obj); s != nil {
						for _, cell := range s.cells {
							it.shareVal(o.st, cell)
						}
					}
				}
			}
			r = append(r, o)
		}
	}
	return r
}

func (it *Interp) poolGet(c *callCtx) []Outcome {
	st := c.st
	p := it.alloc(st, it.ctxOf(c.act, c.ins, c.fn), c.ins, 4, it.P.bigType, "pooled@"+fnName(c.act.fn))
	id := p.p[0].obj
	o := it.objs[id]
	s := st.objW(id)
	s.pool = true
	s.put = false
	for i, l := range o.leaves {
		v := it.unknown(st, l.typ)
		if v.k == KBig {
			v.p = []Ptr{{it.backing(Ptr{id, i}), 0}}
		}
		if i == it.bl.form {
			v = st.intVal(mkSet([]I{i64(0), i64(1), i64(2), i64(3), i64(4), i64(5), i64(8), i64(9)}), nil)
		}
		v = v.withTaint(TPool)
		if s.weak {
			v = (&joiner{x: it.x}).val(s.cells[i], v, nil)
		}
		s.cells[i] = v
	}
	return ret(st, &Val{k: KIface, dyn: types.NewPointer(it.P.bigType), in: p})
}

func (it *Interp) poolPut(c *callCtx) {
	for _, id := range pointees(c.args[1]) {
		it.hooks.use(c.st, Ptr{id, 0}, "put back into its pool", c.pos)
	}
}

// fallback treats a library function as one that only reads its arguments,
// except for decimals reached by pointer or through an interface.
func (it *Interp) fallback(c *callCtx) []Outcome {
	return ret(c.st, it.unkResult(c.st, c.sig))
}

func (it *Interp) externInvoke(c *callCtx) []Outcome {
	st := c.st
	if it.text {
		if r, ok := it.textInvoke(c); ok {
			return r
		}
	}
	switch c.name {
	case "(io.ByteReader).ReadByte", "(io.ByteScanner).UnreadByte", "(io.ByteScanner).ReadByte", "(io.ByteReader).UnreadByte":
		if it.readByte != nil {
			return it.readByte(it, c)
		}
	case "(io.ByteWriter).WriteByte":
		it.emitByte(c, c.args[1])
		return ret(st, it.zeroErr(c))
	case "(io.Writer).Write", "(fmt.State).Write":
		st.taintOut()
	case "(interface).WriteString", "(io.StringWriter).WriteString":
		return it.writeTo(c, c.args[0], c.args[1])
	}
	return ret(st, it.unkResult(st, c.sig))
}
