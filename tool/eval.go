package main

import (
	"go/token"
	"go/types"
	"math/big"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) eval(act *activation, st *State, ins ssa.Instruction) *Val {
	switch v := ins.(type) {
	case *ssa.Alloc:
		return it.alloc(st, act.ctx, v, 0, v.Type().(*types.Pointer).Elem(), v.Comment+"@"+fnName(act.fn))
	case *ssa.BinOp:
		return it.binop(act, st, v)
	case *ssa.UnOp:
		return it.unop(act, st, v)
	case *ssa.ChangeType:
		return it.val(act, st, v.X)
	case *ssa.Convert:
		return it.convert(act, st, v)
	case *ssa.MultiConvert:
		return it.unknown(st, v.Type())
	case *ssa.ChangeInterface:
		return it.val(act, st, v.X)
	case *ssa.MakeInterface:
		return &Val{k: KIface, dyn: v.X.Type(), in: st.norm(it.val(act, st, v.X))}
	case *ssa.MakeClosure:
		var b []*Val
		for _, x := range v.Bindings {
			b = append(b, it.val(act, st, x))
		}
		return &Val{k: KFunc, fn: []FuncRef{{v.Fn.(*ssa.Function), b}}}
	case *ssa.MakeMap:
		return &Val{k: KOpaque}
	case *ssa.MakeChan:
		return &Val{k: KOpaque}
	case *ssa.MakeSlice:
		el := v.Type().Underlying().(*types.Slice).Elem()
		n := int64(1 << 30)
		if k, ok := st.num(it.val(act, st, v.Cap)).isConst(); ok && it.words && k.sign() >= 0 && k.l <= 1024 {
			n = int64(k.l)
		}
		p := it.alloc(st, act.ctx, v, 0, types.NewArray(el, n), "make@"+fnName(act.fn))
		ln := st.norm(it.val(act, st, v.Len))
		return &Val{k: KSlice, p: p.p, ln: ln, sign: 6}
	case *ssa.FieldAddr:
		p := it.val(act, st, v.X)
		stt := v.X.Type().Underlying().(*types.Pointer).Elem()
		off := it.lay.fieldOff(stt, v.Field)
		if p.k != KPtr {
			return it.unknown(st, v.Type())
		}
		r := *p
		r.null = false
		r.e = nil
		r.p = make([]Ptr, len(p.p))
		for i, q := range p.p {
			r.p[i] = Ptr{q.obj, q.off + off}
		}
		return &r
	case *ssa.Field:
		x := it.val(act, st, v.X)
		off := it.lay.fieldOff(v.X.Type(), v.Field)
		n := len(it.lay.of(v.Type()))
		if x.k != KStruct || off+n > len(x.fs) {
			return it.unknown(st, v.Type())
		}
		if it.isAgg(v.Type()) {
			return &Val{k: KStruct, fs: x.fs[off : off+n]}
		}
		return x.fs[off]
	case *ssa.IndexAddr:
		return it.indexAddr(act, st, v)
	case *ssa.Index:
		x := it.val(act, st, v.X)
		i := st.norm(it.val(act, st, v.Index))
		if it.text && x.k == KStr {
			if r, ok := it.textIndex(st, x, i); ok {
				return r
			}
		}
		if x.k == KStr && x.str != nil {
			return it.strIndex(st, *x.str, i)
		}
		if x.k == KStr {
			return st.intVal(topNum(v.Type()), it.x.mk("at", x.e, st.expr(i), I{}, ""))
		}
		return it.unknown(st, v.Type())
	case *ssa.Lookup:
		x := it.val(act, st, v.X)
		if x.k == KStr {
			i := st.norm(it.val(act, st, v.Index))
			if it.text {
				if r, ok := it.textIndex(st, x, i); ok {
					return r
				}
			}
			if x.str != nil {
				return it.strIndex(st, *x.str, i)
			}
			return st.intVal(topNum(v.Type()), it.x.newAtom())
		}
		return it.unknown(st, v.Type())
	case *ssa.Slice:
		return it.slice(act, st, v)
	case *ssa.Extract:
		t := it.val(act, st, v.Tuple)
		if t.k == KTuple && v.Index < len(t.fs) {
			return t.fs[v.Index]
		}
		return it.unknown(st, v.Type())
	case *ssa.TypeAssert:
		return it.typeAssert(act, st, v)
	case *ssa.Range:
		return &Val{k: KOpaque}
	case *ssa.Next:
		return it.unknown(st, v.Type())
	case *ssa.SliceToArrayPointer:
		return it.unknown(st, v.Type())
	}
	it.undecided("unsupported value %T in %s", ins, fnName(act.fn))
	return it.unknown(st, ins.(ssa.Value).Type())
}

func (it *Interp) strIndex(st *State, s string, i *Val) *Val {
	if n := st.num(i); n.set != nil {
		var xs []I
		for _, k := range n.set {
			if k.sign() >= 0 && k.cmp(i64(int64(len(s)))) < 0 {
				xs = append(xs, u64(uint64(s[k.l])))
			}
		}
		if len(xs) > 0 {
			return st.intVal(mkSet(xs), it.x.newAtom())
		}
	}
	var xs []I
	for k := 0; k < len(s); k++ {
		xs = append(xs, u64(uint64(s[k])))
	}
	if len(xs) == 0 {
		return st.intVal(topNum(types.Typ[types.Uint8]), it.x.newAtom())
	}
	return st.intVal(mkSet(xs), it.x.newAtom())
}

func (it *Interp) indexAddr(act *activation, st *State, v *ssa.IndexAddr) *Val {
	x := it.val(act, st, v.X)
	i := st.norm(it.val(act, st, v.Index))
	idx := st.num(i)
	role := x.role
	if x.unk && len(x.p) == 0 {
		return it.unknown(st, v.Type())
	}
	r := &Val{k: KPtr, role: role, unk: x.unk, t: x.t}
	if it.words && x.k == KSlice {
		it.inBounds(st, idx, x)
	}
	for _, p := range x.p {
		o := it.objs[p.obj]
		if o.elem == 0 {
			r.p = append(r.p, p)
			continue
		}
		n := len(o.leaves) / o.elem
		if idx.set != nil {
			for _, k := range idx.set {
				off := p.off + int(k.l)*o.elem
				if k.sign() >= 0 && k.cmp(i64(int64(n))) < 0 && off < len(o.leaves) {
					r.p = append(r.p, Ptr{p.obj, off})
				}
			}
			continue
		}
		base := p.off
		for k := 0; k < n; k++ {
			kk := i64(int64(k))
			off := base + k*o.elem
			if off >= len(o.leaves) || kk.cmp(idx.lo) < 0 || kk.cmp(idx.hi) > 0 {
				continue
			}
			r.p = append(r.p, Ptr{p.obj, off})
		}
	}
	if len(r.p) == 0 {
		return it.unknown(st, v.Type())
	}
	return r
}

func (it *Interp) slice(act *activation, st *State, v *ssa.Slice) *Val {
	x := it.val(act, st, v.X)
	var lo, hi *Val
	if v.Low != nil {
		lo = st.norm(it.val(act, st, v.Low))
	}
	if v.High != nil {
		hi = st.norm(it.val(act, st, v.High))
	}
	if x.k == KStr {
		if it.text {
			if r, ok := it.textSlice(st, x, lo, hi); ok {
				return r
			}
		}
		if x.str != nil {
			s := *x.str
			l, h := 0, len(s)
			ok := true
			if lo != nil {
				c, isC := st.num(lo).isConst()
				ok = ok && isC
				l = int(c.l)
			}
			if hi != nil {
				c, isC := st.num(hi).isConst()
				ok = ok && isC
				h = int(c.l)
			}
			if ok && l >= 0 && l <= h && h <= len(s) {
				return strV(s[l:h])
			}
		}
		return &Val{k: KStr, e: it.x.newAtom()}
	}
	if it.words && x.k == KSlice {
		if r, ok := it.sliceWords(st, x, lo, hi); ok {
			return r
		}
	}
	r := &Val{k: KSlice, role: x.role, unk: x.unk, sign: 6}
	if x.k == KSlice {
		r.sign = x.sign | 2
	}
	var ln *Val
	if x.k == KPtr { // pointer to array
		at := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ln = constV(i64(at.Len()))
	} else {
		ln = x.ln
	}
	if hi != nil {
		ln = hi
	}
	off := 0
	exact := true
	if lo != nil {
		c, ok := st.num(lo).isConst()
		if ok {
			off = int(c.l)
		} else {
			exact = false
		}
		if ln != nil && ok && off == 0 {
		} else if ln != nil {
			n := addNum(st.num(ln), shift(st.num(lo), true)).meet(mkRange(i64(0), i64(1<<62)))
			if n.isBot() {
				n = mkRange(i64(0), i64(1<<62))
			}
			ln = st.intVal(n, it.x.newAtom())
		}
	}
	r.ln = ln
	for _, p := range x.p {
		o := it.objs[p.obj]
		if o.elem == 0 {
			r.p = append(r.p, p)
			continue
		}
		if exact {
			if p.off+off*o.elem < len(o.leaves) {
				r.p = append(r.p, Ptr{p.obj, p.off + off*o.elem})
			} else {
				r.p = append(r.p, p)
			}
			continue
		}
		for k := 0; k < len(o.leaves)/o.elem; k++ {
			r.p = append(r.p, Ptr{p.obj, k * o.elem})
		}
	}
	return r
}

func (it *Interp) typeAssert(act *activation, st *State, v *ssa.TypeAssert) *Val {
	x := it.val(act, st, v.X)
	res := func(ok Num, val *Val) *Val {
		if !v.CommaOk {
			return val
		}
		return &Val{k: KTuple, fs: []*Val{val, intV(ok, it.x.newAtom())}}
	}
	_, toIface := v.AssertedType.Underlying().(*types.Interface)
	if x.k == KIface && x.null && x.dyn == nil && !x.unk {
		return res(boolNum(true, false), it.zero(v.AssertedType))
	}
	if x.k == KIface && x.dyn != nil {
		var match bool
		if toIface {
			match = types.Implements(x.dyn, v.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(x.dyn, v.AssertedType)
		}
		if !match {
			return res(boolNum(true, false), it.zero(v.AssertedType))
		}
		val := x.in
		if toIface {
			w := *x
			w.null = false
			val = &w
		}
		if val == nil {
			val = it.unknown(st, v.AssertedType)
		}
		return res(boolNum(x.null, true), val)
	}
	if toIface {
		w := *x
		w.null = v.CommaOk
		if x.k != KIface {
			return res(boolNum(true, true), it.unknown(st, v.AssertedType))
		}
		return res(boolNum(true, true), &w)
	}
	if !v.CommaOk {
		return it.unknown(st, v.AssertedType)
	}
	ok := st.intVal(boolNum(true, true), it.x.mk("isa", x.e, nil, I{}, v.AssertedType.String()))
	return &Val{k: KTuple, fs: []*Val{it.unknown(st, v.AssertedType), ok}}
}

func (it *Interp) unop(act *activation, st *State, v *ssa.UnOp) *Val {
	x := it.val(act, st, v.X)
	switch v.Op {
	case token.MUL:
		return it.load(st, x, v.Type(), v.Pos())
	case token.NOT:
		n := st.num(x)
		r := boolNum(n.contains(i64(1)), n.contains(i64(0)))
		e := x.e
		if e != nil {
			if e.op == "!" {
				e = e.a
			} else {
				e = it.x.mk("!", e, nil, I{}, "")
			}
		}
		return st.intVal(r, e).withTaint(x.t)
	case token.SUB:
		if x.k != KInt {
			return it.unknown(st, v.Type())
		}
		n := st.num(x)
		r, wrap := fit(shift(n, true), v.Type())
		nm := v.Type().Underlying().String()
		if !wrap {
			nm = "nw"
		}
		return st.intVal(r, it.x.mk("neg", st.expr(x), nil, I{}, nm)).withTaint(x.t)
	case token.XOR:
		if x.k != KInt {
			return it.unknown(st, v.Type())
		}
		n := st.num(x)
		if n.set != nil {
			var xs []I
			for _, c := range n.set {
				xs = append(xs, wrapTo(new(big.Int).Not(c.big()), v.Type()))
			}
			return st.intVal(mkSet(xs), it.x.mk("not", st.expr(x), nil, I{}, v.Type().Underlying().String())).withTaint(x.t)
		}
		return st.intVal(topNum(v.Type()), it.x.mk("not", st.expr(x), nil, I{}, v.Type().Underlying().String())).withTaint(x.t)
	}
	return it.unknown(st, v.Type())
}

// fit clips n to the range of t; wrap reports whether values may wrap.
func fit(n Num, t types.Type) (Num, bool) {
	lo, hi, ok := typeRange(t)
	if !ok || n.isBot() {
		return n, false
	}
	if n.lo.cmp(lo) >= 0 && n.hi.cmp(hi) <= 0 {
		return n, false
	}
	if n.set != nil {
		var xs []I
		for _, c := range n.set {
			xs = append(xs, wrapTo(c.big(), t))
		}
		return mkSet(xs), true
	}
	return mkRange(lo, hi), true
}

func (it *Interp) convert(act *activation, st *State, v *ssa.Convert) *Val {
	x := it.val(act, st, v.X)
	lo, hi, ok := typeRange(v.Type())
	if x.k == KInt && ok {
		n := st.num(x)
		if it.hooks.conv != nil {
			it.hooks.conv(st, v, n)
		}
		r, wrap := fit(n, v.Type())
		if !wrap {
			e := st.expr(x)
			// A conversion that preserves the value names the same value.
			return intV(r, e).withTaint(x.t)
		}
		_, _ = lo, hi
		if it.text {
			if y, ok := it.textNarrow(st, v, x); ok {
				return y.withTaint(x.t)
			}
		}
		return st.intVal(r, it.x.mk("conv", st.expr(x), nil, I{}, v.Type().Underlying().String())).withTaint(x.t)
	}
	if b, isB := v.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
		if x.k == KStr {
			return x
		}
		if it.text && x.k == KSlice {
			if bs, ok := it.bytesOf(st, x); ok {
				for i, b := range bs {
					bs[i] = st.norm(b)
				}
				return mkStr(bs)
			}
		}
		if it.text && x.k == KInt {
			if n := st.num(x); !n.isBot() && n.lo.sign() >= 0 && n.hi.cmp(i64(128)) < 0 {
				return mkStr([]*Val{st.norm(x)})
			}
		}
		return &Val{k: KStr, e: it.x.newAtom(), ln: x.ln}
	}
	if _, isS := v.Type().Underlying().(*types.Slice); isS {
		el := v.Type().Underlying().(*types.Slice).Elem()
		if it.text {
			if bs, ok := it.bytesOf(st, x); ok && types.Identical(el.Underlying(), types.Typ[types.Uint8]) {
				return it.byteSliceAt(st, v, bs)
			}
		}
		p := it.alloc(st, act.ctx, v, 0, types.NewArray(el, 1<<30), "bytes@"+fnName(act.fn))
		it.store(st, p, it.unknown(st, el), el, v.Pos())
		return &Val{k: KSlice, p: p.p, ln: x.ln, sign: 6}
	}
	if ok {
		if x.k == KOpaque && x.str != nil {
			if f, good := new(big.Float).SetString(*x.str); good && f.IsInt() {
				i, _ := f.Int(nil)
				return constV(wrapTo(i, v.Type()))
			}
		}
		return st.intVal(topNum(v.Type()), it.x.newAtom()).withTaint(x.t)
	}
	return it.unknown(st, v.Type())
}

func (it *Interp) nilTest(st *State, x *Val) (Num, *Expr) {
	switch x.k {
	case KPtr, KSlice, KFunc, KIface, KOpaque:
		may := x.null
		mayNot := len(x.p) > 0 || x.unk || len(x.fn) > 0 || x.dyn != nil || x.k == KOpaque
		if !may && !mayNot {
			mayNot = true
		}
		if may && x.k == KIface && x.dyn == nil && !x.unk {
			mayNot = false
		}
		var e *Expr
		if x.e != nil {
			e = it.x.mk("isnil", x.e, nil, I{}, "")
		}
		return boolNum(mayNot, may), e
	}
	return boolNum(true, true), nil
}

func (it *Interp) binop(act *activation, st *State, v *ssa.BinOp) *Val {
	a := it.val(act, st, v.X)
	b := it.val(act, st, v.Y)
	taint := a.t | b.t
	isNil := func(x ssa.Value) bool { c, ok := x.(*ssa.Const); return ok && c.Value == nil }
	if it.text && a.k == KOpaque {
		if n, ok := it.floatCmp(st, v.Op, a, b); ok {
			return st.intVal(n, nil)
		}
	}
	switch v.Op {
	case token.EQL, token.NEQ:
		neg := v.Op == token.NEQ
		fin := func(n Num, e *Expr) *Val {
			if neg {
				n = boolNum(n.contains(i64(1)), n.contains(i64(0)))
				if e != nil {
					if e.op == "!" {
						e = e.a
					} else {
						e = it.x.mk("!", e, nil, I{}, "")
					}
				}
			}
			return st.intVal(n, e).withTaint(taint)
		}
		switch v.X.Type().Underlying().(type) {
		case *types.Basic:
		default:
			if isNil(v.Y) {
				return fin(it.nilTest(st, a))
			}
			if isNil(v.X) {
				return fin(it.nilTest(st, b))
			}
		}
		if a.k == KInt && b.k == KInt {
			n, e := it.cmpEq(st, a, b)
			return fin(n, e)
		}
		if a.k == KPtr && b.k == KPtr {
			if !a.unk && !b.unk {
				overlap := a.null && b.null
				for _, p := range a.p {
					for _, q := range b.p {
						if p == q {
							overlap = true
						}
					}
				}
				if !overlap {
					return fin(boolNum(true, false), nil)
				}
				if len(a.p) == 1 && len(b.p) == 1 && !a.null && !b.null && a.p[0] == b.p[0] {
					s := st.obj(a.p[0].obj)
					if s == nil || !s.weak {
						return fin(boolNum(false, true), nil)
					}
				}
			}
			return fin(boolNum(true, true), it.x.newAtom())
		}
		if a.k == KStr && b.k == KStr {
			if it.text {
				if ne, eq, ok := it.textEq(st, a, b); ok {
					return fin(boolNum(ne, eq), it.x.newAtom())
				}
			}
			if a.str != nil && b.str != nil {
				eq := *a.str == *b.str
				return fin(boolNum(!eq, eq), nil)
			}
			return fin(boolNum(true, true), it.x.newAtom())
		}
		if a.k == KIface && b.k == KIface {
			n, e := it.cmpIface(st, a, b)
			return fin(n, e)
		}
		if a.k == KStruct && b.k == KStruct && len(a.fs) == len(b.fs) {
			canT, canF := true, false
			for i := range a.fs {
				n, _ := it.cmpEq(st, a.fs[i], b.fs[i])
				if !n.contains(i64(1)) {
					canT = false
				}
				if n.contains(i64(0)) {
					canF = true
				}
			}
			return fin(boolNum(canF || !canT, canT), it.x.newAtom())
		}
		return fin(boolNum(true, true), it.x.newAtom())
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.k != KInt || b.k != KInt {
			return st.intVal(boolNum(true, true), it.x.newAtom()).withTaint(taint)
		}
		neg := false
		switch v.Op {
		case token.GTR:
			a, b = b, a
		case token.LEQ:
			a, b = b, a
			neg = true
		case token.GEQ:
			neg = true
		}
		e := it.x.mk("<", orAtom(it, st, a), orAtom(it, st, b), I{}, "")
		na, nb := st.num(a), st.num(b)
		n := boolNum(true, true)
		switch {
		case na.isBot() || nb.isBot():
		case na.hi.cmp(nb.lo) < 0:
			n = boolNum(false, true)
		case na.lo.cmp(nb.hi) >= 0:
			n = boolNum(true, false)
		default:
			if t, ok := st.truth(e); ok {
				n = boolNum(!t, t)
			} else if it.text {
				if l, h, ok := it.textCmp(st, a, b); ok && h < 0 {
					n = boolNum(false, true)
				} else if ok && l >= 0 {
					n = boolNum(true, false)
				}
			}
		}
		if neg {
			n = boolNum(n.contains(i64(1)), n.contains(i64(0)))
			if e != nil {
				e = it.x.mk("!", e, nil, I{}, "")
			}
		}
		return st.intVal(n, e).withTaint(taint)
	}
	if a.k == KStr && b.k == KStr && v.Op == token.ADD {
		if it.text {
			x, ok := it.bytesOf(st, a)
			y, ok2 := it.bytesOf(st, b)
			if ok && ok2 {
				return mkStr(append(append([]*Val{}, x...), y...))
			}
		}
		if a.str != nil && b.str != nil {
			return strV(*a.str + *b.str)
		}
		return &Val{k: KStr, e: it.x.newAtom(), t: taint}
	}
	if a.k != KInt || b.k != KInt {
		return it.unknown(st, v.Type()).withTaint(taint)
	}
	na, nb := st.num(a), st.num(b)
	if it.text {
		if r, ok := it.textBinop(st, v, a, b); ok {
			return r.withTaint(taint)
		}
	}
	r, wrap := arith(v.Op, na, nb, v.Type())
	if v.Op == token.SUB && wrap && na.lo.sign() >= 0 && nb.lo.sign() >= 0 {
		// x - y with y < x
		if lt, ok := st.truth(it.x.mk("<", st.expr(b), st.expr(a), I{}, "")); ok && lt {
			r, wrap = mkRange(i64(1), maxI(na.hi.sub(nb.lo), i64(1))), false
		}
	}
	if it.hooks.binop != nil {
		it.hooks.binop(st, v, a, b, r, wrap)
	}
	op := v.Op.String()
	ea, eb := st.expr(a), st.expr(b)
	if ea == nil {
		ea = orAtom(it, st, a)
	}
	if eb == nil {
		eb = orAtom(it, st, b)
	}
	// identities
	switch v.Op {
	case token.ADD, token.OR, token.XOR, token.SHL, token.SHR, token.SUB:
		if c, ok := nb.isConst(); ok && c.sign() == 0 {
			return a.withTaint(taint)
		}
		if c, ok := na.isConst(); ok && c.sign() == 0 && (v.Op == token.ADD || v.Op == token.OR || v.Op == token.XOR) {
			return b.withTaint(taint)
		}
		if v.Op == token.SUB && ea == eb {
			return constV(i64(0)).withTaint(taint)
		}
		if v.Op == token.OR && ea == eb {
			return a.withTaint(taint)
		}
	case token.AND:
		if ea == eb {
			return a.withTaint(taint)
		}
	case token.MUL:
		if c, ok := nb.isConst(); ok && c == i64(1) {
			return a.withTaint(taint)
		}
	}
	switch v.Op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if ea != nil && eb != nil && (ea.op == "const" && eb.op != "const" || eb.op != "const" && ea.id > eb.id) {
			ea, eb = eb, ea
		}
	}
	nm := v.Type().Underlying().String()
	if !wrap {
		nm = "nw"
	}
	// (x + c) + d, (x - c) + c
	if nm == "nw" && (op == "+" || op == "-") && eb != nil && eb.op == "const" && ea != nil && (ea.op == "+" || ea.op == "-") && ea.nm == "nw" && ea.b != nil && ea.b.op == "const" {
		c := ea.b.c
		if ea.op == "-" {
			c = c.neg()
		}
		d := eb.c
		if op == "-" {
			d = d.neg()
		}
		s := c.add(d)
		if s.sign() == 0 {
			if f, ok := st.facts.get(ea.a); ok {
				return intV(f.meet(r), ea.a).withTaint(taint)
			}
			return st.intVal(r, ea.a).withTaint(taint)
		}
		return st.intVal(r, it.x.mk("+", ea.a, it.x.konst(s), I{}, "nw")).withTaint(taint)
	}
	if op == "-" && nm == "nw" && eb != nil && eb.op == "const" {
		op, eb = "+", it.x.konst(eb.c.neg())
	}
	var e *Expr
	if ea != nil && eb != nil {
		e = it.x.mk(op, ea, eb, I{}, nm)
	}
	return st.intVal(r, e).withTaint(taint)
}

func orAtom(it *Interp, st *State, v *Val) *Expr {
	if e := st.expr(v); e != nil {
		return e
	}
	return it.x.newAtom()
}

func (it *Interp) cmpEq(st *State, a, b *Val) (Num, *Expr) {
	if a.k != KInt || b.k != KInt {
		return boolNum(true, true), it.x.newAtom()
	}
	na, nb := st.num(a), st.num(b)
	e := st.eqExpr(orAtom(it, st, a), orAtom(it, st, b))
	if ca, ok := na.isConst(); ok {
		if cb, ok := nb.isConst(); ok {
			return boolNum(ca != cb, ca == cb), e
		}
	}
	if na.meet(nb).isBot() {
		return boolNum(true, false), e
	}
	// booleans compared with constants
	if t, ok := st.truth(e); ok {
		return boolNum(!t, t), e
	}
	if it.text {
		if l, h, ok := it.textCmp(st, a, b); ok {
			if l > 0 || h < 0 {
				return boolNum(true, false), e
			}
			if l == 0 && h == 0 {
				return boolNum(false, true), e
			}
		}
	}
	return boolNum(true, true), e
}

// cmpIface compares interface values.
func (it *Interp) cmpIface(st *State, a, b *Val) (Num, *Expr) {
	sentinel := func(v *Val) bool {
		return v.unk && v.dyn == nil && !v.null && v.e != nil && v.e.op == "atom" && v.e.nm != ""
	}
	isNil := func(v *Val) bool { return v.null && v.dyn == nil && !v.unk }
	known := func(v *Val) bool { return !v.null && !v.unk && v.dyn != nil }
	switch {
	case sentinel(a) && sentinel(b):
		return boolNum(a.e.nm != b.e.nm, a.e.nm == b.e.nm), nil
	case sentinel(a) && (known(b) || isNil(b)), sentinel(b) && (known(a) || isNil(a)):
		return boolNum(true, false), nil
	case known(a) && isNil(b), known(b) && isNil(a):
		return boolNum(true, false), nil
	case isNil(a) && isNil(b):
		return boolNum(false, true), nil
	case known(a) && known(b):
		if !types.Identical(a.dyn, b.dyn) {
			return boolNum(true, false), nil
		}
		if a.in != nil && b.in != nil && a.in.k == KInt && b.in.k == KInt {
			return it.cmpEq(st, a.in, b.in)
		}
	}
	return boolNum(true, true), it.x.newAtom()
}

// listed lists the values of a short range.
func (n Num) listed() Num {
	if n.set != nil || n.isBot() || n.hi.sub(n.lo).cmp(i64(255)) > 0 {
		return n
	}
	var xs []I
	for x := n.lo; x.cmp(n.hi) <= 0; x = x.add(i64(1)) {
		if n.contains(x) {
			xs = append(xs, x)
		}
	}
	if len(xs) > 0 {
		n.set = xs
	}
	return n
}

// arith evaluates an integer operator; wrap reports possible wrap-around.
func arith(op token.Token, a, b Num, t types.Type) (Num, bool) {
	if a.isBot() || b.isBot() {
		return Num{set: []I{}}, false
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		// a short range is as good as a set
		a, b = a.listed(), b.listed()
	}
	if a.set != nil && b.set != nil && len(a.set)*len(b.set) <= 512 {
		var xs []I
		wrap := false
		for _, x := range a.set {
			for _, y := range b.set {
				z, ok := arith1(op, x.big(), y.big(), t)
				if !ok {
					continue
				}
				w := wrapTo(z, t)
				if w.big().Cmp(z) != 0 {
					wrap = true
				}
				xs = append(xs, w)
			}
		}
		if len(xs) > 0 {
			return mkSet(xs), wrap
		}
		return topNum(t), true
	}
	switch op {
	case token.ADD:
		return fit(mkRange(a.lo.add(b.lo), a.hi.add(b.hi)), t)
	case token.SUB:
		return fit(mkRange(a.lo.sub(b.hi), a.hi.sub(b.lo)), t)
	case token.MUL:
		c := []I{a.lo.mul(b.lo), a.lo.mul(b.hi), a.hi.mul(b.lo), a.hi.mul(b.hi)}
		lo, hi := c[0], c[0]
		for _, x := range c[1:] {
			lo, hi = minI(lo, x), maxI(hi, x)
		}
		return fit(mkRange(lo, hi), t)
	case token.QUO:
		if b.lo.sign() == 0 && b.hi.sign() > 0 {
			b = mkRange(i64(1), b.hi) // division by zero panics
		}
		if b.lo.sign() > 0 {
			c := []I{quoI(a.lo, b.lo), quoI(a.lo, b.hi), quoI(a.hi, b.lo), quoI(a.hi, b.hi)}
			lo, hi := c[0], c[0]
			for _, x := range c[1:] {
				lo, hi = minI(lo, x), maxI(hi, x)
			}
			return fit(mkRange(lo, hi), t)
		}
		m := maxI(a.hi, a.lo.neg())
		return fit(mkRange(m.neg(), m), t)
	case token.REM:
		if b.lo.sign() == 0 && b.hi.sign() > 0 {
			b = mkRange(i64(1), b.hi)
		}
		if b.lo.sign() > 0 {
			if a.lo.sign() >= 0 && b.lo == b.hi && quoI(a.lo, b.lo) == quoI(a.hi, b.lo) {
				q := quoI(a.lo, b.lo).mul(b.lo)
				return mkRange(a.lo.sub(q), a.hi.sub(q)), false
			}
			m := b.hi.sub(i64(1))
			lo := i64(0)
			if a.lo.sign() < 0 {
				lo = maxI(m.neg(), a.lo)
			}
			hi := minI(m, maxI(a.hi, i64(0)))
			return mkRange(lo, hi), false
		}
		return topNum(t), false
	case token.AND:
		n := topNum(t)
		if a.lo.sign() >= 0 || b.lo.sign() >= 0 {
			hi := a.hi
			if a.lo.sign() < 0 || b.lo.sign() >= 0 && b.hi.cmp(a.hi) < 0 {
				hi = b.hi
			}
			n = mkRange(i64(0), hi)
		}
		if n.set == nil {
			n.k0 |= a.k0 | b.k0
			n.k1 |= a.k1 & b.k1
			if n.lo.sign() >= 0 {
				// bits above those that may be set are clear
				may := ^n.k0
				if m := u64(may); m.cmp(n.hi) < 0 {
					return bitsNum(n.k0, n.k1, m), false
				}
			}
		}
		return n, false
	case token.OR, token.XOR:
		if m, x := a, b; op == token.XOR {
			// -1 ^ x
			if k, ok := x.isConst(); ok && k == i64(-1) {
				m, x = x, m
			}
			if k, ok := m.isConst(); ok && k == i64(-1) {
				return mkRange(i64(-1).sub(x.hi), i64(-1).sub(x.lo)), false
			}
		}
		if a.lo.sign() >= 0 && b.lo.sign() >= 0 {
			may := ^(a.k0 & b.k0)
			if a.set == nil && a.k0 == 0 || b.set == nil && b.k0 == 0 {
				may = ^uint64(0)
			}
			k1 := uint64(0)
			k0 := ^may
			if op == token.OR {
				k1 = a.k1 | b.k1
			}
			return bitsNum(k0, k1, u64(may)).meet(topNum(t)), false
		}
		return topNum(t), false
	case token.AND_NOT:
		if a.lo.sign() >= 0 {
			hi := a.hi
			if hi.h == 0 {
				hi = minI(hi, u64(^(a.k0 | b.k1)))
			}
			n := mkRange(i64(0), hi)
			if n.set == nil {
				n.k0 |= a.k0 | b.k1
				n.k1 |= a.k1 & b.k0
			}
			return n, false
		}
		return topNum(t), false
	case token.SHL:
		if b.lo.sign() >= 0 && b.hi.cmp(i64(64)) < 0 && a.lo.sign() >= 0 {
			lo := fromBig(new(big.Int).Lsh(a.lo.big(), uint(b.lo.l)))
			hi := fromBig(new(big.Int).Lsh(a.hi.big(), uint(b.hi.l)))
			return fit(mkRange(lo, hi), t)
		}
		return topNum(t), true
	case token.SHR:
		if a.lo.sign() >= 0 && b.lo.sign() >= 0 {
			lo, hi := i64(0), a.hi
			if b.lo.cmp(i64(64)) < 0 {
				hi = fromBig(new(big.Int).Rsh(a.hi.big(), uint(b.lo.l)))
			}
			if b.hi.cmp(i64(64)) < 0 {
				lo = fromBig(new(big.Int).Rsh(a.lo.big(), uint(b.hi.l)))
			}
			return mkRange(lo, hi), false
		}
		if b.lo.sign() >= 0 && b.hi.cmp(i64(127)) < 0 {
			sh := func(x I, k uint64) I { return fromBig(new(big.Int).Rsh(x.big(), uint(k))) }
			lo := minI(sh(a.lo, b.lo.l), sh(a.lo, b.hi.l))
			hi := maxI(sh(a.hi, b.lo.l), sh(a.hi, b.hi.l))
			return mkRange(lo, hi), false
		}
		return topNum(t), false
	}
	return topNum(t), true
}

// bitsNum is the abstract value with the given known bits, at most hi.
func bitsNum(k0, k1 uint64, hi I) Num {
	may := ^k0
	if bits.OnesCount64(may&^k1) <= 4 {
		// enumerate
		free := may &^ k1
		var xs []I
		for s := free; ; s = (s - 1) & free {
			xs = append(xs, u64(s|k1))
			if s == 0 {
				break
			}
		}
		return mkSet(xs)
	}
	n := mkRange(u64(k1), hi)
	if n.set == nil {
		n.k0 |= k0
		n.k1 |= k1
	}
	return n
}

func quoI(a, b I) I {
	if b.sign() == 0 {
		return a
	}
	return fromBig(new(big.Int).Quo(a.big(), b.big()))
}

func arith1(op token.Token, x, y *big.Int, t types.Type) (*big.Int, bool) {
	z := new(big.Int)
	switch op {
	case token.ADD:
		return z.Add(x, y), true
	case token.SUB:
		return z.Sub(x, y), true
	case token.MUL:
		return z.Mul(x, y), true
	case token.QUO:
		if y.Sign() == 0 {
			return nil, false
		}
		return z.Quo(x, y), true
	case token.REM:
		if y.Sign() == 0 {
			return nil, false
		}
		return z.Rem(x, y), true
	case token.AND:
		return z.And(x, y), true
	case token.OR:
		return z.Or(x, y), true
	case token.XOR:
		return z.Xor(x, y), true
	case token.AND_NOT:
		return z.AndNot(x, y), true
	case token.SHL:
		if y.Sign() < 0 || y.BitLen() > 10 {
			if y.Sign() < 0 {
				return nil, false
			}
			return z, true
		}
		return z.Lsh(x, uint(y.Uint64())), true
	case token.SHR:
		if y.Sign() < 0 {
			return nil, false
		}
		if y.BitLen() > 10 {
			if x.Sign() < 0 {
				return big.NewInt(-1), true
			}
			return z, true
		}
		return z.Rsh(x, uint(y.Uint64())), true
	}
	return nil, false
}
