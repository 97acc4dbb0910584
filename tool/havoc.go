package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A call of a primitive operation inside a composite one may be replaced by
// the operation's own guarantee: it reads its operands, overwrites nothing but
// its results, and returns the first of them. Each guarantee is what the
// corresponding check decides for the primitive itself (assume/guarantee).

type havocKind int

const (
	havocFinite havocKind = iota // results are finite
	havocAny                     // results may be anything
)

// useHavoc replaces the calls of fns.
func (it *Interp) useHavoc(kind havocKind, fns ...*ssa.Function) {
	if it.fnHook == nil {
		it.fnHook = map[*ssa.Function]func(it *Interp, c *callCtx) ([]Outcome, bool){}
	}
	for _, fn := range fns {
		if fn == nil {
			continue
		}
		fn := fn
		it.fnHook[fn] = func(it *Interp, c *callCtx) ([]Outcome, bool) {
			if len(it.stack) == 0 || it.stack[len(it.stack)-1].fn == nil {
				return nil, false
			}
			return it.havocCall(c, fn, kind), true
		}
	}
}

func (it *Interp) havocCall(c *callCtx, fn *ssa.Function, kind havocKind) []Outcome {
	st := c.st
	var t Taint
	var res []*Val
	nres := fn.Signature.Results().Len()
	first := true
	// reads come first
	for i, a := range c.args {
		if i >= len(fn.Params) {
			break
		}
		switch {
		case a.k == KFunc:
			for _, f := range a.fn {
				// callbacks run
				if f.fn.Blocks != nil && it.P.inRepo(f.fn) {
					var as []*Val
					for _, p := range f.fn.Params {
						as = append(as, it.unknown(st, p.Type()))
					}
					outs := it.callOne(c.act, st, f.fn, as, f.binds, c.ins, f.fn.Signature)
					for _, o := range outs {
						if o.pan == "" {
							st = o.st
							break
						}
					}
				}
			}
			c.st = st
		case it.isBigPtr(fn.Params[i]):
			isRes := first && it.resultParam(fn, i)
			if isRes {
				res = append(res, a)
				first = false
				continue
			}
			if fn.Params[i].Name() == "r" && nres > 1 && i == len(fn.Params)-1 {
				res = append(res, a)
				continue
			}
			v := it.load(st, a, it.P.bigType, c.pos)
			t |= it.valueTaint(st, v)
		case a.k == KStruct:
			for _, f := range a.fs {
				t |= f.t
			}
		default:
			t |= a.t
		}
	}
	for _, z := range res {
		it.havocBig(c, z, kind, t)
	}
	var rets []*Val
	k := 0
	for i := 0; i < nres; i++ {
		rt := fn.Signature.Results().At(i).Type()
		if rt.String() == "*"+modPath+".Big" {
			if k < len(res) {
				rets = append(rets, res[k])
				k++
			} else {
				// a new decimal
				p := it.alloc(st, it.ctxOf(c.act, c.ins, fn), c.ins, 7+i, it.P.bigType, "result of "+fnName(fn))
				s := st.objW(p.p[0].obj)
				for j, l := range it.objs[p.p[0].obj].leaves {
					s.cells[j] = it.zero(l.typ)
				}
				it.havocBig(c, p, kind, t)
				rets = append(rets, p)
			}
			continue
		}
		rets = append(rets, it.unknown(st, rt).withTaint(t))
	}
	switch len(rets) {
	case 0:
		return ret(c.st, nil)
	case 1:
		return ret(c.st, rets[0])
	}
	return ret(c.st, tuple(rets...))
}

// resultParam tells whether parameter i of fn is its result: the first decimal
// parameter (a method's receiver, or z of a Context method).
func (it *Interp) resultParam(fn *ssa.Function, i int) bool {
	for j := 0; j < i; j++ {
		if it.isBigPtr(fn.Params[j]) {
			return false
		}
	}
	n := fn.Name()
	if strings.HasPrefix(n, "BinarySplitDynamic") {
		return false
	}
	return fn.Signature.Results().Len() > 0 && it.isBigPtr(fn.Params[i])
}

func (it *Interp) havocBig(c *callCtx, z *Val, kind havocKind, t Taint) {
	st := c.st
	b := it.bl
	at := func(off int) *Val {
		w := *z
		w.p = nil
		for _, p := range z.p {
			w.p = append(w.p, Ptr{p.obj, p.off + off})
		}
		return &w
	}
	ls := it.lay.of(it.P.bigType)
	put := func(off int, v *Val) { it.store(st, at(off), v.withTaint(t), ls[off].typ, c.pos) }
	forms := mkSet([]I{i64(0), i64(1)})
	if kind == havocAny {
		forms = mkSet([]I{i64(0), i64(1), i64(2), i64(3), i64(8), i64(9)})
	}
	old := it.load(st, at(b.conds), ls[b.conds].typ, c.pos)
	on := st.num(old)
	must, _ := condBounds(on)
	cn := topNum(types.Typ[types.Uint32])
	cn.k1 |= must & 0x1fff
	cn.k0 |= 0xffffffff &^ 0x1fff
	put(b.conds, st.intVal(cn, nil))
	it.bigSet(c, at(b.unscaled), 6, nil, t)
	put(b.compact, st.intVal(topNum(x64()), nil))
	put(b.exp, st.intVal(expNum, nil))
	put(b.precision, st.intVal(mkRange(i64(1), i64(1<<40)), nil))
	put(b.form, st.intVal(forms, nil))
}

// ctxFns returns the named Context methods that exist.
func (p *Prog) ctxFns(names ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, n := range names {
		if f := p.Method(p.ctxType, n); f != nil {
			r = append(r, f)
		}
	}
	return r
}

// valueTaint is the taint of the value of the decimal v: a compact one's
// unscaled field and the other fields of one that is not finite do not matter.
func (it *Interp) valueTaint(st *State, v *Val) Taint {
	b := it.bl
	if len(v.fs) <= b.form {
		return v.t
	}
	t := v.fs[b.form].t
	if f := st.num(v.fs[b.form]); f.set != nil && f.set[0].l >= 2 && f.set[0].l < 4 {
		return t // an infinity
	}
	t |= v.fs[b.compact].t | v.fs[b.exp].t | v.fs[b.precision].t
	if st.num(v.fs[b.compact]).contains(maxU64) {
		t |= v.fs[b.unscaled].t
	}
	return t
}
