package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts replace calls of the word- and digit-level helpers of the internal
// arith package while another function is analysed. The bodies of the helpers
// are decided by C24; a helper that no longer exists is not needed.

type contract struct {
	name  string
	model func(it *Interp, c *callCtx) []Outcome
}

var contracts = []contract{
	{"Length", func(it *Interp, c *callCtx) []Outcome {
		x := c.args[0]
		n := c.st.num(x)
		lo, hi := int64(1), int64(20)
		if !n.isBot() && n.lo.sign() >= 0 && n.hi.cmp(maxU64) <= 0 {
			lo, hi = int64(len(n.lo.String())), int64(len(n.hi.String()))
		}
		return ret(c.st, c.st.intVal(mkRange(i64(lo), i64(hi)), it.x.mk("length", c.st.expr(x), nil, I{}, "")).withTaint(x.t))
	}},
	{"BigLength", func(it *Interp, c *callCtx) []Outcome {
		v := it.bigLoad(c, c.args[0])
		n := mkRange(i64(1), i64(1<<40))
		if it.bigSign(c.st, v) == 2 {
			n = mkConst(i64(1))
		}
		return ret(c.st, c.st.intVal(n, it.x.mk("biglen", v.e, nil, I{}, "")).withTaint(v.t))
	}},
	{"BigPow10", func(it *Interp, c *callCtx) []Outcome {
		return ret(c.st, ptrV(RShared, Ptr{it.powObj(), 0}).withTaint(c.args[0].t))
	}},
	{"PowOfTen", func(it *Interp, c *callCtx) []Outcome {
		x := c.args[0]
		n := boolNum(true, true)
		if k, ok := c.st.num(x).isConst(); ok {
			s := k.String()
			is := strings.Trim(s, "0") == "1" && s[0] == '1'
			n = boolNum(!is, is)
		}
		return ret(c.st, c.st.intVal(n, it.x.mk("pow10?", c.st.expr(x), nil, I{}, "")).withTaint(x.t))
	}},
	{"PowOfTenBig", func(it *Interp, c *callCtx) []Outcome {
		v := it.bigLoad(c, c.args[0])
		return ret(c.st, c.st.intVal(boolNum(true, true), it.x.mk("pow10?", v.e, nil, I{}, "")).withTaint(v.t))
	}},
	{"MulPow10", func(it *Interp, c *callCtx) []Outcome {
		x, n := c.args[0], c.args[1]
		t := x.t | n.t
		nx := c.st.num(x)
		st2 := c.st.clone()
		// x itself, or a multiple of 10
		r := topNum(x64())
		if !nx.isBot() {
			r = mkRange(i64(0), maxI(nx.hi, maxU64.sub(i64(5))))
		}
		if !nx.isBot() && nx.lo.sign() > 0 {
			r = above(r, nx.lo)
		}
		if k, ok := nx.isConst(); ok && k.sign() == 0 {
			return ret(c.st, tuple(constV(i64(0)).withTaint(t), boolV(true).withTaint(t)))
		}
		return []Outcome{
			{st: c.st, ret: tuple(c.st.intVal(r, nil).withTaint(t), boolV(true).withTaint(t))},
			{st: st2, ret: tuple(st2.intVal(topNum(x64()), nil).withTaint(t), boolV(false).withTaint(t))},
		}
	}},
	{"MulBigPow10", func(it *Interp, c *callCtx) []Outcome {
		v := it.bigLoad(c, c.args[1])
		it.bigSet(c, c.args[0], it.bigSign(c.st, v), nil, v.t|c.args[2].t)
		return ret(c.st, c.args[0])
	}},
	{"Add", func(it *Interp, c *callCtx) []Outcome {
		v := it.bigLoad(c, c.args[1])
		it.bigSet(c, c.args[0], addSign(absSign(it.bigSign(c.st, v)), numSign(c.st.num(c.args[2]))), nil, v.t|c.args[2].t)
		return ret(c.st, c.args[0])
	}},
	{"Sub", func(it *Interp, c *callCtx) []Outcome {
		v := it.bigLoad(c, c.args[1])
		it.bigSet(c, c.args[0], 6, nil, v.t|c.args[2].t)
		return ret(c.st, c.args[0])
	}},
	{"Mul", func(it *Interp, c *callCtx) []Outcome {
		v := it.bigLoad(c, c.args[1])
		it.bigSet(c, c.args[0], mulSign(absSign(it.bigSign(c.st, v)), numSign(c.st.num(c.args[2]))), nil, v.t|c.args[2].t)
		return ret(c.st, c.args[0])
	}},
	{"Set", func(it *Interp, c *callCtx) []Outcome {
		a, b := numSign(c.st.num(c.args[1])), numSign(c.st.num(c.args[2]))
		it.bigSet(c, c.args[0], addSign(a, b), nil, c.args[1].t|c.args[2].t)
		return ret(c.st, c.args[0])
	}},
	{"Abs", func(it *Interp, c *callCtx) []Outcome {
		x := c.args[0]
		n := c.st.num(x)
		e := it.x.mk("abs", c.st.expr(x), nil, I{}, "")
		lo, hi := i64(0), u64(1<<63)
		switch {
		case n.isBot():
		case n.lo.sign() >= 0:
			return ret(c.st, c.st.intVal(n, c.st.expr(x)).withTaint(x.t))
		case n.hi.sign() <= 0:
			lo, hi = n.hi.neg(), n.lo.neg()
		default:
			hi = maxI(n.hi, n.lo.neg())
		}
		return ret(c.st, c.st.intVal(mkRange(lo, hi), e).withTaint(x.t))
	}},
	{"Cmp", func(it *Interp, c *callCtx) []Outcome {
		return it.cmp3(c, c.args[0], c.args[1])
	}},
	{"CmpShift", func(it *Interp, c *callCtx) []Outcome {
		t := c.args[0].t | c.args[1].t | c.args[2].t
		return ret(c.st, c.st.intVal(mkSet([]I{i64(-1), i64(0), i64(1)}), nil).withTaint(t))
	}},
	{"CmpBits", func(it *Interp, c *callCtx) []Outcome {
		x, y := c.args[0], c.args[1]
		n := mkSet([]I{i64(-1), i64(0), i64(1)})
		if x.e != nil && x.e == y.e {
			n = mkConst(i64(0))
		}
		return ret(c.st, c.st.intVal(n, nil).withTaint(x.t|y.t))
	}},
}

func (it *Interp) cmp3(c *callCtx, a, b *Val) []Outcome {
	st := c.st
	ea, eb := orAtom(it, st, a), orAtom(it, st, b)
	na, nb := st.num(a), st.num(b)
	xs := []I{}
	if !na.isBot() && !nb.isBot() {
		if v, ok := st.truth(it.x.mk("<", ea, eb, I{}, "")); !ok || v {
			xs = append(xs, i64(-1))
		}
		if v, ok := st.truth(st.eqExpr(ea, eb)); !ok || v {
			xs = append(xs, i64(0))
		}
		if v, ok := st.truth(it.x.mk("<", eb, ea, I{}, "")); !ok || v {
			xs = append(xs, i64(1))
		}
	}
	if len(xs) == 0 {
		xs = []I{i64(-1), i64(0), i64(1)}
	}
	return ret(st, st.intVal(mkSet(xs), it.x.mk("sgn3", ea, eb, I{}, "")).withTaint(a.t|b.t))
}

// powObj is the object standing for every entry of the table of powers of ten.
func (it *Interp) powObj() int {
	if it.pow == 0 {
		o := it.newObj(bigIntT, "a cached power of ten", OwnShared)
		o.summary = true
		it.pow = o.id
		s := it.initCells(o, func(l Leaf, i int) *Val {
			return &Val{k: KBig, sign: 4, e: it.x.newAtom(), p: []Ptr{{it.backing(Ptr{o.id, 0}), 0}}}
		})
		it.base[o.id] = s
	}
	return it.pow
}

// useContracts installs the contracts whose functions exist.
func (it *Interp) useContracts(skip map[string]bool) {
	it.models = map[*ssa.Function]*contract{}
	for i := range contracts {
		c := &contracts[i]
		if fn := it.P.Func(modPath+"/internal/arith", c.name); fn != nil && !skip[c.name] {
			it.models[fn] = c
		}
	}
	it.powObj()
}

func x64() types.Type { return types.Typ[types.Uint64] }
