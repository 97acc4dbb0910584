package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Condition bits, as documented by the package (checked against the source by
// the consistency rules).
const (
	cClamped uint64 = 1 << iota
	cConversionSyntax
	cDivisionByZero
	cDivisionImpossible
	cDivisionUndefined
	cInexact
	cInsufficientStorage
	cInvalidContext
	cInvalidOperation
	cOverflow
	cRounded
	cSubnormal
	cUnderflow
)

var condNames = []string{"Clamped", "ConversionSyntax", "DivisionByZero", "DivisionImpossible", "DivisionUndefined",
	"Inexact", "InsufficientStorage", "InvalidContext", "InvalidOperation", "Overflow", "Rounded", "Subnormal", "Underflow"}

func condString(c uint64) string {
	var s []string
	for i, n := range condNames {
		if c&(1<<uint(i)) != 0 {
			s = append(s, n)
			c &^= 1 << uint(i)
		}
	}
	if c != 0 {
		s = append(s, fmt.Sprintf("%#x", c))
	}
	if len(s) == 0 {
		return "none"
	}
	return strings.Join(s, "|")
}

// Operand classes.
const (
	clsPosZero = iota
	clsNegZero
	clsPosC
	clsNegC
	clsPosI
	clsNegI
	clsPosInf
	clsNegInf
	clsPosQ
	clsNegQ
	clsPosS
	clsNegS
	numCls
)

var clsName = []string{"+0", "-0", "+c", "-c", "+i", "-i", "+Inf", "-Inf", "+NaN", "-NaN", "+sNaN", "-sNaN"}

func clsNeg(c int) bool    { return c&1 != 0 }
func clsZero(c int) bool   { return c <= clsNegZero }
func clsFinite(c int) bool { return c <= clsNegI }
func clsInf(c int) bool    { return c == clsPosInf || c == clsNegInf }
func clsNaN(c int) bool    { return c >= clsPosQ }
func clsSNaN(c int) bool   { return c >= clsPosS }

const maxScale = 999999999999999999

var (
	maxU64 = u64(^uint64(0))
	expNum = mkRange(i64(-4*maxScale), i64(4*maxScale))
)

// CtxSpec says what is assumed of a Context.
type CtxSpec struct {
	prec   Num
	omode  Num
	rmode  Num
	maxS   Num
	minS   Num
	traps  Num
	conds  Num
	taint  Taint
	prefix string
}

func anyCtx(omode Num) CtxSpec {
	return CtxSpec{
		prec: mkRange(i64(0), i64(maxScale+1)), omode: omode, rmode: mkRange(i64(0), i64(6)),
		maxS: mkRange(i64(0), i64(maxScale)), minS: mkRange(i64(-maxScale), i64(0)),
		traps: topNum(types.Typ[types.Uint32]), conds: mkConst(i64(0)),
	}
}

// Setup is the state an entry point is started in.
type Setup struct {
	it  *Interp
	st  *State
	z   int
	ops []int
}

func (it *Interp) named(st *State, nm string, n Num, t Taint) *Val {
	return st.intVal(n, it.x.named(nm)).withTaint(t)
}

func (it *Interp) ctxLeaves(st *State, c CtxSpec, cells []*Val) {
	b := it.bl
	cells[b.maxScale] = it.named(st, c.prefix+"MaxScale", c.maxS, c.taint)
	cells[b.minScale] = it.named(st, c.prefix+"MinScale", c.minS, c.taint)
	cells[b.prec] = it.named(st, c.prefix+"Precision", c.prec, c.taint)
	cells[b.traps] = it.named(st, c.prefix+"Traps", c.traps, c.taint)
	cells[b.conds] = it.named(st, c.prefix+"Conditions", c.conds, 0)
	cells[b.rmode] = it.named(st, c.prefix+"RoundingMode", c.rmode, c.taint)
	cells[b.omode] = it.named(st, c.prefix+"OperatingMode", c.omode, 0)
}

// ctxVal makes a Context value.
func (it *Interp) ctxVal(st *State, c CtxSpec) *Val {
	cells := make([]*Val, it.bl.n)
	it.ctxLeaves(st, c, cells)
	n := len(it.lay.of(it.P.ctxType))
	v := &Val{k: KStruct, fs: make([]*Val, n)}
	copy(v.fs, cells[:n])
	return v
}

// newBig creates a decimal of the given class; cls < 0 means any value.
func (it *Interp) newBig(st *State, nm string, owner Owner, cls int, c CtxSpec, taint Taint) int {
	o := it.newObj(it.P.bigType, nm, owner)
	b := it.bl
	s := it.initCells(o, func(l Leaf, i int) *Val { return it.zero(l.typ) })
	st.heap.set(o.id, s)
	it.ctxLeaves(st, c, s.cells)
	back := []Ptr{{it.backing(Ptr{o.id, b.unscaled}), 0}}
	bigV := func(sign uint8) *Val {
		return &Val{k: KBig, sign: sign, p: back, e: it.x.named(nm + ".unscaled"), t: taint}
	}
	form, compact, prec, sign := mkSet([]I{i64(0), i64(1), i64(2), i64(3), i64(4), i64(5), i64(8), i64(9)}), topNum(types.Typ[types.Uint64]), mkRange(i64(0), i64(1<<40)), uint8(7)
	if cls >= 0 {
		neg := int64(0)
		if clsNeg(cls) {
			neg = 1
		}
		switch {
		case clsZero(cls):
			form, compact, prec, sign = mkConst(i64(neg)), mkConst(i64(0)), mkConst(i64(1)), 7
		case cls <= clsNegC:
			form, compact, prec = mkConst(i64(neg)), mkRange(i64(1), maxU64.sub(i64(1))), mkRange(i64(1), i64(20))
		case cls <= clsNegI:
			form, compact, prec, sign = mkConst(i64(neg)), mkConst(maxU64), mkRange(i64(20), i64(1<<40)), 4
		case clsInf(cls):
			form = mkConst(i64(2 | neg))
		case cls <= clsNegQ:
			form = mkConst(i64(8 | neg))
		default:
			form = mkConst(i64(4 | neg))
		}
	}
	s.cells[b.unscaled] = bigV(sign)
	s.cells[b.compact] = it.named(st, nm+".compact", compact, taint)
	e := it.named(st, nm+".exp", expNum, taint)
	if cls >= 0 && !clsFinite(cls) {
		e = e.withTaint(TOldExp)
	}
	s.cells[b.exp] = e
	s.cells[b.precision] = it.named(st, nm+".precision", prec, taint)
	s.cells[b.form] = it.named(st, nm+".form", form, taint)
	return o.id
}

func (it *Interp) newState() *State {
	return &State{x: it.x, uid: it.x.newUID(), base: it.base}
}

// decimalOf describes the decimal object id in st.
func (it *Interp) decStr(st *State, id int) string {
	s := st.obj(id)
	f := st.norm(s.cells[it.bl.form]).n
	c := st.norm(s.cells[it.bl.compact]).n
	var fs []string
	if f.set != nil {
		for _, x := range f.set {
			fs = append(fs, formName(x.l))
		}
	} else {
		fs = []string{f.String()}
	}
	cs := c.String()
	if c.eq(mkConst(maxU64)) {
		cs = "inflated"
	}
	return fmt.Sprintf("%s compact=%s conds=%s", strings.Join(fs, ","), cs, condNum(st.norm(s.cells[it.bl.conds]).n))
}

func condNum(n Num) string {
	if n.set != nil {
		var s []string
		for _, x := range n.set {
			s = append(s, condString(x.l))
		}
		return "{" + strings.Join(s, ", ") + "}"
	}
	return fmt.Sprintf("must %s may %s", condString(n.k1&0x1fff), condString(^n.k0&0x1fff))
}

func formName(f uint64) string {
	s := "+"
	if f&1 != 0 {
		s = "-"
	}
	switch f &^ 1 {
	case 0:
		return s + "fin"
	case 2:
		return s + "Inf"
	case 4:
		return s + "sNaN"
	case 8:
		return s + "NaN"
	}
	return fmt.Sprintf("form(%d)", f)
}

// enter calls fn as the first frame.
func (it *Interp) enter(st *State, fn *ssa.Function, args []*Val) []Outcome {
	it.entryArgs = args
	return it.callFn(st, fn, args, nil, it.ctxOf(&activation{}, nil, fn), 0)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
