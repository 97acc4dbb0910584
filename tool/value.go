package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KInt Kind = iota
	KPtr
	KSlice
	KStruct
	KTuple
	KFunc
	KIface
	KBig    // an opaque math/big number (or other atomic struct)
	KStr    // string
	KOpaque // anything else (floats, maps, chans, ...)
)

// Role says through which parameter a pointer was obtained.
type Role uint8

const (
	RNone   Role = 0
	RRes    Role = 1 // result (receiver) z
	RRes2   Role = 2 // second result
	ROp     Role = 8 // operand i is ROp+i
	RShared Role = 32
)

type Ptr struct {
	obj int
	off int
}

type FuncRef struct {
	fn    *ssa.Function
	binds []*Val
}

// Taint bits.
type Taint uint16

const (
	TOld    Taint = 1 << iota // derived from the receiver's previous value
	TZCtx                     // derived from the receiver's own Context
	TXCtx                     // derived from an operand's Context
	TPool                     // stale content of a pooled decimal
	TOldExp                   // exponent of a special value
)

type Val struct {
	k    Kind
	n    Num
	e    *Expr
	t    Taint
	p    []Ptr // pointer targets, or the backing of a slice
	null bool  // may be nil
	unk  bool  // may also point to, or hold, something unknown
	role Role
	fs   []*Val // struct leaves or tuple elements
	fn   []FuncRef
	dyn  types.Type // dynamic type of an interface (nil: unknown)
	in   *Val       // interface content
	sign uint8      // KBig: 1 neg, 2 zero, 4 pos
	str  *string    // KStr: constant
	ln   *Val       // KSlice: length
}

func intV(n Num, e *Expr) *Val { return &Val{k: KInt, n: n, e: e} }
func constV(x I) *Val          { return intV(mkConst(x), nil) }
func boolV(b bool) *Val {
	if b {
		return constV(i64(1))
	}
	return constV(i64(0))
}
func strV(s string) *Val { return &Val{k: KStr, str: &s} }
func ptrV(role Role, ps ...Ptr) *Val {
	return &Val{k: KPtr, p: ps, role: role}
}
func nilPtr() *Val { return &Val{k: KPtr, null: true} }

func (v *Val) withTaint(t Taint) *Val {
	if t == 0 || v == nil || v.t&t == t {
		return v
	}
	w := *v
	w.t |= t
	return &w
}
func (v *Val) clearTaint() *Val {
	if v == nil || v.t == 0 {
		return v
	}
	w := *v
	w.t = 0
	return &w
}

func (v *Val) String() string {
	if v == nil {
		return "<bot>"
	}
	s := ""
	switch v.k {
	case KInt:
		s = v.n.String()
		if v.e != nil && v.e.op != "const" {
			s += "=" + v.e.String()
		}
	case KPtr:
		s = fmt.Sprintf("&%v", v.p)
		if v.null {
			s += "?"
		}
	case KSlice:
		s = fmt.Sprintf("slice%v", v.p)
	case KStruct, KTuple:
		var xs []string
		for _, f := range v.fs {
			xs = append(xs, f.String())
		}
		s = "{" + strings.Join(xs, " ") + "}"
	case KIface:
		s = fmt.Sprintf("iface(%v,%v,nil=%v)", v.dyn, v.in, v.null)
	case KBig:
		s = fmt.Sprintf("big%v sign=%d", v.p, v.sign)
	case KStr:
		if v.str != nil {
			s = fmt.Sprintf("%q", *v.str)
		} else {
			s = "str"
		}
	case KFunc:
		s = "func"
	default:
		s = "opaque"
	}
	if v.t != 0 {
		s += fmt.Sprintf("!%x", v.t)
	}
	return s
}

func samePtrs(a, b []Ptr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func joinPtrs(a, b []Ptr) []Ptr {
	if samePtrs(a, b) {
		return a
	}
	m := map[Ptr]bool{}
	var r []Ptr
	for _, x := range a {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	for _, x := range b {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].obj != r[j].obj {
			return r[i].obj < r[j].obj
		}
		return r[i].off < r[j].off
	})
	return r
}

func sameFn(a, b []FuncRef) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].fn != b[i].fn || len(a[i].binds) != len(b[i].binds) {
			return false
		}
		for j := range a[i].binds {
			if !eqVal(a[i].binds[j], b[i].binds[j]) {
				return false
			}
		}
	}
	return true
}

func eqVal(a, b *Val) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.k != b.k || a.t != b.t || a.role != b.role {
		return false
	}
	switch a.k {
	case KInt:
		if !a.n.eq(b.n) || a.in != b.in {
			return false
		}
		_, c := a.n.isConst()
		return c || a.e == b.e
	case KPtr:
		return a.null == b.null && a.unk == b.unk && a.e == b.e && samePtrs(a.p, b.p)
	case KSlice:
		return a.null == b.null && a.unk == b.unk && a.sign == b.sign && samePtrs(a.p, b.p) && eqVal(a.ln, b.ln) && a.e == b.e && a.n.eq(b.n)
	case KStruct, KTuple:
		if len(a.fs) != len(b.fs) {
			return false
		}
		for i := range a.fs {
			if !eqVal(a.fs[i], b.fs[i]) {
				return false
			}
		}
		return true
	case KFunc:
		return a.null == b.null && sameFn(a.fn, b.fn)
	case KIface:
		return a.null == b.null && a.unk == b.unk && a.e == b.e && (a.dyn == b.dyn || a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn)) && eqVal(a.in, b.in)
	case KBig:
		return samePtrs(a.p, b.p) && a.sign == b.sign && a.e == b.e && a.n.eq(b.n)
	case KStr:
		if a.e != b.e || !eqVal(a.ln, b.ln) || len(a.fs) != len(b.fs) {
			return false
		}
		for i := range a.fs {
			if !eqVal(a.fs[i], b.fs[i]) {
				return false
			}
		}
		return (a.str == nil) == (b.str == nil) && (a.str == nil || *a.str == *b.str)
	}
	return a.e == b.e
}

// joiner joins values at one join point.
type joiner struct {
	x     *ExprTab
	pt    int64
	widen bool
}

func (j *joiner) expr(x, y, own *Expr) *Expr {
	if x == y && x != nil && (x == own || !x.stale(j.pt)) {
		return x
	}
	return own
}

// at joins a and b, whose join is named by idx.
func (j *joiner) at(a, b *Val, idx uint64) *Val {
	if a == b && a != nil {
		switch a.k {
		case KInt, KPtr, KBig:
			if !a.e.stale(j.pt) {
				return a
			}
		}
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.k == KInt && b.k == KInt && a.e == b.e && !a.e.stale(j.pt) && a.t == b.t && a.role == b.role {
		if a.n.eq(b.n) {
			return a
		}
		if a.e != nil {
			return j.val(a, b, nil)
		}
	}
	return j.val(a, b, j.x.join(j.pt, idx))
}

func (j *joiner) staleObj(o *ObjSt) bool {
	for _, c := range o.cells {
		if j.staleVal2(c) {
			return true
		}
	}
	return false
}

// staleVal2 is staleVal for a value whose own name is not known.
func (j *joiner) staleVal2(v *Val) bool {
	if v == nil {
		return false
	}
	if v.e.stale(j.pt) {
		return true
	}
	for _, f := range v.fs {
		if j.staleVal2(f) {
			return true
		}
	}
	for _, f := range v.fn {
		for _, b := range f.binds {
			if j.staleVal2(b) {
				return true
			}
		}
	}
	return j.staleVal2(v.ln) || j.staleVal2(v.in)
}

// val joins a and b; own names the result when they differ.
func (j *joiner) val(a, b *Val, own *Expr) *Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a == b && !j.staleVal(a, own) {
		return a
	}
	if a.k != b.k {
		return &Val{k: KOpaque, t: a.t | b.t}
	}
	r := *a
	r.t |= b.t
	if a.role != b.role {
		// Keep the operand role, if any: it is the one that is checked.
		r.role = RNone
		if a.role >= ROp {
			r.role = a.role
		} else if b.role >= ROp {
			r.role = b.role
		}
	}
	switch a.k {
	case KInt:
		r.n = a.n.join(b.n)
		if a.in != b.in {
			r.in = nil
		}
		if j.widen && !r.n.eq(a.n) {
			r.n = widenNum(a.n, r.n)
		}
		if c, ok := r.n.isConst(); ok {
			r.e = j.x.konst(c)
		} else {
			r.e = j.expr(a.e, b.e, own)
		}
	case KPtr:
		r.p = joinPtrs(a.p, b.p)
		r.null = a.null || b.null
		r.unk = a.unk || b.unk
		r.e = j.expr(a.e, b.e, own)
	case KSlice:
		r.p = joinPtrs(a.p, b.p)
		r.null = a.null || b.null
		r.unk = a.unk || b.unk
		r.ln = j.val(a.ln, b.ln, j.x.sub(own, 0))
		r.sign |= b.sign
		r.e = j.expr(a.e, b.e, own)
		r.n = magJoin(a.n, b.n, j.widen)
	case KStruct, KTuple:
		if len(a.fs) != len(b.fs) {
			return &Val{k: KOpaque, t: r.t}
		}
		r.fs = make([]*Val, len(a.fs))
		for i := range a.fs {
			r.fs[i] = j.val(a.fs[i], b.fs[i], j.x.sub(own, i))
		}
	case KFunc:
		r.null = a.null || b.null
		if !sameFn(a.fn, b.fn) {
			out := append([]FuncRef{}, a.fn...)
		outer:
			for _, f := range b.fn {
				for i, g := range out {
					if g.fn == f.fn && len(g.binds) == len(f.binds) {
						nb := make([]*Val, len(g.binds))
						for k := range nb {
							nb[k] = j.val(g.binds[k], f.binds[k], j.x.sub(own, k))
						}
						out[i] = FuncRef{g.fn, nb}
						continue outer
					}
				}
				out = append(out, f)
			}
			r.fn = out
		}
	case KIface:
		r.null = a.null || b.null
		r.e = j.expr(a.e, b.e, own)
		switch {
		case a.in == nil && a.null && a.dyn == nil && !a.unk:
			r.dyn, r.in, r.unk = b.dyn, b.in, b.unk
		case b.in == nil && b.null && b.dyn == nil && !b.unk:
		case a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn):
			r.in = j.val(a.in, b.in, j.x.sub(own, 0))
		default:
			r.dyn, r.in, r.unk = nil, nil, true
		}
	case KBig:
		r.p = joinPtrs(a.p, b.p)
		r.sign |= b.sign
		r.n = magJoin(a.n, b.n, j.widen)
		r.e = j.expr(a.e, b.e, own)
	case KStr:
		if a.str == nil || b.str == nil || *a.str != *b.str {
			r.str = nil
		}
		r.fs = nil
		r.e = j.expr(a.e, b.e, own)
		if a.ln != nil && b.ln != nil {
			r.ln = j.val(a.ln, b.ln, j.x.sub(own, 0))
		} else {
			r.ln = nil
		}
	default:
		r.e = j.expr(a.e, b.e, own)
	}
	if eqVal(&r, a) {
		return a
	}
	return &r
}

func (j *joiner) staleVal(v *Val, own *Expr) bool {
	if v == nil || j.pt == 0 {
		return false
	}
	if v.e != own && v.e.stale(j.pt) {
		return true
	}
	if v.ln != nil && j.staleVal(v.ln, j.x.sub(own, 0)) {
		return true
	}
	for i, f := range v.fs {
		if j.staleVal(f, j.x.sub(own, i)) {
			return true
		}
	}
	if v.in != nil && j.staleVal(v.in, j.x.sub(own, 0)) {
		return true
	}
	for _, f := range v.fn {
		for i, b := range f.binds {
			if j.staleVal(b, j.x.sub(own, i)) {
				return true
			}
		}
	}
	return false
}

var widenSteps = []I{i64(-1 << 63), i64(-1 << 31), i64(-1), i64(0), i64(1), i64(255), i64(1<<31 - 1), i64(1<<63 - 1), u64(^uint64(0))}

func widenNum(old, nw Num) Num {
	if nw.set != nil && len(nw.set) <= 6 {
		return nw
	}
	lo, hi := nw.lo, nw.hi
	for i := len(widenSteps) - 1; i >= 0; i-- {
		if widenSteps[i].cmp(lo) <= 0 {
			lo = widenSteps[i]
			break
		}
	}
	for i := range widenSteps {
		if widenSteps[i].cmp(hi) >= 0 {
			hi = widenSteps[i]
			break
		}
	}
	r := Num{lo: lo, hi: hi, k0: nw.k0, k1: nw.k1}
	return r
}
