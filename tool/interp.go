package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var setBigL sync.Once

// Interp is one abstract interpretation of the program.
type Interp struct {
	P           *Prog
	x           *ExprTab
	lay         *layouts
	objs        []*Obj
	base        map[int]*ObjSt
	globals     map[*ssa.Global]int
	allocs      map[allocKey]int
	ctxs        map[ctxKey]int
	backs       map[Ptr]int
	point       int64
	steps       int
	limit       int
	stack       []*activation
	mags        bool // intervals of big numbers are computed
	pows        map[int64]int
	splitLocals bool // the classes of temporary decimals partition the states, too
	locals      []int
	tracked     []int // decimals whose class partitions the states

	hooks     Hooks
	memo      map[string]*memoEntry
	memoID    int
	memoMiss  map[*ssa.Function]int
	memoHit   map[*ssa.Function]int
	memoable  func(act *activation, fn *ssa.Function) bool
	undec     map[string]bool // reasons why the analysis is incomplete
	fnSeen    map[*ssa.Function]int
	bl        bigLayout
	initing   bool
	entryArgs []*Val
	bndCap    int // states per block before the partition is coarsened
	trackCond bool
	retCoarse func(act *activation) bool
	readByte  func(it *Interp, c *callCtx) []Outcome
	text      bool // bytes of strings are known one by one
	state     func(c *callCtx, method string) []Outcome
	retKey    func(st *State) string
	fnHook    map[*ssa.Function]func(it *Interp, c *callCtx) ([]Outcome, bool)
	prof      map[*ssa.Function]int
	models    map[*ssa.Function]*contract
	pow       int
	formOnly  bool // partition by form alone
	unroll    bool // follow every path separately (package initialisation)
	unrollN   int
	words     bool // slices of words of known length (words.go)
	cold      *coldState
	coldRun   bool
	onceDone  map[Ptr]bool // lazily computed values already computed
}

type allocKey struct {
	ctx int
	ins ssa.Instruction
	sub int
}
type ctxKey struct {
	ctx int
	ins ssa.Instruction
	fn  *ssa.Function
}

// Hooks are called by the interpreter; rules are written with them.
type Hooks struct {
	load   func(st *State, ptr *Val, p Ptr, v *Val, pos token.Pos)
	store  func(st *State, ptr *Val, p Ptr, old, v *Val, pos token.Pos)
	branch func(st *State, cond *Val, pos token.Pos)
	call   func(st *State, fn *ssa.Function, args []*Val, pos token.Pos)
	mutate func(st *State, recv *Val, back int, pos token.Pos) // digits written in place
	conv   func(st *State, ins *ssa.Convert, n Num)
	binop  func(st *State, ins *ssa.BinOp, a, b *Val, r Num, wrap bool)
	use    func(st *State, p Ptr, what string, pos token.Pos)
	deflt  func(fn *ssa.Function)
}

type bigLayout struct {
	n                                       int
	maxScale, minScale, prec, traps, conds  int
	rmode, omode                            int
	unscaled, compact, exp, precision, form int
}

type activation struct {
	fn    *ssa.Function
	info  *fnInfo
	ctx   int
	pt0   int64
	depth int
	slots []map[string]*slot
	outs  []Outcome
	heavy bool
}

type slot struct {
	st    *State
	pend  bool
	joins int
}

// Outcome is one abstract way a call ends.
type Outcome struct {
	st  *State
	ret *Val
	pan string // non-empty: the call panics
	pv  *Val
}

func NewInterp(p *Prog) *Interp {
	it := &Interp{P: p, x: newExprTab(), lay: &layouts{repo: modPath, m: map[types.Type][]Leaf{}},
		objs: []*Obj{{id: 0, name: "nil"}}, base: map[int]*ObjSt{}, globals: map[*ssa.Global]int{},
		allocs: map[allocKey]int{}, ctxs: map[ctxKey]int{}, backs: map[Ptr]int{}, limit: 50_000_000,
		undec: map[string]bool{}, fnSeen: map[*ssa.Function]int{}, bndCap: 40,
		memo: map[string]*memoEntry{}, memoMiss: map[*ssa.Function]int{}, memoHit: map[*ssa.Function]int{}}
	ls := it.lay.of(p.bigType)
	it.bl.n = len(ls)
	for i, l := range ls {
		switch l.path {
		case "Context.MaxScale":
			it.bl.maxScale = i
		case "Context.MinScale":
			it.bl.minScale = i
		case "Context.Precision":
			it.bl.prec = i
		case "Context.Traps":
			it.bl.traps = i
		case "Context.Conditions":
			it.bl.conds = i
		case "Context.RoundingMode":
			it.bl.rmode = i
		case "Context.OperatingMode":
			it.bl.omode = i
		case "unscaled":
			it.bl.unscaled = i
		case "compact":
			it.bl.compact = i
		case "exp":
			it.bl.exp = i
		case "precision":
			it.bl.precision = i
		case "form":
			it.bl.form = i
		}
	}
	setBigL.Do(func() { bigL = it.bl })
	return it
}

// fork returns an interpreter that shares the initialised heap of it.
func (it *Interp) fork() *Interp {
	n := NewInterp(it.P)
	n.objs = append([]*Obj{}, it.objs...)
	for k, v := range it.base {
		n.base[k] = v
	}
	for k, v := range it.globals {
		n.globals[k] = v
	}
	n.backs = map[Ptr]int{}
	for k, v := range it.backs {
		n.backs[k] = v
	}
	n.allocs = map[allocKey]int{}
	for k, v := range it.allocs {
		n.allocs[k] = v
	}
	for k, v := range it.ctxs {
		n.ctxs[k] = v
	}
	n.models, n.pow, n.onceDone, n.cold = it.models, it.pow, it.onceDone, it.cold
	return n
}

func (it *Interp) undecided(format string, args ...interface{}) {
	it.undec[fmt.Sprintf(format, args...)] = true
}

func (it *Interp) newObj(t types.Type, name string, owner Owner) *Obj {
	o := &Obj{id: len(it.objs), typ: t, name: name, owner: owner}
	if a, ok := t.Underlying().(*types.Array); ok && (a.Len() <= 64 || it.words && a.Len() <= 1024) && (len(it.lay.of(a.Elem()))*int(a.Len()) <= 256 || it.words) && !it.lay.atomic(t) {
		el := it.lay.of(a.Elem())
		o.elem = len(el)
		for i := 0; i < int(a.Len()); i++ {
			for _, l := range el {
				l.path = fmt.Sprintf("[%d]%s", i, l.path)
				o.leaves = append(o.leaves, l)
			}
		}
	} else {
		o.leaves = it.lay.of(t)
	}
	o.isBig = types.Identical(t, it.P.bigType)
	if o.isBig && owner == OwnLocal && it.splitLocals {
		it.locals = append(it.locals, o.id)
	}
	it.objs = append(it.objs, o)
	return o
}

// backing returns the object standing for the digits owned by the big.Int at p.
func (it *Interp) backing(p Ptr) int {
	if b, ok := it.backs[p]; ok {
		return b
	}
	o := it.objs[p.obj]
	b := &Obj{id: len(it.objs), typ: types.Typ[types.Uint], leaves: []Leaf{{typ: types.Typ[types.Uint], arr: true}},
		summary: true, owner: o.owner, opnd: o.opnd, name: "digits of " + o.name, backOf: p.obj}
	it.objs = append(it.objs, b)
	it.backs[p] = b.id
	return b.id
}

func (it *Interp) initCells(o *Obj, f func(l Leaf, i int) *Val) *ObjSt {
	st := &ObjSt{cells: make([]*Val, len(o.leaves)), w: make([]Role, len(o.leaves))}
	for i, l := range o.leaves {
		st.cells[i] = f(l, i)
	}
	return st
}

// ---- values ----------------------------------------------------------------

func (it *Interp) zero(t types.Type) *Val {
	if isBigNum(t) {
		return &Val{k: KBig, sign: 2}
	}
	if it.lay.atomic(t) {
		return &Val{k: KOpaque}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strV("")
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return constV(i64(0))
		case u.Kind() == types.UnsafePointer:
			return nilPtr()
		}
		return &Val{k: KOpaque, str: fstr(0)}
	case *types.Pointer:
		return nilPtr()
	case *types.Slice:
		return &Val{k: KSlice, null: true, ln: constV(i64(0))}
	case *types.Signature:
		return &Val{k: KFunc, null: true}
	case *types.Interface:
		return &Val{k: KIface, null: true}
	case *types.Struct, *types.Array:
		ls := it.lay.of(t)
		v := &Val{k: KStruct}
		for _, l := range ls {
			v.fs = append(v.fs, it.zero(l.typ))
		}
		return v
	case *types.Tuple:
		v := &Val{k: KTuple}
		for i := 0; i < u.Len(); i++ {
			v.fs = append(v.fs, it.zero(u.At(i).Type()))
		}
		return v
	}
	return &Val{k: KOpaque, null: true}
}

func fstr(f float64) *string {
	s := fmt.Sprint(f)
	return &s
}

// unknown returns an arbitrary value of type t.
func (it *Interp) unknown(st *State, t types.Type) *Val {
	if isBigNum(t) {
		return &Val{k: KBig, sign: 7, e: it.x.newAtom()}
	}
	if it.lay.atomic(t) {
		return &Val{k: KOpaque}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &Val{k: KStr, e: it.x.newAtom()}
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return st.intVal(topNum(t), it.x.newAtom())
		}
		return &Val{k: KOpaque, e: it.x.newAtom()}
	case *types.Pointer:
		return &Val{k: KPtr, null: true, unk: true, e: it.x.newAtom()}
	case *types.Slice:
		return &Val{k: KSlice, null: true, unk: true, e: it.x.newAtom(), sign: 6,
			ln: st.intVal(mkRange(i64(0), i64(1<<62)), it.x.newAtom())}
	case *types.Signature:
		return &Val{k: KOpaque, null: true, unk: true}
	case *types.Interface:
		return &Val{k: KIface, null: true, unk: true, e: it.x.newAtom()}
	case *types.Struct, *types.Array:
		v := &Val{k: KStruct}
		for _, l := range it.lay.of(t) {
			v.fs = append(v.fs, it.unknown(st, l.typ))
		}
		return v
	case *types.Tuple:
		v := &Val{k: KTuple}
		for i := 0; i < u.Len(); i++ {
			v.fs = append(v.fs, it.unknown(st, u.At(i).Type()))
		}
		return v
	}
	return &Val{k: KOpaque, null: true, unk: true}
}

func (it *Interp) constVal(c *ssa.Const) *Val {
	if c.Value == nil {
		return it.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolV(constant.BoolVal(c.Value))
	case constant.String:
		return strV(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		cv := c.Value
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			cv = constant.ToInt(cv)
		}
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			i, ok := constant.Val(cv).(*big.Int)
			if !ok {
				v, _ := constant.Int64Val(cv)
				i = big.NewInt(v)
			}
			return constV(fromBig(i))
		}
	}
	f, _ := constant.Float64Val(constant.ToFloat(c.Value))
	return &Val{k: KOpaque, str: fstr(f)}
}

func (it *Interp) globalObj(g *ssa.Global) int {
	if id, ok := it.globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	nm := g.Name()
	if g.Pkg != nil {
		nm = g.Pkg.Pkg.Name() + "." + nm
	}
	o := it.newObj(t, nm, OwnShared)
	it.globals[g] = o.id
	inRepo := g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
	it.base[o.id] = it.initCells(o, func(l Leaf, i int) *Val {
		if inRepo {
			return it.zero(l.typ)
		}
		if _, ok := l.typ.Underlying().(*types.Interface); ok && strings.HasPrefix(g.Name(), "E") {
			// a sentinel error
			return &Val{k: KIface, unk: true, e: it.x.named(g.String())}
		}
		return it.unknown(&State{x: it.x, uid: it.x.newUID()}, l.typ)
	})
	return o.id
}

func (it *Interp) val(act *activation, st *State, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return it.constVal(v)
	case *ssa.Global:
		return ptrV(RNone, Ptr{it.globalObj(v), 0})
	case *ssa.Function:
		return &Val{k: KFunc, fn: []FuncRef{{fn: v}}}
	case *ssa.Builtin:
		return &Val{k: KFunc}
	}
	i, ok := act.info.idx[v]
	if !ok {
		return &Val{k: KOpaque}
	}
	r := st.top()[i]
	if r == nil {
		// Not reached in a well-formed function; be safe.
		return it.unknown(st, v.Type())
	}
	return r
}

// ---- memory ----------------------------------------------------------------

func (it *Interp) strong(st *State, ps []Ptr, i int) bool {
	if len(ps) != 1 {
		return false
	}
	o := it.objs[ps[0].obj]
	s := st.obj(o.id)
	return s != nil && !s.weak && !o.summary && !o.leaves[i].arr
}

// leafVal assembles a value of type t from leaves.
func (it *Interp) isAgg(t types.Type) bool {
	if it.lay.atomic(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// wholeArray returns the number of leaves if ptr points to arrays of type t
// whose elements are distinguished.
func (it *Interp) wholeArray(t types.Type, ptr *Val) int {
	if _, ok := t.Underlying().(*types.Array); !ok || it.lay.atomic(t) {
		return 0
	}
	n := 0
	for i, p := range ptr.p {
		o := it.objs[p.obj]
		if o.elem == 0 || p.off != 0 || i > 0 && len(o.leaves) != n {
			return 0
		}
		n = len(o.leaves)
	}
	return n
}

func (it *Interp) load(st *State, ptr *Val, t types.Type, pos token.Pos) *Val {
	n := len(it.lay.of(t))
	agg := it.isAgg(t)
	if ptr.k != KPtr || len(ptr.p) == 0 {
		return it.unknown(st, t)
	}
	if m := it.wholeArray(t, ptr); m > n {
		n = m
	} else if _, ok := t.Underlying().(*types.Array); ok && m == 0 {
		for _, p := range ptr.p {
			if it.objs[p.obj].elem != 0 {
				return it.unknown(st, t)
			}
		}
	}
	var res []*Val
	jn := &joiner{x: it.x}
	for pi, p := range ptr.p {
		o := it.objs[p.obj]
		s := st.obj(p.obj)
		if s == nil || p.off+n > len(o.leaves) {
			u := it.unknown(st, t)
			if u.k != KStruct {
				u = &Val{k: KStruct, fs: []*Val{u}}
			}
			if pi == 0 {
				res = u.fs
			} else {
				for i := range res {
					res[i] = jn.val(res[i], u.fs[i], it.x.newAtom())
				}
			}
			continue
		}
		if it.hooks.use != nil {
			it.hooks.use(st, p, "read", pos)
		}
		for i := 0; i < n; i++ {
			c := s.cells[p.off+i]
			c = st.norm(c)
			if c.k == KInt && c.in != nil {
				w := *c
				w.in = nil
				c = &w
			}
			if (c.k == KInt || c.k == KBig || c.k == KStr) && c.e == nil {
				_, isC := c.n.isConst()
				if c.k != KInt || !isC {
					w := *c
					w.e = it.x.newAtom()
					c = &w
					if c.k == KInt {
						st.facts.set(w.e, w.n)
					}
					if it.strong(st, ptr.p, p.off+i) {
						s = st.objW(p.obj)
						s.cells[p.off+i] = c
					}
				}
			}
			if it.objs[p.obj].leaves[p.off+i].arr || o.summary || s.weak {
				// different elements are different values
				if c.e != nil {
					w := *c
					w.e = it.x.newAtom()
					c = &w
					if c.k == KInt {
						st.facts.set(w.e, w.n)
					}
				}
			}
			if it.hooks.load != nil {
				it.hooks.load(st, ptr, Ptr{p.obj, p.off + i}, c, pos)
			}
			if pi == 0 {
				res = append(res, c)
			} else {
				res[i] = jn.val(res[i], c, it.x.newAtom())
			}
		}
	}
	if len(ptr.p) > 1 {
		for _, c := range res {
			st.noteAny(c)
		}
	}
	if agg {
		return &Val{k: KStruct, fs: res}
	}
	if len(res) == 0 {
		return it.unknown(st, t)
	}
	return res[0]
}

func (s *State) noteAny(v *Val) {
	if v.k == KInt && v.e != nil && v.e.op == "atom" {
		if _, ok := s.facts.get(v.e); !ok {
			s.facts.set(v.e, v.n)
		}
	}
}

func (it *Interp) store(st *State, ptr *Val, v *Val, t types.Type, pos token.Pos) {
	n := len(it.lay.of(t))
	fs := []*Val{v}
	if m := it.wholeArray(t, ptr); m > n {
		n = m
	}
	if it.isAgg(t) {
		if v.k != KStruct || len(v.fs) != n {
			u := it.unknown(st, t)
			if v.k == KStruct && len(v.fs) > 0 && n%len(v.fs) == 0 {
				u = v // a summary of the elements
			}
			fs = nil
			for len(fs) < n {
				fs = append(fs, u.fs...)
			}
		} else {
			fs = v.fs
		}
	}
	if ptr.k != KPtr {
		return
	}
	jn := &joiner{x: it.x}
	for _, p := range ptr.p {
		o := it.objs[p.obj]
		if p.off+n > len(o.leaves) || st.obj(p.obj) == nil {
			continue
		}
		if it.hooks.use != nil {
			it.hooks.use(st, p, "written", pos)
		}
		s := st.objW(p.obj)
		for i := 0; i < n; i++ {
			old := s.cells[p.off+i]
			if it.hooks.store != nil {
				it.hooks.store(st, ptr, Ptr{p.obj, p.off + i}, old, fs[i], pos)
			}
			s = st.objW(p.obj)
			if it.strong(st, ptr.p, p.off+i) && !ptr.unk {
				s.cells[p.off+i] = fs[i]
			} else {
				s.cells[p.off+i] = jn.val(st.norm(old), st.norm(fs[i]), nil)
			}
			r := ptr.role
			if r == RNone {
				r = RNone
			}
			s.w[p.off+i] = r
			if s.shr || o.owner == OwnShared {
				it.shareVal(st, fs[i])
			}
		}
	}
}

// shareVal marks everything reachable from v as shared.
func (it *Interp) shareVal(st *State, v *Val) {
	if v == nil {
		return
	}
	for _, p := range v.p {
		if it.objs[p.obj].owner == OwnShared {
			continue
		}
		s := st.obj(p.obj)
		if s == nil || s.shr {
			continue
		}
		s = st.objW(p.obj)
		s.shr = true
		for _, c := range s.cells {
			it.shareVal(st, c)
		}
	}
	for _, f := range v.fs {
		it.shareVal(st, f)
	}
	it.shareVal(st, v.in)
	for _, f := range v.fn {
		for _, b := range f.binds {
			it.shareVal(st, b)
		}
	}
}

// alloc creates (or re-creates) the object of an allocation site.
func (it *Interp) alloc(st *State, ctx int, ins ssa.Instruction, sub int, t types.Type, name string) *Val {
	k := allocKey{ctx, ins, sub}
	if it.words {
		it.unrollN++
		k.sub = it.unrollN
	}
	id, ok := it.allocs[k]
	if !ok {
		o := it.newObj(t, name, OwnLocal)
		id = o.id
		it.allocs[k] = id
	}
	o := it.objs[id]
	if old := st.obj(id); old != nil && it.reachable(st, id) {
		s := st.objW(id)
		s.weak = true
		jn := &joiner{x: it.x}
		for i, l := range o.leaves {
			s.cells[i] = jn.val(st.norm(s.cells[i]), it.zero(l.typ), nil)
		}
	} else {
		s := it.initCells(o, func(l Leaf, i int) *Val { return it.zero(l.typ) })
		st.heap.set(id, s)
	}
	if it.initing {
		o.owner = OwnShared
	}
	return ptrV(RNone, Ptr{id, 0})
}

func (it *Interp) reachable(st *State, id int) bool {
	seen := map[int]bool{}
	found := false
	var val func(v *Val)
	mark := func(o int) {
		if seen[o] || found {
			return
		}
		seen[o] = true
		if o == id {
			found = true
			return
		}
		if s := st.heap.get(o); s != nil {
			for _, c := range s.cells {
				val(c)
			}
		}
	}
	val = func(v *Val) {
		if v == nil || found {
			return
		}
		for _, p := range v.p {
			mark(p.obj)
		}
		for _, f := range v.fs {
			val(f)
		}
		for _, f := range v.fn {
			for _, b := range f.binds {
				val(b)
			}
		}
		val(v.in)
	}
	for _, f := range st.frames {
		for _, v := range f {
			val(v)
		}
	}
	for _, d := range st.defs {
		val(d.fn)
		for _, a := range d.args {
			val(a)
		}
	}
	if found {
		return true
	}
	for _, he := range st.heap.s {
		o, s := he.id, he.o
		if o == id || st.base[o] == nil && it.objs[o].owner == OwnLocal && !s.shr {
			continue
		}
		mark(o)
	}
	return found
}

// ---- functions --------------------------------------------------------------

const maxRecursion = 8

func (it *Interp) newPoints(n int) int64 {
	p := it.point + 1
	it.point += int64(n) + 2
	return p
}

func (it *Interp) callFn(st *State, fn *ssa.Function, args, binds []*Val, ctx int, depth int) []Outcome {
	if fn.Blocks == nil {
		it.undecided("no body for %s", fnName(fn))
		return []Outcome{{st: st, ret: it.unknown(st, fn.Signature.Results())}}
	}
	rec := 0
	for _, a := range it.stack {
		if a.fn == fn {
			rec++
		}
	}
	if rec >= maxRecursion {
		it.undecided("recursion of %s too deep", fnName(fn))
		return nil
	}
	it.fnSeen[fn]++
	info := it.P.fn(fn)
	act := &activation{fn: fn, info: info, ctx: ctx, depth: depth, slots: make([]map[string]*slot, len(fn.Blocks))}
	act.pt0 = it.newPoints(len(fn.Blocks) + 1)
	it.stack = append(it.stack, act)
	defer func() { it.stack = it.stack[:len(it.stack)-1] }()

	st.push(info.n)
	for i, p := range fn.Params {
		if i < len(args) {
			st.setReg(info.idx[p], args[i])
		} else {
			st.setReg(info.idx[p], it.unknown(st, p.Type()))
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			st.setReg(info.idx[p], binds[i])
		}
	}
	it.arrive(act, st, fn.Blocks[0])
	for it.steps < it.limit && !aborted.Load() {
		// the pending state of the earliest block
		bi, bk := -1, ""
		for i := range act.slots {
			if bi >= 0 && info.rpo[i] >= info.rpo[bi] {
				continue
			}
			best, found := "", false
			for k, s := range act.slots[i] {
				if s.pend && (!found || k < best) {
					best, found = k, true
				}
			}
			if found {
				bi, bk = i, best
			}
		}
		if bi < 0 {
			break
		}
		s := act.slots[bi][bk]
		s.pend = false
		if it.unroll && bk[0] == 'u' {
			delete(act.slots[bi], bk)
			it.exec(act, s.st, fn.Blocks[bi], 0)
			continue
		}
		it.exec(act, s.st.clone(), fn.Blocks[bi], 0)
	}
	if aborted.Load() {
		it.undecided("the analysis ran out of time or memory")
	}
	if it.steps >= it.limit {
		it.undecided("step budget exhausted in %s", fnName(fn))
	}
	return it.mergeOuts(act)
}

func (it *Interp) mergeOuts(act *activation) []Outcome {
	// Outcomes are merged by what callers distinguish.
	type grp struct {
		o   Outcome
		idx int
	}
	m := map[string]*grp{}
	var keys []string
	pt := act.pt0 + int64(len(act.fn.Blocks))
	coarse := len(act.outs) > it.bndCap
	for _, o := range act.outs {
		n := len(o.st.frames) - 1
		// the callee's registers are dead; keep only the result
		o.st.frames[n] = []*Val{o.ret}
		if o.ret == nil {
			o.st.frames[n] = []*Val{}
		}
		o.st.topOwn = true
		k := it.outKey(act, o, coarse)
		if it.words {
			it.unrollN++
			k += fmt.Sprintf("#%09d", it.unrollN)
		}
		if g := m[k]; g != nil {
			g.o.st, _ = joinState(g.o.st, o.st, pt, false)
			if o.ret != nil {
				g.o.ret = g.o.st.top()[0]
			}
			continue
		}
		m[k] = &grp{o: o}
		keys = append(keys, k)
	}
	var r []Outcome
	sort.Strings(keys)
	keep := map[int]bool{}
	for _, id := range it.tracked {
		keep[id] = true
	}
	for _, k := range keys {
		o := m[k].o
		if !it.words && (o.st.heap.len() > 40 || o.st.facts.len() > 120) {
			o.st.gc(keep)
		}
		o.st.pop()
		r = append(r, o)
	}
	return r
}

func (it *Interp) outKey(act *activation, o Outcome, coarse bool) string {
	var b strings.Builder
	if o.pan != "" {
		b.WriteString("!" + o.pan)
	}
	it.classKey(&b, o.st, coarse)
	if o.pan == "" && o.ret != nil {
		it.retValKey(&b, o.st, o.ret)
	}
	if it.retKey != nil {
		b.WriteString(it.retKey(o.st))
	}
	return b.String()
}

func (it *Interp) retValKey(b *strings.Builder, st *State, v *Val) {
	v = st.norm(v)
	switch v.k {
	case KInt:
		if c, ok := st.num(v).isConst(); ok && c.h == 0 && c.l < 16 || ok && c == i64(-1) {
			fmt.Fprintf(b, "=%v", c)
		} else {
			b.WriteString("=?")
		}
	case KTuple:
		for _, f := range v.fs {
			it.retValKey(b, st, f)
		}
	case KPtr, KIface:
		if v.null && len(v.p) == 0 && !v.unk && v.dyn == nil {
			b.WriteString("=nil")
		} else {
			fmt.Fprintf(b, "=p%v%v", v.p, v.null)
		}
		if v.dyn != nil {
			b.WriteString(v.dyn.String())
		}
	case KBig:
		b.WriteString("=b")
	case KStr:
		if v.str != nil {
			b.WriteString("=" + *v.str)
		}
	}
}

// classKey writes the classes of the tracked decimals and the ghost state.
func (it *Interp) classKey(b *strings.Builder, st *State, coarse bool) {
	for _, id := range it.tracked {
		s := st.obj(id)
		if s == nil {
			continue
		}
		f := st.norm(s.cells[it.bl.form])
		fmt.Fprintf(b, "|%s:", f.n.setString())
		if it.formOnly {
			continue
		}
		c := st.norm(s.cells[it.bl.compact])
		if c.n.contains(i64(0)) {
			b.WriteString("z")
		}
		if c.n.contains(maxU64) {
			b.WriteString("i")
		}
		if k, ok := c.n.isConst(); !ok || k.sign() != 0 && k != maxU64 {
			b.WriteString("c")
		}
		if it.trackCond && !coarse {
			b.WriteString("," + st.norm(s.cells[it.bl.conds]).n.setString())
		}
	}
	if !coarse {
		for _, id := range it.locals {
			if s := st.obj(id); s != nil && !s.put {
				fmt.Fprintf(b, "|%d:%s", id, st.norm(s.cells[it.bl.form]).n.setString())
			}
		}
	}
	if len(st.ghost) > 0 {
		var ks []string
		for k, v := range st.ghost {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ks)
		b.WriteString("{" + strings.Join(ks, ",") + "}")
	}
	if st.out != "" {
		fmt.Fprintf(b, "%q", st.out)
	}
}

func (n Num) setString() string {
	if c, ok := n.isConst(); ok {
		return c.String()
	}
	if n.set != nil && len(n.set) <= 4 {
		return n.String()
	}
	return "*"
}

// arrive delivers st to block b.
func (it *Interp) arrive(act *activation, st *State, b *ssa.BasicBlock) {
	live := act.info.live[b.Index]
	if b.Index != 0 {
		top := st.top()
		for i, v := range top {
			if v != nil && !live[i] {
				st.setReg(i, nil)
				top = st.top()
			}
		}
	}
	if st.facts.len() > 160 || st.heap.len() > 80 {
		keep := map[int]bool{}
		for _, id := range it.tracked {
			keep[id] = true
		}
		st.gc(keep)
	}
	m := act.slots[b.Index]
	if m == nil {
		m = map[string]*slot{}
		act.slots[b.Index] = m
	}
	var sb strings.Builder
	level := 0
	if len(m) >= it.bndCap {
		level = 1
	}
	if len(m) >= 2*it.bndCap {
		level = 2
	}
	fmt.Fprintf(&sb, "%d", level)
	if level < 2 {
		it.classKey(&sb, st, level >= 1)
	} else if len(st.ghost) > 0 || st.out != "" {
		tr := it.tracked
		it.tracked = nil
		it.classKey(&sb, st, true)
		it.tracked = tr
	}
	fmt.Fprintf(&sb, "d%d", len(st.defs))
	if level < 2 {
		top := st.top()
		for i, v := range top {
			if v == nil {
				continue
			}
			switch v.k {
			case KInt:
				if n := st.num(v); n.set != nil && len(n.set) == 1 && act.boolReg(i) {
					fmt.Fprintf(&sb, "r%d=%v", i, n.set[0])
				}
			case KPtr, KIface:
				if act.phiReg(i) {
					fmt.Fprintf(&sb, "r%d=%v%v", i, v.p, v.null)
				}
			}
		}
	}
	k := sb.String()
	if it.unroll && level == 0 && len(m) < it.bndCap {
		it.unrollN++
		k = fmt.Sprintf("u%09d", it.unrollN)
	}
	s := m[k]
	if s == nil {
		m[k] = &slot{st: st, pend: true}
		return
	}
	s.joins++
	r, ch := joinState(s.st, st, act.pt0+int64(b.Index), s.joins > 4)
	if ch {
		s.st = r
		s.pend = true
	}
	if s.joins > 400 {
		it.undecided("no fixpoint in %s", fnName(act.fn))
		s.pend = false
	}
}

func (a *activation) boolReg(i int) bool { return a.info.isBool(a.fn, i) }
func (a *activation) phiReg(i int) bool  { return a.info.isPhi(a.fn, i) }

func (in *fnInfo) class(fn *ssa.Function) {
	if in.kinds != nil {
		return
	}
	k := make([]uint8, in.n)
	for v, i := range in.idx {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			k[i] |= 1
		}
		if _, ok := v.(*ssa.Phi); ok {
			k[i] |= 2
		}
	}
	in.kinds = k
}
func (in *fnInfo) isBool(fn *ssa.Function, i int) bool { return in.kinds[i]&1 != 0 }
func (in *fnInfo) isPhi(fn *ssa.Function, i int) bool  { return in.kinds[i]&2 != 0 }

// edge moves st from b to its successor s.
func (it *Interp) edge(act *activation, st *State, b, s *ssa.BasicBlock, k int) {
	var idx []int
	var vals []*Val
	for _, ins := range s.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		idx = append(idx, act.info.idx[ph])
		vals = append(vals, it.val(act, st, ph.Edges[k]))
	}
	for i := range idx {
		st.setReg(idx[i], vals[i])
	}
	if len(s.Preds) == 1 && s.Index != 0 {
		// Nothing to join with.
		it.exec(act, st, s, 0)
		return
	}
	it.arrive(act, st, s)
}

// predEdge returns the index of the i'th edge b->s among s's predecessors.
func predEdge(b, s *ssa.BasicBlock, nth int) int {
	for i, p := range s.Preds {
		if p == b {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return -1
}

func (it *Interp) finish(act *activation, o Outcome) {
	act.outs = append(act.outs, o)
}

// exec runs the instructions of b from index i.
func (it *Interp) exec(act *activation, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		it.steps++
		if it.prof != nil {
			it.prof[act.fn]++
		}
		if it.steps > it.limit || aborted.Load() {
			return
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			it.edge(act, st, b, b.Succs[0], predEdge(b, b.Succs[0], 0))
			return
		case *ssa.If:
			it.branch(act, st, b, ins)
			return
		case *ssa.Return:
			var ret *Val
			switch len(ins.Results) {
			case 0:
			case 1:
				ret = st.norm(it.val(act, st, ins.Results[0]))
			default:
				ret = &Val{k: KTuple}
				for _, r := range ins.Results {
					ret.fs = append(ret.fs, st.norm(it.val(act, st, r)))
				}
			}
			it.finish(act, Outcome{st: st, ret: ret})
			return
		case *ssa.Panic:
			v := it.val(act, st, ins.X)
			lbl := "panic"
			if v.k == KIface && v.dyn != nil {
				lbl = "panic(" + types.TypeString(v.dyn, func(p *types.Package) string { return p.Name() }) + ")"
			}
			it.unwind(act, Outcome{st: st, pan: lbl + "@" + fnName(act.fn), pv: v})
			return
		case *ssa.RunDefers:
			outs := it.runDefers(act, st)
			for _, o := range outs {
				if o.pan != "" {
					it.unwind(act, o)
					continue
				}
				it.exec(act, o.st, b, i+1)
			}
			return
		case *ssa.Call:
			outs := it.callInstr(act, st, &ins.Call, ins)
			if len(outs) == 1 && outs[0].pan == "" {
				st = outs[0].st
				if outs[0].ret != nil {
					st.setReg(act.info.idx[ins], outs[0].ret)
				}
				continue
			}
			for _, o := range outs {
				if o.pan != "" {
					it.unwind(act, o)
					continue
				}
				if o.ret != nil {
					o.st.setReg(act.info.idx[ins], o.ret)
				}
				it.exec(act, o.st, b, i+1)
			}
			return
		case *ssa.Defer:
			d := deferred{depth: len(st.frames), call: &ins.Call, ins: ins}
			if ins.Call.IsInvoke() {
				d.args = append(d.args, it.val(act, st, ins.Call.Value))
			} else {
				d.fn = it.val(act, st, ins.Call.Value)
			}
			for _, a := range ins.Call.Args {
				d.args = append(d.args, it.val(act, st, a))
			}
			st.defs = append(st.defs[:len(st.defs):len(st.defs)], d)
		case *ssa.Store:
			it.store(st, it.val(act, st, ins.Addr), it.val(act, st, ins.Val), ins.Val.Type(), ins.Pos())
		case *ssa.MapUpdate:
			it.mapUse(act, st, ins.Map, ins.Pos())
		case *ssa.Go, *ssa.Send, *ssa.Select:
			it.undecided("unsupported instruction %T in %s", ins, fnName(act.fn))
		case ssa.Value:
			v := it.eval(act, st, b.Instrs[i])
			st.setReg(act.info.idx[ins], v)
		default:
			it.undecided("unsupported instruction %T in %s", ins, fnName(act.fn))
		}
	}
}

func (it *Interp) mapUse(act *activation, st *State, m ssa.Value, pos token.Pos) {}

// unwind ends the current activation by a panic.
func (it *Interp) unwind(act *activation, o Outcome) {
	outs := it.runDefers(act, o.st)
	for _, d := range outs {
		if d.pan == "" {
			d.pan, d.pv = o.pan, o.pv
		}
		if d.st.g("recovered") == 1 && act.fn.Recover != nil {
			d.st.setG("recovered", 0)
			it.arrive(act, d.st, act.fn.Recover)
			continue
		}
		d.ret = nil
		it.finish(act, d)
	}
}

// runDefers runs the deferred calls of the current frame.
func (it *Interp) runDefers(act *activation, st *State) []Outcome {
	n := len(st.defs)
	if n == 0 || st.defs[n-1].depth != len(st.frames) {
		return []Outcome{{st: st}}
	}
	d := st.defs[n-1]
	st.defs = st.defs[: n-1 : n-1]
	var outs []Outcome
	if d.call.IsInvoke() {
		outs = it.invoke(act, st, d.call, d.args[0], d.args[1:], d.ins)
	} else {
		outs = it.callValue(act, st, d.call, d.fn, d.args, d.ins)
	}
	var r []Outcome
	for _, o := range outs {
		for _, q := range it.runDefers(act, o.st) {
			if q.pan == "" {
				q.pan, q.pv = o.pan, o.pv
			}
			r = append(r, q)
		}
	}
	return r
}

func (it *Interp) branch(act *activation, st *State, b *ssa.BasicBlock, ins *ssa.If) {
	c := it.val(act, st, ins.Cond)
	if it.hooks.branch != nil {
		it.hooks.branch(st, c, ifPos(ins))
	}
	s0, s1 := b.Succs[0], b.Succs[1]
	k0 := predEdge(b, s0, 0)
	k1 := predEdge(b, s1, 0)
	if s0 == s1 {
		k1 = predEdge(b, s1, 1)
	}
	n := st.num(c)
	if v, ok := n.isConst(); ok {
		if v.sign() != 0 {
			it.edge(act, st, b, s0, k0)
		} else {
			it.edge(act, st, b, s1, k1)
		}
		return
	}
	if v, ok := st.truth(c.e); ok {
		if v {
			it.edge(act, st, b, s0, k0)
		} else {
			it.edge(act, st, b, s1, k1)
		}
		return
	}
	st2 := st.clone()
	if st.assume(c.e, true) && st.setNum(c.e, mkConst(i64(1))) {
		it.edge(act, st, b, s0, k0)
	}
	if st2.assume(c.e, false) && st2.setNum(c.e, mkConst(i64(0))) {
		it.edge(act, st2, b, s1, k1)
	}
}

// ---- calls --------------------------------------------------------------------

type callCtx struct {
	act  *activation
	st   *State
	fn   *ssa.Function
	name string
	args []*Val
	ins  ssa.Instruction
	pos  token.Pos
	sig  *types.Signature
}

func (it *Interp) ctxOf(act *activation, ins ssa.Instruction, fn *ssa.Function) int {
	k := ctxKey{act.ctx, ins, fn}
	id, ok := it.ctxs[k]
	if !ok {
		id = len(it.ctxs) + 1
		it.ctxs[k] = id
	}
	return id
}

func (it *Interp) callInstr(act *activation, st *State, c *ssa.CallCommon, ins ssa.Instruction) []Outcome {
	var args []*Val
	for _, a := range c.Args {
		args = append(args, st.norm(it.val(act, st, a)))
	}
	if c.IsInvoke() {
		return it.invoke(act, st, c, it.val(act, st, c.Value), args, ins)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return it.builtin(act, st, b, c, args, ins)
	}
	return it.callValue(act, st, c, it.val(act, st, c.Value), args, ins)
}

func (it *Interp) callValue(act *activation, st *State, c *ssa.CallCommon, f *Val, args []*Val, ins ssa.Instruction) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return it.builtin(act, st, b, c, args, ins)
	}
	if f.k != KFunc || len(f.fn) == 0 {
		// A function supplied by the caller: it may return anything.
		return []Outcome{{st: st, ret: it.unkResult(st, c.Signature())}}
	}
	var r []Outcome
	for i, fr := range f.fn {
		s := st
		if i < len(f.fn)-1 {
			s = st.clone()
		}
		r = append(r, it.callOne(act, s, fr.fn, args, fr.binds, ins, c.Signature())...)
	}
	return r
}

// depthOf returns how often fn is being analysed already.
func (it *Interp) depthOf(fn *ssa.Function) int {
	n := 0
	for _, a := range it.stack {
		if a.fn == fn {
			n++
		}
	}
	return n
}

func (it *Interp) unkResult(st *State, sig *types.Signature) *Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return it.unknown(st, sig.Results().At(0).Type())
	}
	return it.unknown(st, sig.Results())
}

func (it *Interp) callOne(act *activation, st *State, fn *ssa.Function, args, binds []*Val, ins ssa.Instruction, sig *types.Signature) []Outcome {
	if it.hooks.call != nil {
		it.hooks.call(st, fn, args, ins.Pos())
	}
	cc := &callCtx{act, st, fn, fn.String(), args, ins, ins.Pos(), fn.Signature}
	if h := it.fnHook[fn]; h != nil {
		if r, ok := h(it, cc); ok {
			return r
		}
	}
	if m := it.models[fn]; m != nil {
		if r, ok := it.magModel(m.name, cc); ok {
			return r
		}
		return m.model(it, cc)
	}
	if it.P.inRepo(fn) && fn.Blocks != nil {
		if it.memoable != nil && it.memoable(act, fn) || it.depthOf(fn) >= 1 {
			return it.memoCall(act, st, fn, args, binds, ins)
		}
		return it.callFn(st, fn, args, binds, it.ctxOf(act, ins, fn), act.depth+1)
	}
	if it.text && it.P.inStdText(fn) {
		if r, ok := it.textExtern(cc); ok {
			return r
		}
		return it.callFn(st, fn, args, binds, it.ctxOf(act, ins, fn), act.depth+1)
	}
	return it.extern(cc)
}

func (it *Interp) invoke(act *activation, st *State, c *ssa.CallCommon, recv *Val, args []*Val, ins ssa.Instruction) []Outcome {
	if recv.k == KIface && recv.dyn != nil && recv.in != nil {
		if m := it.P.ssa.LookupMethod(recv.dyn, c.Method.Pkg(), c.Method.Name()); m != nil {
			return it.callOne(act, st, m, append([]*Val{recv.in}, args...), nil, ins, c.Signature())
		}
	}
	cc := &callCtx{act, st, nil, c.Method.FullName(), append([]*Val{recv}, args...), ins, ins.Pos(), c.Signature()}
	return it.externInvoke(cc)
}

// ifPos returns the position of the condition of ins.
func ifPos(ins *ssa.If) token.Pos {
	if p := ins.Cond.Pos(); p.IsValid() {
		return p
	}
	for _, i := range ins.Block().Instrs {
		if p := i.Pos(); p.IsValid() {
			return p
		}
	}
	return ins.Parent().Pos()
}
