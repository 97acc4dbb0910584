package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A call may be summarised: it is analysed once for each abstraction of the
// part of the heap it can reach, and the outcomes are translated to every
// call whose reachable heap has the same abstraction. Relations between
// values that are not visible in the values themselves are dropped on entry,
// so that a summary covers every state it is applied to.

type memoEntry struct {
	ids  map[int]int // object -> canonical number
	ins  []*Expr     // canonical number -> placeholder expression
	outs []Outcome
	busy bool
	hit  bool // met again while being analysed
	id   int
}

type canon struct {
	it    *Interp
	st    *State
	nums  map[int]int
	order []int
	ex    map[*Expr]int
	exs   []*Expr
	names []*Expr // canonical names, if already given to the objects' values
	b     strings.Builder
}

func (c *canon) obj(id int) int {
	if n, ok := c.nums[id]; ok {
		return n
	}
	n := len(c.order)
	c.nums[id] = n
	c.order = append(c.order, id)
	return n
}

func (c *canon) expr(e *Expr) {
	if e == nil {
		c.b.WriteString("_")
		return
	}
	n, ok := c.ex[e]
	if !ok {
		n = len(c.exs)
		c.ex[e] = n
		c.exs = append(c.exs, e)
	}
	c.b.WriteString("e" + strconv.Itoa(n))
}

var memoSteps = []I{i64(-1 << 63), i64(-4 * maxScale), i64(-1 << 31), i64(-1), i64(0), i64(1), i64(19), i64(20), i64(255), i64(1 << 40), i64(4 * maxScale), i64(1 << 62), i64(1<<63 - 1), maxU64.sub(i64(1)), maxU64}

// coarseNum widens n to one of few ranges.
func coarseNum(n Num) Num {
	if n.set != nil && len(n.set) <= 8 {
		return n
	}
	lo, hi := n.lo, n.hi
	for i := len(memoSteps) - 1; i >= 0; i-- {
		if memoSteps[i].cmp(lo) <= 0 {
			lo = memoSteps[i]
			break
		}
	}
	for i := range memoSteps {
		if memoSteps[i].cmp(hi) >= 0 {
			hi = memoSteps[i]
			break
		}
	}
	return mkRange(lo, hi)
}

// keepBits is used for condition sets, which are bit masks.
func coarseBits(n Num) Num { return n }

func (c *canon) coarse(v *Val, bitset bool) Num {
	n := c.st.num(v)
	if bitset {
		return coarseBits(n)
	}
	return coarseNum(n)
}

// val writes the abstraction of v and returns v with its values renamed.
func (c *canon) val(v *Val, bitset bool) {
	b := &c.b
	if v == nil {
		b.WriteString("nil;")
		return
	}
	b.WriteString(strconv.Itoa(int(v.k)))
	if v.role != 0 || v.t != 0 {
		fmt.Fprintf(b, "r%dt%d", v.role, v.t)
	}
	if v.null {
		b.WriteByte('?')
	}
	if v.unk {
		b.WriteByte('*')
	}
	switch v.k {
	case KInt:
		n := c.coarse(v, bitset)
		if k, ok := n.isConst(); ok {
			b.WriteString("=" + k.String())
		} else {
			b.WriteString(n.String())
			if n.set == nil && bitset {
				fmt.Fprintf(b, "k%x,%x", n.k0, n.k1)
			}
			c.expr(v.e)
		}
	case KStr:
		if v.str != nil {
			b.WriteString(strconv.Quote(*v.str))
		} else {
			c.expr(v.e)
		}
	case KBig:
		fmt.Fprintf(b, "s%d", c.it.bigSign(c.st, v))
		if !v.n.unknown() {
			b.WriteString(v.n.String())
		}
		c.expr(v.e)
	case KPtr, KSlice, KIface, KOpaque:
		if v.e != nil {
			c.expr(v.e)
		}
		if v.k == KSlice {
			fmt.Fprintf(b, "s%d", v.sign)
			if !v.n.unknown() {
				b.WriteString(v.n.String())
			}
		}
		if v.str != nil {
			b.WriteString(strconv.Quote(*v.str))
		}
	}
	for _, p := range v.p {
		fmt.Fprintf(b, "p%d.%d", c.obj(p.obj), p.off)
	}
	for _, f := range v.fs {
		c.val(f, false)
	}
	for _, f := range v.fn {
		fmt.Fprintf(b, "f%s@%p(", f.fn.Name(), f.fn)
		for _, x := range f.binds {
			c.val(x, false)
		}
		b.WriteByte(')')
	}
	if v.dyn != nil {
		b.WriteString(types.TypeString(v.dyn, nil))
	}
	if v.in != nil {
		c.val(v.in, false)
	}
	if v.ln != nil {
		c.val(v.ln, false)
	}
	b.WriteByte(';')
}

// key abstracts the part of st reachable from args.
func (it *Interp) canonKey(st *State, fn *ssa.Function, args, binds []*Val) *canon {
	c := &canon{it: it, st: st, nums: map[int]int{}, ex: map[*Expr]int{}}
	fmt.Fprintf(&c.b, "%p/", fn)
	for _, a := range args {
		c.val(a, false)
	}
	c.b.WriteByte('/')
	for _, a := range binds {
		c.val(a, false)
	}
	// changed global state
	var gl []int
	for _, he := range st.heap.s {
		id := he.id
		if it.base[id] != nil {
			gl = append(gl, id)
		}
	}
	sort.Ints(gl)
	for _, id := range gl {
		fmt.Fprintf(&c.b, "g%d=%d", id, c.obj(id))
	}
	tracked := map[int]int{}
	for i, id := range it.tracked {
		tracked[id] = i + 1
	}
	for _, id := range it.locals {
		tracked[id] = -1
	}
	for i := 0; i < len(c.order); i++ {
		id := c.order[i]
		o := it.objs[id]
		if it.base[id] != nil && st.heap.get(id) == nil {
			fmt.Fprintf(&c.b, "\nB%d", id)
			continue
		}
		fmt.Fprintf(&c.b, "\n%s,%d,%d,%d", types.TypeString(o.typ, nil), o.owner, o.opnd, tracked[id])
		if o.backOf != 0 {
			fmt.Fprintf(&c.b, "b%d", c.obj(o.backOf))
		}
		s := st.obj(id)
		if s == nil {
			continue
		}
		fmt.Fprintf(&c.b, "%v%v%v%v", s.weak, s.put, s.pool, s.shr)
		for j, v := range s.cells {
			if s.w[j] != 0 {
				fmt.Fprintf(&c.b, "w%d", s.w[j])
			}
			c.val(v, o.isBig && j == it.bl.conds)
		}
	}
	if len(st.ghost) > 0 {
		var ks []string
		for k, v := range st.ghost {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(ks)
		c.b.WriteString(strings.Join(ks, ","))
	}
	return c
}

// mapVal rewrites a value: objects by om, expressions by em.
type mapper struct {
	it *Interp
	om func(int) int
	em func(*Expr) *Expr
	st *State // when set, ranges are widened as in the key
}

func (m *mapper) val(v *Val, bitset bool) *Val {
	if v == nil {
		return nil
	}
	w := *v
	if v.e != nil {
		w.e = m.em(v.e)
	}
	if m.st != nil {
		switch v.k {
		case KInt:
			n := m.st.num(v)
			if !bitset {
				n = coarseNum(n)
			}
			w.n = n
		case KBig:
			w.sign = m.it.bigSign(m.st, v)
		}
	}
	if len(v.p) > 0 {
		w.p = make([]Ptr, len(v.p))
		for i, p := range v.p {
			w.p[i] = Ptr{m.om(p.obj), p.off}
		}
		if len(w.p) > 1 {
			sort.Slice(w.p, func(i, j int) bool {
				if w.p[i].obj != w.p[j].obj {
					return w.p[i].obj < w.p[j].obj
				}
				return w.p[i].off < w.p[j].off
			})
		}
	}
	if len(v.fs) > 0 {
		w.fs = make([]*Val, len(v.fs))
		for i, f := range v.fs {
			w.fs[i] = m.val(f, false)
		}
	}
	if len(v.fn) > 0 {
		w.fn = make([]FuncRef, len(v.fn))
		for i, f := range v.fn {
			w.fn[i].fn = f.fn
			for _, b := range f.binds {
				w.fn[i].binds = append(w.fn[i].binds, m.val(b, false))
			}
		}
	}
	w.in = m.val(v.in, false)
	w.ln = m.val(v.ln, false)
	return &w
}

// memoCall analyses a call through its summary.
func (it *Interp) memoCall(act *activation, st *State, fn *ssa.Function, args, binds []*Val, ins ssa.Instruction) []Outcome {
	c := it.canonKey(st, fn, args, binds)
	key := c.b.String()
	e := it.memo[key]
	if e == nil {
		e = &memoEntry{busy: true}
		it.memo[key] = e
		it.memoMiss[fn]++
		it.memoID++
		e.id = it.memoID
		for pass := 0; ; pass++ {
			e.hit = false
			outs := it.memoPass(act, st, fn, args, binds, ins, c, e)
			same := sameOuts(it, e.outs, outs)
			e.outs = outs
			if !e.hit || same {
				break
			}
			if pass >= 6 {
				it.undecided("no fixpoint of the recursion of %s", fnName(fn))
				break
			}
			// What was learned from the previous approximation is void.
			for k, o := range it.memo {
				if o.id > e.id && !o.busy {
					delete(it.memo, k)
				}
			}
		}
		e.busy = false
	} else if e.busy {
		e.hit = true
		if len(e.outs) == 0 {
			return nil
		}
	}
	it.memoHit[fn]++
	// Translate.
	back := make(map[int]int, len(e.ids)) // recorded object -> object here
	for id, n := range e.ids {
		back[id] = c.order[n]
	}
	inv := make(map[*Expr]*Expr, len(e.ins))
	for i, x := range e.ins {
		inv[x] = c.exs[i]
	}
	callCtx := it.ctxOf(act, ins, fn)
	var r []Outcome
	for oi, o := range e.outs {
		ns := st
		if oi < len(e.outs)-1 {
			ns = st.clone()
		}
		om := func(id int) int {
			if n, ok := back[id]; ok {
				return n
			}
			return id
		}
		// objects created by the call
		loc := map[int]int{}
		var fresh []int
		for _, he := range o.st.heap.s {
			id := he.id
			if _, ok := back[id]; !ok && it.base[id] == nil {
				fresh = append(fresh, id)
			}
		}
		sort.Ints(fresh)
		weak := map[int]bool{}
		for _, id := range fresh {
			k := allocKey{callCtx, nil, id}
			nid, ok := it.allocs[k]
			if !ok {
				src := it.objs[id]
				n := *src
				n.id = len(it.objs)
				it.objs = append(it.objs, &n)
				nid = n.id
				it.allocs[k] = nid
			}
			loc[id] = nid
			if ns.heap.get(nid) != nil && it.reachable(ns, nid) {
				weak[id] = true
			}
		}
		om2 := func(id int) int {
			if n, ok := loc[id]; ok {
				return n
			}
			if n, ok := back[id]; ok {
				return n
			}
			src := it.objs[id]
			if src.backOf != 0 && it.base[id] == nil {
				// digits of an object created or reached by the call
				bo := src.backOf
				nb := bo
				if n, ok := loc[bo]; ok {
					nb = n
				} else {
					nb = om(bo)
				}
				if nb != bo {
					for p, b := range it.backs {
						if b == id {
							return it.backing(Ptr{nb, p.off})
						}
					}
				}
			}
			return id
		}
		freshE := map[*Expr]*Expr{}
		var em func(x *Expr) *Expr
		em = func(x *Expr) *Expr {
			if x == nil {
				return nil
			}
			if y, ok := inv[x]; ok {
				return y
			}
			if y, ok := freshE[x]; ok {
				return y
			}
			var y *Expr
			switch {
			case x.op == "const":
				y = x
			case x.op == "atom":
				if x.nm != "" && x.nm != "in" {
					y = x
				} else {
					y = it.x.newAtom()
				}
			case x.a == nil && x.b == nil:
				y = x
			default:
				a, b := em(x.a), em(x.b)
				if x.a != nil && a == nil || x.b != nil && b == nil {
					y = it.x.newAtom()
				} else {
					if x.op == "==" {
						y = ns.eqExpr(a, b)
					} else {
						y = it.x.mk(x.op, a, b, x.c, x.nm)
					}
				}
				if y == nil {
					y = it.x.newAtom()
				}
			}
			freshE[x] = y
			return y
		}
		m := &mapper{it: it, om: om2, em: em}
		feasible := true
		for _, fe := range o.st.facts.s {
			x, n := fe.e, fe.n
			y := em(x)
			if y == nil || y.op == "const" {
				continue
			}
			if f, ok := ns.facts.get(y); ok {
				n = f.meet(n)
				if n.isBot() {
					feasible = false
					break
				}
			}
			ns.facts.set(y, n)
		}
		if !feasible {
			continue
		}
		jn := &joiner{x: it.x}
		for _, he := range o.st.heap.s {
			id, s := he.id, he.o
			nid := om2(id)
			t := s.clone()
			t.own = ns.uid
			for j := range t.cells {
				t.cells[j] = m.val(t.cells[j], false)
			}
			if weak[id] {
				old := ns.heap.get(nid)
				t.weak = true
				for j := range t.cells {
					t.cells[j] = jn.val(ns.norm(t.cells[j]), ns.norm(old.cells[j]), nil)
				}
			}
			ns.heap.set(nid, t)
		}
		if o.st.ghost != nil || ns.ghost != nil {
			ns.ghost = map[string]int{}
			for k, v := range o.st.ghost {
				ns.ghost[k] = v
			}
		}
		ns.out += o.st.out
		r = append(r, Outcome{st: ns, ret: m.val(o.ret, false), pan: o.pan, pv: m.val(o.pv, false)})
	}
	return r
}

func sameOuts(it *Interp, a, b []Outcome) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].pan != b[i].pan || a[i].st.heap.len() != b[i].st.heap.len() {
			return false
		}
		for j, h := range a[i].st.heap.s {
			g := b[i].st.heap.s[j]
			if g.id != h.id {
				return false
			}
			for k := range h.o.cells {
				x, y := h.o.cells[k], g.o.cells[k]
				if x == nil || y == nil {
					if x != y {
						return false
					}
					continue
				}
				if x.k != y.k || x.t != y.t || x.sign != y.sign || x.role != y.role || h.o.w[k] != g.o.w[k] || !samePtrs(x.p, y.p) {
					return false
				}
				if x.k == KInt && !coarseNum(a[i].st.num(x)).eq(coarseNum(b[i].st.num(y))) {
					return false
				}
			}
		}
	}
	return true
}

// memoPass analyses a call in the part of the state it can reach, with the
// values renamed.
func (it *Interp) memoPass(act *activation, st *State, fn *ssa.Function, args, binds []*Val, ins ssa.Instruction, c *canon, e *memoEntry) []Outcome {
	// The projected state: same objects, renamed values.
	ps := &State{x: it.x, uid: it.x.newUID(), base: it.base}
	if st.ghost != nil {
		ps.ghost = map[string]int{}
		for k, v := range st.ghost {
			ps.ghost[k] = v
		}
	}
	names := make([]*Expr, len(c.exs))
	for i := range names {
		names[i] = it.x.mk("atom", nil, nil, I{0, uint64(e.id)<<32 | uint64(i)}, "in")
	}
	m := &mapper{it: it, om: func(i int) int { return i }, em: func(x *Expr) *Expr {
		if n, ok := c.ex[x]; ok {
			return names[n]
		}
		return it.x.newAtom()
	}, st: st}
	var note func(v *Val)
	note = func(v *Val) {
		if v == nil {
			return
		}
		if v.k == KInt && v.e != nil && v.e.op != "const" {
			if _, k := v.n.isConst(); !k {
				if f, ok := ps.facts.get(v.e); ok {
					ps.facts.set(v.e, f.meet(v.n))
				} else {
					ps.facts.set(v.e, v.n)
				}
			}
		}
		for _, f := range v.fs {
			note(f)
		}
		note(v.in)
		note(v.ln)
		for _, f := range v.fn {
			for _, b := range f.binds {
				note(b)
			}
		}
	}
	conv := func(v *Val, bs bool) *Val {
		w := m.val(v, bs)
		note(w)
		return w
	}
	for _, id := range c.order {
		s := st.heap.get(id)
		if s == nil {
			continue
		}
		o := it.objs[id]
		t := s.clone()
		t.own = ps.uid
		for j := range t.cells {
			t.cells[j] = conv(t.cells[j], o.isBig && j == it.bl.conds)
		}
		ps.heap.set(id, t)
	}
	var pa, pb []*Val
	for _, a := range args {
		pa = append(pa, conv(a, false))
	}
	for _, a := range binds {
		pb = append(pb, conv(a, false))
	}
	e.ids = c.nums
	e.ins = names
	ctx := it.ctxOf(&activation{ctx: -e.id}, ins, fn)
	outs := it.callFn(ps, fn, pa, pb, ctx, act.depth+1)
	keep := map[int]bool{}
	for _, id := range c.order {
		keep[id] = true
	}
	for i := range outs {
		// keep what the result refers to alive
		outs[i].st.frames = append(outs[i].st.frames, []*Val{outs[i].ret})
		outs[i].st.gc(keep)
		outs[i].st.frames = nil
	}
	return outs
}
