package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- type layout -----------------------------------------------------------

type Leaf struct {
	typ  types.Type
	path string
	arr  bool // stands for every element of an array
}

type layouts struct {
	repo string // module path prefix of the analysed repository
	m    map[types.Type][]Leaf
}

func (l *layouts) atomic(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	return p != nil && !strings.HasPrefix(p.Path(), l.repo)
}

func isBigNum(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" &&
		(n.Obj().Name() == "Int" || n.Obj().Name() == "Rat" || n.Obj().Name() == "Float")
}

func (l *layouts) of(t types.Type) []Leaf {
	if r, ok := l.m[t]; ok {
		return r
	}
	var r []Leaf
	if l.atomic(t) {
		r = []Leaf{{typ: t}}
	} else {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				for _, lf := range l.of(f.Type()) {
					p := f.Name()
					if lf.path != "" {
						p += "." + lf.path
					}
					r = append(r, Leaf{lf.typ, p, lf.arr})
				}
			}
		case *types.Array:
			for _, lf := range l.of(u.Elem()) {
				lf.arr = true
				r = append(r, lf)
			}
		default:
			r = []Leaf{{typ: t}}
		}
	}
	l.m[t] = r
	return r
}

func (l *layouts) fieldOff(st types.Type, i int) int {
	u := st.Underlying().(*types.Struct)
	n := 0
	for j := 0; j < i; j++ {
		n += len(l.of(u.Field(j).Type()))
	}
	return n
}

// ---- objects ----------------------------------------------------------------

type Owner uint8

const (
	OwnLocal Owner = iota
	OwnResult
	OwnOperand
	OwnShared // reachable from a package-level variable
	OwnPool
	OwnCaller // other caller-provided memory (generators, buffers, ...)
)

type Obj struct {
	id      int
	typ     types.Type
	leaves  []Leaf
	elem    int  // leaves per element when the elements of an array are distinguished
	summary bool // stands for several locations: weak updates only
	owner   Owner
	opnd    int // operand number when owner is OwnOperand
	name    string
	backOf  int  // the object this is the digit storage of (0: none)
	isBig   bool // a decimal.Big
}

type ObjSt struct {
	cells []*Val
	w     []Role // role of the last writer of each cell
	weak  bool   // allocated more than once
	own   int    // the state that may change it in place
	put   bool   // returned to its pool
	pool  bool   // came from a pool
	shr   bool   // became reachable from a package-level variable
}

func (o *ObjSt) clone() *ObjSt {
	r := *o
	r.cells = append([]*Val{}, o.cells...)
	r.w = append([]Role{}, o.w...)
	return &r
}

type State struct {
	x      *ExprTab
	frames [][]*Val
	topOwn bool
	uid    int // objects with this owner may be changed in place
	heap   heapMap
	base   map[int]*ObjSt // shared, immutable
	facts  factMap
	defs   []deferred
	ghost  map[string]int
	out    string // text written so far, where tracked
	outv   []*Val // the same, in text mode
}

type deferred struct {
	depth int
	fn    *Val
	call  *ssa.CallCommon
	args  []*Val
	ins   ssa.Instruction
}

func (s *State) clone() *State {
	r := &State{x: s.x, base: s.base, out: s.out, outv: s.outv}
	r.frames = append(make([][]*Val, 0, len(s.frames)+1), s.frames...)
	s.topOwn, r.topOwn = false, false
	r.heap = s.heap.copy()
	r.facts = s.facts.copy()
	s.uid, r.uid = s.x.newUID(), s.x.newUID()
	if len(s.defs) > 0 {
		r.defs = append([]deferred{}, s.defs...)
	}
	if s.ghost != nil {
		r.ghost = map[string]int{}
		for k, v := range s.ghost {
			r.ghost[k] = v
		}
	}
	return r
}

func (s *State) top() []*Val { return s.frames[len(s.frames)-1] }
func (s *State) setReg(i int, v *Val) {
	n := len(s.frames) - 1
	if !s.topOwn {
		s.frames[n] = append([]*Val{}, s.frames[n]...)
		s.topOwn = true
	}
	s.frames[n][i] = v
}
func (s *State) push(n int) {
	s.frames = append(s.frames, make([]*Val, n))
	s.topOwn = true
}
func (s *State) pop() {
	s.frames = s.frames[: len(s.frames)-1 : len(s.frames)-1]
	s.topOwn = false
}

func (s *State) obj(id int) *ObjSt {
	if o := s.heap.get(id); o != nil {
		return o
	}
	return s.base[id]
}

func (s *State) objW(id int) *ObjSt {
	o := s.heap.get(id)
	if o == nil {
		b := s.base[id]
		if b == nil {
			return nil
		}
		o = b.clone()
		o.own = s.uid
		s.heap.set(id, o)
		return o
	}
	if o.own != s.uid {
		o = o.clone()
		o.own = s.uid
		s.heap.set(id, o)
	}
	return o
}

func (s *State) g(k string) int { return s.ghost[k] }
func (s *State) setG(k string, v int) {
	if s.ghost == nil {
		s.ghost = map[string]int{}
	}
	s.ghost[k] = v
}

// ---- numeric facts ------------------------------------------------------------

// expr returns an expression naming v, or nil.
func (s *State) expr(v *Val) *Expr {
	if v.k == KInt {
		if c, ok := v.n.isConst(); ok {
			return s.x.konst(c)
		}
	}
	return v.e
}

func (s *State) num(v *Val) Num {
	if v.k != KInt {
		return Num{lo: i64(-1 << 63), hi: u64(^uint64(0))}
	}
	n := v.n
	if v.e != nil && v.e.op != "const" {
		if f, ok := s.facts.get(v.e); ok {
			n = n.meet(f)
		}
	}
	return n
}

// intVal makes a value for e, whose range is n, and remembers the range.
func (s *State) intVal(n Num, e *Expr) *Val {
	if e == nil {
		e = s.x.newAtom()
	}
	if _, c := n.isConst(); !c && e.op != "const" {
		if f, ok := s.facts.get(e); ok {
			n = f.meet(n)
		}
		s.facts.set(e, n)
	}
	return intV(n, e)
}

func (s *State) enum(e *Expr) (Num, bool) {
	if e == nil {
		return Num{}, false
	}
	if e.op == "const" {
		return mkConst(e.c), true
	}
	n, ok := s.facts.get(e)
	return n, ok
}

// setNum refines e to n, propagating to subexpressions. It reports whether
// the state is still feasible.
func (s *State) setNum(e *Expr, n Num) bool {
	if n.isBot() {
		return false
	}
	if e == nil {
		return true
	}
	if e.op == "const" {
		return n.contains(e.c)
	}
	if f, ok := s.facts.get(e); ok {
		m := f.meet(n)
		if m.isBot() {
			return false
		}
		if m.eq(f) {
			return true
		}
		n = m
	}
	s.facts.set(e, n)
	if p := s.x.polys[e]; p != nil && !s.setTerm(p, n) {
		return false
	}
	switch e.op {
	case "&", "|", "^", "&^":
		na, oka := s.enum(e.a)
		nb, okb := s.enum(e.b)
		if !oka || !okb {
			return true
		}
		if na.set == nil || nb.set == nil {
			// x & mask == v: the bits are known.
			if e.op == "&" {
				if c, ok := nb.isConst(); ok && na.set == nil {
					if v, ok := n.isConst(); ok {
						na.k1 |= v.l & c.l
						na.k0 |= ^v.l & c.l
						if na.k0&na.k1 != 0 {
							return false
						}
						s.facts.set(e.a, na)
					} else if !n.contains(i64(0)) && c.l&(c.l-1) == 0 {
						na.k1 |= c.l
						if na.k0&na.k1 != 0 {
							return false
						}
						s.facts.set(e.a, na)
					}
				}
			}
			return true
		}
		var xa, xb []I
		for _, p := range na.set {
			for _, q := range nb.set {
				if n.contains(bitop(e.op, p, q)) {
					xa = append(xa, p)
					xb = append(xb, q)
				}
			}
		}
		return s.setNum(e.a, mkSet(xa)) && s.setNum(e.b, mkSet(xb))
	case "conv":
		// value preserving when the operand fits
		if na, ok := s.enum(e.a); ok && e.nm == "exact" {
			return s.setNum(e.a, na.meet(n))
		}
	case "+", "-":
		if e.nm != "nw" {
			return true
		}
		na, oka := s.enum(e.a)
		nb, okb := s.enum(e.b)
		if !oka || !okb {
			return true
		}
		neg := func(x Num) Num { return shift(x, true) }
		if e.op == "+" { // a = n - b, b = n - a
			if !s.setNum(e.a, na.meet(addNum(n, neg(nb)))) {
				return false
			}
			return s.setNum(e.b, nb.meet(addNum(n, neg(na))))
		}
		// a = n + b, b = a - n
		if !s.setNum(e.a, na.meet(addNum(n, nb))) {
			return false
		}
		return s.setNum(e.b, nb.meet(addNum(na, neg(n))))
	case "neg":
		if e.nm == "nw" {
			if na, ok := s.enum(e.a); ok {
				return s.setNum(e.a, na.meet(shift(n, true)))
			}
		}
	case "==", "<", "!":
		if c, ok := n.isConst(); ok {
			return s.assume(e, c.sign() != 0)
		}
	case "sgn3":
		// three-way comparison of a and b
		if c, ok := n.isConst(); ok {
			switch c.sign() {
			case -1:
				return s.assume(s.x.mk("<", e.a, e.b, I{}, ""), true)
			case 1:
				return s.assume(s.x.mk("<", e.b, e.a, I{}, ""), true)
			}
			return s.assume(s.eqExpr(e.a, e.b), true)
		}
		if !n.contains(i64(0)) && n.set != nil {
			return s.assume(s.eqExpr(e.a, e.b), false)
		}
	}
	return true
}

func (s *State) eqExpr(a, b *Expr) *Expr {
	if a != nil && b != nil && (a.id > b.id && b.op != "const" || a.op == "const") {
		a, b = b, a
	}
	if a == nil || b == nil {
		return nil
	}
	return s.x.mk("==", a, b, I{}, "")
}

// shift negates x when neg is set.
func shift(x Num, neg bool) Num {
	if x.set != nil {
		var r []I
		for _, v := range x.set {
			r = append(r, v.neg())
		}
		return mkSet(r)
	}
	return Num{lo: x.hi.neg(), hi: x.lo.neg()}
}

// addNum adds without wrapping.
func addNum(a, b Num) Num {
	if a.isBot() || b.isBot() {
		return Num{set: []I{}}
	}
	if a.set != nil && b.set != nil && len(a.set)*len(b.set) <= 64 {
		var r []I
		for _, x := range a.set {
			for _, y := range b.set {
				r = append(r, x.add(y))
			}
		}
		return mkSet(r)
	}
	return mkRange(a.lo.add(b.lo), a.hi.add(b.hi))
}

func bitop(op string, a, b I) I {
	switch op {
	case "&":
		return I{a.h & b.h, a.l & b.l}
	case "|":
		return I{a.h | b.h, a.l | b.l}
	case "^":
		return I{a.h ^ b.h, a.l ^ b.l}
	}
	return I{a.h &^ b.h, a.l &^ b.l}
}

// truth evaluates the comparison e (op "==" or "<" or "!") if it is decided.
func (s *State) truth(e *Expr) (val, known bool) {
	if e == nil {
		return false, false
	}
	if e.op == "const" {
		return e.c.sign() != 0, true
	}
	get := func(e *Expr) (bool, bool) {
		if e == nil {
			return false, false
		}
		if f, ok := s.facts.get(e); ok {
			if c, ok := f.isConst(); ok {
				return c.sign() != 0, true
			}
		}
		return false, false
	}
	if v, ok := get(e); ok {
		return v, true
	}
	switch e.op {
	case "!":
		v, ok := s.truth(e.a)
		return !v, ok
	case "==":
		if e.a == e.b {
			return true, true
		}
		na, oka := s.enum(e.a)
		nb, okb := s.enum(e.b)
		if oka && okb {
			if ca, ok := na.isConst(); ok {
				if cb, ok := nb.isConst(); ok {
					return ca == cb, true
				}
			}
			if na.meet(nb).isBot() {
				return false, true
			}
		}
		if v, ok := get(s.x.mk("<", e.a, e.b, I{}, "")); ok && v {
			return false, true
		}
		if v, ok := get(s.x.mk("<", e.b, e.a, I{}, "")); ok && v {
			return false, true
		}
	case "<":
		if e.a == e.b {
			return false, true
		}
		na, oka := s.enum(e.a)
		nb, okb := s.enum(e.b)
		if oka && okb {
			if na.isBot() || nb.isBot() {
				return false, true
			}
			if na.hi.cmp(nb.lo) < 0 {
				return true, true
			}
			if na.lo.cmp(nb.hi) >= 0 {
				return false, true
			}
		}
		// a < a + k and a + k < a
		if x := addend(e.b, e.a); x != nil {
			if n, ok := s.enum(x); ok && !n.isBot() {
				if n.lo.sign() > 0 {
					return true, true
				}
				if n.hi.sign() <= 0 {
					return false, true
				}
			}
		}
		if x := addend(e.a, e.b); x != nil {
			if n, ok := s.enum(x); ok && !n.isBot() {
				if n.hi.sign() < 0 {
					return true, true
				}
				if n.lo.sign() >= 0 {
					return false, true
				}
			}
		}
		eq, eqk := get(s.eqExpr(e.a, e.b))
		if eqk && eq {
			return false, true
		}
		if v, ok := get(s.x.mk("<", e.b, e.a, I{}, "")); ok {
			if v {
				return false, true
			}
			if eqk && !eq {
				return true, true
			}
		}
	}
	return false, false
}

// addend returns k if sum is a + k without wrapping, or nil.
func addend(sum, a *Expr) *Expr {
	if sum == nil || sum.op != "+" || sum.nm != "nw" {
		return nil
	}
	if sum.a == a {
		return sum.b
	}
	if sum.b == a {
		return sum.a
	}
	return nil
}

// assume adds e == truth; it reports whether the state stays feasible.
func (s *State) assume(e *Expr, truth bool) bool {
	if e == nil {
		return true
	}
	if v, ok := s.truth(e); ok && v != truth {
		return false
	}
	if e.op == "const" {
		return true
	}
	if truth {
		s.facts.set(e, mkConst(i64(1)))
	} else {
		s.facts.set(e, mkConst(i64(0)))
	}
	switch e.op {
	case "!":
		return s.assume(e.a, !truth)
	case "==":
		// x % y != 0 implies y >= 2.
		if r, z := e.a, e.b; !truth && r != nil && z != nil {
			if r.op == "const" {
				r, z = z, r
			}
			if r.op == "%" && z.op == "const" && z.c.sign() == 0 {
				if q := s.x.mk("/", r.a, r.b, I{}, r.nm); q != nil {
					nx, ok1 := s.enum(r.a)
					ny, ok2 := s.enum(r.b)
					if ok1 && ok2 && nx.lo.sign() >= 0 && ny.lo.sign() >= 0 {
						d := ny.lo
						if d.cmp(i64(2)) < 0 {
							d = i64(2)
						}
						if !s.setNum(q, mkRange(i64(0), quoI(nx.hi, d))) {
							return false
						}
					}
				}
			}
		}
	case "<":
	default:
		return true
	}
	na, oka := s.enum(e.a)
	nb, okb := s.enum(e.b)
	if !oka || !okb {
		return true
	}
	op := e.op
	if !truth {
		op = map[string]string{"==": "!=", "<": ">="}[op]
	}
	ra, rb := refineCmp(op, na, nb)
	if ra.isBot() || rb.isBot() {
		return false
	}
	return s.setNum(e.a, ra) && s.setNum(e.b, rb)
}

// refineCmp refines a and b assuming a op b.
func refineCmp(op string, a, b Num) (Num, Num) {
	one := i64(1)
	switch op {
	case "==":
		m := a.meet(b)
		return m, m
	case "!=":
		if c, ok := b.isConst(); ok {
			a = remove(a, c)
		}
		if c, ok := a.isConst(); ok {
			b = remove(b, c)
		}
		return a, b
	case "<":
		return below(a, b.hi.sub(one)), above(b, a.lo.add(one))
	case "<=":
		return below(a, b.hi), above(b, a.lo)
	case ">":
		return above(a, b.lo.add(one)), below(b, a.hi.sub(one))
	case ">=":
		return above(a, b.lo), below(b, a.hi)
	}
	return a, b
}
func filter(n Num, f func(I) bool) Num {
	xs := []I{}
	for _, x := range n.set {
		if f(x) {
			xs = append(xs, x)
		}
	}
	return mkSet(xs)
}
func below(n Num, hi I) Num {
	if n.set != nil {
		return filter(n, func(x I) bool { return x.cmp(hi) <= 0 })
	}
	if hi.cmp(n.lo) < 0 {
		return Num{set: []I{}}
	}
	if hi.cmp(n.hi) >= 0 {
		return n
	}
	r := mkRange(n.lo, hi)
	if r.set == nil {
		r.k0 |= n.k0
		r.k1 |= n.k1
	}
	return r
}
func above(n Num, lo I) Num {
	if n.set != nil {
		return filter(n, func(x I) bool { return x.cmp(lo) >= 0 })
	}
	if lo.cmp(n.hi) > 0 {
		return Num{set: []I{}}
	}
	if lo.cmp(n.lo) <= 0 {
		return n
	}
	r := mkRange(lo, n.hi)
	if r.set == nil {
		r.k0 |= n.k0
		r.k1 |= n.k1
	}
	return r
}
func remove(n Num, c I) Num {
	if n.set != nil {
		return filter(n, func(x I) bool { return x != c })
	}
	if n.lo == c {
		return above(n, c.add(i64(1)))
	}
	if n.hi == c {
		return below(n, c.sub(i64(1)))
	}
	return n
}

// ---- joining -------------------------------------------------------------------

// norm folds the facts about v into v.
func (s *State) norm(v *Val) *Val {
	if v == nil {
		return nil
	}
	if v.k == KInt && v.e != nil && v.e.op != "const" {
		if f, ok := s.facts.get(v.e); ok {
			m := v.n.meet(f)
			if !m.eq(v.n) {
				w := *v
				w.n = m
				if c, ok := m.isConst(); ok {
					w.e = s.x.konst(c)
				}
				return &w
			}
		}
	}
	if (v.k == KIface || v.k == KPtr) && v.null && v.e != nil && (v.unk || len(v.p) > 0 || v.dyn != nil) {
		if f, ok := s.facts.get(s.x.mk("isnil", v.e, nil, I{}, "")); ok {
			if c, ok := f.isConst(); ok {
				w := *v
				if c.sign() == 0 {
					w.null = false
				} else {
					w.p, w.unk, w.dyn, w.in = nil, false, nil, nil
				}
				return &w
			}
		}
	}
	if (v.k == KStruct || v.k == KTuple) && len(v.fs) > 0 {
		var fs []*Val
		for i, f := range v.fs {
			g := s.norm(f)
			if g != f && fs == nil {
				fs = append([]*Val{}, v.fs...)
			}
			if fs != nil {
				fs[i] = g
			}
		}
		if fs != nil {
			w := *v
			w.fs = fs
			return &w
		}
	}
	return v
}

// joinState joins b into a at join point pt; it reports whether the result
// differs from a.
func joinState(a, b *State, pt int64, widen bool) (*State, bool) {
	changed := false
	j := &joiner{a.x, pt, widen}
	r := &State{x: a.x, base: a.base, ghost: a.ghost, defs: a.defs, out: a.out, uid: a.x.newUID()}
	a.uid, b.uid = a.x.newUID(), a.x.newUID()
	n := len(a.frames) - 1
	r.frames = append(make([][]*Val, 0, n+2), a.frames[:n]...)
	ta, tb := a.frames[n], b.frames[n]
	regs := make([]*Val, len(ta))
	for i := range ta {
		if ta[i] == nil || tb[i] == nil {
			continue
		}
		v := j.at(a.norm(ta[i]), b.norm(tb[i]), uint64(i))
		regs[i] = v
		if !changed && !eqVal(v, ta[i]) {
			changed = true
		}
	}
	r.frames = append(r.frames, regs)
	r.topOwn = true
	r.heap.s = make([]heapEnt, 0, len(a.heap.s)+4)
	put := func(id int, o *ObjSt) { r.heap.s = append(r.heap.s, heapEnt{id, o}) }
	doObj := func(id int, oa, ob *ObjSt) {
		if oa == nil {
			oa = a.base[id]
		}
		if ob == nil {
			ob = b.base[id]
		}
		if oa == nil {
			put(id, ob)
			changed = true
			return
		}
		if ob == nil || oa == ob && !j.staleObj(oa) {
			put(id, oa)
			return
		}
		o := &ObjSt{weak: oa.weak || ob.weak, put: oa.put || ob.put, pool: oa.pool || ob.pool, shr: oa.shr || ob.shr}
		diff := o.weak != oa.weak || o.put != oa.put || o.pool != oa.pool || o.shr != oa.shr
		o.cells = make([]*Val, len(oa.cells))
		o.w = make([]Role, len(oa.cells))
		da, db := deadTaint(a, oa), deadTaint(b, ob)
		for i := range oa.cells {
			ca, cb := a.norm(oa.cells[i]), b.norm(ob.cells[i])
			if da != nil && da(i) && cb.t&(TPool|TOld) == 0 {
				if ca.t&(TPool|TOld) != 0 && i != bigL.unscaled {
					ca = cb
				}
				ca = dropTaint(ca, TPool|TOld)
			}
			if db != nil && db(i) && ca.t&(TPool|TOld) == 0 {
				if cb.t&(TPool|TOld) != 0 && i != bigL.unscaled {
					cb = ca
				}
				cb = dropTaint(cb, TPool|TOld)
			}
			v := j.at(ca, cb, uint64(id)<<24|uint64(i)<<8|0xff)
			o.cells[i] = v
			o.w[i] = oa.w[i]
			if ob.w[i] != 0 && o.w[i] == 0 {
				o.w[i] = ob.w[i]
			}
			if !diff && (o.w[i] != oa.w[i] || !eqVal(v, oa.cells[i])) {
				diff = true
			}
		}
		if diff {
			changed = true
			o.own = r.uid
			put(id, o)
		} else {
			put(id, oa)
		}
	}
	ha, hb := a.heap.s, b.heap.s
	for x, y := 0, 0; x < len(ha) || y < len(hb); {
		switch {
		case y >= len(hb) || x < len(ha) && ha[x].id < hb[y].id:
			doObj(ha[x].id, ha[x].o, nil)
			x++
		case x >= len(ha) || hb[y].id < ha[x].id:
			doObj(hb[y].id, nil, hb[y].o)
			y++
		default:
			doObj(ha[x].id, ha[x].o, hb[y].o)
			x++
			y++
		}
	}
	fa, fb := a.facts.s, b.facts.s
	rf := make([]factEnt, 0, len(fa)+8)
	y := 0
	for x := range fa {
		e, n := fa[x].e, fa[x].n
		if e.stale(pt) {
			// The values named are those of the previous arrival.
			if own := a.ownFact(e, pt); !own {
				changed = true
			}
			continue
		}
		for y < len(fb) && fb[y].e.id < e.id {
			y++
		}
		if y >= len(fb) || fb[y].e != e {
			changed = true
			continue
		}
		m := fb[y].n
		if n.eq(m) {
			rf = append(rf, fa[x])
			continue
		}
		jn := n.join(m)
		if widen && !jn.eq(n) {
			jn = widenNum(n, jn)
		}
		rf = append(rf, factEnt{e, jn})
		if !jn.eq(n) {
			changed = true
		}
	}
	r.facts.s = rf
	// Values named at this point carry their range as a fact.
	for _, v := range regs {
		r.noteVal(v, pt)
	}
	for _, h := range r.heap.s {
		for _, v := range h.o.cells {
			r.noteVal(v, pt)
		}
	}
	return r, changed
}

// ownFact reports whether the fact about e is merely the range of a value
// named at pt, which noteVal recomputes.
func (s *State) ownFact(e *Expr, pt int64) bool {
	for e.op == "sub" {
		e = e.a
	}
	return e.op == "atom" && e.c.h == pt
}

func (s *State) noteVal(v *Val, pt int64) {
	if v == nil {
		return
	}
	if v.k == KInt && v.e != nil && v.e.op != "const" && v.e.stale(pt) {
		if f, ok := s.facts.get(v.e); ok {
			s.facts.set(v.e, f.meet(v.n))
		} else {
			s.facts.set(v.e, v.n)
		}
	}
	for _, f := range v.fs {
		s.noteVal(f, pt)
	}
	if v.ln != nil {
		s.noteVal(v.ln, pt)
	}
	if v.in != nil {
		s.noteVal(v.in, pt)
	}
}

// gc drops objects and facts that nothing refers to.
func (s *State) gc(keep map[int]bool) {
	live := map[int]bool{}
	exprs := map[*Expr]bool{}
	var val func(v *Val)
	var mark func(id int)
	var ex func(e *Expr)
	ex = func(e *Expr) {
		for e != nil && !exprs[e] {
			exprs[e] = true
			ex(e.b)
			e = e.a
		}
	}
	mark = func(id int) {
		if live[id] {
			return
		}
		live[id] = true
		if o := s.heap.get(id); o != nil {
			for _, c := range o.cells {
				val(c)
			}
		}
	}
	val = func(v *Val) {
		if v == nil {
			return
		}
		ex(v.e)
		for _, p := range v.p {
			mark(p.obj)
		}
		for _, f := range v.fs {
			val(f)
		}
		for _, f := range v.fn {
			for _, b := range f.binds {
				val(b)
			}
		}
		val(v.in)
		val(v.ln)
	}
	for _, f := range s.frames {
		for _, v := range f {
			val(v)
		}
	}
	for _, d := range s.defs {
		val(d.fn)
		for _, a := range d.args {
			val(a)
		}
	}
	for _, h := range s.heap.s {
		if s.base[h.id] != nil || keep[h.id] {
			mark(h.id)
		}
	}
	hs := make([]heapEnt, 0, len(s.heap.s))
	for _, h := range s.heap.s {
		if live[h.id] {
			hs = append(hs, h)
		}
	}
	s.heap = heapMap{s: hs}
	// Linear combinations do not refer to their terms.
	for _, e := range s.x.terms {
		ex(e)
	}
	s.facts.filter(func(e *Expr) bool {
		ok := exprs[e]
		if !ok {
			// keep relations between live values
			switch e.op {
			case "==", "<":
				ok = (exprs[e.a] || e.a.op == "const") && (exprs[e.b] || e.b.op == "const")
			case "isu64", "bsign", "isnil":
				ok = exprs[e.a]
			}
		}
		return ok
	})
}

// bigL is the layout of decimal.Big.
var bigL bigLayout

// deadTaint tells which fields of a decimal mean nothing in s: what they hold
// need not taint the join with a state where they do mean something, because
// whoever reads them tests the field that tells the states apart.
func deadTaint(s *State, o *ObjSt) func(i int) bool {
	if len(o.cells) != bigL.n || o.cells[bigL.unscaled].k != KBig {
		return nil
	}
	f := s.norm(o.cells[bigL.form]).n
	if o.cells[bigL.form].t&(TPool|TOld) == 0 && f.set != nil && len(f.set) > 0 && f.set[0].l >= 2 {
		return func(i int) bool {
			return i == bigL.exp || i == bigL.precision || i == bigL.unscaled || i == bigL.compact && f.set[len(f.set)-1].l < 4
		}
	}
	if c := o.cells[bigL.compact]; c.t&(TPool|TOld) == 0 && !s.norm(c).n.contains(maxU64) {
		return func(i int) bool { return i == bigL.unscaled }
	}
	return nil
}

func dropTaint(v *Val, t Taint) *Val {
	if v.t&t == 0 {
		return v
	}
	w := *v
	w.t &^= t
	return &w
}
