package main

import "fmt"

// Expr is a hash-consed symbolic expression naming a value. Atoms name the
// value a location had when control last reached a join point (point != 0) or
// the result of one evaluation of an instruction (point == 0).
type Expr struct {
	id    int
	op    string
	a, b  *Expr
	c     I
	nm    string
	pts   []int64 // join points mentioned, sorted
	depth int
}

type exprKey struct {
	op   string
	a, b int
	c    I
	nm   string
}

// ExprTab hash-conses the expressions of one analysis.
type ExprTab struct {
	m     map[exprKey]*Expr
	jm    map[joinKey]*Expr
	uid   int
	n     int
	fresh uint64
	polys map[*Expr]poly   // text: the numbers that are linear combinations
	terms map[string]*Expr // text: their terms
}

func newExprTab() *ExprTab { return &ExprTab{m: map[exprKey]*Expr{}, jm: map[joinKey]*Expr{}} }

func eid(e *Expr) int {
	if e == nil {
		return 0
	}
	return e.id
}

type joinKey struct {
	pt  int64
	idx uint64
}

func (x *ExprTab) newUID() int { x.uid++; return x.uid }

const maxDepth = 10

// mk returns nil for expressions that are too deep.
func (x *ExprTab) mk(op string, a, b *Expr, c I, nm string) *Expr {
	k := exprKey{op, eid(a), eid(b), c, nm}
	if e := x.m[k]; e != nil {
		return e
	}
	d := 1
	if a != nil && a.depth >= d {
		d = a.depth + 1
	}
	if b != nil && b.depth >= d {
		d = b.depth + 1
	}
	if d > maxDepth {
		return nil
	}
	x.n++
	e := &Expr{id: x.n, op: op, a: a, b: b, c: c, nm: nm, depth: d}
	switch {
	case op == "atom" && c.h != 0:
		e.pts = []int64{c.h}
	case a != nil && b != nil:
		e.pts = mergePts(a.pts, b.pts)
	case a != nil:
		e.pts = a.pts
	case b != nil:
		e.pts = b.pts
	}
	x.m[k] = e
	return e
}

func mergePts(a, b []int64) []int64 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == 1 && len(b) == 1 && a[0] == b[0] {
		return a
	}
	var r []int64
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (x *ExprTab) join(pt int64, idx uint64) *Expr {
	k := joinKey{pt, idx}
	if e := x.jm[k]; e != nil {
		return e
	}
	x.n++
	e := &Expr{id: x.n, op: "atom", c: I{pt, idx}, depth: 1}
	if pt != 0 {
		e.pts = []int64{pt}
	}
	x.jm[k] = e
	return e
}
func (x *ExprTab) named(nm string) *Expr { return x.mk("atom", nil, nil, I{}, nm) }
func (x *ExprTab) newAtom() *Expr {
	x.fresh++
	x.n++
	return &Expr{id: x.n, op: "atom", c: I{0, x.fresh}, depth: 1}
}
func (x *ExprTab) konst(c I) *Expr { return x.mk("const", nil, nil, c, "") }
func (x *ExprTab) sub(e *Expr, i int) *Expr {
	if e == nil {
		return nil
	}
	return x.mk("sub", e, nil, I{0, uint64(i)}, "")
}

func (e *Expr) stale(pt int64) bool {
	if e == nil || pt == 0 {
		return false
	}
	for _, p := range e.pts {
		if p == pt {
			return true
		}
	}
	return false
}

func (e *Expr) String() string {
	if e == nil {
		return "_"
	}
	switch e.op {
	case "atom":
		if e.nm != "" {
			return e.nm
		}
		return fmt.Sprintf("#%d.%d", e.c.h, e.c.l)
	case "const":
		return e.c.String()
	case "sub":
		return fmt.Sprintf("%s.%d", e.a, e.c.l)
	}
	if e.b == nil {
		return e.op + "(" + e.a.String() + ")"
	}
	return "(" + e.a.String() + " " + e.op + " " + e.b.String() + ")"
}

// has reports whether e mentions an atom satisfying f.
func (e *Expr) has(f func(*Expr) bool) bool {
	if e == nil {
		return false
	}
	if f(e) {
		return true
	}
	return e.a.has(f) || e.b.has(f)
}
