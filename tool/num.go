package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// I is a 128-bit two's complement integer: wide enough to hold every int64 and
// uint64, their sums and differences, and (with a check) their products.
type I struct {
	h int64
	l uint64
}

func i64(x int64) I  { return I{x >> 63, uint64(x)} }
func u64(x uint64) I { return I{0, x} }

func (a I) cmp(b I) int {
	if a.h != b.h {
		if a.h < b.h {
			return -1
		}
		return 1
	}
	if a.l != b.l {
		if a.l < b.l {
			return -1
		}
		return 1
	}
	return 0
}
func (a I) add(b I) I {
	l, c := bits.Add64(a.l, b.l, 0)
	return I{a.h + b.h + int64(c), l}
}
func (a I) neg() I {
	l, c := bits.Add64(^a.l, 1, 0)
	return I{^a.h + int64(c), l}
}
func (a I) sub(b I) I { return a.add(b.neg()) }
func (a I) sign() int {
	if a.h < 0 {
		return -1
	}
	if a.h == 0 && a.l == 0 {
		return 0
	}
	return 1
}
func (a I) big() *big.Int {
	x := big.NewInt(a.h)
	x.Lsh(x, 64)
	return x.Add(x, new(big.Int).SetUint64(a.l))
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

// fromBig converts b, saturating at ±2^126.
func fromBig(b *big.Int) I {
	if b.BitLen() > 126 {
		if b.Sign() < 0 {
			return I{-1 << 62, 0}
		}
		return I{1 << 62, 0}
	}
	q, m := new(big.Int).DivMod(b, two64, new(big.Int))
	return I{q.Int64(), m.Uint64()}
}
func (a I) mul(b I) I      { return fromBig(new(big.Int).Mul(a.big(), b.big())) }
func (a I) String() string { return a.big().String() }

func minI(a, b I) I {
	if a.cmp(b) < 0 {
		return a
	}
	return b
}
func maxI(a, b I) I {
	if a.cmp(b) > 0 {
		return a
	}
	return b
}

// Num is an abstract integer: a finite set, or an interval with known bits.
type Num struct {
	set    []I // sorted; non-nil means exactly these (possibly none)
	lo, hi I
	k0, k1 uint64 // bits known to be 0, 1 (of the low 64 bits)
}

const maxSet = 40

func (n Num) isBot() bool { return n.set != nil && len(n.set) == 0 }

func mkSet(xs []I) Num {
	if len(xs) == 0 {
		return Num{set: []I{}}
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].cmp(xs[j]) < 0 })
	out := xs[:1]
	for _, x := range xs[1:] {
		if x.cmp(out[len(out)-1]) != 0 {
			out = append(out, x)
		}
	}
	n := Num{lo: out[0], hi: out[len(out)-1], k0: ^uint64(0), k1: ^uint64(0)}
	for _, x := range out {
		n.k0 &= ^x.l
		n.k1 &= x.l
	}
	if len(out) <= maxSet {
		n.set = out
	}
	return n
}
func mkConst(x I) Num { return mkSet([]I{x}) }
func mkRange(lo, hi I) Num {
	if lo.cmp(hi) > 0 {
		return Num{set: []I{}}
	}
	if d := hi.sub(lo); d.h == 0 && d.l < 4 {
		var xs []I
		for x := lo; x.cmp(hi) <= 0; x = x.add(i64(1)) {
			xs = append(xs, x)
		}
		return mkSet(xs)
	}
	n := Num{lo: lo, hi: hi}
	if lo.sign() >= 0 && hi.h == 0 {
		n.k0 = ^uint64(0)
		if hi.l != 0 {
			// The bits above the first difference of the bounds are known.
			same := ^(^uint64(0) >> uint(bits.LeadingZeros64(lo.l^hi.l)))
			n.k0, n.k1 = same&^hi.l, same&hi.l
		}
	}
	return n
}

func typeRange(t types.Type) (lo, hi I, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return i64(0), i64(1), true
	case types.Int, types.Int64, types.UntypedInt:
		return i64(-1 << 63), i64(1<<63 - 1), true
	case types.Int32, types.UntypedRune:
		return i64(-1 << 31), i64(1<<31 - 1), true
	case types.Int16:
		return i64(-1 << 15), i64(1<<15 - 1), true
	case types.Int8:
		return i64(-1 << 7), i64(1<<7 - 1), true
	case types.Uint, types.Uint64, types.Uintptr:
		return i64(0), u64(^uint64(0)), true
	case types.Uint32:
		return i64(0), u64(1<<32 - 1), true
	case types.Uint16:
		return i64(0), u64(1<<16 - 1), true
	case types.Uint8:
		return i64(0), u64(255), true
	}
	return
}

func topNum(t types.Type) Num {
	lo, hi, ok := typeRange(t)
	if !ok {
		return Num{lo: i64(-1 << 63), hi: u64(^uint64(0))}
	}
	return mkRange(lo, hi)
}

func (n Num) isConst() (I, bool) {
	if len(n.set) == 1 {
		return n.set[0], true
	}
	return I{}, false
}
func (n Num) contains(x I) bool {
	if n.set != nil {
		for _, y := range n.set {
			if x == y {
				return true
			}
		}
		return false
	}
	return n.lo.cmp(x) <= 0 && x.cmp(n.hi) <= 0 && x.l&n.k0 == 0 && ^x.l&n.k1 == 0
}
func (n Num) eq(m Num) bool {
	if (n.set == nil) != (m.set == nil) || len(n.set) != len(m.set) {
		return false
	}
	for i := range n.set {
		if n.set[i] != m.set[i] {
			return false
		}
	}
	if n.set != nil {
		return true
	}
	return n.lo == m.lo && n.hi == m.hi && n.k0 == m.k0 && n.k1 == m.k1
}
func (n Num) join(m Num) Num {
	if n.isBot() {
		return m
	}
	if m.isBot() {
		return n
	}
	if n.set != nil && m.set != nil {
		return mkSet(append(append([]I{}, n.set...), m.set...))
	}
	r := Num{lo: minI(n.lo, m.lo), hi: maxI(n.hi, m.hi), k0: n.k0 & m.k0, k1: n.k1 & m.k1}
	return r
}
func (n Num) meet(m Num) Num {
	if n.set != nil {
		var xs []I
		for _, x := range n.set {
			if m.contains(x) {
				xs = append(xs, x)
			}
		}
		return mkSet(xs)
	}
	if m.set != nil {
		return m.meet(n)
	}
	r := mkRange(maxI(n.lo, m.lo), minI(n.hi, m.hi))
	if r.set != nil {
		var xs []I
		for _, x := range r.set {
			if n.contains(x) && m.contains(x) {
				xs = append(xs, x)
			}
		}
		return mkSet(xs)
	}
	r.k0 |= n.k0 | m.k0
	r.k1 |= n.k1 | m.k1
	return r
}
func (n Num) String() string {
	if n.set != nil {
		var s []string
		for _, x := range n.set {
			s = append(s, x.String())
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprintf("[%s,%s]", n.lo, n.hi)
}

// wrapTo reduces x to the range of t as Go's conversions do.
func wrapTo(x *big.Int, t types.Type) I {
	lo, hi, ok := typeRange(t)
	if !ok {
		return fromBig(x)
	}
	size := new(big.Int).Sub(hi.big(), lo.big())
	size.Add(size, big.NewInt(1))
	y := new(big.Int).Sub(x, lo.big())
	y.Mod(y, size)
	y.Add(y, lo.big())
	return fromBig(y)
}

func boolNum(canF, canT bool) Num {
	switch {
	case canF && canT:
		return mkSet([]I{i64(0), i64(1)})
	case canT:
		return mkConst(i64(1))
	case canF:
		return mkConst(i64(0))
	}
	return Num{set: []I{}}
}
