package main

import (
	"fmt"
	"strings"
)

// The expected class of every operation's result for every class of operands,
// written from the General Decimal Arithmetic specification and the package's
// documentation.

const finConds = cClamped | cInexact | cRounded | cOverflow | cSubnormal | cUnderflow

// alt is one permitted outcome.
type alt struct {
	forms []uint64
	zero  int // 0: any, 1: zero, 2: not zero
	must  uint64
	may   uint64
	nan   bool
}

func (a alt) String() string {
	var f []string
	for _, x := range a.forms {
		n := formName(x)
		if a.zero == 1 {
			n = n[:1] + "0"
		}
		f = append(f, n)
	}
	s := strings.Join(f, "/")
	if a.zero == 2 {
		s += " (not zero)"
	}
	s += " raising " + condString(a.must)
	if m := a.may &^ a.must; m != 0 {
		s += " and possibly " + condString(m)
	}
	return s
}

func altsString(as []alt) string {
	var s []string
	for _, a := range as {
		s = append(s, a.String())
	}
	return strings.Join(s, "; or ")
}

// match tells whether outcome rc is permitted by one of the alternatives.
func match(rc ResCls, as []alt, conds bool) bool {
	for _, a := range as {
		if rc.forms.set == nil {
			continue
		}
		ok := true
		for _, f := range rc.forms.set {
			in := false
			for _, g := range a.forms {
				in = in || f.l == g
			}
			ok = ok && in
		}
		if !ok {
			continue
		}
		if a.zero == 1 && !rc.comp.eq(mkConst(i64(0))) || a.zero == 2 && rc.comp.contains(i64(0)) {
			continue
		}
		if conds && (rc.must&a.must != a.must || rc.may&0x1fff&^(a.may|a.must) != 0) {
			continue
		}
		return true
	}
	// The outcome may merge several permitted ones.
	if rc.forms.set != nil && len(rc.forms.set) > 1 {
		for _, f := range rc.forms.set {
			r := rc
			r.forms = mkConst(f)
			if f.l >= 2 {
				r.comp = mkRange(i64(0), maxU64)
			}
			if !match(r, as, conds) {
				return false
			}
		}
		return true
	}
	return false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func aInf(neg bool, c uint64) alt  { return alt{forms: []uint64{2 | b2u(neg)}, must: c, may: c} }
func aZero(neg bool, c uint64) alt { return alt{forms: []uint64{b2u(neg)}, zero: 1, may: c} }
func aZeroX(neg bool, c uint64) alt {
	return alt{forms: []uint64{b2u(neg)}, zero: 1, must: c, may: c}
}
func aNaN(c uint64) alt { return alt{forms: []uint64{8}, must: c, may: c, nan: true} }

// aFin is any finite result of the given sign, or its overflow.
func aFin(neg bool) []alt {
	return []alt{{forms: []uint64{b2u(neg)}, may: finConds},
		{forms: []uint64{2 | b2u(neg)}, must: cOverflow | cInexact | cRounded, may: finConds}}
}
func aBoth() []alt { return append(aFin(false), aFin(true)...) }

const invalid = cInvalidOperation

// nanRule is the result for NaN operands.
func nanRule(cls []int) []alt {
	for _, c := range cls {
		if clsSNaN(c) {
			return []alt{{forms: []uint64{8 | b2u(clsNeg(c))}, must: invalid, may: invalid, nan: true}}
		}
	}
	for _, c := range cls {
		if clsNaN(c) {
			return []alt{{forms: []uint64{8 | b2u(clsNeg(c))}, nan: true}}
		}
	}
	return nil
}

type opSpec struct {
	name    string
	n       int  // operands
	inPlace bool // z is the operand
	// classes of the result for operands that are not NaN; nil: not specified
	exp func(x []int) []alt
	// the second result
	exp2    func(x []int) []alt
	keepNaN bool // NaNs are kept as they are
	heavy   bool // finite operands need the composite treatment
	args    func(it *Interp, st *State, r *run)
}

func one(a alt) []alt { return []alt{a} }

func mulSpec(x []int) []alt {
	neg := clsNeg(x[0]) != clsNeg(x[1])
	z := clsZero(x[0]) || clsZero(x[1])
	i := clsInf(x[0]) || clsInf(x[1])
	switch {
	case z && i:
		return one(aNaN(invalid))
	case i:
		return one(aInf(neg, 0))
	case z:
		return one(aZero(neg, cClamped))
	}
	return aFin(neg)
}

func addSpecS(x []int, flip bool) []alt {
	n0, n1 := clsNeg(x[0]), clsNeg(x[1]) != flip
	i0, i1 := clsInf(x[0]), clsInf(x[1])
	switch {
	case i0 && i1:
		if n0 != n1 {
			return one(aNaN(invalid))
		}
		return one(aInf(n0, 0))
	case i0:
		return one(aInf(n0, 0))
	case i1:
		return one(aInf(n1, 0))
	case clsZero(x[0]) && clsZero(x[1]):
		if n0 == n1 {
			return one(aZero(n0, cClamped))
		}
		// +0, except -0 when rounding toward -Infinity
		return []alt{aZero(false, cClamped), aZero(true, cClamped)}
	case clsZero(x[0]):
		return aFin(n1)
	case clsZero(x[1]):
		return aFin(n0)
	case n0 == n1:
		return aFin(n0)
	}
	return aBoth()
}

func quoSpec(x []int, integral bool) []alt {
	neg := clsNeg(x[0]) != clsNeg(x[1])
	i0, i1 := clsInf(x[0]), clsInf(x[1])
	z0, z1 := clsZero(x[0]), clsZero(x[1])
	switch {
	case i0 && i1:
		return one(aNaN(invalid))
	case i0:
		return one(aInf(neg, 0))
	case i1:
		if integral {
			return one(aZero(neg, cClamped))
		}
		return one(aZeroX(neg, cClamped))
	case z0 && z1:
		return one(aNaN(cDivisionUndefined | invalid))
	case z1:
		return one(aInf(neg, cDivisionByZero))
	case z0:
		return one(aZero(neg, cClamped))
	}
	if integral {
		return append(aFin(neg), alt{forms: []uint64{8}, must: cDivisionImpossible, may: cDivisionImpossible | invalid | finConds, nan: true})
	}
	// A quotient whose exponent cannot be represented is undefined.
	return append(aFin(neg), alt{forms: []uint64{8}, must: invalid, may: 0x1fff, nan: true})
}

func remSpec(x []int) []alt {
	neg := clsNeg(x[0])
	i0, i1 := clsInf(x[0]), clsInf(x[1])
	z0, z1 := clsZero(x[0]), clsZero(x[1])
	switch {
	case i0:
		return one(aNaN(invalid))
	case z0 && z1:
		return one(aNaN(cDivisionUndefined | invalid))
	case z1:
		return one(aNaN(cDivisionByZero | invalid))
	case z0:
		return one(aZero(neg, cClamped))
	case i1:
		return aFin(neg)
	}
	return append(aFin(neg), alt{forms: []uint64{8}, must: cDivisionImpossible, may: cDivisionImpossible | invalid | finConds, nan: true})
}

// same is the result of an operation that only rounds or moves its operand.
func sameSpec(x []int, flip int) []alt {
	neg := clsNeg(x[0])
	switch flip {
	case 1:
		neg = !neg
	case 2:
		neg = false
	}
	switch {
	case clsInf(x[0]):
		return one(aInf(neg, 0))
	case clsZero(x[0]):
		return one(aZero(neg, cClamped))
	}
	return aFin(neg)
}

// intSpec is the result of rounding to an integral value: never larger in
// digits than the operand, so that nothing overflows.
func intSpec(x []int) []alt {
	neg := clsNeg(x[0])
	switch {
	case clsInf(x[0]):
		return one(aInf(neg, 0))
	case clsZero(x[0]):
		return one(aZero(neg, cClamped))
	}
	// That the rounded coefficient still fits in the operand's precision is a
	// matter of digit counts, which are not tracked.
	return []alt{{forms: []uint64{b2u(neg)}, may: cInexact | cRounded | cSubnormal | cUnderflow | cClamped},
		{forms: []uint64{8}, must: invalid | cRounded, may: invalid | cRounded | cInexact, nan: true}}
}

var opSpecs = []opSpec{
	{name: "Add", n: 2, exp: func(x []int) []alt { return addSpecS(x, false) }},
	{name: "Sub", n: 2, exp: func(x []int) []alt { return addSpecS(x, true) }},
	{name: "Mul", n: 2, exp: mulSpec},
	{name: "Quo", n: 2, exp: func(x []int) []alt { return quoSpec(x, false) }},
	{name: "QuoInt", n: 2, exp: func(x []int) []alt { return quoSpec(x, true) }},
	{name: "QuoRem", n: 2, exp: func(x []int) []alt { return quoSpec(x, true) }, exp2: remSpec},
	{name: "Rem", n: 2, exp: remSpec},
	{name: "FMA", n: 3, exp: func(x []int) []alt {
		var r []alt
		for _, a := range mulSpec(x[:2]) {
			if a.nan {
				return one(a)
			}
			c := clsPosC
			switch {
			case a.forms[0]&2 != 0 && a.must == 0:
				c = clsPosInf
			case a.forms[0]&2 != 0:
				continue
			case a.zero == 1:
				c = clsPosZero
			}
			c |= int(a.forms[0] & 1)
			r = append(r, addSpecS([]int{c, x[2]}, false)...)
			if c == clsPosC || c == clsNegC {
				// the product may be tiny or rounded to zero
				r = append(r, addSpecS([]int{clsPosZero | c&1, x[2]}, false)...)
				if clsZero(x[2]) {
					r = append(r, aBoth()...)
				}
			}
		}
		return r
	}},
	{name: "Abs", n: 1, exp: func(x []int) []alt { return sameSpec(x, 2) }},
	{name: "Neg", n: 1, exp: func(x []int) []alt {
		if clsZero(x[0]) {
			// 0 - x: +0, except -0 when rounding +0 toward -Infinity
			if clsNeg(x[0]) {
				return one(aZero(false, cClamped))
			}
			return []alt{aZero(false, cClamped), aZero(true, cClamped)}
		}
		return sameSpec(x, 1)
	}},
	{name: "Set", keepNaN: true, n: 1, exp: func(x []int) []alt { return sameSpec(x, 0) }},
	{name: "Floor", n: 1, exp: intSpec},
	{name: "Ceil", n: 1, exp: intSpec},
	{name: "NextPlus", n: 1, exp: nextSpec(false)},
	{name: "NextMinus", n: 1, exp: nextSpec(true)},
	{name: "Round", keepNaN: true, inPlace: true, exp: func(x []int) []alt { return sameSpec(x, 0) }},
	{name: "Reduce", inPlace: true, exp: func(x []int) []alt { return sameSpec(x, 0) }},
	{name: "RoundToInt", keepNaN: true, inPlace: true, exp: intSpec},
	{name: "Quantize", inPlace: true, exp: func(x []int) []alt {
		if clsInf(x[0]) {
			return one(aNaN(invalid))
		}
		neg := clsNeg(x[0])
		z := 0
		if clsZero(x[0]) {
			z = 1
		}
		return []alt{{forms: []uint64{b2u(neg)}, zero: z, may: cClamped | cInexact | cRounded | cSubnormal | cUnderflow},
			{forms: []uint64{8}, must: invalid, may: invalid | cInexact | cRounded | cInsufficientStorage, nan: true}}
	}},
	{name: "Sqrt", n: 1, heavy: true, exp: func(x []int) []alt {
		switch {
		case clsZero(x[0]):
			return one(aZero(clsNeg(x[0]), cClamped))
		case clsNeg(x[0]):
			return one(aNaN(invalid))
		case clsInf(x[0]):
			return one(aInf(false, 0))
		}
		return nil
	}},
	{name: "Exp", n: 1, heavy: true, exp: func(x []int) []alt {
		switch {
		case clsZero(x[0]):
			return one(alt{forms: []uint64{0}, zero: 2, may: 0})
		case x[0] == clsPosInf:
			return one(aInf(false, 0))
		case x[0] == clsNegInf:
			return one(aZero(false, 0))
		}
		return nil
	}},
	{name: "Log", n: 1, heavy: true, exp: logSpec},
	{name: "Log10", n: 1, heavy: true, exp: logSpec},
	{name: "Sin", n: 1, heavy: true, exp: trigSpec(true)},
	{name: "Cos", n: 1, heavy: true, exp: trigSpec(false)},
	{name: "Tan", n: 1, heavy: true, exp: trigSpec(false)},
	{name: "Asin", n: 1, heavy: true, exp: trigSpec(false)},
	{name: "Acos", n: 1, heavy: true, exp: trigSpec(false)},
	{name: "Atan", n: 1, heavy: true, exp: func(x []int) []alt { return nil }},
	{name: "Atan2", n: 2, heavy: true, exp: func(x []int) []alt { return nil }},
	{name: "Hypot", n: 2, heavy: true, exp: func(x []int) []alt {
		if clsInf(x[0]) || clsInf(x[1]) {
			return one(aInf(false, 0))
		}
		return nil
	}},
	{name: "Pow", n: 2, heavy: true, exp: powSpec},
	{name: "Pi", n: 0, heavy: true, exp: func(x []int) []alt { return nil }},
	{name: "E", n: 0, heavy: true, exp: func(x []int) []alt { return nil }},
}

func logSpec(x []int) []alt {
	switch {
	case clsZero(x[0]):
		return one(alt{forms: []uint64{3}, may: 0})
	case clsNeg(x[0]):
		return one(aNaN(invalid))
	case clsInf(x[0]):
		return one(aInf(false, 0))
	}
	return nil
}

func trigSpec(sin bool) func(x []int) []alt {
	return func(x []int) []alt {
		switch {
		case clsInf(x[0]):
			return one(aNaN(invalid))
		case sin && clsZero(x[0]):
			return []alt{aZero(false, 0), aZero(true, 0)}
		}
		return nil
	}
}

func nextSpec(minus bool) func(x []int) []alt {
	return func(x []int) []alt {
		if clsInf(x[0]) {
			if clsNeg(x[0]) == minus {
				return one(aInf(minus, 0))
			}
			return one(alt{forms: []uint64{0, 1}})
		}
		// The neighbour on the requested side; conditions are not affected.
		var r []alt
		switch {
		case clsZero(x[0]):
			r = append(r, alt{forms: []uint64{b2u(minus)}}, alt{forms: []uint64{2 | b2u(minus)}})
		case clsNeg(x[0]) == minus:
			r = append(r, alt{forms: []uint64{b2u(minus)}}, alt{forms: []uint64{2 | b2u(minus)}})
		default:
			r = append(r, alt{forms: []uint64{0, 1}}, alt{forms: []uint64{2, 3}})
		}
		return r
	}
}

func powSpec(x []int) []alt {
	b, e := x[0], x[1]
	switch {
	case clsZero(e):
		if clsZero(b) {
			return one(aNaN(invalid)) // 0 ** 0
		}
		return one(alt{forms: []uint64{0}, zero: 2, may: 0}) // x ** 0 = 1
	case clsInf(b) || clsInf(e) || clsZero(b):
		if clsZero(b) && !clsInf(e) && !clsNeg(b) {
			if clsNeg(e) {
				return []alt{{forms: []uint64{2}, may: cDivisionByZero}}
			}
			return one(aZero(false, cClamped))
		}
		return nil
	}
	return nil
}

// fullClasses are the operand classes the tables range over.
var fullClasses = []int{clsPosZero, clsNegZero, clsPosC, clsNegC, clsPosI, clsNegI, clsPosInf, clsNegInf, clsPosQ, clsNegQ, clsPosS, clsNegS}

func clsNames(op string, cls []int) string {
	var s []string
	for _, c := range cls {
		s = append(s, clsName[c])
	}
	return fmt.Sprintf("%s(%s)", op, strings.Join(s, ", "))
}

// tuples calls f with every tuple of n classes.
func tuples(n int, cs []int, f func(cls []int)) {
	cls := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int{}, cls...))
			return
		}
		for _, c := range cs {
			cls[i] = c
			rec(i + 1)
		}
	}
	rec(0)
}

func anyNaN(cls []int) bool {
	for _, c := range cls {
		if clsNaN(c) {
			return true
		}
	}
	return false
}

func allFinNZ(cls []int) bool {
	for _, c := range cls {
		if !clsFinite(c) || clsZero(c) {
			return false
		}
	}
	return len(cls) > 0
}

// expectFor returns the permitted outcomes for the operands, nil if the
// specification does not settle them.
func (o *opSpec) expectFor(cls []int, second bool) []alt {
	if anyNaN(cls) && o.keepNaN {
		c := cls[0]
		f := uint64(8)
		if clsSNaN(c) {
			f = 4
		}
		return []alt{{forms: []uint64{f | b2u(clsNeg(c))}, nan: true}}
	}
	if r := nanRule(cls); r != nil {
		if o.name == "FMA" && (clsZero(cls[0]) && clsInf(cls[1]) || clsInf(cls[0]) && clsZero(cls[1])) {
			// 0 * Inf is invalid whatever is added to it
			return one(aNaN(invalid))
		}
		return r
	}
	if second {
		if o.exp2 == nil {
			return nil
		}
		return o.exp2(cls)
	}
	return o.exp(cls)
}

// tableRun analyses op for the operand classes.
func tableRun(it *Interp, o *opSpec, cls []int, mode int64, f func(e *entrySpec)) *run {
	fn := it.P.Method(it.P.ctxType, o.name)
	e := entrySpec{fn: fn, mode: mode, zcls: -1}
	if o.heavy {
		// an unlimited precision makes no sense for an irrational result
		cs := anyCtx(mkConst(i64(mode)))
		cs.prec = mkRange(i64(0), i64(1_000_000_000))
		e.ctx = &cs
	}
	if o.inPlace {
		e.zcls = cls[0]
	} else {
		e.cls = cls
	}
	if f != nil {
		f(&e)
	}
	it.splitLocals = !o.heavy
	it.useHavoc(havocFinite, it.P.Func(modPath, "BinarySplit"), it.P.Func(modPath, "BinarySplitDynamic"))
	return it.runEntry(e, true)
}

func (o *opSpec) arity() int {
	if o.inPlace {
		return 1
	}
	return o.n
}

// classSets enumerates the operand classes an operation is analysed for. With
// three operands, the two representations of a finite number are not told
// apart.
func (o *opSpec) classSets(reps bool, f func(cls []int)) {
	cs := fullClasses
	if o.arity() >= 3 || !reps {
		cs = []int{clsPosZero, clsNegZero, clsPosC, clsNegC, clsPosInf, clsNegInf, clsPosQ, clsNegQ, clsPosS, clsNegS}
	}
	tuples(o.arity(), cs, f)
}
