package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ResCls is the abstract value a decimal result may have at the end of a call.
type ResCls struct {
	forms Num    // possible forms
	comp  Num    // compact word (payload for NaN)
	must  uint64 // conditions certainly set
	may   uint64 // conditions possibly set
	pan   string // the call panics
	ret   string // abstraction of the returned value
	st    *State
	rv    *Val
}

// entrySpec describes one abstract run.
type entrySpec struct {
	fn     *ssa.Function
	mode   int64 // OperatingMode of the explicit context and the operands
	cls    []int // classes of the decimal operands, in parameter order, without results
	alias  []int // alias[i]=-1: own object, 0: z, k>0: operand k-1
	setup  func(it *Interp, st *State, r *run)
	cfg    func(it *Interp)
	ctx    *CtxSpec
	zcls   int
	zconds Num
}

type run struct {
	it   *Interp
	st   *State
	z    int
	r    int // second result
	ops  []int
	args []*Val
	outs []Outcome
	fn   *ssa.Function
}

// opLayout says which parameters of fn are results and which are operands.
// Results are recognised by name position: the receiver-or-first *Big
// parameter of a Context method is the result; the parameter r of QuoRem is a
// second result.
func (it *Interp) isBigPtr(v *ssa.Parameter) bool {
	return v.Type().String() == "*"+modPath+".Big"
}

func (it *Interp) runEntry(e entrySpec, quiet bool) *run {
	r := &run{it: it, r: -1, fn: e.fn}
	st := it.newState()
	r.st = st
	spec := anyCtx(mkConst(i64(e.mode)))
	if e.ctx != nil {
		spec = *e.ctx
	}
	zs := anyCtx(mkConst(i64(e.mode)))
	zs.prefix, spec.prefix = "z.", "c."
	zs.taint = TZCtx
	if e.zconds.set != nil || !e.zconds.hi.eq(I{}) {
		zs.conds = e.zconds
	}
	r.z = it.newBig(st, "z", OwnResult, e.zcls, zs, TOld)
	k, nz := 0, 0
	for i, p := range e.fn.Params {
		switch {
		case p.Type().String() == modPath+".Context":
			r.args = append(r.args, it.ctxVal(st, spec))
		case it.isBigPtr(p):
			if nz == 0 {
				r.args = append(r.args, ptrV(RRes, Ptr{r.z, 0}))
				nz++
				continue
			}
			if k >= len(e.cls) {
				// a second result
				if i == len(e.fn.Params)-1 {
					s2 := zs
					s2.prefix = "r."
					r.r = it.newBig(st, "r", OwnResult, -1, s2, TOld)
					r.args = append(r.args, ptrV(RRes2, Ptr{r.r, 0}))
					continue
				}
			}
			a := -1
			if k < len(e.alias) {
				a = e.alias[k]
			}
			xs := anyCtx(mkConst(i64(e.mode)))
			xs.prefix = fmt.Sprintf("x%d.", k)
			xs.taint = TXCtx
			var id int
			switch {
			case a < 0:
				id = it.newBig(st, fmt.Sprintf("x%d", k), OwnOperand, e.cls[k], xs, 0)
			case a == 0:
				id = r.z
				tmp := it.newBig(st, "z", OwnResult, e.cls[k], zs, 0)
				st.heap.set(id, st.heap.get(tmp))
				// the digits belong to z
				s := st.objW(id)
				u := *s.cells[it.bl.unscaled]
				u.p = []Ptr{{it.backing(Ptr{id, it.bl.unscaled}), 0}}
				s.cells[it.bl.unscaled] = &u
			default:
				id = r.ops[a-1]
			}
			r.ops = append(r.ops, id)
			r.args = append(r.args, ptrV(ROp+Role(k), Ptr{id, 0}))
			k++
		default:
			r.args = append(r.args, it.unknown(st, p.Type()))
		}
	}
	it.tracked = []int{r.z}
	if e.cfg != nil {
		e.cfg(it)
	}
	if e.setup != nil {
		e.setup(it, st, r)
	}
	r.outs = it.enter(st, e.fn, r.args)
	return r
}

func (n I) eq(m I) bool { return n == m }

// results summarises the outcomes of a run for the decimal id.
func (r *run) results(id int) []ResCls {
	var rs []ResCls
	for _, o := range r.outs {
		s := o.st.obj(id)
		c := o.st.norm(s.cells[r.it.bl.conds]).n
		rc := ResCls{forms: o.st.norm(s.cells[r.it.bl.form]).n, comp: o.st.norm(s.cells[r.it.bl.compact]).n, pan: o.pan, st: o.st, rv: o.ret}
		rc.must, rc.may = condBounds(c)
		rs = append(rs, rc)
	}
	return rs
}

// condBounds returns the conditions that are certainly and possibly set.
func condBounds(n Num) (must, may uint64) {
	if n.isBot() {
		return 0, 0
	}
	if n.set != nil {
		must = ^uint64(0)
		for _, x := range n.set {
			must &= x.l
			may |= x.l
		}
		return must, may
	}
	return n.k1 & 0xffffffff, ^n.k0 & 0xffffffff
}

func (rc ResCls) String() string {
	var fs []string
	if rc.forms.set != nil {
		for _, x := range rc.forms.set {
			n := formName(x.l)
			if x.l&^1 == 0 {
				switch {
				case rc.comp.eq(mkConst(i64(0))):
					n = n[:1] + "0"
				case !rc.comp.contains(i64(0)):
					n = n[:1] + "nz"
				}
			}
			fs = append(fs, n)
		}
	} else {
		fs = []string{"any"}
	}
	s := strings.Join(fs, ",")
	if rc.forms.set != nil && rc.forms.set[0].l >= 4 {
		s += "(" + rc.comp.String() + ")"
	}
	s += " [" + condString(rc.must&0x1fff)
	if m := rc.may &^ rc.must & 0x1fff; m != 0 {
		s += " +" + condString(m)
	}
	s += "]"
	if rc.pan != "" {
		s = "PANIC " + rc.pan + " " + s
	}
	return s
}

func (r *run) summary(id int) []string {
	m := map[string]bool{}
	for _, rc := range r.results(id) {
		m[rc.String()] = true
	}
	ks := sortedKeys(m)
	sort.Strings(ks)
	return ks
}

func (r *run) fnPos() token.Pos { return r.fn.Pos() }
