package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The sweep runs every exported function and method of the library's packages
// on abstract arguments. Parameters have roles: result, operand, or other.

type pkind int

const (
	pOther   pkind = iota
	pRes           // the decimal result
	pRes2          // the second result
	pOp            // a decimal operand
	pOps           // a slice of decimal operands
	pNumIn         // a math/big operand
	pNumOut        // a math/big result
	pData          // a byte slice operand
	pBuf           // a byte slice to be filled
	pCtx           // the explicit Context
	pWrap          // a pointer to a struct that holds a decimal operand
	pWrapRes       // a pointer to a struct that holds a decimal result
)

// api is one exported function or method.
type api struct {
	fn    *ssa.Function
	name  string
	kinds []pkind
	nops  int // decimal operands
}

// sweepPkgs are the library's packages; dectest, suite and fuzz are test
// drivers.
var sweepPkgs = []string{modPath, modPath + "/math", modPath + "/misc", modPath + "/sql", modPath + "/sql/postgres", modPath + "/internal/arith", modPath + "/internal/c"}

// recvIsResult names the methods of a decimal that set it without returning it.
var recvIsResult = map[string]bool{"Scan": true, "UnmarshalJSON": true, "UnmarshalText": true, "Compose": true, "CheckNaNs": true}

func (p *Prog) isBigPtrT(t types.Type) bool {
	q, ok := t.(*types.Pointer)
	return ok && types.Identical(q.Elem(), p.bigType)
}

func isNumPtr(t types.Type) bool { return isPtrToBig(t) }

// holdsBig tells whether t points to a struct of the repository with a field
// of type *decimal.Big.
func (p *Prog) holdsBig(t types.Type) bool {
	q, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := q.Elem().(*types.Named)
	if !ok || n == p.bigType || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if p.isBigPtrT(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (p *Prog) apiOf(fn *ssa.Function) *api {
	a := &api{fn: fn, name: fnName(fn)}
	sig := fn.Signature
	res := sig.Results()
	retBig := res.Len() > 0 && p.isBigPtrT(res.At(0).Type())
	recv := sig.Recv() != nil
	nz := 0
	for i, q := range fn.Params {
		t := q.Type()
		k := pOther
		switch {
		case t == types.Type(p.ctxType):
			k = pCtx
		case p.isBigPtrT(t):
			k = pOp
			switch {
			case recv && i == 0:
				if retBig || recvIsResult[fn.Name()] {
					k = pRes
				}
			case nz == 0 && i <= 1 && retBig && !strings.HasPrefix(fn.Name(), "Max") && !strings.HasPrefix(fn.Name(), "Min") && (!recv || types.Identical(fn.Params[0].Type(), p.ctxType)):
				k = pRes
			case i == len(fn.Params)-1 && res.Len() > 1 && p.isBigPtrT(res.At(1).Type()):
				k = pRes2
			}
			if k == pRes {
				nz++
			}
		case isNumPtr(t):
			k = pNumIn
			if res.Len() > 0 && types.Identical(res.At(0).Type(), t) && i == firstNum(fn) {
				k = pNumOut
			}
		case isBigSlice(p, t):
			k = pOps
		case t.String() == "[]byte":
			k = pData
			if res.Len() > 0 && strings.Contains(res.String(), "[]byte") {
				k = pBuf
			}
		case p.holdsBig(t):
			k = pWrap
			if recvIsResult[fn.Name()] {
				k = pWrapRes
			}
		}
		switch k {
		case pOp, pWrap:
			a.nops++
		case pOps:
			a.nops += 2
		}
		a.kinds = append(a.kinds, k)
	}
	return a
}

func firstNum(fn *ssa.Function) int {
	for i, q := range fn.Params {
		if isNumPtr(q.Type()) {
			return i
		}
	}
	return -1
}

func isBigSlice(p *Prog, t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && p.isBigPtrT(s.Elem())
}

// apis lists every exported function and method of the packages.
func (p *Prog) apis(pkgs []string) []*api {
	var r []*api
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil {
			return
		}
		seen[fn] = true
		r = append(r, p.apiOf(fn))
	}
	for _, path := range pkgs {
		sp := p.pkgs[path]
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() {
					add(m)
				}
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok || !m.Object().Exported() {
					continue
				}
				if _, ok := n.Underlying().(*types.Interface); ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					f := n.Method(i)
					if f.Exported() {
						add(p.ssa.FuncValue(f))
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

// sweepRun runs a on operands of the given classes.
type sweepRun struct {
	it   *Interp
	a    *api
	outs []Outcome
	z    int // result decimal, -1 if none
	z2   int
	num  int // math/big result
	buf  int
	ops  []int
	args []*Val
}

// The result is the operand number alias, if that is not negative.
func (it *Interp) sweep(a *api, cls []int, mode Num, alias int) *sweepRun {
	r := &sweepRun{it: it, a: a, z: -1, z2: -1, num: -1, buf: -1}
	st := it.newState()
	spec := func(prefix string, t Taint) CtxSpec {
		s := anyCtx(mode)
		s.prefix, s.taint = prefix, t
		return s
	}
	k, zid := 0, -1
	operand := func(nm string) int {
		c := -1
		if k < len(cls) {
			c = cls[k]
		}
		if k == alias {
			zs := spec("z.", TZCtx)
			zs.conds = mkRange(i64(0), i64(0x1fff))
			id := it.newBig(st, "z", OwnResult, c, zs, 0)
			zid = id
			k++
			return id
		}
		id := it.newBig(st, nm, OwnOperand, c, spec(nm+".", TXCtx), 0)
		it.objs[id].opnd = k
		r.ops = append(r.ops, id)
		k++
		return id
	}
	result := func(nm string) int {
		zs := spec(nm+".", TZCtx)
		zs.conds = mkRange(i64(0), i64(0x1fff))
		return it.newBig(st, nm, OwnResult, -1, zs, TOld)
	}
	num := func(nm string, t types.Type, o Owner) int {
		ob := it.newObj(t.(*types.Pointer).Elem(), nm, o)
		st.heap.set(ob.id, it.initCells(ob, func(l Leaf, i int) *Val {
			return &Val{k: KBig, sign: 7, e: it.x.named(nm), p: []Ptr{{it.backing(Ptr{ob.id, 0}), 0}}}
		}))
		return ob.id
	}
	data := func(nm string, t types.Type, o Owner) (*Val, int) {
		el := t.Underlying().(*types.Slice).Elem()
		ob := it.newObj(types.NewArray(el, 1<<30), nm, o)
		st.heap.set(ob.id, it.initCells(ob, func(l Leaf, i int) *Val { return it.unknown(st, l.typ) }))
		return &Val{k: KSlice, p: []Ptr{{ob.id, 0}}, null: true, sign: 6, e: it.x.named(nm), ln: st.intVal(mkRange(i64(0), i64(1<<40)), it.x.named(nm+".len"))}, ob.id
	}
	zarg := -1
	for i, q := range a.fn.Params {
		nm := fmt.Sprintf("x%d", k)
		switch a.kinds[i] {
		case pCtx:
			r.args = append(r.args, it.ctxVal(st, spec("c.", 0)))
		case pRes:
			zarg = i
			if alias >= 0 {
				r.args = append(r.args, nil) // set with the operand
				continue
			}
			r.z = result("z")
			r.args = append(r.args, ptrV(RRes, Ptr{r.z, 0}))
		case pRes2:
			r.z2 = result("r")
			r.args = append(r.args, ptrV(RRes2, Ptr{r.z2, 0}))
		case pOp:
			was := zid
			k0 := k
			r.args = append(r.args, ptrV(ROp+Role(k0), Ptr{operand(nm), 0}))
			if zid != was {
				r.z = zid
				r.args[zarg] = ptrV(RRes, Ptr{zid, 0})
			}
		case pOps:
			id0 := operand(nm)
			r.args = append(r.args, it.sliceOf(st, q.Type(), []int{id0, operand(fmt.Sprintf("x%d", k))}))
		case pNumIn:
			r.args = append(r.args, ptrV(ROp, Ptr{num("n"+fmt.Sprint(i), q.Type(), OwnOperand), 0}))
		case pNumOut:
			r.num = num("out", q.Type(), OwnResult)
			v := ptrV(RRes, Ptr{r.num, 0})
			if !strings.HasPrefix(a.fn.Pkg.Pkg.Path(), modPath+"/internal") {
				v.null = true // may be omitted
			}
			r.args = append(r.args, v)
		case pData:
			v, _ := data("data", q.Type(), OwnOperand)
			r.args = append(r.args, v)
		case pBuf:
			v, id := data("buf", q.Type(), OwnResult)
			r.buf = id
			r.args = append(r.args, v)
		case pWrap, pWrapRes:
			o := OwnOperand
			if a.kinds[i] == pWrapRes {
				o = OwnResult
			}
			ob := it.newObj(q.Type().(*types.Pointer).Elem(), "wrapper", o)
			var dv *Val
			if o == OwnOperand {
				dv = ptrV(ROp, Ptr{operand(nm), 0})
			} else {
				r.z = result("z")
				dv = ptrV(RRes, Ptr{r.z, 0})
			}
			st.heap.set(ob.id, it.initCells(ob, func(l Leaf, i int) *Val {
				if it.P.isBigPtrT(l.typ) {
					return dv
				}
				return it.unknown(st, l.typ)
			}))
			r.args = append(r.args, ptrV(RNone, Ptr{ob.id, 0}))
		default:
			r.args = append(r.args, it.unknown(st, q.Type()))
		}
	}
	if r.z >= 0 {
		it.tracked = []int{r.z}
	}
	r.outs = it.enter(st, a.fn, r.args)
	return r
}

// sliceOf makes a slice of type t that points to the decimals ids.
func (it *Interp) sliceOf(st *State, t types.Type, ids []int) *Val {
	ob := it.newObj(types.NewArray(t.Underlying().(*types.Slice).Elem(), int64(len(ids))), "operand list", OwnOperand)
	st.heap.set(ob.id, it.initCells(ob, func(l Leaf, i int) *Val { return ptrV(ROp+Role(i), Ptr{ids[i], 0}) }))
	return &Val{k: KSlice, p: []Ptr{{ob.id, 0}}, sign: 6, ln: constV(i64(int64(len(ids))))}
}

// heavyNames are the operations that are series or iterations of others.
func heavyNames() map[string]bool {
	m := map[string]bool{}
	for i := range opSpecs {
		if opSpecs[i].heavy {
			m[opSpecs[i].name] = true
		}
	}
	for _, n := range []string{"Wallis", "Lentz", "BinarySplit", "BinarySplitDynamic"} {
		m[n] = true
	}
	return m
}

var sweepCls = []int{clsPosZero, clsPosC, clsNegC, clsPosI, clsNegI, clsPosInf, clsPosQ}
var sweepCls3 = []int{clsPosZero, clsPosC, clsNegI, clsPosInf}

// eachRun calls f for every function and every tuple of operand classes, each
// with its own interpreter.
func (c *Ctx) eachRun(pkgs []string, setup func(it *Interp, a *api, nm string), f func(it *Interp, r *sweepRun, nm string)) int {
	heavy := heavyNames()
	as := c.p.apis(pkgs)
	for _, a := range as {
		a := a
		cs := sweepCls
		if a.nops >= 3 {
			cs = sweepCls3
		}
		// Aliased results, where the operands are parameters of their own.
		last := -1
		if c.aliased && a.has(pRes) && !a.has(pOps) && !a.has(pWrap) && !strings.HasPrefix(a.fn.Pkg.Pkg.Path(), modPath+"/m") {
			last = a.nops - 1
		}
		tuples(a.nops, cs, func(cls []int) {
			for al := -1; al <= last; al++ {
				if al >= 0 && !c.thorough() && !subset(cls, sweepCls3) {
					break
				}
				al := al
				nm := clsNames(a.name, cls)
				if al >= 0 {
					nm += fmt.Sprintf(" z=x%d", al)
				}
				c.spawn(nm, func(it *Interp) {
					it.useHavoc(havocFinite, it.P.Func(modPath, "BinarySplit"), it.P.Func(modPath, "BinarySplitDynamic"))
					if heavy[a.fn.Name()] {
						it.havocPrimitives(a.fn.Name())
					}
					if strings.Contains(a.name, "arith.") {
						it.models = nil
					}
					setup(it, a, nm)
					r := it.sweep(a, cls, mkConst(i64(0)), al)
					c.complete(it, nm)
					f(it, r, nm)
				})
			}
		})
	}
	c.wg.Wait()
	return len(as)
}

func subset(xs, of []int) bool {
	for _, x := range xs {
		ok := false
		for _, y := range of {
			ok = ok || x == y
		}
		if !ok {
			return false
		}
	}
	return true
}

func (a *api) has(k pkind) bool {
	for _, x := range a.kinds {
		if x == k {
			return true
		}
	}
	return false
}
