package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func setBigT(p *Prog) {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == "math/big" {
			bigIntT = q.Pkg.Scope().Lookup("Int").(*types.TypeName).Type()
		}
	}
}

func main() {
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		code := runChecks(os.Args[2:])
		pprof.StopCPUProfile()
		os.Exit(code)
	}
	t0 := time.Now()
	p, err := Load("/repo", "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	setBigT(p)
	it0 := NewInterp(p)
	it0.mags = true
	it0.initHeap()
	it0.useContracts(nil)
	fmt.Println("init", time.Since(t0))
	it0.warm()
	fmt.Println("warm", len(it0.onceDone), time.Since(t0), len(it0.objs), it0.undec)
	if os.Getenv("SHOWC") != "" {
		for g, id := range it0.globals {
			st := it0.newState()
			c := st.obj(id).cells
			if len(c) == 1 && c[0].k == KPtr && len(c[0].p) == 1 {
				q := st.obj(c[0].p[0].obj).cells
				if len(q) > 2 && q[2].k == KPtr {
					for _, p := range q[2].p {
						fmt.Println(g.Name(), it0.decStr(st, p.obj), st.obj(p.obj).cells[it0.bl.unscaled], st.obj(p.obj).cells[it0.bl.exp], st.obj(p.obj).cells[it0.bl.precision])
					}
				}
			}
		}
	}
	if len(os.Args) > 2 && os.Args[1] == "op" {
		debugOp(p, it0, os.Args[2], os.Args[3:])
	}
	if len(os.Args) > 2 && os.Args[1] == "table" {
		dumpTable(p, it0, os.Args[2:])
	}
}

func debugOp(p *Prog, it0 *Interp, name string, cls []string) {
	fn := p.Method(p.ctxType, name)
	mode := int64(0)
	if os.Getenv("GO") != "" {
		mode = 1
	}
	it := it0.fork()
	st := it.newState()
	spec := anyCtx(mkConst(i64(mode)))
	zs := spec
	zs.prefix, spec.prefix = "z.", "c."
	zs.taint = TZCtx
	z := it.newBig(st, "z", OwnResult, -1, zs, TOld)
	args := []*Val{it.ctxVal(st, spec), ptrV(RRes, Ptr{z, 0})}
	for i, cn := range cls {
		xs := anyCtx(mkConst(i64(mode)))
		xs.prefix = fmt.Sprintf("x%d.", i)
		xs.taint = TXCtx
		ci := -1
		for k := range clsName {
			if clsName[k] == cn {
				ci = k
			}
		}
		x := it.newBig(st, fmt.Sprintf("x%d", i), OwnOperand, ci, xs, 0)
		args = append(args, ptrV(ROp+Role(i), Ptr{x, 0}))
	}
	for len(args) < len(fn.Params) {
		args = append(args, it.unknown(st, fn.Params[len(args)].Type()))
	}
	it.tracked = []int{z}
	if md := os.Getenv("MEMO"); md != "" {
		d, _ := strconv.Atoi(md)
		it.memoable = func(act *activation, fn *ssa.Function) bool { return act.depth >= d }
	}
	switch os.Getenv("TRK") {
	case "0":
		it.tracked = nil
	case "1":
		it.formOnly = true
	}
	it.prof = map[*ssa.Function]int{}
	it.trackCond = os.Getenv("TC") != ""
	if b := os.Getenv("BND"); b != "" {
		it.bndCap, _ = strconv.Atoi(b)
	}
	if b := os.Getenv("LIM"); b != "" {
		it.limit, _ = strconv.Atoi(b)
	}
	t1 := time.Now()
	outs := it.enter(st, fn, args)
	fmt.Printf("%s(%s): %d outcomes, %d steps, %v %v\n", fn.Name(), strings.Join(cls, ","), len(outs), it.steps, time.Since(t1).Round(time.Millisecond), sortedKeys(it.undec))
	if os.Getenv("FP") != "" {
		type kv struct {
			f *ssa.Function
			n int
		}
		var kvs []kv
		for f, n := range it.prof {
			kvs = append(kvs, kv{f, n})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].n > kvs[j].n })
		for i, e := range kvs {
			if i > 40 {
				break
			}
			fmt.Println("      ", fnName(e.f), e.n, it.fnSeen[e.f], it.memoMiss[e.f], it.memoHit[e.f])
		}
	}
	if os.Getenv("Q") != "" {
		return
	}
	m := map[string]bool{}
	for _, o := range outs {
		m[o.pan+" "+it.decStr(o.st, z)] = true
	}
	fmt.Println("   " + strings.Join(sortedKeys(m), "\n   "))
}

func dumpTable(p *Prog, it0 *Interp, names []string) {
	classes := []int{clsPosZero, clsNegZero, clsPosC, clsNegC, clsPosInf, clsNegInf, clsPosQ, clsNegS}
	mode := int64(0)
	if os.Getenv("GO") != "" {
		mode = 1
	}
	for _, nm := range names {
		fn := p.Method(p.ctxType, nm)
		n := 0
		for _, q := range fn.Params {
			if it0.isBigPtr(q) {
				n++
			}
		}
		n--
		if nm == "QuoRem" {
			n--
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(classes)
		}
		type res struct {
			s string
		}
		out := make([]string, total)
		sem := make(chan bool, 8)
		done := make(chan bool)
		for t := 0; t < total; t++ {
			t := t
			go func() {
				sem <- true
				defer func() { <-sem; done <- true }()
				var cls []int
				k := t
				var cn []string
				fin := 0
				for i := 0; i < n; i++ {
					cls = append(cls, classes[k%len(classes)])
					cn = append(cn, clsName[cls[i]])
					if cls[i] == clsPosC || cls[i] == clsNegC {
						fin++
					}
					k /= len(classes)
				}
				if os.Getenv("SPEC") != "" && fin == n {
					return
				}
				t1 := time.Now()
				it := it0.fork()
				if b := os.Getenv("LIM"); b != "" {
					it.limit, _ = strconv.Atoi(b)
				}
				it.useHavoc(havocFinite, p.Func(modPath, "BinarySplit"), p.Func(modPath, "BinarySplitDynamic"))
				if h := os.Getenv("HAVOC"); h != "" {
					it.useHavoc(havocFinite, p.ctxFns(strings.Split(h, ",")...)...)
				}
				r := it.runEntry(entrySpec{fn: fn, mode: mode, cls: cls, zcls: -1}, true)
				out[t] = fmt.Sprintf("%s(%s) %v %v\n      %s", nm, strings.Join(cn, ","), time.Since(t1).Round(time.Millisecond), sortedKeys(it.undec), strings.Join(r.summary(r.z), "\n      "))
				if r.r >= 0 {
					out[t] += "\n    r " + strings.Join(r.summary(r.r), "\n    r ")
				}
			}()
		}
		for t := 0; t < total; t++ {
			<-done
		}
		for _, s := range out {
			if s != "" {
				fmt.Println(s)
			}
		}
	}
}
