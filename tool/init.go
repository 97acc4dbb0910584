package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// initHeap interprets the package initialisers, in dependency order.
func (it *Interp) initHeap() {
	it.initing, it.unroll, it.mags = true, true, true
	st := &State{x: it.x, uid: it.x.newUID(), base: it.base}
	var paths []string
	for p := range it.P.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	done := map[*ssa.Package]bool{}
	var run func(p *ssa.Package)
	run = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Pkg.Imports() {
			if sp := it.P.pkgs[q.Path()]; sp != nil {
				run(sp)
			}
		}
		if f := p.Func("init"); f != nil {
			it.fnHook = map[*ssa.Function]func(*Interp, *callCtx) ([]Outcome, bool){}
			for _, sp := range it.P.pkgs {
				if g := sp.Func("init"); g != nil && g != f {
					it.fnHook[g] = func(it *Interp, c *callCtx) ([]Outcome, bool) { return ret(c.st, nil), true }
				}
			}
			outs := it.callFn(st, f, nil, nil, it.ctxOf(&activation{}, nil, f), 0)
			n := 0
			for _, o := range outs {
				if o.pan == "" {
					if n == 0 {
						st = o.st
					} else {
						st.push(0)
						o.st.push(0)
						st, _ = joinState(st, o.st, it.newPoints(1), false)
						st.pop()
					}
					n++
				}
			}
			if n == 0 {
				it.undecided("initialiser of %s does not return", p.Pkg.Path())
			}
		}
	}
	for _, p := range paths {
		run(it.P.pkgs[p])
	}
	it.fnHook = nil
	for _, p := range paths {
		var names []string
		for n := range it.P.pkgs[p].Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := it.P.pkgs[p].Members[n].(*ssa.Global); ok {
				it.globalObj(g)
			}
		}
	}
	it.freeze(st)
	it.initing, it.unroll, it.mags = false, false, false
	it.steps = 0
}

// freeze makes the heap of st the shared initial heap.
func (it *Interp) freeze(st *State) {
	nb := map[int]*ObjSt{}
	for id, s := range it.base {
		nb[id] = s
	}
	for _, he := range st.heap.s {
		id, s := he.id, he.o
		nb[id] = s
	}
	for id := range nb {
		s := nb[id].clone()
		for i := range s.cells {
			s.cells[i] = st.norm(s.cells[i])
			s.w[i] = RNone
		}
		s.shr, s.put, s.pool = false, false, false
		nb[id] = s
		it.objs[id].owner = OwnShared
	}
	it.base = nb
}

// warm computes the lazily initialised package-level values: for a variable
// that points to a struct with a sync.Once, the methods without parameters
// that call Do. Whether they run early or late cannot be observed through
// them.
func (it *Interp) warm() {
	it.onceDone = map[Ptr]bool{}
	it.cold = &coldState{fns: map[*ssa.Function]bool{}, cells: map[Ptr]bool{}}
	it.initing, it.unroll = true, true
	var paths []string
	for p := range it.P.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		var names []string
		for n := range it.P.pkgs[p].Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := it.P.pkgs[p].Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			v := it.base[it.globalObj(g)].cells
			if len(v) != 1 || v[0].k != KPtr || len(v[0].p) != 1 || v[0].null || v[0].unk {
				continue
			}
			ptr := v[0]
			o := it.objs[ptr.p[0].obj]
			var onces []Ptr
			for i, l := range o.leaves {
				if nt, ok := types.Unalias(l.typ).(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "sync" && nt.Obj().Name() == "Once" {
					onces = append(onces, Ptr{o.id, i})
				}
			}
			if len(onces) != 1 {
				continue
			}
			it.coldRuns(ptr, o)
			it.initing, it.unroll = true, true
			ms := it.P.ssa.MethodSets.MethodSet(types.NewPointer(o.typ))
			for i := 0; i < ms.Len(); i++ {
				fn := it.P.ssa.MethodValue(ms.At(i))
				if fn == nil || len(fn.Params) != 1 || fn.Blocks == nil || !callsOnce(fn) {
					continue
				}
				st := it.newState()
				outs := it.callFn(st, fn, []*Val{ptr}, nil, it.ctxOf(&activation{ctx: -1000 - ptr.p[0].obj}, nil, fn), 0)
				if len(outs) == 0 {
					continue
				}
				r := outs[0].st
				ok := true
				for _, q := range outs {
					ok = ok && q.pan == ""
				}
				for _, q := range outs[1:] {
					r.push(0)
					q.st.push(0)
					r, _ = joinState(r, q.st, it.newPoints(1), false)
					r.pop()
				}
				if ok {
					it.freeze(r)
					it.onceDone[onces[0]] = true
				}
			}
		}
	}
	it.initing, it.unroll = false, false
	it.steps = 0
}

func callsOnce(fn *ssa.Function) bool { return callsOnce1(fn, map[*ssa.Function]bool{}) }

func callsOnce1(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				f := c.Call.StaticCallee()
				if f == nil {
					continue
				}
				if f.String() == "(*sync.Once).Do" {
					return true
				}
				if f.Signature.Recv() != nil && fn.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), fn.Signature.Recv().Type()) && callsOnce1(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

// coldIssue is an unsynchronised access to a lazily computed value.
type coldIssue struct {
	rule, construct, text string
	pos                   token.Pos
}

// coldState records how lazily computed values are published.
type coldState struct {
	fns    map[*ssa.Function]bool // functions interpreted before the value is computed
	cells  map[Ptr]bool           // cells computed by Once.Do
	issues []coldIssue
	runs   int
}

// coldRuns interprets every method without parameters of the lazily computed
// value at ptr before it has been computed, and records accesses to it that
// are neither inside nor after Once.Do.
func (it *Interp) coldRuns(ptr *Val, o *Obj) {
	cs := it.cold
	ms := it.P.ssa.MethodSets.MethodSet(types.NewPointer(o.typ))
	for i := 0; i < ms.Len(); i++ {
		fn := it.P.ssa.MethodValue(ms.At(i))
		if fn == nil || len(fn.Params) != 1 || fn.Blocks == nil || !callsOnce(fn) || cs.fns[fn] {
			continue
		}
		cs.runs++
		n := it.fork()
		n.unroll, n.coldRun = true, true
		loads := map[Ptr]coldIssue{}
		stores := map[Ptr]bool{}
		n.hooks.load = func(st *State, _ *Val, p Ptr, v *Val, pos token.Pos) {
			cs.note(n)
			if it.base[p.obj] != nil && st.g("once") == 0 && st.g("onced") == 0 {
				loads[p] = coldIssue{"published through Once", fnName(n.topFn()) + " " + n.leafPath(p), "reads " + n.leafPath(p) + " of " + n.objs[p.obj].name + " before Once.Do", pos}
			}
		}
		n.hooks.store = func(st *State, _ *Val, p Ptr, old, v *Val, pos token.Pos) {
			cs.note(n)
			s := st.obj(p.obj)
			if it.base[p.obj] == nil && (s == nil || !s.shr) {
				return
			}
			if it.base[p.obj] != nil {
				stores[p] = true
				cs.cells[p] = true
			}
			if st.g("once") == 0 {
				cs.issues = append(cs.issues, coldIssue{"published through Once", fnName(n.topFn()) + " " + n.objs[p.obj].name, "stores to " + n.leafPath(p) + " of " + n.objs[p.obj].name + ", which other goroutines may be using, outside Once.Do", pos})
			}
		}
		n.callFn(n.newState(), fn, []*Val{ptr}, nil, n.ctxOf(&activation{ctx: -2000 - ptr.p[0].obj}, nil, fn), 0)
		for p, l := range loads {
			if stores[p] {
				cs.issues = append(cs.issues, l)
			}
		}
		for t := range n.undec {
			cs.issues = append(cs.issues, coldIssue{"published through Once", fnName(fn), "cannot be decided: " + t, fn.Pos()})
		}
	}
}

func (cs *coldState) note(it *Interp) {
	for _, a := range it.stack {
		if a.fn != nil {
			cs.fns[a.fn] = true
		}
	}
}

func (it *Interp) topFn() *ssa.Function {
	for i := len(it.stack) - 1; i >= 0; i-- {
		if it.stack[i].fn != nil {
			return it.stack[i].fn
		}
	}
	return nil
}
