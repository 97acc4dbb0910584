package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ericlagergren/decimal"

// Prog is the loaded and built program.
type Prog struct {
	dir  string
	ssa  *ssa.Program
	pkgs map[string]*ssa.Package
	lp   []*packages.Package
	fset *token.FileSet
	mu   sync.Mutex
	info map[*ssa.Function]*fnInfo

	badContracts map[string]bool

	bigType *types.Named // decimal.Big
	ctxType *types.Named // decimal.Context
}

// fnInfo holds per-function tables.
type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	rpo   []int    // block index -> position
	live  [][]bool // block index -> registers live on entry
	kinds []uint8  // 1: boolean, 2: phi
}

// Load type-checks and builds the SSA form of the packages under dir that
// match patterns.
func Load(dir string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
		Tests: false,
	}
	lp, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(lp, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	p := &Prog{dir: dir, pkgs: map[string]*ssa.Package{}, info: map[*ssa.Function]*fnInfo{}, lp: lp}
	prog, _ := ssautil.AllPackages(lp, ssa.InstantiateGenerics)
	// Build only the packages of the repository, and functions on text.
	packages.Visit(lp, nil, func(q *packages.Package) {
		if stdText[q.PkgPath] {
			if sp := prog.Package(q.Types); sp != nil {
				sp.Build()
			}
		}
		if strings.HasPrefix(q.PkgPath, modPath) {
			if sp := prog.Package(q.Types); sp != nil {
				sp.Build()
				p.pkgs[q.PkgPath] = sp
			}
		}
	})
	p.ssa = prog
	p.fset = prog.Fset
	root := p.pkgs[modPath]
	if root == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	for name, dst := range map[string]**types.Named{"Big": &p.bigType, "Context": &p.ctxType} {
		o, _ := root.Pkg.Scope().Lookup(name).(*types.TypeName)
		if o == nil {
			return nil, fmt.Errorf("type %s not found", name)
		}
		*dst = o.Type().(*types.Named)
	}
	return p, nil
}

// stdText is the library's packages whose functions are analysed like those of
// the repository where text matters, unless there is a model.
var stdText = map[string]bool{"strings": true, "bytes": true, "internal/stringslite": true, "slices": true, "unicode/utf8": true, "encoding/binary": true, "internal/byteorder": true}

func (p *Prog) inStdText(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if fn.Pkg != nil {
		return stdText[fn.Pkg.Pkg.Path()]
	}
	return fn.Object() != nil && fn.Object().Pkg() != nil && stdText[fn.Object().Pkg().Path()]
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if r := fn.Signature.Recv(); r != nil && fn.Synthetic != "" && len(fn.Blocks) > 0 {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return true
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	// wrappers and bound methods
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return true
	}
	return fn.Parent() != nil && p.inRepo(fn.Parent())
}

// Method returns the method of the named type T (or *T) called name.
func (p *Prog) Method(t *types.Named, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.ssa.MethodSets.MethodSet(tt)
		if sel := ms.Lookup(t.Obj().Pkg(), name); sel != nil {
			if f := p.ssa.MethodValue(sel); f != nil {
				return f
			}
		}
	}
	return nil
}

// Func returns the package-level function called name.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.dir+"/"), q.Line)
}

// fnName is a stable readable name of fn.
func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/internal/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "decimal")
	return s
}

// Functions returns the source functions of the repository packages, sorted.
func (p *Prog) Functions(pred func(pkg string) bool) []*ssa.Function {
	var r []*ssa.Function
	for fn := range ssautil.AllFunctions(p.ssa) {
		if fn.Pkg == nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		if _, ok := p.pkgs[fn.Pkg.Pkg.Path()]; !ok {
			continue
		}
		if pred != nil && !pred(fn.Pkg.Pkg.Path()) {
			continue
		}
		r = append(r, fn)
	}
	sort.Slice(r, func(i, j int) bool {
		if a, b := r[i].String(), r[j].String(); a != b {
			return a < b
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

func (p *Prog) fn(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i := p.info[fn]; i != nil {
		return i
	}
	in := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		in.idx[v] = in.n
		in.n++
	}
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse post order
	nb := len(fn.Blocks)
	in.rpo = make([]int, nb)
	seen := make([]bool, nb)
	pos := nb
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		pos--
		in.rpo[b.Index] = pos
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
	}
	// liveness
	in.live = make([][]bool, nb)
	for i := range in.live {
		in.live[i] = make([]bool, in.n)
	}
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := make([]bool, in.n)
			for _, s := range b.Succs {
				phis := map[int]bool{}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					phis[in.idx[ph]] = true
				}
				for i, l := range in.live[s.Index] {
					if l && !phis[i] {
						cur[i] = true
					}
				}
			}
			for _, s := range b.Succs {
				for k, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if j, ok := in.idx[ph.Edges[k]]; ok {
							cur[j] = true
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if v, ok := ins.(ssa.Value); ok {
					if _, ph := ins.(*ssa.Phi); !ph {
						cur[in.idx[v]] = false
					}
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if j, ok := in.idx[*op]; ok {
						cur[j] = true
					}
				}
			}
			// phis of b stay live on entry: they are set by the edge
			for i, l := range cur {
				if l && !in.live[bi][i] {
					in.live[bi][i] = true
					changed = true
				}
			}
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if j := in.idx[ph]; !in.live[bi][j] {
					in.live[bi][j] = true
					changed = true
				}
			}
		}
	}
	in.class(fn)
	p.info[fn] = in
	return in
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}
