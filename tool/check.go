package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	id    string
	title string
	rule  string
	floor int // least number of obligations expected
	run   func(c *Ctx)
}

type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Detail    string `json:"detail"`
	Pos       string `json:"pos,omitempty"`
}

// Ctx is the state of one check.
type Ctx struct {
	id       string
	tier     string
	p        *Prog
	it0      *Interp
	mu       sync.Mutex
	wg       sync.WaitGroup
	sem      chan bool
	obl      int
	ok       int
	byRul    map[string]int
	viol     map[string]*Violation
	notes    map[string]bool
	fns      map[string]bool
	smpl     []string
	steps    int
	maxSteps int
	maxRun   string
	runs     int
	extra    map[string]interface{}
	aliased  bool // the sweep includes results that are operands
}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// oblige records an obligation and whether it is met.
func (c *Ctx) oblige(ok bool, rule, construct, pos, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.obl++
	c.byRul[rule]++
	if ok {
		c.ok++
		if len(c.smpl) < 40 && c.byRul[rule] <= 3 {
			c.smpl = append(c.smpl, rule+": "+construct)
		}
		return
	}
	k := rule + " " + construct
	if c.viol[k] == nil {
		c.viol[k] = &Violation{rule, construct, fmt.Sprintf(format, args...), pos}
	}
}

func (c *Ctx) fail(rule, construct, format string, args ...interface{}) {
	c.oblige(false, rule, construct, "", format, args...)
}

func (c *Ctx) note(format string, args ...interface{}) {
	c.mu.Lock()
	c.notes[fmt.Sprintf(format, args...)] = true
	c.mu.Unlock()
}

// spawn runs f with its own interpreter.
func (c *Ctx) spawn(name string, f func(it *Interp)) {
	c.wg.Add(1)
	go func() {
		c.sem <- true
		defer func() {
			if r := recover(); r != nil {
				c.fail("analysis", name, "the analysis failed: %v\n%s", r, debug.Stack())
			}
			<-c.sem
			c.wg.Done()
		}()
		c.mu.Lock()
		skip := len(c.viol) >= 200 // the verdict will not change
		c.mu.Unlock()
		if skip {
			return
		}
		it := c.it0.fork()
		it.limit = 3_000_000
		f(it)
		c.mu.Lock()
		if it.steps > c.maxSteps {
			c.maxSteps, c.maxRun = it.steps, name
		}
		c.steps += it.steps
		c.runs++
		for fn := range it.fnSeen {
			c.fns[fnName(fn)] = true
		}
		c.mu.Unlock()
	}()
}

// complete obliges the analysis of name to have covered everything.
func (c *Ctx) complete(it *Interp, name string) {
	for _, u := range sortedKeys(it.undec) {
		c.oblige(false, "complete", name, "", "undecided: %s", u)
		return
	}
	c.oblige(true, "complete", name, "", "")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// aborted stops every analysis: the time or the memory is used up.
var aborted atomic.Bool

func watch(t0 time.Time) {
	debug.SetMemoryLimit(18 << 30)
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		runtime.ReadMemStats(&ms)
		if time.Since(t0) > 780*time.Second || ms.HeapAlloc > 21<<30 {
			aborted.Store(true)
			return
		}
	}
}

func loadKnown() map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: ") {
			// known: property=<id> key=<rule construct> :: description
			l = strings.TrimPrefix(l, "known: ")
			f := strings.SplitN(l, " :: ", 2)
			d := ""
			if len(f) == 2 {
				d = f[1]
			}
			m[strings.TrimSpace(f[0])] = d
		}
	}
	return m
}

// runChecks runs the checks with the given ids and returns the exit code.
func runChecks(ids []string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	t0 := time.Now()
	debug.SetGCPercent(200)
	go watch(t0)
	p, err := Load(repoDir(), "./...")
	var it0 *Interp
	if err == nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("initialisation of the analysis failed: %v\n%s", r, debug.Stack())
				}
			}()
			setBigT(p)
			it0 = NewInterp(p)
			it0.mags = true
			it0.initHeap()
			it0.useContracts(p.badContracts)
			it0.warm()
		}()
	}
	code := 0
	for _, id := range ids {
		ck := findCheck(id)
		if ck == nil {
			fmt.Printf("unknown check %s\n", id)
			return 2
		}
		c := &Ctx{id: id, tier: tier, p: p, it0: it0, byRul: map[string]int{}, viol: map[string]*Violation{}, notes: map[string]bool{},
			fns: map[string]bool{}, sem: make(chan bool, runtime.NumCPU()), extra: map[string]interface{}{}}
		if err != nil {
			c.fail("load", "the module", "cannot be analysed: %v", err)
		} else {
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.fail("analysis", id, "the analysis failed: %v\n%s", r, debug.Stack())
					}
				}()
				ck.run(c)
			}()
			c.wg.Wait()
			c.oblige(c.obl >= ck.floor, "floor", "number of obligations", "", "only %d obligations, expected at least %d: the rule no longer finds what it is about", c.obl, ck.floor)
		}
		if c.report(ck, time.Since(t0)) {
			code = 1
		}
	}
	return code
}

func (c *Ctx) report(ck *Check, d time.Duration) bool {
	known := loadKnown()
	var keys []string
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad []*Violation
	var kn []string
	for _, k := range keys {
		v := c.viol[k]
		if d, ok := known["property="+c.id+" key="+k]; ok {
			kn = append(kn, k+": "+d)
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.id, k, d)
			continue
		}
		bad = append(bad, v)
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	fl := sortedKeys(c.fns)
	ruls := map[string]int{}
	for k, v := range c.byRul {
		ruls[k] = v
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]interface{}{
		"explanation": ck.rule, "obligations": c.obl, "discharged": c.ok, "abstract_runs": c.runs, "abstract_steps": c.steps, "longest_run": c.maxRun, "longest_run_steps": c.maxSteps,
		"functions_analysed": len(fl), "functions": fl, "obligations_by_rule": ruls, "sample_obligations": c.smpl,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": d.Seconds(),
	}
	if n := sortedKeys(c.notes); len(n) > 0 {
		ev["assumptions"] = n
	}
	if len(kn) > 0 {
		cov["known_findings"] = kn
	}
	if len(bad) > 0 {
		rp := filepath.Join(dir, c.id+".violations.json")
		b, _ := json.MarshalIndent(bad, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		ev["violations"] = len(bad)
		for i, v := range bad {
			if i >= 25 {
				fmt.Printf("... and %d more\n", len(bad)-i)
				break
			}
			fmt.Printf("%s: [%s] %s: %s\n", orStr(v.Pos, "-"), v.Rule, v.Construct, v.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	} else {
		os.Remove(filepath.Join(dir, c.id+".violations.json"))
		fmt.Printf("ok property=%s obligations=%d functions=%d runs=%d %.1fs\n", c.id, c.obl, len(fl), c.runs, d.Seconds())
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
	return len(bad) > 0
}

func orStr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func findCheck(id string) *Check {
	for i := range checks {
		if checks[i].id == id {
			return checks[i]
		}
	}
	return nil
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

// method returns the Context method named nm, or records that it is missing.
func (c *Ctx) method(nm string) *ssa.Function {
	f := c.p.Method(c.p.ctxType, nm)
	if f == nil {
		c.fail("anchor", "Context."+nm, "no such operation")
	}
	return f
}
