package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of verifying one function against its contract.
type Result struct {
	Name     string
	File     string
	Pos      string
	Obls     []*Obligation
	Err      string // outside the verifier's reach
	Failed   []*Obligation
	Used     []string
	Inlined  []string
	Queries  int
	SolverS  float64
	WallS    float64
	Paths    int
	Reach    int
	Missing  bool
	NoContr  []string
	Internal string
	Live     int // returns shown reachable (smoke)
	Dead     int // returns refuted (smoke)
}

func (r *Result) OK() bool { return !r.Missing && r.Err == "" && len(r.Failed) == 0 }

func (p *Program) verify(ct *Contract) (res *Result) {
	t0 := time.Now()
	res = &Result{Name: ct.Name, File: ct.File}
	fn := p.fns[ct.Name]
	if fn == nil || len(fn.Blocks) == 0 {
		res.Missing = true
		res.Err = "the function does not exist in the source"
		return
	}
	c := NewCtx()
	s, err := NewSolver(c, ct.Name)
	if err != nil {
		res.Err = err.Error()
		return
	}
	defer s.Close()
	if p.opts.Rlimit > 0 {
		s.rlimit = p.opts.Rlimit
	}
	x := newExec(p, c, s, fn, ct)
	budget := p.opts.FnBudget
	if ct.Timeout > 0 {
		budget = time.Duration(ct.Timeout) * time.Second
	}
	x.deadline = t0.Add(budget)
	res.Pos = x.pos(fn.Pos())
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case giveUp:
			case Unsupported:
				res.Err = e.Error() + " at " + x.pos(x.curPos)
			case specErr:
				res.Err = "contract does not apply: " + e.msg
			default:
				res.Err = fmt.Sprintf("internal error: %v", r)
				res.Internal = string(debug.Stack())
			}
		}
		res.Obls = x.obls
		for _, o := range x.obls {
			if o.Status != "proved" {
				res.Failed = append(res.Failed, o)
			}
		}
		if res.Err == "" && len(res.Failed) == 0 && x.reach == 0 {
			res.Err = "no path reaches a return: the contract is vacuous"
		}
		res.Live, res.Dead = x.live, x.deadRet
		if p.opts.Smoke && res.Err == "" && len(res.Failed) == 0 && x.live == 0 {
			res.Err = "every return path is refuted: the contract is vacuous"
		}
		res.Used = sortedKeys(x.used)
		res.Inlined = sortedKeys(x.inlined)
		res.Queries = s.queries
		res.SolverS = s.time.Seconds()
		res.WallS = time.Since(t0).Seconds()
		res.Paths, res.Reach = x.paths, x.reach
	}()
	x.alloc0 = c.Var("alloc0", SInt)
	c.setRange(x.alloc0, big1, nil)
	st := &State{heap: map[string]*Term{}, alloc: x.alloc0}
	var args []Val
	for _, q := range fn.Params {
		args = append(args, x.freshVal(st, "p_"+q.Name(), q.Type()))
	}
	x.pushFrame(st, fn, nil, args, nil)
	x.entry = &State{heap: map[string]*Term{}, alloc: st.alloc}
	recv := fn.Signature.Recv()
	var env *SpecEnv
	if recv != nil {
		env = x.callEnv(ct, fn.Signature, args, recv.Type())
	} else {
		env = x.callEnv(ct, fn.Signature, args, nil)
	}
	x.params = env.vars
	ee := x.entryEnv()
	x.assertAxioms(ee, ct)
	for _, r := range ct.Requires {
		x.assume(x.specBool(ee, r))
	}
	for _, r := range ct.Unfold {
		x.assume(x.specBool(ee, r))
	}
	for k, v := range x.entry.heap {
		st.heap[k] = v
	}
	if x.usesHeapFuns(ct) {
		x.heapStable(st)
	}
	if !s.Feasible() {
		res.Err = "the precondition is contradictory"
		return
	}
	x.run(st)
	return
}

func newExec(p *Program, c *Ctx, s *Solver, fn *ssa.Function, ct *Contract) *Exec {
	return &Exec{P: p, c: c, s: s, fn: fn, ct: ct,
		interior: map[*Term]*VPtr{}, funcs: map[*Term]*VFunc{}, litvals: map[*Term]string{}, litDone: map[*Term]bool{},
		globals: map[*ssa.Global]*Term{}, gvals: map[*ssa.Global]Val{}, tids: map[string]int{}, counts: map[string]int{},
		params: map[string]TV{}, assumed: map[string]bool{}, inlined: map[string]bool{}, nocontr: map[string]bool{},
		heapSort: map[string]string{}, heapRef: map[string]bool{}, used: map[string]bool{}, genAlloc: map[int]*Term{},
		hardFail: map[string]bool{}, maxFails: p.opts.MaxFails}
}

func (x *Exec) assertAxioms(env *SpecEnv, ct *Contract) {
	for _, n := range ct.Reveal {
		f := x.P.specs.funs[n]
		if f == nil || f.body == nil {
			serr("reveal of %s, which is not a pred", n)
		}
		e := &SpecEnv{x: x, st: env.st, old: env.old, vars: map[string]TV{}, pkg: f.pkg}
		var as []*Term
		for i, n := range f.names {
			q := x.c.QVar(n, f.args[i])
			as = append(as, q)
			e.vars[n] = TV{q, nil}
		}
		app := x.c.App("s$"+f.name, f.ret, as...)
		x.s.Assert(x.c.Quant("forall", as, x.c.Eq(app, x.specBool(e, f.body)), app))
	}
	for _, l := range append(append([]*Lemma{}, x.P.specs.axioms...), x.P.specs.lemmas...) {
		use := false
		for _, u := range ct.Uses {
			if u == l.Name || u == l.Pkg+"/*" {
				use = true
			}
		}
		if !use {
			continue
		}
		e := *env
		e.pkg = l.Pkg
		x.s.Assert(x.specBool(&e, l.Body))
		x.used["lemma:"+l.Name] = true
	}
}

// verifyAll verifies the named contracts and everything they use.
func (p *Program) verifyAll(roots []string, workers int, progress bool) map[string]*Result {
	results := map[string]*Result{}
	for round := 0; round < 6; round++ {
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		queue := []string{}
		inq := map[string]bool{}
		push := func(n string) {
			ct := p.specs.contracts[n]
			if ct == nil || ct.Extern || ct.Inline || p.dropped[n] || inq[n] {
				return
			}
			inq[n] = true
			if _, done := results[n]; done {
				for _, u := range results[n].Used {
					_ = u
				}
				return
			}
			queue = append(queue, n)
		}
		for _, r := range roots {
			push(r)
		}
		for _, n := range sortedKeys(results) {
			for _, u := range results[n].Used {
				push(u)
			}
		}
		busy := 0
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					for len(queue) == 0 && busy > 0 {
						cond.Wait()
					}
					if len(queue) == 0 {
						mu.Unlock()
						cond.Broadcast()
						return
					}
					n := queue[0]
					queue = queue[1:]
					busy++
					mu.Unlock()
					r := p.verify(p.specs.contracts[n])
					mu.Lock()
					busy--
					results[n] = r
					if progress {
						printResult(r)
					}
					for _, u := range r.Used {
						push(u)
					}
					cond.Broadcast()
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		// helpers that no longer hold are dropped and their bodies inlined instead
		changed := false
		for _, n := range sortedKeys(results) {
			r := results[n]
			if r.OK() || !p.specs.contracts[n].Helper || p.dropped[n] {
				continue
			}
			p.dropped[n] = true
			changed = true
			delete(results, n)
			for m, q := range results {
				for _, u := range q.Used {
					if u == n {
						delete(results, m)
						break
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return results
}

func printResult(r *Result) {
	st := "ok"
	if !r.OK() {
		st = "FAIL"
	}
	fmt.Printf("%-5s %s  obls=%d paths=%d queries=%d solver=%.1fs wall=%.1fs\n", st, r.Name, len(r.Obls), r.Paths, r.Queries, r.SolverS, r.WallS)
	if r.Err != "" {
		fmt.Printf("      %s\n", r.Err)
		if r.Internal != "" {
			fmt.Println(r.Internal)
		}
	}
	for _, o := range r.Failed {
		fmt.Printf("      %s @%s: %s\n        %s\n", o.Kind, o.Pos, o.Desc, o.Detail)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/contracts", "")
	fnf := flag.String("fn", "", "comma separated contract names (substring match with leading ~)")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int("seed", 1, "")
	evid := flag.String("evidence", "", "evidence file")
	out := flag.String("out", "", "obligation report (json)")
	only := flag.Bool("only", false, "do not follow used contracts")
	workers := flag.Int("j", 8, "")
	timeout := flag.Int("timeout", 10, "portfolio timeout")
	budget := flag.Int("budget", 120, "per-function budget")
	maxf := flag.Int("maxfails", 3, "")
	nop := flag.Bool("noportfolio", false, "")
	dump := flag.String("ssa", "", "dump the SSA of a function")
	smoke := flag.Bool("smoke", false, "vacuity checks")
	list := flag.Bool("list", false, "list functions")
	flag.Parse()
	t0 := time.Now()
	p, err := loadProgram(*repo, *specs, Options{NoPortfolio: *nop, Timeout: time.Duration(*timeout) * time.Second, FnBudget: time.Duration(*budget) * time.Second, MaxFails: *maxf, Smoke: *smoke})
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	if *list {
		for _, n := range sortedKeys(p.fns) {
			fmt.Println(n)
		}
		return
	}
	if *dump != "" {
		f := p.fns[*dump]
		if f == nil {
			fmt.Println("no such function")
			return
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	if *fnf != "" {
		var roots []string
		for _, n := range strings.Split(*fnf, ",") {
			if strings.HasPrefix(n, "~") {
				for _, k := range sortedKeys(p.specs.contracts) {
					if strings.Contains(k, n[1:]) && !p.specs.contracts[k].Extern {
						roots = append(roots, k)
					}
				}
			} else {
				roots = append(roots, n)
			}
		}
		if *only {
			var wg sync.WaitGroup
			sem := make(chan struct{}, *workers)
			var mu sync.Mutex
			for _, r := range roots {
				ct := p.specs.contracts[r]
				if ct == nil {
					fmt.Println("no contract", r)
					continue
				}
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					q := p.verify(ct)
					mu.Lock()
					printResult(q)
					mu.Unlock()
					<-sem
				}()
			}
			wg.Wait()
			return
		}
		p.verifyAll(roots, *workers, true)
		fmt.Println(time.Since(t0))
		return
	}
	if *prop != "" {
		os.Exit(p.checkProperty(*prop, *tier, *seed, *evid, *out, *workers, t0))
	}
}

func sortResults(m map[string]*Result) []*Result {
	var out []*Result
	for _, n := range sortedKeys(m) {
		out = append(out, m[n])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}
