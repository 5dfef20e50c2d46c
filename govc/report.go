package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type fnReport struct {
	Function    string   `json:"function"`
	Contract    string   `json:"contract_file"`
	Source      string   `json:"source"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Paths       int      `json:"paths"`
	Queries     int      `json:"solver_queries"`
	SolverS     float64  `json:"solver_s"`
	Status      string   `json:"status"`
	Error       string   `json:"error,omitempty"`
	Failed      []string `json:"failed,omitempty"`
}

type propReport struct {
	Property    string         `json:"property"`
	Verdict     string         `json:"verdict"`
	Functions   []fnReport     `json:"functions"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	ByBackend   map[string]int `json:"by_backend"`
	ByKind      map[string]int `json:"by_kind"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	Extern      []string       `json:"extern_contracts_assumed"`
	Axioms      []string       `json:"axioms_assumed"`
	Inlined     []string       `json:"functions_inlined"`
	Dropped     []string       `json:"helper_contracts_not_used"`
	Failures    []failure      `json:"failures"`
	Smoke       map[string]int `json:"smoke,omitempty"`
}
type failure struct {
	Function, Kind, Desc, Pos, Detail string
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func (p *Program) checkProperty(prop, tier string, seed int, evid, out string, workers int, t0 time.Time) int {
	var roots []string
	for _, n := range p.specs.order {
		for _, q := range p.specs.contracts[n].Props {
			if q == prop {
				roots = append(roots, n)
			}
		}
	}
	rep := &propReport{Property: prop, ByBackend: map[string]int{}, ByKind: map[string]int{}}
	res := p.verifyAll(roots, workers, os.Getenv("GOVC_PROGRESS") != "")
	ext, ax, inl := map[string]bool{}, map[string]bool{}, map[string]bool{}
	usedLemmas := map[string]bool{}
	for _, r := range sortResults(res) {
		f := fnReport{Function: r.Name, Contract: r.File, Source: r.Pos, Obligations: len(r.Obls), Paths: r.Paths, Queries: r.Queries, SolverS: round2(r.SolverS), Status: "proved", Error: r.Err}
		for _, o := range r.Obls {
			rep.ByKind[strings.SplitN(o.Kind, ":", 2)[0]]++
			if o.Status == "proved" {
				f.Discharged++
				rep.ByBackend[o.By]++
			} else {
				f.Failed = append(f.Failed, o.Kind+": "+o.Desc)
				rep.Failures = append(rep.Failures, failure{r.Name, o.Kind, o.Desc, o.Pos, o.Detail})
			}
		}
		if r.Err != "" {
			rep.Failures = append(rep.Failures, failure{r.Name, "reach", r.Err, r.Pos, r.Internal})
		}
		if !r.OK() {
			f.Status = "failed"
		}
		if p.opts.Smoke {
			if rep.Smoke == nil {
				rep.Smoke = map[string]int{}
			}
			rep.Smoke["returns_not_refuted"] += r.Live
			rep.Smoke["returns_refuted"] += r.Dead
		}
		rep.SolverS += r.SolverS
		rep.Obligations += f.Obligations
		rep.Discharged += f.Discharged
		for _, u := range r.Used {
			if strings.HasPrefix(u, "lemma:") {
				usedLemmas[u[6:]] = true
			} else if ct := p.specs.contracts[u]; ct != nil {
				if ct.Extern {
					ext[u] = true
				}
				for _, e := range ct.Assume {
					ax["postcondition of "+u+": "+e.src] = true
				}
			}
		}
		if ct := p.specs.contracts[r.Name]; ct != nil {
			for _, e := range append(append([]*SExpr{}, ct.Unfold...), ct.UnfoldPost...) {
				ax["definition used in "+r.Name+": "+e.src] = true
			}
			if ct.Diverge {
				ax["termination of "+r.Name+" (not shown)"] = true
			}
		}
		for _, i := range r.Inlined {
			inl[i] = true
		}
		rep.Functions = append(rep.Functions, f)
	}
	for _, l := range p.specs.axioms {
		if usedLemmas[l.Name] {
			ax[l.Name] = true
		}
	}
	for _, l := range p.specs.lemmas {
		want := usedLemmas[l.Name]
		for _, q := range l.Props {
			want = want || q == prop
		}
		if !want {
			continue
		}
		ok, by, why, secs := p.proveLemma(l)
		rep.Obligations++
		rep.ByKind["lemma"]++
		rep.SolverS += secs
		f := fnReport{Function: "lemma " + l.Name, Obligations: 1, Status: "proved"}
		if ok {
			rep.Discharged++
			f.Discharged++
			rep.ByBackend[by]++
		} else {
			f.Status = "failed"
			rep.Failures = append(rep.Failures, failure{"lemma " + l.Name, "lemma", l.Body.src, "", why})
		}
		rep.Functions = append(rep.Functions, f)
	}
	rep.Extern, rep.Axioms, rep.Inlined = sortedKeys(ext), sortedKeys(ax), sortedKeys(inl)
	for n := range p.dropped {
		rep.Dropped = append(rep.Dropped, n)
	}
	sort.Strings(rep.Dropped)
	rep.WallS = round2(time.Since(t0).Seconds())
	rep.SolverS = round2(rep.SolverS)
	rep.Verdict = "proved"
	if len(rep.Failures) > 0 || rep.Obligations == 0 {
		rep.Verdict = "failed"
		if rep.Obligations == 0 && len(rep.Failures) == 0 {
			rep.Failures = append(rep.Failures, failure{prop, "vacuous", "no obligation was generated", "", ""})
		}
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	if out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	} else {
		os.Stdout.Write(b)
	}
	fmt.Printf("%s: %s: %d functions, %d/%d obligations, solver %.1fs, wall %.1fs\n", prop, rep.Verdict, len(rep.Functions), rep.Discharged, rep.Obligations, rep.SolverS, rep.WallS)
	for _, f := range rep.Failures {
		fmt.Printf("  failed obligation %s [%s] %s %s\n", f.Function, f.Kind, f.Pos, f.Desc)
	}
	if rep.Verdict != "proved" {
		return 1
	}
	return 0
}

// proveLemma proves a lemma over specification functions from the axioms of its package.
func (p *Program) proveLemma(l *Lemma) (ok bool, by, why string, secs float64) {
	c := NewCtx()
	s, err := NewSolver(c, "lemma_"+l.Name)
	if err != nil {
		return false, "", err.Error(), 0
	}
	defer s.Close()
	defer func() {
		if r := recover(); r != nil {
			ok, why = false, fmt.Sprint(r)
		}
		secs = s.time.Seconds()
	}()
	ct := &Contract{Name: "lemma " + l.Name, Pkg: l.Pkg}
	x := newExec(p, c, s, nil, ct)
	x.deadline = time.Now().Add(time.Minute)
	x.alloc0 = c.Var("alloc0", SInt)
	x.entry = &State{heap: map[string]*Term{}, alloc: x.alloc0}
	env := x.entryEnv()
	for _, a := range p.specs.axioms {
		if a.Pkg == l.Pkg {
			e := *env
			e.pkg = a.Pkg
			s.Assert(x.specBool(&e, a.Body))
		}
	}
	ok, by = x.prove(x.specBool(env, l.Body))
	if !ok {
		why = by
	}
	return
}
