package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

const prelude = `(set-option :global-declarations true)
(declare-sort Str 0)
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun strof ((Array Int Int) Int Int) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun bytesof (Str) (Array Int Int))
(declare-fun boxS (Str) Int)
(declare-fun unboxS (Int) Str)
(assert (forall ((s Str)) (! (= (unboxS (boxS s)) s) :pattern ((boxS s)))))
(assert (forall ((s Str) (i Int)) (! (= (select (bytesof s) i) (sat s i)) :pattern ((select (bytesof s) i)))))
(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (strof a o n)) n)) :pattern ((strof a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (strof a o n) i) (select a (+ o i)))) :pattern ((sat (strof a o n) i)))))
(assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s))) (= (slen (ssub s l h)) (- h l))) :pattern ((ssub s l h)))))
(assert (forall ((s Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= 0 i) (< i (- h l)) (<= h (slen s))) (= (sat (ssub s l h) i) (sat s (+ l i)))) :pattern ((sat (ssub s l h) i)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))
`

var builtinFuns = map[string]bool{"slen": true, "sat": true, "strof": true, "ssub": true, "scat": true, "bytesof": true, "boxS": true, "unboxS": true}

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	inPipe  io.WriteCloser
	declN   int
	defs    map[int]string
	ranged  []map[int]bool // per level
	asserts [][]*Term
	declAx  [][]string
	extra   []string // extra global commands (axioms), for replaying
	axdone  map[string]bool
	queries int
	time    time.Duration
	rlimit  int
	log     *os.File
	dead    bool
	name    string
}

func NewSolver(c *Ctx, name string) (*Solver, error) {
	s := &Solver{c: c, name: name, rlimit: 3000000}
	return s, s.start()
}
func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "smt.mbqi=false", "smt.random_seed=1", "auto_config=false", "smt.relevancy=2", "smt.arith.nl.delay=10")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReader(r)
	s.declN = 0
	s.defs = map[int]string{}
	s.axdone = map[string]bool{}
	s.ranged = []map[int]bool{{}}
	s.asserts = [][]*Term{nil}
	s.declAx = [][]string{nil}
	if p := os.Getenv("GOVC_LOG"); p != "" {
		s.log, _ = os.Create(p + "/" + sanitize(s.name) + ".smt2")
	}
	s.send(prelude)
	return nil
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Flush()
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	if s.log != nil {
		s.log.Close()
	}
}
func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x + "\n")
	}
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func (c *Ctx) declText(i int) string {
	o := c.order[i]
	if o[0] == 'v' {
		return fmt.Sprintf("(declare-const %s %s)", smtName(o[2:]), c.varsrt[o[2:]])
	}
	n := o[2:]
	if builtinFuns[n] || n == "multipat" {
		return ""
	}
	f := c.funs[n]
	out := fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(n), strings.Join(f.args, " "), f.ret)
	if strings.HasPrefix(n, "splice$") {
		a := f.args[0]
		out += fmt.Sprintf("\n(assert (forall ((d %s) (o Int) (s %s) (p Int) (n Int) (i Int)) (! (= (select (%s d o s p n) i) (ite (and (<= o i) (< i (+ o n))) (select s (+ p (- i o))) (select d i))) :pattern ((select (%s d o s p n) i)))))", a, a, smtName(n), smtName(n))
	}
	return out
}

func (s *Solver) decls() {
	for ; s.declN < len(s.c.order); s.declN++ {
		if t := s.c.declText(s.declN); t != "" {
			s.send(t)
			if i := strings.Index(t, "\n"); i >= 0 { // a defining axiom, to be restored when this level is popped
				l := len(s.declAx) - 1
				s.declAx[l] = append(s.declAx[l], t[i+1:])
			}
		}
	}
}

// define emits definitions for large closed subterms and returns the printed form of t.
func (s *Solver) text(t *Term) string {
	s.defineSub(t)
	var sb strings.Builder
	s.c.print(&sb, t, func(x *Term) string {
		return s.defs[x.id]
	})
	return sb.String()
}
func (s *Solver) defineSub(t *Term) {
	if _, ok := s.defs[t.id]; ok {
		return
	}
	for _, a := range t.args {
		if a.size > 8 {
			s.defineSub(a)
		}
	}
	if t.size > 8 && !t.qv && t.op != "forall" && t.op != "exists" {
		if t.op == "app" && t.name == "multipat" {
			return
		}
		var sb strings.Builder
		s.c.printBody(&sb, t, func(x *Term) string { return s.defs[x.id] })
		n := fmt.Sprintf("d!%d", t.id)
		s.send(fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort, sb.String()))
		s.defs[t.id] = n
	}
}

func (s *Solver) isRanged(t *Term) bool {
	for _, m := range s.ranged {
		if m[t.id] {
			return true
		}
	}
	return false
}

// rangeFacts asserts the type ranges of leaf terms inside t.
func (s *Solver) rangeFacts(t *Term) {
	if s.isRanged(t) {
		return
	}
	s.ranged[len(s.ranged)-1][t.id] = true
	for _, a := range t.args {
		s.rangeFacts(a)
	}
	if t.qv {
		return
	}
	if f := leafRange(s.c, t); f != "" {
		var sb strings.Builder
		s.c.print(&sb, t, func(x *Term) string { return s.defs[x.id] })
		s.send("(assert " + strings.ReplaceAll(f, "$T", sb.String()) + ")")
	}
}
func leafRange(c *Ctx, t *Term) string {
	if t.sort != SInt || t.lo == nil && t.hi == nil {
		return ""
	}
	switch t.op {
	case "var", "select", "app":
	default:
		return ""
	}
	out := "(and"
	if t.lo != nil {
		out += " (<= " + smtInt(t.lo) + " $T)"
	}
	if t.hi != nil {
		out += " (<= $T " + smtInt(t.hi) + ")"
	}
	return out + ")"
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.decls()
	s.defineSub(t)
	s.rangeFacts(t)
	s.send("(assert " + s.text(t) + ")")
	s.asserts[len(s.asserts)-1] = append(s.asserts[len(s.asserts)-1], t)
}
func (s *Solver) Push() {
	s.send("(push 1)")
	s.ranged = append(s.ranged, map[int]bool{})
	s.declAx = append(s.declAx, nil)
	s.asserts = append(s.asserts, nil)
}
func (s *Solver) Pop() {
	s.send("(pop 1)")
	s.ranged = s.ranged[:len(s.ranged)-1]
	s.asserts = s.asserts[:len(s.asserts)-1]
	ax := s.declAx[len(s.declAx)-1]
	s.declAx = s.declAx[:len(s.declAx)-1]
	for _, a := range ax {
		s.send(a)
	}
	l := len(s.declAx) - 1
	s.declAx[l] = append(s.declAx[l], ax...)
}

func (s *Solver) check(rlimit int) string {
	s.queries++
	t0 := time.Now()
	s.send(fmt.Sprintf("(set-option :rlimit %d)", rlimit))
	s.send("(check-sat)")
	s.in.Flush()
	r := s.readLine()
	s.time += time.Since(t0)
	return r
}
func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "dead"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", l)
			if s.log != nil {
				s.log.WriteString("; ERR " + l + "\n")
			}
			continue
		}
		return l
	}
}

// Entails checks whether the current assertions imply t (quick, incremental).
func (s *Solver) Entails(t *Term, rlimit int) bool {
	if t.isTrue() {
		return true
	}
	s.Push()
	s.Assert(s.c.Not(t))
	r := s.check(rlimit)
	s.Pop()
	return r == "unsat"
}

// Feasible reports false only if the current assertions are contradictory.
func (s *Solver) Feasible() bool {
	return s.check(200000) != "unsat"
}

// script produces a standalone script for "assertions imply t".
func (s *Solver) script(goal *Term) string {
	var sb strings.Builder
	sb.WriteString(strings.Replace(prelude, "(set-option :global-declarations true)\n", "", 1))
	defs := map[int]string{}
	for i := range s.c.order {
		if t := s.c.declText(i); t != "" {
			sb.WriteString(t + "\n")
		}
	}
	var body strings.Builder
	var define func(t *Term)
	ranged := map[int]bool{}
	named := func(x *Term) string { return defs[x.id] }
	define = func(t *Term) {
		if _, ok := defs[t.id]; ok {
			return
		}
		for _, a := range t.args {
			if a.size > 8 {
				define(a)
			}
		}
		if t.size > 8 && !t.qv && t.op != "forall" && t.op != "exists" && !(t.op == "app" && t.name == "multipat") {
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&body, "(define-fun %s () %s ", n, t.sort)
			s.c.printBody(&body, t, named)
			body.WriteString(")\n")
			defs[t.id] = n
		}
	}
	var ranges func(t *Term)
	ranges = func(t *Term) {
		if ranged[t.id] {
			return
		}
		ranged[t.id] = true
		for _, a := range t.args {
			ranges(a)
		}
		if t.qv {
			return
		}
		if f := leafRange(s.c, t); f != "" {
			var x strings.Builder
			s.c.print(&x, t, named)
			body.WriteString("(assert " + strings.ReplaceAll(f, "$T", x.String()) + ")\n")
		}
	}
	emit := func(t *Term) {
		define(t)
		ranges(t)
		body.WriteString("(assert ")
		s.c.print(&body, t, named)
		body.WriteString(")\n")
	}
	for _, l := range s.asserts {
		for _, t := range l {
			emit(t)
		}
	}
	if goal != nil {
		emit(s.c.Not(goal))
	}
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

var procSem = make(chan struct{}, 8)

// portfolio runs a standalone script on several solvers; returns the verdict and the solver that gave it.
func portfolio(script, lin string, timeout time.Duration) (string, string) {
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return "unknown", ""
	}
	defer os.Remove(f.Name())
	io.WriteString(f, "(set-logic ALL)\n"+script)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	secs := int(timeout / time.Second)
	cmds := [][]string{
		{"z3-new", fmt.Sprintf("-T:%d", secs), f.Name()},
		{"z3-new", fmt.Sprintf("-T:%d", secs), "smt.mbqi=false", f.Name()},
		{"cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), f.Name()},
		{"z3-new", fmt.Sprintf("-T:%d", secs), "smt.mbqi=false", "auto_config=false", "smt.arith.solver=2", f.Name()},
	}
	if lin != "" {
		lf, err := os.CreateTemp("", "govcl*.smt2")
		if err != nil {
			return "unknown", ""
		}
		defer os.Remove(lf.Name())
		io.WriteString(lf, lin)
		if d := os.Getenv("GOVC_LDUMP"); d != "" {
			os.WriteFile(d, []byte(lin), 0o644)
		}
		lf.Close()
		cmds = append(cmds, []string{"z3-new", fmt.Sprintf("-T:%d", secs), lf.Name()})
	}
	type res struct{ v, by string }
	ch := make(chan res, len(cmds))
	var wg sync.WaitGroup
	for i, a := range cmds {
		wg.Add(1)
		go func(a []string, linear bool) {
			defer wg.Done()
			out, _ := exec.CommandContext(ctx, a[0], a[1:]...).Output()
			v := "unknown"
			for _, l := range strings.Split(string(out), "\n") {
				l = strings.TrimSpace(l)
				if l == "sat" || l == "unsat" {
					v = l
					break
				}
			}
			if linear {
				if v != "unsat" {
					v = "unknown"
				}
				ch <- res{v, a[0] + " (linear abstraction)"}
				return
			}
			ch <- res{v, a[0]}
		}(a, i >= 4)
	}
	best := res{"unknown", ""}
	for range cmds {
		r := <-ch
		if r.v == "unsat" {
			best = r
			break
		}
		if r.v == "sat" && best.v == "unknown" {
			best = r
			break
		}
	}
	cancel()
	wg.Wait()
	return best.v, best.by
}

// modelInts runs the failing query with model production and returns values of the given terms.
func modelValues(script string, c *Ctx, terms []*Term, timeout time.Duration) map[string]*big.Int {
	return nil
}
