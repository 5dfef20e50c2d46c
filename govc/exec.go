package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Env struct {
	parent *Env
	m      map[ssa.Value]Val
}

func (e *Env) get(v ssa.Value) (Val, bool) {
	for ; e != nil; e = e.parent {
		if x, ok := e.m[v]; ok {
			return x, true
		}
	}
	return nil, false
}

type deferred struct {
	fn   *VFunc
	args []Val
	bi   *ssa.Builtin
	call *ssa.CallCommon
}

type Frame struct {
	fn      *ssa.Function
	env     *Env
	block   *ssa.BasicBlock
	idx     int
	prev    *ssa.BasicBlock
	call    ssa.Value // value in the caller receiving the result (may be nil)
	defers  []deferred
	loops   map[*ssa.BasicBlock]*loopCtx
	names   map[string]nameRef
	entry   *State
	isDefer bool
	onRet   func(st *State, res []Val)
}
type nameRef struct {
	v    ssa.Value
	addr bool
}

type State struct {
	heap   map[string]*Term
	gen    int // bumped when everything may have changed
	alloc  *Term
	frames []*Frame
	iters  []*iterState
	trail  []string
	hsnap  *heapSnap // when contracts over heapfuns were last used
	hepoch int       // heapfuns applied in different epochs are unrelated (contracts with "epochs")
}
type iterState struct {
	key string // heap cell naming
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{hsnap: st.hsnap, hepoch: st.hepoch, heap: make(map[string]*Term, len(st.heap)), gen: st.gen, alloc: st.alloc, trail: append([]string(nil), st.trail...)}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		// freeze the env: both copies extend the old one
		old := f.env
		g := *f
		g.env = &Env{parent: old, m: map[ssa.Value]Val{}}
		f.env = &Env{parent: old, m: map[ssa.Value]Val{}}
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
		for k, v := range f.loops {
			g.loops[k] = v
		}
		g.names = make(map[string]nameRef, len(f.names))
		for k, v := range f.names {
			g.names[k] = v
		}
		n.frames[i] = &g
	}
	return n
}

// snapshot for old(): heap and frames' envs are frozen.
func (st *State) snapshot() *State { return st.clone() }

type Obligation struct {
	Fn, Kind, Name, Desc, Pos string
	Status                    string // "proved", "failed"
	By                        string
	Detail                    string
	Hints                     map[string]string
}

type Exec struct {
	ndump int
	cur   *State

	P         *Program
	c         *Ctx
	s         *Solver
	fn        *ssa.Function
	ct        *Contract
	interior  map[*Term]*VPtr
	funcs     map[*Term]*VFunc
	litvals   map[*Term]string
	litDone   map[*Term]bool
	globals   map[*ssa.Global]*Term
	gvals     map[*ssa.Global]Val
	gfacts    []*Term
	tids      map[string]int
	obls      []*Obligation
	counts    map[string]int
	dry       []*dryCtx
	paths     int
	fails     int
	steps     int
	entry     *State
	params    map[string]TV
	assumed   map[string]bool
	inlined   map[string]bool
	deadline  time.Time
	retseen   bool
	nocontr   map[string]bool
	reach     int
	trigOn    map[string]bool
	hardFail  map[string]bool
	maxFails  int
	hfCache   map[*Contract]bool
	hintTerms map[string]*Term
	specMode  int
	bottom    bool
	curPos    token.Pos
	heapSort  map[string]string
	heapRef   map[string]bool
	alloc0    *Term
	epochs    int
	used      map[string]bool
	termFail  bool
	gens      int
	live      int
	deadRet   int
	genAlloc  map[int]*Term
	tlist     []types.Type
}

type dryCtx struct {
	depth  int
	blocks map[*ssa.BasicBlock]bool
	header *ssa.BasicBlock
	onBack func(st *State)
}

type stopPath struct{}

func (x *Exec) fail(kind, name, desc, pos string) {}

// assume adds a fact on the current path.
func (x *Exec) assume(t *Term) {
	if t.isTrue() {
		return
	}
	for _, f := range x.litFacts(t) {
		x.s.Assert(f)
	}
	x.s.Assert(x.triggers(t))
	x.extFacts(t)
}

// extFacts adds string extensionality instances for string equalities occurring in t.
func (x *Exec) extFacts(t *Term) {
	seen := map[int]bool{}
	var rec func(u *Term)
	rec = func(u *Term) {
		if seen[u.id] || u.qv {
			return
		}
		seen[u.id] = true
		if u.op == "=" && u.args[0].sort == SStr {
			x.extFact(u.args[0], u.args[1])
		}
		for _, a := range u.args {
			rec(a)
		}
	}
	rec(t)
}
func (x *Exec) extFact(a, b *Term) {
	k := fmt.Sprintf("ext%d-%d", a.id, b.id)
	if x.isAsserted(k) {
		return
	}
	x.markAsserted(k)
	x.s.Assert(x.extTerm(a, b))
}
func (x *Exec) extTerm(a, b *Term) *Term {
	q := x.c.QVar("x", SInt)
	body := x.c.Imp(x.c.And(x.c.Le(x.c.Int(0), q), x.c.Lt(q, x.slen(a))), x.c.Eq(x.sat(a, q), x.sat(b, q)))
	// literal of known length: expand
	for _, p := range []*Term{a, b} {
		if s, ok := x.litvals[p]; ok && len(s) <= 64 {
			var fs []*Term
			o := a
			if p == a {
				o = b
			}
			fs = append(fs, x.c.Eq(x.slen(o), x.c.Int(int64(len(s)))))
			for i := range s {
				fs = append(fs, x.c.Eq(x.sat(o, x.c.Int(int64(i))), x.c.Int(int64(s[i]))))
			}
			return x.c.mk("=", SBool, "", []*Term{x.c.Eq(a, b), x.c.And(fs...)}, nil, nil)
		}
	}
	return x.c.Imp(x.c.And(x.c.Eq(x.slen(a), x.slen(b)), x.c.Quant("forall", []*Term{q}, body)), x.c.Eq(a, b))
}

// isAsserted/markAsserted track per-level one-time facts through the solver's level maps.
func (x *Exec) isAsserted(k string) bool {
	t := x.c.mk("mark", SBool, k, nil, nil, nil)
	return x.s.isRanged(t)
}
func (x *Exec) markAsserted(k string) {
	t := x.c.mk("mark", SBool, k, nil, nil, nil)
	x.s.ranged[len(x.s.ranged)-1][t.id] = true
}

func (x *Exec) pos(p token.Pos) string {
	if p == token.NoPos {
		return ""
	}
	q := x.P.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, x.P.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige records (or, in a dry run, assumes) a proof obligation.
func (x *Exec) oblige(st *State, kind, desc string, cond *Term) {
	if len(x.dry) > 0 {
		x.assume(cond)
		return
	}
	name := fmt.Sprintf("%s/%s", x.ct.Name, kind)
	x.counts[kind]++
	o := &Obligation{Fn: x.ct.Name, Kind: kind, Name: name, Desc: desc, Pos: x.pos(x.curPos)}
	x.obls = append(x.obls, o)
	if cond.isTrue() {
		o.Status, o.By = "proved", "simplifier"
		return
	}
	ok, by := x.prove(cond)
	if ok {
		o.Status, o.By = "proved", by
		x.assume(cond)
		return
	}
	o.Status = "failed"
	o.Detail = fmt.Sprintf("%s; goal: %s; path: %s", by, x.c.Show(cond), strings.Join(st.trail, " "))
	o.Hints = x.modelHints(cond)
	x.fails++
	if x.fails >= x.maxFails {
		panic(giveUp{})
	}
	x.assume(cond)
}

type giveUp struct{}

func (x *Exec) prove(cond *Term) (bool, string) {
	by := "z3-new"
	why := ""
	ok := x.goals(cond, func(g *Term) bool {
		x.s.Push()
		defer x.s.Pop()
		for _, f := range x.litFacts(g) {
			x.s.Assert(f)
		}
		x.extFacts(g)
		x.assertNeg(g)
		r := x.s.check(x.s.rlimit)
		if r == "unsat" {
			if d := os.Getenv("GOVC_PDUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/proved_%s_%d.smt2", d, sanitize(x.ct.Name), len(x.obls)), []byte(x.s.script(nil)), 0o644)
			}
			return true
		}
		why = "z3-new:" + r
		if x.P.opts.NoPortfolio {
			return false
		}
		v, b := portfolio(x.s.script(nil), x.s.linearScript(), x.P.opts.Timeout)
		if v == "unsat" {
			by = b
			if d := os.Getenv("GOVC_PDUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/proved_%s_%d.smt2", d, sanitize(x.ct.Name), len(x.obls)), []byte(x.s.script(nil)+"; "+b), 0o644)
			}
			return true
		}
		why = "solver verdict: " + r + "/" + v
		if os.Getenv("GOVC_DUMP") != "" {
			os.WriteFile(fmt.Sprintf("%s/fail_%s_%d.smt2", os.Getenv("GOVC_DUMP"), sanitize(x.ct.Name), len(x.obls)), []byte(x.s.script(nil)), 0o644)
		}
		return false
	})
	if !ok {
		return false, why
	}
	return true, by
}

// assertNeg asserts the negation of g, existentials turned into universals with triggers.
func (x *Exec) assertNeg(g *Term) {
	switch g.op {
	case "or":
		for _, a := range g.args {
			x.assertNeg(a)
		}
	case "=>":
		x.s.Assert(x.triggers(g.args[0]))
		x.assertNeg(g.args[1])
	case "not":
		x.s.Assert(x.triggers(g.args[0]))
	case "exists":
		var nv, np int
		fmt.Sscanf(g.name, "%d/%d", &nv, &np)
		t := x.c.Quant("forall", g.args[:nv], x.c.Not(g.args[nv]))
		x.s.Assert(x.triggers(t))
		for _, w := range x.witnesses(g) {
			x.s.Assert(x.c.Not(w))
		}
	default:
		x.s.Assert(x.c.Not(g))
	}
}

// witnesses instantiates an existential goal over one integer at the index constants at hand.
func (x *Exec) witnesses(g *Term) []*Term {
	var nv, np int
	fmt.Sscanf(g.name, "%d/%d", &nv, &np)
	if nv != 1 || g.args[0].sort != SInt {
		return nil
	}
	q, body := g.args[0], g.args[1]
	var out []*Term
	for _, t := range x.indexTerms() {
		out = append(out, x.c.Subst(body, map[*Term]*Term{q: t}))
	}
	return out
}

// indexTerms: integer phis and loop counters of the active frames.
func (x *Exec) indexTerms() []*Term {
	if x.cur == nil {
		return nil
	}
	var out []*Term
	seen := map[*Term]bool{}
	for i := len(x.cur.frames) - 1; i >= 0; i-- {
		f := x.cur.frames[i]
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				switch in.(type) {
				case *ssa.Phi, *ssa.BinOp:
				default:
					continue
				}
				if _, _, isint := intInfo(v.Type()); !isint {
					continue
				}
				if w, ok := f.env.get(v); ok {
					if t, ok := w.(*Term); ok && t.sort == SInt && !seen[t] && len(out) < 24 {
						seen[t] = true
						out = append(out, t)
					}
				}
			}
		}
	}
	return out
}

// goals splits a goal: conjunctions piecewise, implications by assuming the left side, universals by fresh constants.
func (x *Exec) goals(t *Term, leaf func(*Term) bool) bool {
	switch {
	case t.isTrue():
		return true
	case t.op == "and":
		for _, a := range t.args {
			if !x.goals(a, leaf) {
				return false
			}
		}
		return true
	case t.op == "=>":
		x.s.Push()
		x.assume(t.args[0])
		ok := x.goals(t.args[1], leaf)
		x.s.Pop()
		return ok
	case t.op == "forall":
		m := map[*Term]*Term{}
		var nv, np int
		fmt.Sscanf(t.name, "%d/%d", &nv, &np)
		for _, q := range t.args[:nv] {
			m[q] = x.c.setRange(x.c.Fresh("sk", q.sort), q.lo, q.hi)
		}
		if np == 0 {
			return x.goals(x.c.Subst(t.args[nv], m), leaf)
		}
		// the pattern of the goal is named, so that facts with the same pattern apply
		x.s.Push()
		defer x.s.Pop()
		for _, p := range t.args[nv+1:] {
			if p = x.c.Subst(p, m); p.op != "var" && p.sort == SInt {
				x.s.Assert(x.c.App("touch", SBool, p))
			}
		}
		return x.goals(x.c.Subst(t.args[nv], m), leaf)
	case t.op == "=" && t.args[0].sort == SBool && !t.args[0].isTrue() && hasQuant(t):
		return x.goals(x.c.Imp(t.args[0], t.args[1]), leaf) && x.goals(x.c.Imp(t.args[1], t.args[0]), leaf)
	}
	return leaf(t)
}
func hasQuant(t *Term) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if a.sort == SBool && hasQuant(a) {
			return true
		}
	}
	return false
}

// proveGoal is a quick proof attempt that records nothing.
func (x *Exec) proveGoal(t *Term, rlimit int) bool {
	return x.goals(t, func(g *Term) bool {
		x.s.Push()
		defer x.s.Pop()
		for _, f := range x.litFacts(g) {
			x.s.Assert(f)
		}
		x.extFacts(g)
		x.assertNeg(g)
		if x.s.check(rlimit) == "unsat" {
			return true
		}
		if d := os.Getenv("GOVC_CDUMP"); d != "" {
			x.ndump++
			os.WriteFile(fmt.Sprintf("%s/cand_%d.smt2", d, x.ndump), []byte("; "+x.c.Show(g)+"\n"+x.s.script(nil)), 0o644)
		}
		return false
	})
}

// ---------- heap ----------

func (x *Exec) heapGet(st *State, name, srt string) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	x.heapSort[name] = srt
	t := x.initHeap(st, name)
	st.heap[name] = t
	if x.entry != nil {
		if _, ok := x.entry.heap[name]; !ok {
			x.entry.heap[name] = x.initHeap(x.entry, name)
		}
	}
	return t
}

// initHeap is the value of a heap not yet touched in st.
func (x *Exec) initHeap(st *State, name string) *Term {
	if st.gen == 0 {
		return x.c.Var("H$"+name, x.heapSort[name])
	}
	return x.c.Var(fmt.Sprintf("H$%s@%d", name, st.gen), x.heapSort[name])
}

// havocAll forgets the contents of every heap.
func (x *Exec) havocAll(st *State) {
	x.gens++
	st.gen = x.gens
	for n := range st.heap {
		if !strings.HasPrefix(n, "iter:") && !strings.HasPrefix(n, "box:") {
			st.heap[n] = x.initHeap(st, n)
		}
	}
	for n := range x.heapSort {
		if _, ok := st.heap[n]; !ok && (strings.HasPrefix(n, "iter:") || strings.HasPrefix(n, "box:")) {
			st.heap[n] = x.c.Var("H$"+n, x.heapSort[n])
		}
	}
}

// heapL is heapGet with knowledge of the leaf kind; initial heaps of references are closed under allocation.
func (x *Exec) heapL(st *State, name, srt string, l leaf) *Term {
	t := x.heapGet(st, name, srt)
	if l.kind == "ref" && (l.sort == SInt) {
		x.heapRef[name] = true
		if h := x.c.Var("H$"+name, srt); x.alloc0 != nil {
			x.heapAxiom(name, h, x.alloc0)
		}
		if st.gen > 0 {
			if a, ok := x.genAlloc[st.gen]; ok {
				x.heapAxiom(name, x.initHeap(st, name), a)
			}
		}
	}
	return t
}

// heapAxiom: every reference stored in an object allocated before alloc points to something allocated before alloc.
func (x *Exec) heapAxiom(name string, h, alloc *Term) {
	if !x.heapRef[name] {
		return
	}
	k := fmt.Sprintf("hax%d-%d", h.id, alloc.id)
	if x.isAsserted(k) {
		return
	}
	x.markAsserted(k)
	r := x.c.QVar("r", SInt)
	switch x.heapSort[name] {
	case arrOf(SInt):
		e := x.c.mk("select", SInt, "", []*Term{h, r}, nil, nil)
		x.s.Assert(x.c.Quant("forall", []*Term{r}, x.c.Imp(x.c.Lt(r, alloc), x.c.Lt(e, alloc)), e))
	case arrOf(arrOf(SInt)):
		i := x.c.QVar("i", SInt)
		e := x.c.mk("select", SInt, "", []*Term{x.c.mk("select", arrOf(SInt), "", []*Term{h, r}, nil, nil), i}, nil, nil)
		x.s.Assert(x.c.Quant("forall", []*Term{r, i}, x.c.Imp(x.c.Lt(r, alloc), x.c.Lt(e, alloc)), e))
	}
}

// rowAxiom: the row of h at r was just given the unknown contents f; its references are allocated if the row is.
func (x *Exec) rowAxiom(name string, r, f, alloc *Term) {
	if !x.heapRef[name] || x.heapSort[name] != arrOf(arrOf(SInt)) {
		return
	}
	i := x.c.QVar("i", SInt)
	e := x.c.mk("select", SInt, "", []*Term{f, i}, nil, nil)
	x.assume(x.c.Imp(x.c.Lt(r, alloc), x.c.Quant("forall", []*Term{i}, x.c.Lt(e, alloc), e)))
}

var sizes = types.SizesFor("gc", "amd64")

// maxLenOf is the number of elements that fit in 2^48 bytes, which is what the runtime can allocate.
func maxLenOf(el types.Type) *big.Int {
	n := int64(1)
	if !hasTypeParam(el) {
		n = sizes.Sizeof(el)
	}
	if n < 1 {
		n = 1
	}
	return new(big.Int).Div(maxLen, big.NewInt(n))
}
func hasTypeParam(t types.Type) bool {
	switch u := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Named:
		for i := 0; i < u.TypeArgs().Len(); i++ {
			if hasTypeParam(u.TypeArgs().At(i)) {
				return true
			}
		}
		return u.TypeArgs().Len() < u.TypeParams().Len()
	case *types.Array:
		return hasTypeParam(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasTypeParam(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func objHeapName(root types.Type, l string) string {
	return typeKey(root) + l
}
func elemHeapName(el types.Type, l string) string {
	return "[]" + typeKey(under0(el)) + l
}

// under0 maps defined non-struct element types to themselves; []T and []U never alias unless identical.
func under0(t types.Type) types.Type { return t }

// leafRangeOf subset of leaves for a path inside a root type.
func subLeaves(root types.Type, path []pstep) (t types.Type, prefix string, aidx []*Term) {
	t = root
	for _, s := range path {
		switch u := under(t).(type) {
		case *types.Struct:
			f := u.Field(s.field)
			prefix += "." + f.Name()
			t = f.Type()
		case *types.Array:
			prefix += "[]"
			t = u.Elem()
			aidx = append(aidx, s.idx)
		default:
			unsup("subLeaves %s", t)
		}
	}
	return
}

func (x *Exec) ptrTarget(p *VPtr) types.Type {
	t, _, _ := subLeaves(p.root, p.path)
	return t
}

func rootIsArray(p *VPtr) bool { return !p.elem && isArr(p.root) }

// load reads the value at p.
func (x *Exec) load(st *State, p *VPtr) Val {
	if p.cast != nil {
		q := *p
		q.cast = nil
		v := x.load(st, &q)
		w1, _, ok1 := intInfo(x.ptrTarget(&q))
		w2, _, ok2 := intInfo(p.cast)
		if !ok1 || !ok2 || w1 != w2 {
			unsup("unsafe reinterpretation of %s as %s", x.ptrTarget(&q), p.cast)
		}
		return x.wrap(v.(*Term), p.cast)
	}
	t, prefix, aidx := subLeaves(p.root, p.path)
	var ts []*Term
	for _, l := range leavesOf(t) {
		full := x.leafTerm(st, p, prefix, len(aidx), l)
		for _, i := range aidx {
			full = x.c.Select(full, i)
		}
		x.leafFacts(st, full, l)
		ts = append(ts, full)
	}
	v := x.unpack(ts, t)
	x.typeFacts(st, v, t)
	return v
}

// rootLeafSort computes the stored sort of leaf l (under nIdx array steps).
func nestSort(s string, n int) string {
	for i := 0; i < n; i++ {
		s = arrOf(s)
	}
	return s
}

func (x *Exec) leafTerm(st *State, p *VPtr, prefix string, nIdx int, l leaf) *Term {
	stored := nestSort(l.sort, nIdx)
	if p.elem {
		h := x.heapL(st, elemHeapName(p.root, prefix+l.path), arrOf(arrOf(stored)), l)
		return x.c.Select(x.c.Select(h, p.ref), p.idx)
	}
	if isArr(p.root) {
		// a standalone array object lives in the slice memory of its element type
		el := under(p.root).(*types.Array).Elem()
		pre := strings.TrimPrefix(prefix+l.path, "[]")
		h := x.heapL(st, elemHeapName(el, pre), arrOf(stored), l)
		return x.c.Select(h, p.ref)
	}
	h := x.heapL(st, objHeapName(p.root, prefix+l.path), arrOf(stored), l)
	return x.c.Select(h, p.ref)
}

func (x *Exec) store(st *State, p *VPtr, v Val) {
	if p.cast != nil {
		unsup("store through an unsafe pointer")
	}
	t, prefix, aidx := subLeaves(p.root, p.path)
	ts := x.pack(v, t)
	for i, l := range leavesOf(t) {
		nv := ts[i]
		if len(aidx) > 0 {
			cur := x.leafTerm(st, p, prefix, len(aidx), l)
			nv = x.storeNest(cur, aidx, nv)
		}
		stored := nestSort(l.sort, len(aidx))
		if p.elem {
			n := elemHeapName(p.root, prefix+l.path)
			h := x.heapL(st, n, arrOf(arrOf(stored)), l)
			st.heap[n] = x.c.Store(h, p.ref, x.c.Store(x.c.Select(h, p.ref), p.idx, nv))
		} else if isArr(p.root) {
			el := under(p.root).(*types.Array).Elem()
			n := elemHeapName(el, strings.TrimPrefix(prefix+l.path, "[]"))
			h := x.heapL(st, n, arrOf(stored), l)
			st.heap[n] = x.c.Store(h, p.ref, nv)
		} else {
			n := objHeapName(p.root, prefix+l.path)
			h := x.heapL(st, n, arrOf(stored), l)
			st.heap[n] = x.c.Store(h, p.ref, nv)
		}
	}
}
func (x *Exec) storeNest(cur *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	return x.c.Store(cur, idx[0], x.storeNest(x.c.Select(cur, idx[0]), idx[1:], v))
}

// leafFacts sets interval facts that hold for every well-typed leaf.
func (x *Exec) leafFacts(st *State, t *Term, l leaf) {
	if t.sort != SInt || t.op == "int" {
		return
	}
	switch t.op {
	case "var", "select", "app":
	default:
		return
	}
	switch l.kind {
	case "int", "float":
		lo, hi := typeRange(l.typ)
		x.c.setRange(t, lo, hi)
	case "len", "cap", "off":
		x.c.setRange(t, big0, maxLen)
	case "tag":
		x.c.setRange(t, big0, nil)
	}
}

// typeFacts assumes relational invariants of well-typed values (slice shape, references allocated).
func (x *Exec) typeFacts(st *State, v Val, t types.Type) {
	switch u := under(t).(type) {
	case *types.Slice:
		s := v.(*VSlice)
		x.sliceFacts(st, s, u.Elem())
	case *types.Pointer:
		p := v.(*VPtr)
		if !p.elem && len(p.path) == 0 {
			x.refFact(st, p.ref)
		}
	case *types.Map:
		x.refFact(st, v.(*Term))
	case *types.Interface:
		i := v.(*VIface)
		if i.tag.op != "int" {
			k := fmt.Sprintf("if%d-%d", i.tag.id, i.val.id)
			if !x.isAsserted(k) && !i.tag.qv && !i.val.qv {
				x.markAsserted(k)
				x.assume(x.c.Ge(i.tag, x.c.Int(0)))
				x.assume(x.c.Imp(x.c.Eq(i.tag, x.c.Int(0)), x.c.Eq(i.val, x.c.Int(0))))
			}
		}
	case *types.Struct:
		s := v.(*VStruct)
		for i := range s.f {
			x.typeFacts(st, s.f[i], u.Field(i).Type())
		}
	}
}
func (x *Exec) refFact(st *State, r *Term) {
	if r.op == "int" || r.qv {
		return
	}
	k := fmt.Sprintf("ref%d-%d", r.id, st.alloc.id)
	if x.isAsserted(k) {
		return
	}
	x.markAsserted(k)
	x.s.Assert(x.c.Lt(r, st.alloc))
}
func (x *Exec) sliceFacts(st *State, s *VSlice, el types.Type) {
	if s.arr.qv || s.len.qv || s.off.qv || s.cap.qv {
		return
	}
	if s.arr.op == "int" && s.len.op == "int" && s.cap.op == "int" {
		return
	}
	k := fmt.Sprintf("sl%d-%d-%d-%d-%d", s.arr.id, s.off.id, s.len.id, s.cap.id, st.alloc.id)
	if x.isAsserted(k) {
		return
	}
	x.markAsserted(k)
	x.s.Assert(x.c.And(x.c.Le(x.c.Int(0), s.off), x.c.Le(x.c.Int(0), s.len), x.c.Le(s.len, s.cap),
		x.c.Le(x.c.Add(s.off, s.cap), x.c.BigInt(maxLenOf(el))), x.c.Lt(s.arr, st.alloc),
		x.c.Imp(x.c.Eq(s.arr, x.c.Int(0)), x.c.And(x.c.Eq(s.len, x.c.Int(0)), x.c.Eq(s.cap, x.c.Int(0)), x.c.Eq(s.off, x.c.Int(0))))))
}

// freshVal makes an arbitrary well-typed value.
func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	if tup, ok := t.(*types.Tuple); ok {
		var out VTuple
		for i := 0; i < tup.Len(); i++ {
			out = append(out, x.freshVal(st, fmt.Sprintf("%s.%d", hint, i), tup.At(i).Type()))
		}
		return out
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		v := x.c.Fresh(hint+l.path, l.sort)
		x.leafFacts(st, v, l)
		ts = append(ts, v)
	}
	v := x.unpack(ts, t)
	x.typeFacts(st, v, t)
	return v
}

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = x.c.Add(st.alloc, x.c.Int(1))
	return r
}

func (x *Exec) interiorRef(p *VPtr) *Term {
	for t, q := range x.interior {
		if q.ref == p.ref && q.elem == p.elem && q.idx == p.idx && len(q.path) == len(p.path) && q.root == p.root {
			same := true
			for i := range p.path {
				if p.path[i] != q.path[i] {
					same = false
				}
			}
			if same {
				return t
			}
		}
	}
	t := x.c.Fresh("iref", SInt)
	x.c.setRange(t, big1, nil)
	x.interior[t] = p
	return t
}
func (x *Exec) funcRef(f *VFunc) *Term {
	if f.ref != nil {
		return f.ref
	}
	t := x.c.Fresh("fn", SInt)
	x.c.setRange(t, big1, nil)
	f.ref = t
	x.funcs[t] = f
	return t
}

func (x *Exec) tid(t types.Type) *Term {
	return x.c.Int(int64(x.typeID(t)))
}

// ---------- values ----------

func (x *Exec) constVal(cst *ssa.Const) Val {
	t := cst.Type()
	if cst.Value == nil {
		return x.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(cst.Value))
		case u.Info()&types.IsString != 0:
			return x.strLit(constant.StringVal(cst.Value))
		case u.Info()&types.IsInteger != 0:
			return x.c.BigInt(constBig(cst.Value))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(cst.Value)
			if u.Kind() == types.Float32 {
				return x.c.Int(int64(math.Float32bits(float32(f))))
			}
			return x.c.BigInt(new(big.Int).SetUint64(math.Float64bits(f)))
		}
	}
	return unsup("const %s", cst)
}
func constBig(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return big.NewInt(i)
	}
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	if b == nil {
		unsup("const int %s", v)
	}
	return b
}

func (x *Exec) val(st *State, v ssa.Value) Val { return x.valIn(st.top(), v) }
func (x *Exec) valIn(fr *Frame, v ssa.Value) Val {
	switch w := v.(type) {
	case *ssa.Const:
		return x.constVal(w)
	case *ssa.Global:
		return &VPtr{ref: x.globalRef(w), root: w.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return x.fnVal(w)
	case *ssa.Builtin:
		return unsup("builtin value")
	}
	if r, ok := fr.env.get(v); ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
}
func (x *Exec) fnVal(w *ssa.Function) *VFunc {
	for _, f := range x.funcs {
		if f.fn == w && len(f.bind) == 0 {
			return f
		}
	}
	f := &VFunc{fn: w}
	x.funcRef(f)
	return f
}
func (x *Exec) globalRef(g *ssa.Global) *Term {
	if t, ok := x.globals[g]; ok {
		return t
	}
	t := x.c.Int(int64(-x.P.globalID(g)))
	x.globals[g] = t
	return t
}

func (x *Exec) bind(st *State, v ssa.Value, val Val) { st.top().env.m[v] = val }

// ---------- main loop ----------

func (x *Exec) check() {
	x.steps++
	if x.steps%64 == 0 && time.Now().After(x.deadline) {
		panic(Unsupported{"time budget exhausted"})
	}
}

// run executes the state until all its paths end.
func (x *Exec) run(st *State) {
	for {
		x.check()
		x.cur = st
		fr := st.top()
		if fr.idx >= len(fr.block.Instrs) {
			panic("fell off block")
		}
		ins := fr.block.Instrs[fr.idx]
		if p := ins.Pos(); p != token.NoPos {
			x.curPos = p
		}
		fr.idx++
		if x.step(st, ins) {
			return
		}
		if x.bottom {
			x.bottom = false
			return
		}
	}
}

// fork explores both outcomes of cond; each continuation gets its own state.
func (x *Exec) fork(st *State, cond *Term, then, els func(st *State)) {
	if cond.isTrue() {
		then(st)
		return
	}
	if cond.isFalse() {
		els(st)
		return
	}
	st2 := st.clone()
	x.s.Push()
	x.assume(cond)
	if x.s.Feasible() {
		then(st)
	}
	x.s.Pop()
	x.s.Push()
	x.assume(x.c.Not(cond))
	if x.s.Feasible() {
		els(st2)
	}
	x.s.Pop()
}

// step executes one instruction; returns true when the path has been fully handled.
func (x *Exec) step(st *State, ins ssa.Instruction) bool {
	fr := st.top()
	switch i := ins.(type) {
	case *ssa.DebugRef:
		if id, ok := identOf(i.Expr); ok {
			if i.IsAddr {
				fr.names[id] = nameRef{i.X, true}
			} else if _, isf := i.X.(*ssa.Function); !isf {
				fr.names[id] = nameRef{i.X, false}
			}
		}
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		r := x.newRef(st)
		p := &VPtr{ref: r, root: t}
		x.store(st, p, x.zero(t))
		x.bind(st, i, p)
		if i.Comment != "" {
			fr.names[i.Comment] = nameRef{i, true}
		}
	case *ssa.Phi:
		// handled on block entry
	case *ssa.BinOp:
		x.bind(st, i, x.binop(st, i.Op, x.val(st, i.X), x.val(st, i.Y), i.X.Type(), i.Y.Type(), i.Type()))
	case *ssa.UnOp:
		x.unop(st, i)
	case *ssa.ChangeType:
		x.bind(st, i, x.val(st, i.X))
	case *ssa.ChangeInterface:
		x.bind(st, i, x.val(st, i.X))
	case *ssa.Convert:
		x.bind(st, i, x.convert(st, x.val(st, i.X), i.X.Type(), i.Type()))
	case *ssa.MakeInterface:
		x.bind(st, i, x.makeIface(st, x.val(st, i.X), i.X.Type()))
	case *ssa.MakeSlice:
		n := x.val(st, i.Len).(*Term)
		cp := x.val(st, i.Cap).(*Term)
		el := under(i.Type()).(*types.Slice).Elem()
		x.oblige(st, "safety:makeslice", "make length in range", x.c.And(x.c.Le(x.c.Int(0), n), x.c.Le(n, cp)))
		x.assume(x.c.Le(cp, x.c.BigInt(maxLenOf(el)))) // running out of memory is not modelled
		x.bind(st, i, x.makeSlice(st, el, n, cp))
	case *ssa.MakeMap:
		r := x.newRef(st)
		x.mapInit(st, r, i.Type())
		x.bind(st, i, r)
	case *ssa.MakeChan:
		unsup("make chan")
	case *ssa.MakeClosure:
		f := &VFunc{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.bind = append(f.bind, x.val(st, b))
		}
		x.funcRef(f)
		x.bind(st, i, f)
	case *ssa.FieldAddr:
		p := x.val(st, i.X).(*VPtr)
		x.nilCheck(st, p)
		x.bind(st, i, &VPtr{ref: p.ref, root: p.root, elem: p.elem, idx: p.idx, path: appendStep(p.path, pstep{field: i.Field})})
	case *ssa.Field:
		x.bind(st, i, x.val(st, i.X).(*VStruct).f[i.Field])
	case *ssa.IndexAddr:
		x.bind(st, i, x.indexAddr(st, x.val(st, i.X), i.X.Type(), x.val(st, i.Index).(*Term)))
	case *ssa.Index:
		x.bind(st, i, x.index(st, x.val(st, i.X), i.X.Type(), x.val(st, i.Index).(*Term)))
	case *ssa.Lookup:
		x.lookup(st, i)
	case *ssa.MapUpdate:
		m := x.val(st, i.Map).(*Term)
		x.oblige(st, "safety:nilmap", "assignment to non-nil map", x.c.Ne(m, x.c.Int(0)))
		x.mapStore(st, m, i.Map.Type(), x.val(st, i.Key), x.val(st, i.Value))
	case *ssa.Slice:
		x.bind(st, i, x.slice(st, i))
	case *ssa.SliceToArrayPointer:
		s := x.val(st, i.X).(*VSlice)
		at := i.Type().(*types.Pointer).Elem()
		n := under(at).(*types.Array).Len()
		x.oblige(st, "safety:slice2array", "slice long enough", x.c.Ge(s.len, x.c.Int(n)))
		unsup("slice to array pointer")
	case *ssa.Extract:
		x.bind(st, i, x.val(st, i.Tuple).(VTuple)[i.Index])
	case *ssa.TypeAssert:
		return x.typeAssert(st, i)
	case *ssa.Range:
		x.rangeInit(st, i)
	case *ssa.Next:
		return x.next(st, i)
	case *ssa.Store:
		p := x.val(st, i.Addr).(*VPtr)
		x.nilCheck(st, p)
		x.store(st, p, x.val(st, i.Val))
	case *ssa.If:
		cond := x.val(st, i.Cond).(*Term)
		b := fr.block
		x.fork(st, cond, func(s *State) {
			if x.enter(s, b, b.Succs[0]) {
				x.run(s)
			}
		}, func(s *State) {
			if x.enter(s, b, b.Succs[1]) {
				x.run(s)
			}
		})
		return true
	case *ssa.Jump:
		b := fr.block
		if !x.enter(st, b, b.Succs[0]) {
			return true
		}
	case *ssa.Return:
		var res []Val
		for _, r := range i.Results {
			res = append(res, x.val(st, r))
		}
		return x.ret(st, res)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.idx-- // come back for the rest
			return x.callVal(st, d.call, d.fn, d.args, nil, d.bi)
		}
	case *ssa.Defer:
		fn, args, bi := x.callee(st, &i.Call)
		fr.defers = append(fr.defers, deferred{fn, args, bi, &i.Call})
	case *ssa.Panic:
		x.doPanic(st, "explicit panic")
		return true
	case *ssa.Call:
		fn, args, bi := x.callee(st, &i.Call)
		return x.callVal(st, &i.Call, fn, args, i, bi)
	case *ssa.Go, *ssa.Select, *ssa.Send:
		unsup("concurrency: %T", ins)
	default:
		unsup("instruction %T", ins)
	}
	return false
}

func appendStep(p []pstep, s pstep) []pstep {
	n := make([]pstep, len(p)+1)
	copy(n, p)
	n[len(p)] = s
	return n
}

func (x *Exec) nilCheck(st *State, p *VPtr) {
	if p.elem {
		return
	}
	if p.ref.op == "int" && p.ref.ival.Sign() != 0 {
		return
	}
	if len(p.path) > 0 { // base was already checked
		return
	}
	x.oblige(st, "safety:nil", "non-nil pointer", x.c.Ne(p.ref, x.c.Int(0)))
}

func (x *Exec) makeSlice(st *State, el types.Type, n, cp *Term) *VSlice {
	r := x.newRef(st)
	for _, l := range leavesOf(el) {
		hn := elemHeapName(el, l.path)
		h := x.heapL(st, hn, arrOf(arrOf(l.sort)), l)
		st.heap[hn] = x.c.Store(h, r, x.c.ConstArr(arrOf(l.sort), x.zeroLeaf(l.sort)))
	}
	return &VSlice{r, x.c.Int(0), n, cp}
}

func (x *Exec) indexAddr(st *State, v Val, t types.Type, i *Term) Val {
	switch u := under(t).(type) {
	case *types.Slice:
		s := v.(*VSlice)
		x.oblige(st, "safety:index", "index in range", x.c.And(x.c.Le(x.c.Int(0), i), x.c.Lt(i, s.len)))
		return &VPtr{ref: s.arr, root: u.Elem(), elem: true, idx: x.c.Add(s.off, i)}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		p := v.(*VPtr)
		x.nilCheck(st, p)
		x.oblige(st, "safety:index", "index in range", x.c.And(x.c.Le(x.c.Int(0), i), x.c.Lt(i, x.c.Int(at.Len()))))
		if !p.elem && len(p.path) == 0 {
			return &VPtr{ref: p.ref, root: at.Elem(), elem: true, idx: i}
		}
		return &VPtr{ref: p.ref, root: p.root, elem: p.elem, idx: p.idx, path: appendStep(p.path, pstep{field: -1, idx: i})}
	}
	return unsup("indexaddr %s", t)
}
func (x *Exec) index(st *State, v Val, t types.Type, i *Term) Val {
	switch u := under(t).(type) {
	case *types.Basic: // string
		s := v.(*Term)
		x.oblige(st, "safety:index", "string index in range", x.c.And(x.c.Le(x.c.Int(0), i), x.c.Lt(i, x.slen(s))))
		return x.sat(s, i)
	case *types.Array:
		x.oblige(st, "safety:index", "array index in range", x.c.And(x.c.Le(x.c.Int(0), i), x.c.Lt(i, x.c.Int(u.Len()))))
		var ts []*Term
		for k, l := range leavesOf(u.Elem()) {
			tt := x.c.Select(v.(*VArr).leaves[k], i)
			x.leafFacts(st, tt, l)
			ts = append(ts, tt)
		}
		return x.unpack(ts, u.Elem())
	}
	return unsup("index %s", t)
}

func (x *Exec) slice(st *State, i *ssa.Slice) Val {
	v := x.val(st, i.X)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.val(st, e).(*Term)
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = x.c.Int(0)
	}
	switch u := under(i.X.Type()).(type) {
	case *types.Basic:
		s := v.(*Term)
		if hi == nil {
			hi = x.slen(s)
		}
		x.oblige(st, "safety:slice", "string slice bounds", x.c.And(x.c.Le(x.c.Int(0), lo), x.c.Le(lo, hi), x.c.Le(hi, x.slen(s))))
		return x.substr(s, lo, hi)
	case *types.Slice:
		s := v.(*VSlice)
		if hi == nil {
			hi = s.len
		}
		lim := s.cap
		if mx != nil {
			x.oblige(st, "safety:slice", "slice max bound", x.c.And(x.c.Le(hi, mx), x.c.Le(mx, s.cap)))
			lim = mx
		}
		x.oblige(st, "safety:slice", "slice bounds", x.c.And(x.c.Le(x.c.Int(0), lo), x.c.Le(lo, hi), x.c.Le(hi, s.cap)))
		return &VSlice{s.arr, x.sliceOff(s, lo), x.c.Sub(hi, lo), x.c.Sub(lim, lo)}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		p := v.(*VPtr)
		x.nilCheck(st, p)
		if p.elem || len(p.path) > 0 {
			unsup("slicing an array inside a struct")
		}
		n := x.c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		lim := n
		if mx != nil {
			lim = mx
		}
		x.oblige(st, "safety:slice", "array slice bounds", x.c.And(x.c.Le(x.c.Int(0), lo), x.c.Le(lo, hi), x.c.Le(hi, n)))
		return &VSlice{p.ref, lo, x.c.Sub(hi, lo), x.c.Sub(lim, lo)}
	}
	return unsup("slice of %s", i.X.Type())
}
func (x *Exec) sliceOff(s *VSlice, lo *Term) *Term {
	// slicing a nil slice [0:0] keeps it nil with offset 0
	return x.c.Add(s.off, lo)
}

func (x *Exec) substr(s, lo, hi *Term) *Term {
	if lo.op == "int" && lo.ival.Sign() == 0 && hi == x.slen(s) {
		return s
	}
	if v, ok := x.litvals[s]; ok && lo.op == "int" && hi.op == "int" {
		l, h := lo.ival.Int64(), hi.ival.Int64()
		if l >= 0 && l <= h && h <= int64(len(v)) {
			return x.strLit(v[l:h])
		}
	}
	if s.op == "app" && s.name == "strof" {
		return x.c.App("strof", SStr, s.args[0], x.c.Add(s.args[1], lo), x.c.Sub(hi, lo))
	}
	return x.c.App("ssub", SStr, s, lo, hi)
}

// memOf returns the current contents (leaf 0) of a scalar slice's backing array.
func (x *Exec) memOf(st *State, el types.Type, arr *Term, l leaf) *Term {
	h := x.heapL(st, elemHeapName(el, l.path), arrOf(arrOf(l.sort)), l)
	return x.c.Select(h, arr)
}
func (x *Exec) setMem(st *State, el types.Type, arr *Term, l leaf, a *Term) {
	n := elemHeapName(el, l.path)
	h := x.heapL(st, n, arrOf(arrOf(l.sort)), l)
	st.heap[n] = x.c.Store(h, arr, a)
}
func (x *Exec) splice(d, doff, s, soff, n *Term) *Term {
	if n.op == "int" && n.ival.Sign() == 0 {
		return d
	}
	if n.op == "int" && n.ival.Cmp(big.NewInt(24)) <= 0 && n.ival.Sign() > 0 {
		r := d
		for k := int64(0); k < n.ival.Int64(); k++ {
			r = x.c.Store(r, x.c.Add(doff, x.c.Int(k)), x.c.Select(s, x.c.Add(soff, x.c.Int(k))))
		}
		return r
	}
	return x.c.App("splice$"+sanitize(d.sort), d.sort, d, doff, s, soff, n)
}

// ---------- panics ----------

func (x *Exec) doPanic(st *State, what string) {
	if len(x.dry) > 0 {
		return
	}
	cond := x.c.False()
	for _, p := range append(append([]*SExpr{}, x.ct.Panics...), x.ct.MayPanic...) {
		cond = x.c.Or(cond, x.specBool(x.entryEnv(), p))
	}
	// a deferred recover is not modelled
	x.reach++
	if cond.isFalse() && len(x.ct.Panics)+len(x.ct.MayPanic) == 0 {
		x.oblige(st, "safety:panic", what+" unreachable", x.c.False())
		return
	}
	x.oblige(st, "panics", what+" only when the contract allows it", cond)
}

// ---------- returns ----------

func (x *Exec) ret(st *State, res []Val) bool {
	if len(x.dry) > 0 && x.dry[len(x.dry)-1].depth == len(st.frames)-1 {
		return true // leaving the function from inside a dry loop run
	}
	fr := st.top()
	if len(st.frames) == 1 {
		x.finish(st, res)
		return true
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.call != nil {
		switch len(res) {
		case 0:
			x.bind(st, fr.call, VTuple{})
		case 1:
			x.bind(st, fr.call, res[0])
		default:
			x.bind(st, fr.call, VTuple(res))
		}
	}
	return false
}

func (x *Exec) finish(st *State, res []Val) {
	x.paths++
	if len(x.dry) > 0 {
		return
	}
	x.reach++
	if x.P.opts.Smoke {
		if x.s.check(3000000) == "unsat" {
			x.deadRet++
		} else {
			x.live++
		}
	}
	x.checkPost(st, res)
}

// enter moves to a successor block, handling phis and loops. Returns false when the path ends here.
func (x *Exec) enter(st *State, from, to *ssa.BasicBlock) bool {
	fr := st.top()
	depth := len(st.frames) - 1
	if n := len(x.dry); n > 0 {
		d := x.dry[n-1]
		if d.depth == depth && !d.blocks[to] {
			return false
		}
	}
	st.trail = append(st.trail, fmt.Sprintf("%s.%d", shortFn(fr.fn), to.Index))
	if len(st.trail) > 400 {
		st.trail = st.trail[len(st.trail)-200:]
	}
	li := x.P.loopInfo(fr.fn)
	lp := li[to]
	x.setPhis(st, from, to)
	if lp == nil {
		fr.prev, fr.block, fr.idx = from, to, 0
		return true
	}
	if lp.blocks[from] { // back edge
		ctx := fr.loops[to]
		if ctx == nil {
			panic("back edge without loop context")
		}
		return x.backEdge(st, ctx, from, to)
	}
	return x.loopEntry(st, lp, from, to)
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (x *Exec) setPhis(st *State, from, to *ssa.BasicBlock) {
	fr := st.top()
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(st, p.Edges[k]))
	}
	for i, p := range phis {
		fr.env.m[p] = vals[i]
		if p.Comment != "" {
			fr.names[p.Comment] = nameRef{p, false}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
