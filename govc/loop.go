package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

// findLoops computes natural loops.
func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	out := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

type loopCtx struct {
	lp     *loop
	unroll bool
	onBack func(st *State)
}

type cand struct {
	name string
	f    func(st *State) *Term
	user bool
	hf   bool
}
type measure struct {
	name string
	f    func(st *State) []*Term
}

// heapMod records how a loop changes one heap.
type heapMod struct {
	full bool
	refs []*Term
}

// a cell is a place whose value changes in the loop: a phi or a heap location with a loop-invariant address
type cell struct {
	name string
	typ  types.Type
	get  func(st *State) Val
	init Val
	phi  *ssa.Phi
}

func (x *Exec) unrollable(st *State, lp *loop) bool {
	h := lp.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != h {
		return false
	}
	// phi side
	side := func(v ssa.Value) (*ssa.Phi, int64, bool) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return p, 0, true
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == h {
				if c, ok := b.Y.(*ssa.Const); ok {
					n := c.Int64()
					if b.Op == token.SUB {
						n = -n
					}
					return p, n, true
				}
			}
		}
		return nil, 0, false
	}
	constOf := func(v ssa.Value) (int64, bool) {
		var t *Term
		if c, ok := v.(*ssa.Const); ok {
			if _, _, isint := intInfo(c.Type()); !isint {
				return 0, false
			}
			t = x.constVal(c).(*Term)
		} else {
			if in, ok := v.(ssa.Instruction); ok && lp.blocks[in.Block()] {
				return 0, false
			}
			val, ok := st.top().env.get(v)
			if !ok {
				return 0, false
			}
			t, ok = val.(*Term)
			if !ok {
				return 0, false
			}
		}
		if t.op != "int" || !t.ival.IsInt64() {
			return 0, false
		}
		return t.ival.Int64(), true
	}
	op := cond.Op
	phi, off, ok := side(cond.X)
	bound, ok2 := int64(0), false
	if ok {
		bound, ok2 = constOf(cond.Y)
	} else {
		phi, off, ok = side(cond.Y)
		if ok {
			bound, ok2 = constOf(cond.X)
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
	}
	if !ok || !ok2 {
		return false
	}
	iv, ok := st.top().env.get(phi)
	if !ok {
		return false
	}
	it, ok := iv.(*Term)
	if !ok || it.op != "int" || !it.ival.IsInt64() {
		return false
	}
	step := int64(0)
	for i, e := range phi.Edges {
		if !lp.blocks[h.Preds[i]] {
			continue
		}
		p, s, ok := side(e)
		if !ok || p != phi || s == 0 || step != 0 && s != step {
			return false
		}
		step = s
	}
	n := 0
	for v := it.ival.Int64(); n <= 70; v += step {
		t := v + off
		var c bool
		switch op {
		case token.LSS:
			c = t < bound
		case token.LEQ:
			c = t <= bound
		case token.GTR:
			c = t > bound
		case token.GEQ:
			c = t >= bound
		case token.NEQ:
			c = t != bound
		default:
			return false
		}
		inLoop := h.Succs[0]
		if !lp.blocks[inLoop] {
			c = !c
		}
		if !c {
			break
		}
		n++
	}
	return n <= 70
}

func (x *Exec) phisOf(h *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range h.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (x *Exec) localVar(t *Term, mark int) bool {
	vs := map[*Term]bool{}
	t.vars(vs, map[int]bool{})
	for v := range vs {
		if i := strings.LastIndexByte(v.name, '!'); i >= 0 {
			var n int
			fmt.Sscan(v.name[i+1:], &n)
			if n > mark {
				return true
			}
		}
	}
	return false
}

func (x *Exec) loopEntry(st *State, lp *loop, from, to *ssa.BasicBlock) bool {
	fr := st.top()
	if x.unrollable(st, lp) {
		fr.loops[to] = &loopCtx{lp: lp, unroll: true}
		fr.prev, fr.block, fr.idx = from, to, 0
		return true
	}
	fr.prev, fr.block, fr.idx = from, to, 0
	phis := x.phisOf(to)
	for _, p := range phis {
		v, _ := fr.env.get(p)
		if q, ok := v.(*VPtr); ok && (q.elem || len(q.path) > 0) {
			unsup("interior pointer as a loop variable")
		}
	}
	entry := st.snapshot()
	mods := map[string]*heapMod{}
	allocs, modAll := false, false
	mark := x.c.fresh

	havoc := func() *State {
		h := entry.clone()
		f := h.top()
		if allocs {
			na := x.c.Fresh("alloc", SInt)
			x.c.setRange(na, big1, nil)
			x.s.Assert(x.c.Ge(na, entry.alloc))
			h.alloc = na
		}
		if modAll {
			x.havocAll(h)
			x.genAlloc[h.gen] = h.alloc
			for _, n := range sortedKeys(h.heap) {
				x.heapAxiom(n, h.heap[n], h.alloc)
			}
		}
		for _, n := range sortedKeys(mods) {
			if modAll && !strings.HasPrefix(n, "iter:") && !strings.HasPrefix(n, "box:") {
				continue
			}
			m := mods[n]
			base := x.heapGet(h, n, x.heapSort[n])
			if m.full {
				h.heap[n] = x.c.Fresh("loop_"+n, base.sort)
				x.heapAxiom(n, h.heap[n], h.alloc)
				continue
			}
			t := base
			for _, r := range m.refs {
				fv := x.c.Fresh("cell_"+n, elemSortOf(base))
				x.rowAxiom(n, r, fv, h.alloc)
				t = x.c.mk("store", t.sort, "", []*Term{t, r, fv}, nil, nil)
			}
			h.heap[n] = t
		}
		for _, p := range phis {
			hint := p.Comment
			if hint == "" {
				hint = p.Name()
			}
			f.env.m[p] = x.freshVal(h, hint, p.Type())
		}
		return h
	}
	dryRun := func(h *State, onBack func(*State)) {
		ctx := &loopCtx{lp: lp, onBack: onBack}
		h.top().loops[to] = ctx
		x.dry = append(x.dry, &dryCtx{depth: len(h.frames) - 1, blocks: lp.blocks, header: to})
		savePaths := x.paths
		x.run(h)
		x.paths = savePaths
		x.dry = x.dry[:len(x.dry)-1]
	}
	// --- which heaps change ---
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop modification analysis did not stabilise")
		}
		grew := false
		x.s.Push()
		h := havoc()
		head := h.snapshot()
		dryRun(h, func(b *State) {
			if b.alloc != head.alloc && !allocs {
				allocs, grew = true, true
			}
			if b.gen != head.gen {
				if !modAll {
					modAll, grew = true, true
				}
				return
			}
			if modAll {
				return
			}
			for n, cur := range b.heap {
				base, ok := head.heap[n]
				if !ok {
					base = x.initHeap(head, n)
				}
				if cur == base {
					continue
				}
				m := mods[n]
				if m != nil && m.full {
					continue
				}
				if m == nil {
					m = &heapMod{}
				}
				changed := false
				t := cur
				// the havocked stores of known references below base may have been overwritten
				inChain := func(u *Term) bool {
					for b := base; ; b = b.args[0] {
						if b == u {
							return true
						}
						if b.op != "store" {
							return false
						}
						known := false
						for _, q := range m.refs {
							known = known || q == b.args[1]
						}
						if !known {
							return false
						}
					}
				}
				for !inChain(t) {
					if t.op != "store" {
						m.full, changed = true, true
						break
					}
					r := t.args[1]
					known := false
					for _, q := range m.refs {
						if q == r {
							known = true
						}
					}
					if !known && !x.s.Entails(x.c.Ge(r, head.alloc), 200000) {
						if x.localVar(r, mark) {
							m.full, changed = true, true
							break
						}
						m.refs = append(m.refs, r)
						changed = true
					}
					t = t.args[0]
				}
				if changed {
					mods[n] = m
					grew = true
				}
			}
		})
		x.s.Pop()
		if !grew {
			break
		}
	}
	// --- cells ---
	var cells []cell
	for _, p := range phis {
		p := p
		iv, _ := entry.top().env.get(p)
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		cells = append(cells, cell{nm, p.Type(), func(s *State) Val { v, _ := s.top().env.get(p); return v }, iv, p})
	}
	cells = append(cells, x.heapCells(entry, mods)...)
	cands := x.autoCands(entry, lp, mods, cells)
	cands = append(cands, x.userCands(entry, lp, cells)...)
	// --- keep what holds on entry ---
	var keep []cand
	for _, cd := range cands {
		t := x.candTerm(cd, entry)
		if t == nil {
			continue
		}
		if x.candHolds(t) {
			keep = append(keep, cd)
		} else if cd.user && os.Getenv("GOVC_INV") != "" {
			fmt.Fprintf(os.Stderr, "[%s] hint fails on entry: %s\n", shortFn(fr.fn), cd.name)
		}
	}
	measures := x.measures(entry, lp, cells)
	isMapRange := false
	for _, in := range to.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			isMapRange = true
		}
	}
	hard := false
	for round := 0; ; round++ {
		if round > 40 {
			unsup("invariant inference did not stabilise")
		}
		x.s.Push()
		h := havoc()
		head := h.snapshot()
		for _, cd := range keep {
			if t := x.candTerm(cd, h); t != nil {
				x.assume(t)
			}
		}
		alive := make([]bool, len(keep))
		for i := range alive {
			alive[i] = true
		}
		malive := make([]bool, len(measures))
		for i := range malive {
			malive[i] = true
		}
		dropped, soft := false, false
		dryRun(h, func(b *State) {
			for i, cd := range keep {
				if !alive[i] {
					continue
				}
				t := x.candTerm(cd, b)
				if t != nil && cd.hf {
					for _, q := range x.heapDiff(head, snapOf(b), true) {
						t = x.c.And(q.f, t)
					}
				}
				if t == nil || !x.candHolds(t) {
					key := cd.name + "@" + shortFn(fr.fn)
					if t != nil && cd.user && !x.hardFail[key] {
						// an annotation is dropped only after a serious attempt, made once the rest is stable
						if !hard {
							soft = true
							continue
						}
						if x.candHoldsHard(t) {
							continue
						}
						x.hardFail[key] = true
					}
					alive[i] = false
					dropped = true
					if (cd.user || os.Getenv("GOVC_INV") == "2") && os.Getenv("GOVC_INV") != "" {
						fmt.Fprintf(os.Stderr, "[%s] not preserved: %s\n", shortFn(fr.fn), cd.name)
					}
				}
			}
			if dropped || soft && !hard {
				return
			}
			for i, m := range measures {
				if !malive[i] {
					continue
				}
				a, c := m.f(b), m.f(head)
				if a == nil || c == nil || !x.candHolds(x.lexLess(a, c)) {
					malive[i] = false
				}
			}
		})
		x.s.Pop()
		if !dropped && soft && !hard {
			hard = true
			continue
		}
		hard = false
		if !dropped {
			var ms []measure
			for i, m := range measures {
				if malive[i] {
					ms = append(ms, m)
				}
			}
			measures = ms
			break
		}
		var nk []cand
		for i := range keep {
			if alive[i] {
				nk = append(nk, keep[i])
			}
		}
		keep = nk
	}
	if os.Getenv("GOVC_INV") != "" && len(x.dry) == 0 {
		for _, k := range keep {
			fmt.Fprintf(os.Stderr, "[%s] invariant: %s\n", shortFn(fr.fn), k.name)
		}
		for _, k := range measures {
			fmt.Fprintf(os.Stderr, "[%s] measure: %s\n", shortFn(fr.fn), k.name)
		}
		for n, m := range mods {
			fmt.Fprintf(os.Stderr, "[%s] modifies: %s full=%v refs=%d\n", shortFn(fr.fn), n, m.full, len(m.refs))
		}
	}
	if len(x.dry) == 0 {
		for _, k := range keep {
			x.obls = append(x.obls, &Obligation{Fn: x.ct.Name, Kind: "loop:invariant", Name: x.ct.Name + "/loop", Desc: k.name, Status: "proved", By: "z3-new", Pos: x.pos(x.curPos)})
		}
		if !x.ct.Diverge && !isMapRange {
			if len(measures) > 0 {
				x.obls = append(x.obls, &Obligation{Fn: x.ct.Name, Kind: "loop:terminates", Name: x.ct.Name + "/loop:terminates", Desc: "measure " + measures[0].name, Status: "proved", By: "z3-new", Pos: x.pos(x.curPos)})
			} else {
				x.obls = append(x.obls, &Obligation{Fn: x.ct.Name, Kind: "loop:terminates", Name: x.ct.Name + "/loop:terminates", Desc: "no decreasing measure found for the loop in " + shortFn(fr.fn), Status: "failed", Pos: x.pos(x.curPos)})
				x.fails++
			}
		}
	}
	// --- the arbitrary iteration, for real ---
	x.s.Push()
	h := havoc()
	for _, cd := range keep {
		if t := x.candTerm(cd, h); t != nil && !cd.hf {
			x.assume(t)
		}
	}
	for _, cd := range keep {
		if cd.hf {
			x.heapStable(h)
			if t := x.candTerm(cd, h); t != nil {
				x.assume(t)
			}
		}
	}
	h.top().loops[to] = &loopCtx{lp: lp}
	x.run(h)
	x.s.Pop()
	return false
}

func (x *Exec) backEdge(st *State, ctx *loopCtx, from, to *ssa.BasicBlock) bool {
	if ctx.unroll {
		fr := st.top()
		fr.prev, fr.block, fr.idx = from, to, 0
		return true
	}
	if ctx.onBack != nil {
		fr := st.top()
		fr.prev, fr.block, fr.idx = from, to, 0
		ctx.onBack(st)
	}
	return false
}

func (x *Exec) candTerm(cd cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				if cd.user && os.Getenv("GOVC_INV") != "" {
					fmt.Fprintf(os.Stderr, "hint %s: %s\n", cd.name, e.msg)
				}
				t = nil
			case Unsupported:
				t = nil
			default:
				if cd.user {
					t = nil // a hint that does not type here
					return
				}
				panic(r)
			}
		}
	}()
	return cd.f(st)
}

// candHolds proves t piecewise with a small budget.
func (x *Exec) candHolds(t *Term) bool {
	return x.proveGoal(t, 600000)
}

// candHoldsHard proves t with the portfolio of solvers.
func (x *Exec) candHoldsHard(t *Term) bool {
	return x.goals(t, func(g *Term) bool {
		x.s.Push()
		defer x.s.Pop()
		for _, f := range x.litFacts(g) {
			x.s.Assert(f)
		}
		x.extFacts(g)
		x.assertNeg(g)
		if x.s.check(600000) == "unsat" {
			return true
		}
		if x.firstSplit(g) {
			return true
		}
		if x.P.opts.NoPortfolio {
			return false
		}
		v, _ := portfolio(x.s.script(nil), x.s.linearScript(), 8*time.Second)
		if d := os.Getenv("GOVC_CDUMP"); d != "" && v != "unsat" {
			x.ndump++
			os.WriteFile(fmt.Sprintf("%s/hard_%d.smt2", d, x.ndump), []byte("; "+v+" "+x.c.Show(g)+"\n"+x.s.script(nil)), 0o644)
		}
		return v == "unsat"
	})
}

// firstSplit closes the current query by cases: the first iteration of a range loop, or a later one.
func (x *Exec) firstSplit(g *Term) bool {
	var v *Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] || v != nil {
			return
		}
		seen[t.id] = true
		if t.op == "var" && strings.HasPrefix(t.name, "rangeindex!") {
			v = t
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(g)
	if v == nil {
		return false
	}
	for _, c := range []*Term{x.c.Eq(v, x.c.Int(-1)), x.c.Ge(v, x.c.Int(0)), x.c.Lt(v, x.c.Int(-1))} {
		x.s.Push()
		x.s.Assert(c)
		r := x.s.check(600000)
		x.s.Pop()
		if r != "unsat" {
			return false
		}
	}
	return true
}

func (x *Exec) heapCells(entry *State, mods map[string]*heapMod) []cell {
	var out []cell
	for _, n := range sortedKeys(mods) {
		m := mods[n]
		if m.full {
			continue
		}
		n := n
		srt := x.heapSort[n]
		if srt != arrOf(SInt) || strings.HasPrefix(n, "map:") && strings.HasSuffix(n, ":len") {
			continue
		}
		if strings.HasSuffix(n, ".arr") || strings.HasSuffix(n, ".off") || strings.HasSuffix(n, ".cap") || strings.HasSuffix(n, ".tag") || strings.HasSuffix(n, ".val") {
			if strings.HasSuffix(n, ".arr") { // slice cell
				b := strings.TrimSuffix(n, ".arr")
				for _, r := range m.refs {
					r := r
					get := func(s *State) Val {
						g := func(l string) *Term { return x.c.Select(x.heapGet(s, b+l, srt), r) }
						return &VSlice{g(".arr"), g(".off"), g(".len"), g(".cap")}
					}
					out = append(out, cell{b, types.NewSlice(types.Typ[types.Invalid]), get, get(entry), nil})
				}
			}
			continue
		}
		if x.heapRef[n] {
			continue
		}
		for _, r := range m.refs {
			r := r
			get := func(s *State) Val { return x.c.Select(x.heapGet(s, n, srt), r) }
			out = append(out, cell{n, types.Typ[types.Int], get, get(entry), nil})
		}
	}
	return out
}

// atEntry evaluates a value that is computed inside the loop from loads and lengths that do not involve
// the loop's variables, as it is at loop entry; it only serves to propose candidates.
func (x *Exec) atEntry(st *State, lp *loop, v ssa.Value, depth int) (Val, bool) {
	fr := st.top()
	switch v.(type) {
	case *ssa.Const, *ssa.Global:
		return x.valIn(fr, v), true
	case *ssa.Function, *ssa.Builtin:
		return nil, false
	}
	in, isin := v.(ssa.Instruction)
	if !isin || !lp.blocks[in.Block()] {
		return fr.env.get(v)
	}
	if depth == 0 {
		return nil, false
	}
	rec := func(w ssa.Value) (Val, bool) { return x.atEntry(st, lp, w, depth-1) }
	switch i := in.(type) {
	case *ssa.FieldAddr:
		if w, ok := rec(i.X); ok {
			if p, ok := w.(*VPtr); ok {
				return &VPtr{ref: p.ref, root: p.root, elem: p.elem, idx: p.idx, path: appendStep(p.path, pstep{field: i.Field})}, true
			}
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return nil, false
		}
		if w, ok := rec(i.X); ok {
			if p, ok := w.(*VPtr); ok {
				return x.load(st, p), true
			}
		}
	case *ssa.Convert:
		_, _, a := intInfo(i.X.Type())
		_, _, b := intInfo(i.Type())
		if a && b {
			return rec(i.X)
		}
	case *ssa.ChangeType:
		return rec(i.X)
	case *ssa.Call:
		if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if w, ok := rec(i.Call.Args[0]); ok {
				switch s := w.(type) {
				case *VSlice:
					return s.len, true
				case *Term:
					if s.sort == SStr {
						return x.slen(s), true
					}
				}
			}
		}
	}
	return nil, false
}

func (x *Exec) autoCands(entry *State, lp *loop, mods map[string]*heapMod, cells []cell) []cand {
	c := x.c
	var out []cand
	add := func(name string, f func(st *State) *Term) { out = append(out, cand{name: name, f: f}) }
	fr := entry.top()
	// loop-invariant integer terms of interest
	var bounds []*Term
	seenB := map[*Term]bool{}
	addB := func(t *Term) {
		if t != nil && !seenB[t] && !t.qv && t.sort == SInt {
			seenB[t] = true
			bounds = append(bounds, t)
		}
	}
	collect := func(v ssa.Value) {
		if k, ok := v.(*ssa.Const); ok {
			if _, _, isint := intInfo(k.Type()); isint && k.Value != nil {
				addB(x.constVal(k).(*Term))
			}
			return
		}
		if val, ok := x.atEntry(entry, lp, v, 6); ok {
			if t, ok := val.(*Term); ok && t.sort == SInt {
				addB(t)
			}
		}
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if op, ok := in.(*ssa.BinOp); ok {
				switch op.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					collect(op.X)
					collect(op.Y)
				}
			}
			var sl ssa.Value
			switch i := in.(type) {
			case *ssa.IndexAddr:
				sl = i.X
			case *ssa.Slice:
				sl = i.X
			case *ssa.Lookup:
				sl = i.X
			case *ssa.Call:
				if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					sl = i.Call.Args[0]
				}
			}
			if sl != nil {
				if val, ok := x.atEntry(entry, lp, sl, 6); ok {
					switch s := val.(type) {
					case *VSlice:
						addB(s.len)
					case *Term:
						if s.sort == SStr {
							addB(x.slen(s))
						}
					}
				}
			}
		}
	}
	for _, f := range frameEnds(entry) {
		for _, p := range f.fn.Params {
			if v, ok := f.env.get(p); ok {
				if s, ok := v.(*VSlice); ok {
					addB(s.len)
				}
			}
		}
	}
	if len(bounds) > 14 {
		bounds = bounds[:14]
	}
	var ints, slices []cell
	for _, k := range cells {
		switch v := k.init.(type) {
		case *Term:
			if v.sort == SInt {
				ints = append(ints, k)
			}
		case *VSlice:
			slices = append(slices, k)
		}
	}
	val := func(k cell, st *State) *Term { return k.get(st).(*Term) }
	for _, k := range ints {
		k := k
		init := k.init.(*Term)
		isRef := false
		if k.phi != nil {
			switch under(k.phi.Type()).(type) {
			case *types.Map:
				isRef = true
			}
		}
		if isRef {
			continue
		}
		add(k.name+" >= init", func(st *State) *Term { return c.Ge(val(k, st), init) })
		add(k.name+" <= init", func(st *State) *Term { return c.Le(val(k, st), init) })
		add(k.name+" >= 0", func(st *State) *Term { return c.Ge(val(k, st), c.Int(0)) })
		for _, b := range bounds {
			b := b
			if b == init {
				continue
			}
			bs := c.Show(b)
			add(k.name+" < "+bs, func(st *State) *Term { return c.Lt(val(k, st), b) })
			add(k.name+" <= "+bs, func(st *State) *Term { return c.Le(val(k, st), b) })
			if b.op != "int" {
				add(k.name+" < max(init+1,"+bs+")", func(st *State) *Term { return c.Or(c.Eq(val(k, st), init), c.Lt(val(k, st), b)) })
				add(k.name+" <= init or bound "+bs, func(st *State) *Term { return c.Or(c.Eq(val(k, st), init), c.Le(val(k, st), b)) })
			}
		}
		// constant step
		if k.phi != nil {
			step := int64(0)
			for i, e := range k.phi.Edges {
				if !lp.blocks[lp.header.Preds[i]] {
					continue
				}
				if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD {
					if kc, ok := bo.Y.(*ssa.Const); ok && kc.Value != nil {
						step = kc.Int64()
					}
				}
			}
			if step > 1 {
				add(fmt.Sprintf("%s = init mod %d", k.name, step), func(st *State) *Term {
					return c.Eq(c.Mod(c.Sub(val(k, st), init), c.Int(step)), c.Int(0))
				})
			}
		}
	}
	for i, a := range ints {
		for j := i + 1; j < len(ints); j++ {
			a, b := a, ints[j]
			add(a.name+" - "+b.name+" constant", func(st *State) *Term {
				return c.Eq(c.Sub(val(a, st), val(b, st)), c.Sub(a.init.(*Term), b.init.(*Term)))
			})
			add(a.name+" + "+b.name+" constant", func(st *State) *Term {
				return c.Eq(c.Add(val(a, st), val(b, st)), c.Add(a.init.(*Term), b.init.(*Term)))
			})
			add(a.name+" <= "+b.name, func(st *State) *Term { return c.Le(val(a, st), val(b, st)) })
			add(a.name+" >= "+b.name, func(st *State) *Term { return c.Ge(val(a, st), val(b, st)) })
		}
	}
	for _, k := range slices {
		k := k
		init := k.init.(*VSlice)
		sv := func(st *State) *VSlice { return k.get(st).(*VSlice) }
		add(k.name+" shape", func(st *State) *Term {
			s := sv(st)
			return c.And(c.Le(c.Int(0), s.off), c.Le(c.Int(0), s.len), c.Le(s.len, s.cap), c.Le(c.Add(s.off, s.cap), c.BigInt(maxLen)), c.Lt(s.arr, st.alloc))
		})
		add(k.name+" same array", func(st *State) *Term { return c.Eq(sv(st).arr, init.arr) })
		add(k.name+" non-nil", func(st *State) *Term { return c.Ne(sv(st).arr, c.Int(0)) })
		add(k.name+" same or new array", func(st *State) *Term {
			return c.Or(c.Eq(sv(st).arr, init.arr), c.Ge(sv(st).arr, entry.alloc))
		})
		add(k.name+" new array", func(st *State) *Term { return c.Ge(sv(st).arr, entry.alloc) })
		add(k.name+" offset 0", func(st *State) *Term { return c.Eq(sv(st).off, c.Int(0)) })
		add(k.name+" same offset", func(st *State) *Term { return c.Eq(sv(st).off, init.off) })
		add(k.name+" offset when same array", func(st *State) *Term {
			return c.Imp(c.Eq(sv(st).arr, init.arr), c.And(c.Eq(sv(st).off, init.off), c.Eq(sv(st).cap, init.cap)))
		})
		add(k.name+" same len", func(st *State) *Term { return c.Eq(sv(st).len, init.len) })
		add(k.name+" len grows", func(st *State) *Term { return c.Ge(sv(st).len, init.len) })
		add(k.name+" len shrinks", func(st *State) *Term { return c.Le(sv(st).len, init.len) })
		add(k.name+" suffix", func(st *State) *Term {
			return c.And(c.Eq(c.Add(sv(st).off, sv(st).len), c.Add(init.off, init.len)), c.Eq(c.Add(sv(st).off, sv(st).cap), c.Add(init.off, init.cap)))
		})
		for _, ic := range ints {
			ic := ic
			add("len "+k.name+" tracks "+ic.name, func(st *State) *Term {
				return c.Eq(c.Sub(sv(st).len, init.len), c.Sub(val(ic, st), ic.init.(*Term)))
			})
			add("len "+k.name+" tracks -"+ic.name, func(st *State) *Term {
				return c.Eq(c.Sub(init.len, sv(st).len), c.Sub(val(ic, st), ic.init.(*Term)))
			})
			add(ic.name+" <= len "+k.name, func(st *State) *Term { return c.Le(val(ic, st), sv(st).len) })
			add(ic.name+" >= len "+k.name, func(st *State) *Term { return c.Ge(val(ic, st), sv(st).len) })
		}
		for _, b := range bounds {
			b := b
			add("len "+k.name+" <= "+c.Show(b), func(st *State) *Term { return c.Le(sv(st).len, b) })
		}
	}
	// pointer phis stay non-nil / allocated
	for _, k := range cells {
		k := k
		if p, ok := k.init.(*VPtr); ok {
			add(k.name+" non-nil", func(st *State) *Term { return c.Ne(k.get(st).(*VPtr).ref, c.Int(0)) })
			add(k.name+" unchanged", func(st *State) *Term { return c.Eq(k.get(st).(*VPtr).ref, p.ref) })
			add(k.name+" new", func(st *State) *Term { return c.Ge(k.get(st).(*VPtr).ref, entry.alloc) })
		}
		if p, ok := k.init.(*VIface); ok {
			add(k.name+" unchanged", func(st *State) *Term {
				v := k.get(st).(*VIface)
				return c.And(c.Eq(v.tag, p.tag), c.Eq(v.val, p.val))
			})
		}
		if p, ok := k.init.(*Term); ok && p.sort == SBool {
			add(k.name+" unchanged", func(st *State) *Term { return c.Eq(k.get(st).(*Term), p) })
		}
		if p, ok := k.init.(*Term); ok && p.sort == SStr {
			add(k.name+" unchanged", func(st *State) *Term { return c.Eq(k.get(st).(*Term), p) })
		}
	}
	// the frame of the function under contract, so far
	if x.ct != nil {
		for _, n := range sortedKeys(mods) {
			if strings.HasPrefix(n, "iter:") || strings.HasPrefix(n, "box:") {
				continue
			}
			n := n
			for part := 0; part < 2; part++ {
				part := part
				add(fmt.Sprintf("contract frame %d of %s", part, n), func(st *State) *Term { return x.frameSoFar(st, n, part) })
			}
		}
	}
	// keys seen by a map iteration belong to the map
	for _, in := range lp.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if v, ok := fr.env.get(nx.Iter); ok {
				it := v.(*VIter)
				add("seen keys are keys", func(st *State) *Term {
					seen, ks := x.iterSeen(st, it)
					q := c.QVar("k", ks)
					_, dh := x.mapDom(st, it.t)
					return c.Quant("forall", []*Term{q}, c.Imp(c.Select(seen, q), c.And(c.Ne(it.x.(*Term), c.Int(0)), c.Select(c.Select(dh, it.x.(*Term)), q))), c.Select(seen, q))
				})
			}
		}
	}
	// single fields that keep their value from one iteration to the next
	for _, n := range sortedKeys(mods) {
		if mods[n].full {
			continue
		}
		for _, r := range mods[n].refs {
			n, r := n, r
			add("unchanged "+n, func(st *State) *Term {
				srt := x.heapSort[n]
				return c.Eq(c.Select(x.heapGet(st, n, srt), r), c.Select(x.heapGet(entry, n, srt), r))
			})
		}
	}
	// frames of fully havocked heaps
	for _, n := range sortedKeys(mods) {
		m := mods[n]
		if !m.full {
			continue
		}
		n := n
		frame := func(excl []*Term) func(st *State) *Term {
			return func(st *State) *Term {
				srt := x.heapSort[n]
				cur, old := x.heapGet(st, n, srt), x.heapGet(entry, n, srt)
				r := c.QVar("r", SInt)
				g := c.Lt(r, entry.alloc)
				for _, e := range excl {
					g = c.And(g, c.Ne(r, e))
				}
				sel := func(h *Term) *Term { return c.mk("select", elemSortOf(h), "", []*Term{h, r}, nil, nil) }
				if cur == old {
					return c.True()
				}
				return c.Quant("forall", []*Term{r}, c.Imp(g, c.Eq(sel(cur), sel(old))), sel(cur))
			}
		}
		add("frame of "+n, frame(nil))
		var excl []*Term
		seen := map[*Term]bool{}
		for _, k := range slices {
			a := k.init.(*VSlice).arr
			if !seen[a] {
				seen[a] = true
				excl = append(excl, a)
				add("frame of "+n+" but "+k.name, frame([]*Term{a}))
			}
		}
		for _, r := range m.refs {
			if !seen[r] {
				seen[r] = true
				excl = append(excl, r)
			}
		}
		if len(excl) > 0 && (len(excl) > 1 || len(m.refs) > 0) {
			add("frame of "+n+" but known", frame(excl))
		}
		// contents below the initial length are kept
		for _, k := range slices {
			k := k
			init := k.init.(*VSlice)
			if strings.HasPrefix(n, "[]") && strings.HasPrefix(x.heapSort[n], "(Array Int (Array Int") {
				add("outside spare of "+k.name+" in "+n, func(st *State) *Term {
					srt := x.heapSort[n]
					cur, old := x.heapGet(st, n, srt), x.heapGet(entry, n, srt)
					q := c.QVar("j", SInt)
					lo, hi := c.Add(init.off, init.len), c.Add(init.off, init.cap)
					a, b := c.Select(c.Select(cur, init.arr), q), c.Select(c.Select(old, init.arr), q)
					if a == b {
						return c.True()
					}
					return c.Quant("forall", []*Term{q}, c.Imp(c.Not(c.And(c.Le(lo, q), c.Lt(q, hi))), c.Eq(a, b)), a)
				})
				add("prefix of "+k.name+" in "+n, func(st *State) *Term {
					srt := x.heapSort[n]
					s := k.get(st).(*VSlice)
					cur, old := x.heapGet(st, n, srt), x.heapGet(entry, n, srt)
					q := c.QVar("j", SInt)
					return c.Quant("forall", []*Term{q}, c.Imp(c.And(c.Le(c.Int(0), q), c.Lt(q, init.len)),
						c.Eq(c.Select(c.Select(cur, s.arr), c.Add(s.off, q)), c.Select(c.Select(old, init.arr), c.Add(init.off, q)))))
				})
			}
		}
	}
	return out
}

func (x *Exec) iterSeen(st *State, it *VIter) (*Term, string) {
	mt, _ := mapParts(it.t)
	ks := mapKeySort(mt.Key())
	h := x.heapGet(st, "iter:seen:"+ks, arrOf(arrSort(ks, SBool)))
	return x.c.Select(h, it.ref), ks
}

// frameSoFar says that heap n differs from its value on entry to the function only where the contract's modifies clause
// allows it: whole objects (part 0) and ranges of arrays (part 1).
func (x *Exec) frameSoFar(st *State, n string, part int) *Term {
	if x.ct.ModAll {
		return nil
	}
	env := x.entryEnv()
	var mine []modLoc
	for _, m := range x.ct.Modifies {
		for _, l := range x.modLocs(env, m) {
			if l.heap == n {
				if l.all {
					return nil
				}
				mine = append(mine, l)
			}
		}
	}
	c := x.c
	srt := x.heapSort[n]
	cur, old := x.heapGet(st, n, srt), x.heapGet(x.entry, n, srt)
	if cur == old {
		return c.True()
	}
	if part == 0 {
		r := c.QVar("r", SInt)
		g := c.Lt(r, x.entry.alloc)
		for _, l := range mine {
			g = c.And(g, c.Ne(r, l.ref))
		}
		sel := func(h *Term) *Term { return c.mk("select", elemSortOf(h), "", []*Term{h, r}, nil, nil) }
		return c.Quant("forall", []*Term{r}, c.Imp(g, c.Eq(sel(cur), sel(old))), sel(cur))
	}
	res := c.True()
	done := map[*Term]bool{}
	for _, l := range mine {
		if l.lo == nil || done[l.ref] {
			continue
		}
		done[l.ref] = true
		q := c.QVar("j", SInt)
		out := c.True()
		for _, m := range mine {
			if m.lo == nil {
				out = c.And(out, c.Ne(m.ref, l.ref))
			} else {
				out = c.And(out, c.Not(c.And(c.Eq(m.ref, l.ref), c.Le(m.lo, q), c.Lt(q, m.hi))))
			}
		}
		a, b := c.Select(c.Select(cur, l.ref), q), c.Select(c.Select(old, l.ref), q)
		if a == b {
			continue
		}
		res = c.And(res, c.Quant("forall", []*Term{q}, c.Imp(out, c.Eq(a, b)), a))
	}
	return res
}

// userCands instantiates the invariant hints of the contracts of the functions on the stack.
func (x *Exec) userCands(entry *State, lp *loop, cells []cell) []cand {
	var hints []*SExpr
	var pkg []string
	seen := map[*Contract]bool{}
	for i := len(entry.frames) - 1; i >= 0; i-- {
		ct := x.P.contract(x.P.nameOf(rootFn(entry.frames[i].fn)))
		if i == 0 {
			ct = x.ct
		}
		if ct == nil || seen[ct] {
			continue
		}
		seen[ct] = true
		for _, h := range ct.Invs {
			hints = append(hints, h)
			pkg = append(pkg, ct.Pkg)
		}
	}
	var iter *VIter
	for _, in := range lp.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if v, ok := entry.top().env.get(nx.Iter); ok {
				iter = v.(*VIter)
			}
		}
	}
	var out []cand
	for i, h := range hints {
		if x.ct.Epochs && x.mentionsHeapFun(h) {
			continue
		}
		for _, asg := range x.metaAssign(h, cells) {
			h, asg, pk := h, asg, pkg[i]
			asg.iter = iter
			out = append(out, cand{name: h.src + asg.desc, user: true, hf: x.mentionsHeapFun(h), f: func(st *State) *Term {
				return x.specBool(x.loopEnv(st, pk, asg), h)
			}})
		}
	}
	return out
}
func rootFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

type metaAsg struct {
	m    map[string]cell
	k    map[string]bool
	iter *VIter
	desc string
}

func metaVars(e *SExpr, out map[string]bool) {
	if e == nil {
		return
	}
	if e.op == "id" && strings.HasPrefix(e.name, "$") {
		out[e.name] = true
	}
	for _, a := range e.args {
		metaVars(a, out)
	}
}

// metaAssign enumerates assignments of $i*/$k* (integer cells) and $s* (slice cells), $p* (pointer cells), $t* (string cells).
func (x *Exec) metaAssign(h *SExpr, cells []cell) []metaAsg {
	mv := map[string]bool{}
	metaVars(h, mv)
	res := []metaAsg{{m: map[string]cell{}, k: map[string]bool{}}}
	for _, v := range sortedKeys(mv) {
		if v == "$h" {
			continue
		}
		var next []metaAsg
		for _, a := range res {
			for _, k := range cells {
				ok := false
				switch i := k.init.(type) {
				case *Term:
					ok = i.sort == SInt && (v[1] == 'i' || v[1] == 'k') || i.sort == SStr && v[1] == 't' || i.sort == SBool && v[1] == 'b'
				case *VSlice:
					ok = v[1] == 's'
				case *VPtr:
					ok = v[1] == 'p'
				}
				if !ok {
					continue
				}
				used := false
				for _, o := range a.m {
					if o.name == k.name {
						used = true
					}
				}
				if used {
					continue
				}
				n := metaAsg{m: map[string]cell{}, k: map[string]bool{}, desc: a.desc + " [" + v + "=" + k.name + "]"}
				for q, w := range a.m {
					n.m[q] = w
				}
				n.m[v] = k
				next = append(next, n)
			}
		}
		res = next
	}
	if len(res) > 24 {
		res = res[:24]
	}
	return res
}

func (x *Exec) loopEnv(st *State, pkg string, asg metaAsg) *SpecEnv {
	env := &SpecEnv{x: x, st: st, old: x.entry, vars: map[string]TV{}, pkg: pkg, iter: asg.iter}
	env.params = x.params
	for n, k := range asg.m {
		v := k.get(st)
		if n[1] == 'k' {
			env.vars[n] = TV{x.c.Sub(v.(*Term), k.init.(*Term)), nil}
			continue
		}
		t := k.typ
		if t != nil && n[1] == 's' {
			if sl, ok := under(t).(*types.Slice); ok && sl.Elem() == types.Typ[types.Invalid] {
				t = x.P.sliceTypeOfHeap(k.name)
				if t == nil {
					serr("slice cell %s has no type", k.name)
				}
			}
		}
		env.vars[n] = TV{v, t}
		env.vars["init "+n] = TV{k.init, t}
	}
	at := func(n string, i int) (TV, bool) {
		f := st.frames[i]
		r, ok := f.names[n]
		if !ok {
			return TV{}, false
		}
		v, ok := f.env.get(r.v)
		if !ok {
			switch r.v.(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function:
				v = x.valIn(f, r.v)
			default:
				return TV{}, false
			}
		}
		if r.addr {
			p, ok := v.(*VPtr)
			if !ok {
				return TV{}, false
			}
			return TV{x.load(st, p), x.ptrTarget(p)}, true
		}
		return TV{v, r.v.Type()}, true
	}
	env.root = func(n string) (TV, bool) { return at(n, 0) }
	env.lookup = func(n string) (TV, bool) {
		for i := len(st.frames) - 1; i >= 0; i-- {
			if v, ok := at(n, i); ok {
				return v, true
			}
		}
		return TV{}, false
	}
	return env
}

// frameEnds: the frame that runs the loop and the function under contract.
func frameEnds(st *State) []*Frame {
	if len(st.frames) == 1 {
		return st.frames
	}
	return []*Frame{st.top(), st.frames[0]}
}

func (x *Exec) measures(entry *State, lp *loop, cells []cell) []measure {
	c := x.c
	var out []measure
	fr := entry.top()
	one := func(name string, f func(st *State) *Term) {
		out = append(out, measure{name, func(st *State) (r []*Term) {
			t := x.candTerm(cand{name: name, f: f}, st)
			if t == nil {
				return nil
			}
			return []*Term{t}
		}})
	}
	var bounds []*Term
	seen := map[*Term]bool{}
	addB := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			bounds = append(bounds, t)
		}
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if op, ok := in.(*ssa.BinOp); ok {
				for _, v := range []ssa.Value{op.X, op.Y} {
					if k, ok := v.(*ssa.Const); ok {
						if _, _, isint := intInfo(k.Type()); isint && k.Value != nil {
							addB(x.constVal(k).(*Term))
						}
						continue
					}
					if val, ok := x.atEntry(entry, lp, v, 6); ok {
						if t, ok := val.(*Term); ok && t.sort == SInt {
							addB(t)
						}
					}
				}
			}
			if nx, ok := in.(*ssa.Next); ok && nx.IsString {
				if it, ok := fr.env.get(nx.Iter); ok {
					vi := it.(*VIter)
					one("string iterator", func(st *State) *Term {
						return c.Sub(x.slen(vi.x.(*Term)), c.Select(x.heapGet(st, "iter:pos", arrOf(SInt)), vi.ref))
					})
				}
			}
			var sl ssa.Value
			switch i := in.(type) {
			case *ssa.IndexAddr:
				sl = i.X
			case *ssa.Slice:
				sl = i.X
			case *ssa.Lookup:
				sl = i.X
			case *ssa.Call:
				if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					sl = i.Call.Args[0]
				}
			}
			if sl != nil {
				if val, ok := x.atEntry(entry, lp, sl, 6); ok {
					switch s := val.(type) {
					case *VSlice:
						addB(s.len)
					case *Term:
						if s.sort == SStr {
							addB(x.slen(s))
						}
					}
				}
			}
		}
	}
	for _, f := range frameEnds(entry) {
		for _, p := range f.fn.Params {
			if v, ok := f.env.get(p); ok {
				if s, ok := v.(*VSlice); ok {
					addB(s.len)
				}
			}
		}
	}
	if len(bounds) > 10 {
		bounds = bounds[:10]
	}
	for _, k := range cells {
		k := k
		switch v := k.init.(type) {
		case *Term:
			if v.sort != SInt {
				continue
			}
			one(k.name, func(st *State) *Term { return k.get(st).(*Term) })
			for _, b := range bounds {
				b := b
				one(c.Show(b)+" - "+k.name, func(st *State) *Term { return c.Sub(b, k.get(st).(*Term)) })
			}
			if k.phi != nil { // other loop-carried bounds
				for _, o := range cells {
					o := o
					if w, ok := o.init.(*Term); ok && w.sort == SInt && o.name != k.name {
						one(o.name+" - "+k.name, func(st *State) *Term { return c.Sub(o.get(st).(*Term), k.get(st).(*Term)) })
					}
					if _, ok := o.init.(*VSlice); ok {
						one("len "+o.name+" - "+k.name, func(st *State) *Term { return c.Sub(o.get(st).(*VSlice).len, k.get(st).(*Term)) })
					}
				}
			}
		case *VSlice:
			one("len "+k.name, func(st *State) *Term { return k.get(st).(*VSlice).len })
		}
	}
	// user measures
	seenC := map[*Contract]bool{}
	for i := len(entry.frames) - 1; i >= 0; i-- {
		ct := x.P.contract(x.P.nameOf(rootFn(entry.frames[i].fn)))
		if i == 0 {
			ct = x.ct
		}
		if ct == nil || seenC[ct] {
			continue
		}
		seenC[ct] = true
		for _, es := range ct.LoopDecr {
			tuple := &SExpr{op: "call", args: es}
			for _, asg := range x.metaAssign(tuple, cells) {
				es, asg, pk := es, asg, ct.Pkg
				nm := ""
				for _, e := range es {
					nm += e.src + ","
				}
				out = append(out, measure{nm + asg.desc, func(st *State) []*Term {
					var ts []*Term
					for _, e := range es {
						e := e
						t := x.candTerm(cand{name: nm, user: true, f: func(s *State) *Term { return x.specInt(x.loopEnv(s, pk, asg), e) }}, st)
						if t == nil {
							return nil
						}
						ts = append(ts, t)
					}
					return ts
				}})
			}
		}
	}
	return out
}

var _ = big.NewInt
