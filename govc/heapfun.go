package main

import "strings"

// A heapfun is an uninterpreted specification function whose meaning depends on the heap (the size of the document at
// an address, say) although the heap is not among its arguments. Facts about it carry over from one program point to
// another only if nothing it may depend on has changed in between. Every use of a contract or invariant that mentions a
// heapfun therefore carries an obligation: in the heaps named by the heapreads directive, no object that existed at
// the previous use has changed since.

type heapSnap struct {
	heap  map[string]*Term
	gen   int
	alloc *Term
}

func snapOf(st *State) *heapSnap {
	s := &heapSnap{heap: make(map[string]*Term, len(st.heap)), gen: st.gen, alloc: st.alloc}
	for k, v := range st.heap {
		s.heap[k] = v
	}
	return s
}

func (x *Exec) mentionsHeapFun(e *SExpr) bool { return x.mentions(e, map[string]bool{}) }
func (x *Exec) mentions(e *SExpr, seen map[string]bool) bool {
	if e == nil {
		return false
	}
	if e.op == "call" || e.op == "id" {
		if f, ok := x.P.specs.funs[e.name]; ok && f.heap {
			return true
		}
		if m, ok := x.P.specs.macros[e.name]; ok && !seen[e.name] {
			seen[e.name] = true
			if x.mentions(m.body, seen) {
				return true
			}
		}
	}
	for _, a := range e.args {
		if x.mentions(a, seen) {
			return true
		}
	}
	return false
}

func (x *Exec) usesHeapFuns(ct *Contract) bool {
	if r, ok := x.hfCache[ct]; ok {
		return r
	}
	r := false
	for _, l := range [][]*SExpr{ct.Requires, ct.Ensures, ct.Assume, ct.Unfold, ct.UnfoldPost, ct.Decreases, ct.Panics, ct.MayPanic} {
		for _, e := range l {
			r = r || x.mentionsHeapFun(e)
		}
	}
	if x.hfCache == nil {
		x.hfCache = map[*Contract]bool{}
	}
	x.hfCache[ct] = r
	return r
}

type heapDelta struct {
	n string
	f *Term
}

// heapDiff lists what must be shown for the objects that existed in a to be the same in b.
func (x *Exec) heapDiff(a *State, b *heapSnap, quant bool) []heapDelta {
	sa := a
	var out []heapDelta
	if sa.gen != b.gen {
		return []heapDelta{{"everything", x.c.False()}}
	}
	for _, n := range sortedKeys(b.heap) {
		tracked := false
		for _, p := range x.P.specs.heapReads {
			tracked = tracked || n == p || strings.HasPrefix(n, p+".")
		}
		if !tracked {
			continue
		}
		old, ok := sa.heap[n]
		if !ok {
			old = x.initHeap(&State{heap: map[string]*Term{}, gen: sa.gen, alloc: sa.alloc}, n)
		}
		cur := b.heap[n]
		if cur == old {
			continue
		}
		if quant {
			r := x.c.QVar("r", SInt)
			sel := func(h *Term) *Term { return x.c.mk("select", elemSortOf(h), "", []*Term{h, r}, nil, nil) }
			out = append(out, heapDelta{n, x.c.Quant("forall", []*Term{r}, x.c.Imp(x.c.Lt(r, sa.alloc), x.c.Eq(sel(cur), sel(old))), sel(cur))})
			continue
		}
		r := x.c.Fresh("frame", SInt)
		out = append(out, heapDelta{n, x.c.Imp(x.c.Lt(r, sa.alloc), x.c.Eq(x.c.Select(cur, r), x.c.Select(old, r)))})
	}
	return out
}

func (x *Exec) heapStable(st *State) {
	now := snapOf(st)
	if p := st.hsnap; p != nil {
		for _, d := range x.heapDiff(&State{heap: p.heap, gen: p.gen, alloc: p.alloc}, now, false) {
			if x.ct != nil && x.ct.Epochs && !x.s.Entails(d.f, 300000) {
				// nothing is known about the heap-dependent functions in the changed heap
				x.epochs++
				st.hepoch = x.epochs
				break
			}
			x.oblige(st, "heapfun", "objects that heap-dependent specification functions were applied to have not changed since ("+d.n+")", d.f)
		}
	}
	st.hsnap = now
}
