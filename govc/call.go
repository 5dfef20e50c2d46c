package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// packages whose functions may be inlined when they carry no contract
var inlinePkgs = []string{
	"github.com/tychoish/birch", "github.com/tychoish/fun", "encoding/binary", "math", "math/bits", "slices", "maps", "iter", "errors", "unicode/utf8",
}

func inlinable(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if fn.Parent() != nil {
			return inlinable(fn.Parent())
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return inlinePath(fn.Object().Pkg().Path())
		}
		return fn.Synthetic != "" && len(fn.Blocks) > 0 // wrappers, bound methods
	}
	return inlinePath(p.Pkg.Path())
}
func inlinePath(path string) bool {
	for _, q := range inlinePkgs {
		if path == q || strings.HasPrefix(path, q+"/") {
			if q == "math" && path != "math" || q == "errors" && path != "errors" {
				continue
			}
			return true
		}
	}
	return false
}

func (x *Exec) callee(st *State, c *ssa.CallCommon) (*VFunc, []Val, *ssa.Builtin) {
	var args []Val
	if c.IsInvoke() {
		recv := x.val(st, c.Value).(*VIface)
		for _, a := range c.Args {
			args = append(args, x.val(st, a))
		}
		if recv.tag.op == "int" && recv.tag.ival.Sign() > 0 {
			rt := x.typeByID(int(recv.tag.ival.Int64()))
			if rt != nil {
				if f := x.P.lookupMethod(rt, c.Method); f != nil {
					return &VFunc{fn: f}, append([]Val{x.unbox(st, recv, rt)}, args...), nil
				}
			}
		}
		key := fmt.Sprintf("(%s).%s", shortName(typeKey(c.Value.Type())), c.Method.Name())
		return &VFunc{key: key}, append([]Val{recv}, args...), nil
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args, b
	}
	f, ok := x.val(st, c.Value).(*VFunc)
	if !ok {
		unsup("call of %T", x.val(st, c.Value))
	}
	return f, args, nil
}

func (x *Exec) bindRes(st *State, dest ssa.Value, v Val) {
	if dest != nil {
		x.bind(st, dest, v)
	}
}

func sigOf(c *ssa.CallCommon) *types.Signature { return c.Signature() }

func resType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// callVal performs a call; returns true when the path has been fully handled.
func (x *Exec) callVal(st *State, c *ssa.CallCommon, f *VFunc, args []Val, dest ssa.Value, bi *ssa.Builtin) bool {
	if bi != nil {
		return x.builtin(st, c, bi, args, dest)
	}
	if f.fn == nil {
		if f.key == "" {
			x.oblige(st, "safety:nilfunc", "called function value is not nil", x.c.Ne(x.funcRef(f), x.c.Int(0)))
			if ct := x.P.contract("func:" + shortName(typeKey(c.Value.Type()))); ct != nil {
				return x.applyContract(st, ct, sigOf(c), args, nil, dest)
			}
			unsup("call of an unknown function value (%s)", c.Value.Type())
		}
		recv := args[0].(*VIface)
		x.oblige(st, "safety:nil", "method call on non-nil interface", x.c.Ne(recv.tag, x.c.Int(0)))
		if ct := x.P.contract(f.key); ct != nil {
			rt := c.Value.Type()
			return x.applyContract(st, ct, sigOf(c), args, rt, dest)
		}
		unsup("interface call %s without a contract", f.key)
	}
	fn := f.fn
	name := x.P.nameOf(fn)
	if done, r := x.intrinsic(st, name, fn, args, dest); done {
		return r
	}
	if ct := x.P.contract(name); ct != nil && !ct.Inline && !x.nocontr[name] && (ct.Extern || len(ct.Ensures)+len(ct.Requires)+len(ct.Panics) > 0 || ct.HasMod) {
		if !(x.fn == fn && len(st.frames) == 0) {
			var rt types.Type
			if fn.Signature.Recv() != nil {
				rt = fn.Signature.Recv().Type()
			}
			return x.applyContract(st, ct, fn.Signature, args, rt, dest)
		}
	}
	if len(fn.Blocks) == 0 {
		unsup("call of %s, which has no body and no contract", name)
	}
	if !inlinable(fn) {
		unsup("call of external %s without a contract", name)
	}
	for _, fr := range st.frames {
		if fr.fn == fn && fn.Parent() == nil {
			unsup("recursive call of %s without a contract", name)
		}
	}
	if len(st.frames) > 40 {
		unsup("inlining too deep at %s", name)
	}
	x.inlined[name] = true
	x.pushFrame(st, fn, f.bind, args, dest)
	return false
}

func (x *Exec) pushFrame(st *State, fn *ssa.Function, bind []Val, args []Val, dest ssa.Value) *Frame {
	fr := &Frame{fn: fn, env: &Env{m: map[ssa.Value]Val{}}, block: fn.Blocks[0], call: dest, loops: map[*ssa.BasicBlock]*loopCtx{}, names: map[string]nameRef{}}
	for i, p := range fn.Params {
		fr.env.m[p] = args[i]
		fr.names[p.Name()] = nameRef{p, false}
	}
	for i, v := range fn.FreeVars {
		fr.env.m[v] = bind[i]
		fr.names[v.Name()] = nameRef{v, true}
	}
	st.frames = append(st.frames, fr)
	return fr
}

// intrinsic models a few functions exactly.
func (x *Exec) intrinsic(st *State, name string, fn *ssa.Function, args []Val, dest ssa.Value) (bool, bool) {
	switch name {
	case "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits":
		x.bindRes(st, dest, args[0])
		return true, false
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		x.bindRes(st, dest, VTuple{})
		return true, false
	case "sync/atomic.AddUint32", "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint64":
		p := args[0].(*VPtr)
		x.nilCheck(st, p)
		t := fn.Signature.Results().At(0).Type()
		v := x.wrap(x.c.Add(x.load(st, p).(*Term), args[1].(*Term)), t)
		x.store(st, p, v)
		x.bindRes(st, dest, v)
		return true, false
	case "math/bits.Len64", "math/bits.Len32", "math/bits.LeadingZeros64", "math/bits.TrailingZeros64":
		t := x.c.App(name, SInt, args[0].(*Term))
		x.c.setRange(t, big0, big.NewInt(64))
		x.bindRes(st, dest, t)
		return true, false
	}
	return false, false
}

func (x *Exec) builtin(st *State, c *ssa.CallCommon, bi *ssa.Builtin, args []Val, dest ssa.Value) bool {
	switch bi.Name() {
	case "len":
		x.bindRes(st, dest, x.lenOf(st, args[0], c.Args[0].Type()))
	case "cap":
		switch v := args[0].(type) {
		case *VSlice:
			x.bindRes(st, dest, v.cap)
		default:
			x.bindRes(st, dest, x.lenOf(st, args[0], c.Args[0].Type()))
		}
	case "append":
		return x.doAppend(st, c, args, dest)
	case "copy":
		return x.doCopy(st, c, args, dest)
	case "delete":
		x.mapDelete(st, args[0].(*Term), c.Args[0].Type(), args[1])
		x.bindRes(st, dest, VTuple{})
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if bi.Name() == "min" {
				r = x.c.Ite(x.c.Le(r, b), r, b)
			} else {
				r = x.c.Ite(x.c.Ge(r, b), r, b)
			}
		}
		x.bindRes(st, dest, r)
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0].(*VPtr))
		x.bindRes(st, dest, args[0])
	case "recover":
		x.bindRes(st, dest, &VIface{x.c.Int(0), x.c.Int(0)})
	case "clear":
		switch t := under(c.Args[0].Type()).(type) {
		case *types.Map:
			m := args[0].(*Term)
			x.oblige(st, "safety:clear", "clear of non-nil map (model)", x.c.Ne(m, x.c.Int(0)))
			x.mapInit(st, m, c.Args[0].Type())
		case *types.Slice:
			s := args[0].(*VSlice)
			for _, l := range leavesOf(t.Elem()) {
				mem := x.memOf(st, t.Elem(), s.arr, l)
				z := x.c.ConstArr(arrOf(l.sort), x.zeroLeaf(l.sort))
				x.setMem(st, t.Elem(), s.arr, l, x.splice(mem, s.off, z, s.off, s.len))
			}
		}
		x.bindRes(st, dest, VTuple{})
	case "print", "println":
		x.bindRes(st, dest, VTuple{})
	default:
		unsup("builtin %s", bi.Name())
	}
	return false
}

func (x *Exec) lenOf(st *State, v Val, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		return x.slen(v.(*Term))
	case *types.Slice:
		return v.(*VSlice).len
	case *types.Array:
		return x.c.Int(u.Len())
	case *types.Pointer:
		return x.c.Int(under(u.Elem()).(*types.Array).Len())
	case *types.Map:
		return x.mapLen(st, v.(*Term), t)
	}
	return unsup("len of %s", t).(*Term)
}

func (x *Exec) decide(cond *Term) int {
	if cond.isTrue() {
		return 1
	}
	if cond.isFalse() {
		return -1
	}
	if x.s.Entails(cond, 200000) {
		return 1
	}
	if x.s.Entails(x.c.Not(cond), 200000) {
		return -1
	}
	return 0
}

func (x *Exec) doAppend(st *State, c *ssa.CallCommon, args []Val, dest ssa.Value) bool {
	sl := under(c.Args[0].Type()).(*types.Slice)
	el := sl.Elem()
	s := args[0].(*VSlice)
	var n2 *Term
	src := func(st *State, l leaf) (*Term, *Term) { return nil, nil }
	if len(args) < 2 {
		x.bindRes(st, dest, s)
		return false
	}
	if isString(c.Args[1].Type()) {
		str := args[1].(*Term)
		n2 = x.slen(str)
		src = func(st *State, l leaf) (*Term, *Term) { return x.bytesOf(str), x.c.Int(0) }
	} else {
		t := args[1].(*VSlice)
		n2 = t.len
		src = func(st *State, l leaf) (*Term, *Term) { return x.memOf(st, el, t.arr, l), t.off }
	}
	if n2.op == "int" && n2.ival.Sign() == 0 {
		x.bindRes(st, dest, s)
		return false
	}
	n := x.c.Add(s.len, n2)
	fit := x.c.Le(n, s.cap)
	inPlace := func(st *State) {
		var news []*Term
		ls := leavesOf(el)
		for _, l := range ls {
			m, o := src(st, l)
			news = append(news, x.splice(x.memOf(st, el, s.arr, l), x.c.Add(s.off, s.len), m, o, n2))
		}
		for i, l := range ls {
			x.setMem(st, el, s.arr, l, news[i])
		}
		x.bindRes(st, dest, &VSlice{s.arr, s.off, n, s.cap})
	}
	grow := func(st *State) {
		cp := x.c.Fresh("cap", SInt)
		x.c.setRange(cp, big0, maxLenOf(el))
		x.assume(x.c.Ge(cp, n))
		r := x.newRef(st)
		for _, l := range leavesOf(el) {
			m, o := src(st, l)
			base := x.c.Fresh("grown", arrOf(l.sort))
			a := x.splice(base, x.c.Int(0), x.memOf(st, el, s.arr, l), s.off, s.len)
			x.setMem(st, el, r, l, x.splice(a, s.len, m, o, n2))
		}
		x.bindRes(st, dest, &VSlice{r, x.c.Int(0), n, cp})
	}
	// append of nothing returns s itself; the model with n2 == 0 and fit covers it
	switch x.decide(fit) {
	case 1:
		inPlace(st)
		return false
	case -1:
		grow(st)
		return false
	}
	x.fork(st, fit, func(s2 *State) { inPlace(s2); x.run(s2) }, func(s2 *State) { grow(s2); x.run(s2) })
	return true
}

func (x *Exec) doCopy(st *State, c *ssa.CallCommon, args []Val, dest ssa.Value) bool {
	d := args[0].(*VSlice)
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	var n2 *Term
	var src func(st *State, l leaf) (*Term, *Term)
	if isString(c.Args[1].Type()) {
		str := args[1].(*Term)
		n2 = x.slen(str)
		src = func(st *State, l leaf) (*Term, *Term) { return x.bytesOf(str), x.c.Int(0) }
	} else {
		t := args[1].(*VSlice)
		n2 = t.len
		src = func(st *State, l leaf) (*Term, *Term) { return x.memOf(st, el, t.arr, l), t.off }
	}
	do := func(st *State, n *Term) {
		var news []*Term
		ls := leavesOf(el)
		for _, l := range ls {
			m, o := src(st, l)
			news = append(news, x.splice(x.memOf(st, el, d.arr, l), d.off, m, o, n))
		}
		for i, l := range ls {
			x.setMem(st, el, d.arr, l, news[i])
		}
		x.bindRes(st, dest, n)
	}
	cond := x.c.Le(n2, d.len)
	switch x.decide(cond) {
	case 1:
		do(st, n2)
		return false
	case -1:
		do(st, d.len)
		return false
	}
	x.fork(st, cond, func(s2 *State) { do(s2, n2); x.run(s2) }, func(s2 *State) { do(s2, d.len); x.run(s2) })
	return true
}

// ---------- contracts at call sites ----------

type modLoc struct {
	heap   string
	ref    *Term
	lo, hi *Term // absolute index range when the location is part of a backing array; nil = everything
	all    bool  // the whole heap
}

func (x *Exec) applyContract(st *State, ct *Contract, sig *types.Signature, args []Val, recvType types.Type, dest ssa.Value) bool {
	x.used[ct.Name] = true
	env := x.callEnv(ct, sig, args, recvType)
	env.st = st
	env.old = st
	hf := x.usesHeapFuns(ct)
	if hf {
		x.heapStable(st)
	}
	for i, r := range ct.Requires {
		x.oblige(st, "pre:"+ct.Name, fmt.Sprintf("precondition %d of %s: %s", i+1, ct.Name, r.src), x.specBool(env, r))
	}
	if len(x.dry) == 0 && !ct.Extern && !x.ct.Diverge && x.P.sameSCC(x.fn, ct) {
		if len(ct.Decreases) == 0 || len(x.ct.Decreases) == 0 {
			x.oblige(st, "terminates:rec", "recursive call of "+ct.Name+" has a decreasing measure", x.c.False())
		} else {
			x.checkMeasure(st, env, ct)
		}
	}
	pc := x.c.False()
	for _, p := range ct.Panics {
		pc = x.c.Or(pc, x.specBool(env, p))
	}
	// may panic, may also return: both continue
	mp := x.c.False()
	for _, p := range ct.MayPanic {
		mp = x.c.Or(mp, x.specBool(env, p))
	}
	if mp = x.c.And(mp, x.c.Not(pc)); !mp.isFalse() {
		x.fork(st.clone(), mp, func(s2 *State) { x.doPanic(s2, "call of "+ct.Name+", which may panic here") }, func(s2 *State) {})
	}
	cont := func(st *State) bool {
		old := st.snapshot()
		env.old = old
		if ct.ModAll {
			x.havocAll(st)
		}
		env.st = old
		var locs []modLoc
		for _, m := range ct.Modifies {
			locs = append(locs, x.modLocs(env, m)...)
		}
		// allocation
		if !ct.NoAlloc {
			na := x.c.Fresh("alloc", SInt)
			x.c.setRange(na, big1, nil)
			x.s.Assert(x.c.Ge(na, st.alloc))
			st.alloc = na
		}
		if ct.ModAll {
			x.genAlloc[st.gen] = st.alloc
			for _, n := range sortedKeys(st.heap) {
				x.heapAxiom(n, st.heap[n], st.alloc)
			}
		}
		for _, l := range locs {
			x.havocLoc(st, l)
		}
		var res []TV
		var rv Val
		rl := sig.Results().Len()
		if rl == 1 {
			rv = x.freshVal(st, "ret", sig.Results().At(0).Type())
			res = []TV{{rv, sig.Results().At(0).Type()}}
		} else {
			tup := x.freshVal(st, "ret", sig.Results()).(VTuple)
			for i := range tup {
				res = append(res, TV{tup[i], sig.Results().At(i).Type()})
			}
			rv = tup
		}
		env.st = st
		env.res = res
		env.setResNames(ct, sig)
		if hf {
			x.heapStable(st)
		}
		for _, e := range append(append([]*SExpr{}, ct.Ensures...), ct.Assume...) {
			x.assume(x.specBool(env, e))
		}
		for _, p := range ct.Panics {
			env2 := *env
			env2.st = old
			x.assume(x.c.Not(x.specBool(&env2, p)))
		}
		x.bindRes(st, dest, rv)
		return x.s.Feasible()
	}
	if pc.isFalse() {
		return !cont(st)
	}
	if pc.isTrue() {
		x.doPanic(st, "call of "+ct.Name)
		return true
	}
	x.fork(st, pc, func(s2 *State) { x.doPanic(s2, "call of "+ct.Name+", which panics here") }, func(s2 *State) {
		if cont(s2) {
			x.run(s2)
		}
	})
	return true
}

func (x *Exec) havocLoc(st *State, l modLoc) {
	h := x.heapGet(st, l.heap, x.heapSort[l.heap])
	if l.all {
		st.heap[l.heap] = x.c.Fresh("hv", h.sort)
		x.heapAxiom(l.heap, st.heap[l.heap], st.alloc)
		return
	}
	es := elemSortOf(h)
	f := x.c.Fresh("hv", es)
	x.rowAxiom(l.heap, l.ref, f, st.alloc)
	if l.lo != nil {
		cur := x.c.Select(h, l.ref)
		st.heap[l.heap] = x.c.Store(h, l.ref, x.splice(cur, l.lo, f, l.lo, x.c.Sub(l.hi, l.lo)))
		return
	}
	st.heap[l.heap] = x.c.Store(h, l.ref, f)
}

// frameCheck proves that nothing outside the modifies clause changed.
func (x *Exec) frameCheck(st *State) {
	if x.ct.ModAll {
		return
	}
	if st.gen != 0 {
		x.oblige(st, "frame", "only the locations in the modifies clause change (a callee may change everything)", x.c.False())
		return
	}
	env := x.entryEnv()
	var locs []modLoc
	for _, m := range x.ct.Modifies {
		locs = append(locs, x.modLocs(env, m)...)
	}
	for _, n := range sortedKeys(st.heap) {
		if strings.HasPrefix(n, "iter:") || strings.HasPrefix(n, "box:") {
			continue
		}
		cur := st.heap[n]
		old, ok := x.entry.heap[n]
		if !ok {
			old = x.initHeap(x.entry, n)
		}
		if cur == old {
			continue
		}
		var mine []modLoc
		whole := false
		for _, l := range locs {
			if l.heap == n {
				mine = append(mine, l)
				if l.all {
					whole = true
				}
			}
		}
		if whole {
			continue
		}
		r := x.c.Fresh("frame", SInt)
		cond := x.c.Lt(r, x.entry.alloc)
		for _, l := range mine {
			cond = x.c.And(cond, x.c.Ne(r, l.ref))
		}
		x.oblige(st, "frame", "only the locations in the modifies clause change ("+n+")", x.c.Imp(cond, x.c.Eq(x.c.Select(cur, r), x.c.Select(old, r))))
		// partially modified arrays
		done := map[*Term]bool{}
		for _, l := range mine {
			if l.lo == nil || done[l.ref] {
				continue
			}
			done[l.ref] = true
			i := x.c.Fresh("idx", SInt)
			out := x.c.True()
			full := false
			for _, m := range mine {
				in := x.c.False()
				if m.lo == nil {
					in = x.c.Eq(m.ref, l.ref)
					if m.ref == l.ref {
						full = true
					}
				} else {
					in = x.c.And(x.c.Eq(m.ref, l.ref), x.c.Le(m.lo, i), x.c.Lt(i, m.hi))
				}
				out = x.c.And(out, x.c.Not(in))
			}
			if full {
				continue
			}
			x.oblige(st, "frame", "only the listed range of the slice changes ("+n+")",
				x.c.Imp(out, x.c.Eq(x.c.Select(x.c.Select(cur, l.ref), i), x.c.Select(x.c.Select(old, l.ref), i))))
		}
	}
}

func (x *Exec) checkMeasure(st *State, callEnv *SpecEnv, ct *Contract) {
	var a, b []*Term
	for _, d := range ct.Decreases {
		a = append(a, x.specInt(callEnv, d))
	}
	for _, d := range x.ct.Decreases {
		b = append(b, x.specInt(x.entryEnv(), d))
	}
	x.oblige(st, "terminates:rec", "measure decreases at the call of "+ct.Name, x.lexLess(a, b))
}
func (x *Exec) lexLess(a, b []*Term) *Term {
	r := x.c.False()
	eq := x.c.True()
	for i := range a {
		if i >= len(b) {
			break
		}
		r = x.c.Or(r, x.c.And(eq, x.c.Lt(a[i], b[i]), x.c.Ge(b[i], x.c.Int(0))))
		eq = x.c.And(eq, x.c.Eq(a[i], b[i]))
	}
	return r
}
