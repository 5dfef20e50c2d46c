package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Options struct {
	NoPortfolio bool
	Timeout     time.Duration
	FnBudget    time.Duration
	MaxFails    int
	Rlimit      int
	Smoke       bool
}

type Program struct {
	fset    *token.FileSet
	dir     string
	prog    *ssa.Program
	specs   *Specs
	byShort map[string]*ssa.Package
	opts    Options
	mu      sync.Mutex
	gids    map[*ssa.Global]int
	gkinds  map[*ssa.Global]string
	garr    map[*ssa.Global]map[int64]*ssa.Const
	loops   sync.Map
	names   sync.Map
	fns     map[string]*ssa.Function
	dropped map[string]bool
	scc     map[*ssa.Function]int
	sccN    map[int]int
	selfrec map[*ssa.Function]bool
	types   map[string]types.Type
}

const modPath = "github.com/tychoish/birch"

var reShort = strings.NewReplacer(modPath+"/x/mrpc/", "", modPath+"/x/", "", modPath+"/", "", "github.com/tychoish/", "")

func shortName(s string) string { return reShort.Replace(s) }

func (p *Program) nameOf(fn *ssa.Function) string {
	if n, ok := p.names.Load(fn); ok {
		return n.(string)
	}
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	n := shortName(f.String())
	if i := strings.Index(n, "["); i >= 0 && strings.HasSuffix(n, "]") && f != fn {
		n = n[:i]
	}
	n = reTypeArgs.ReplaceAllString(n, "")
	p.names.Store(fn, n)
	return n
}

var reTypeArgs = regexp.MustCompile(`\[[A-Za-z_][^\]]*\]`)

func inRepo(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

func loadProgram(dir, specDir string, opts Options) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOWORK="+dir+"/go.work")}
	pk, err := packages.Load(cfg, "./...", "./x/ftdc/...")
	if err != nil {
		return nil, err
	}
	if packages.PrintErrors(pk) > 0 {
		return nil, fmt.Errorf("the repository does not load")
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	sp, err := loadSpecs(specDir)
	if err != nil {
		return nil, err
	}
	p := &Program{fset: prog.Fset, dir: dir, prog: prog, specs: sp, byShort: map[string]*ssa.Package{}, opts: opts,
		gids: map[*ssa.Global]int{}, gkinds: map[*ssa.Global]string{}, fns: map[string]*ssa.Function{}, dropped: map[string]bool{},
		types: map[string]types.Type{}, garr: map[*ssa.Global]map[int64]*ssa.Const{}}
	var globals []*ssa.Global
	for _, q := range prog.AllPackages() {
		p.byShort[shortName(q.Pkg.Path())] = q
		for _, m := range q.Members {
			if g, ok := m.(*ssa.Global); ok {
				globals = append(globals, g)
			}
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i].String() < globals[j].String() })
	for i, g := range globals {
		p.gids[g] = i + 1
	}
	all := ssautil.AllFunctions(prog)
	var list []*ssa.Function
	for f := range all {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, f := range list {
		if f.Synthetic != "" && f.Origin() == nil {
			if f.Name() != "init" {
				continue
			}
		}
		if len(f.TypeArgs()) > 0 {
			// generic instances are found by their origin's name; keep the first
			n := p.nameOf(f)
			if _, ok := p.fns[n]; !ok {
				p.fns[n] = f
			}
			continue
		}
		if f.TypeParams().Len() > 0 {
			continue
		}
		n := p.nameOf(f)
		if _, ok := p.fns[n]; !ok {
			p.fns[n] = f
		}
	}
	p.scanGlobals(list)
	p.computeSCC(list)
	return p, nil
}

// scanGlobals classifies globals that are written only by their package initialiser.
func (p *Program) scanGlobals(list []*ssa.Function) {
	bad := map[*ssa.Global]bool{}
	initVal := map[*ssa.Global]ssa.Value{}
	arr := map[*ssa.Global]map[int64]*ssa.Const{}
	lit := map[*ssa.Global]bool{}
	for _, f := range list {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if i.Addr == g && i.Val != ssa.Value(g) && isInit {
							if _, dup := initVal[g]; dup || lit[g] {
								bad[g] = true
							}
							if m := localTable(i.Val); m != nil && arr[g] == nil {
								arr[g] = m
								lit[g] = true
								continue
							}
							initVal[g] = i.Val
							continue
						}
					case *ssa.IndexAddr, *ssa.FieldAddr:
						// only loads, or constant stores in init
						v := in.(ssa.Value)
						ok := true
						for _, r := range *v.Referrers() {
							switch rr := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								ia, isIdx := in.(*ssa.IndexAddr)
								if !isInit || !isIdx || rr.Addr != v {
									ok = false
									break
								}
								k, okk := ia.Index.(*ssa.Const)
								cv, okv := rr.Val.(*ssa.Const)
								if !okk || !okv {
									ok = false
									break
								}
								if lit[g] {
									ok = false
									break
								}
								if arr[g] == nil {
									arr[g] = map[int64]*ssa.Const{}
								}
								arr[g][k.Int64()] = cv
							default:
								ok = false
							}
						}
						if ok {
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for g, v := range initVal {
		if bad[g] {
			continue
		}
		if c, ok := v.(*ssa.Call); ok {
			if fn := c.Call.StaticCallee(); fn != nil && (fn.String() == "errors.New" || fn.String() == "fmt.Errorf") && len(c.Call.Args) > 0 {
				p.gkinds[g] = "error"
				if fn.String() == "fmt.Errorf" {
					p.gkinds[g] = "errorf"
				}
			}
		}
		if c, ok := v.(*ssa.Const); ok {
			p.gkinds[g] = "const"
			p.garr[g] = map[int64]*ssa.Const{0: c}
		}
	}
	for g, m := range arr {
		if !bad[g] && initVal[g] == nil && isArr(g.Type().(*types.Pointer).Elem()) {
			p.gkinds[g] = "array"
			p.garr[g] = m
		}
	}
	for _, q := range p.prog.AllPackages() {
		for _, m := range q.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] && initVal[g] == nil && arr[g] == nil && g.Object() != nil {
				p.gkinds[g] = "zero" // declared without an initialiser and never written
			}
		}
	}
}

// localTable is the table an array literal of constants builds in a local variable of an initialiser.
func localTable(v ssa.Value) map[int64]*ssa.Const {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok || !isArr(al.Type().(*types.Pointer).Elem()) {
		return nil
	}
	m := map[int64]*ssa.Const{}
	for _, r := range *al.Referrers() {
		if r == ssa.Instruction(ld) {
			continue
		}
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Block() != ld.Block() {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			return nil
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		n := 0
		for _, rr := range *ia.Referrers() {
			st, ok := rr.(*ssa.Store)
			if _, dbg := rr.(*ssa.DebugRef); dbg {
				continue
			}
			if !ok || st.Addr != ssa.Value(ia) || st.Block() != ld.Block() {
				return nil
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok {
				return nil
			}
			m[k.Int64()] = c
			n++
		}
		if n > 1 {
			return nil
		}
	}
	// the loads come after the stores: every store precedes the load in its block
	seen := false
	for _, in := range ld.Block().Instrs {
		if in == ssa.Instruction(ld) {
			seen = true
		}
		if st, ok := in.(*ssa.Store); ok && seen {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X == ssa.Value(al) {
				return nil
			}
		}
	}
	return m
}

// globalVal gives the value of a global that never changes after initialisation.
func (x *Exec) globalVal(st *State, g *ssa.Global) (Val, bool) {
	t := g.Type().(*types.Pointer).Elem()
	switch x.P.gkinds[g] {
	case "error", "errorf":
		tt := x.P.lookupType("*errors.errorString", "")
		if x.P.gkinds[g] == "errorf" {
			tt = x.P.lookupType("*fmt.wrapError", "")
		}
		if tt == nil {
			return nil, false
		}
		return &VIface{x.tid(tt), x.c.Int(int64(-1000000 - x.P.gids[g]))}, true
	case "const":
		return x.constVal(x.P.garr[g][0]), true
	case "zero":
		return x.zero(t), true
	case "array":
		at := under(t).(*types.Array)
		ls := leavesOf(at.Elem())
		if len(ls) != 1 {
			return nil, false
		}
		a := x.c.ConstArr(arrOf(ls[0].sort), x.zeroLeaf(ls[0].sort))
		var ks []int
		for k := range x.P.garr[g] {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		for _, k := range ks {
			a = x.c.Store(a, x.c.Int(int64(k)), x.constVal(x.P.garr[g][int64(k)]).(*Term))
		}
		return &VArr{[]*Term{a}}, true
	}
	return nil, false
}

// tableAt is element idx of an array that never changes after initialisation; runs of equal elements become interval tests.
func (x *Exec) tableAt(g *ssa.Global, idx *Term) *Term {
	if x.P.gkinds[g] != "array" {
		return nil
	}
	at := under(g.Type().(*types.Pointer).Elem()).(*types.Array)
	ls := leavesOf(at.Elem())
	if len(ls) != 1 || at.Len() > 1024 {
		return nil
	}
	at0 := func(k int64) *Term {
		if v, ok := x.P.garr[g][k]; ok {
			return x.constVal(v).(*Term)
		}
		return x.zeroLeaf(ls[0].sort)
	}
	var r *Term
	for hi := at.Len(); hi > 0; {
		v := at0(hi - 1)
		lo := hi - 1
		for lo > 0 && at0(lo-1) == v {
			lo--
		}
		if r == nil {
			r = v
		} else {
			r = x.c.Ite(x.c.Lt(idx, x.c.Int(hi)), v, r)
		}
		hi = lo
	}
	return r
}

func (p *Program) globalID(g *ssa.Global) int { return p.gids[g] }

func (p *Program) loopInfo(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := p.loops.Load(fn); ok {
		return l.(map[*ssa.BasicBlock]*loop)
	}
	p.mu.Lock()
	l := findLoops(fn)
	p.mu.Unlock()
	p.loops.Store(fn, l)
	return l
}

func (p *Program) contract(name string) *Contract {
	ct := p.specs.contracts[name]
	if ct == nil || p.dropped[name] {
		return nil
	}
	return ct
}

func (p *Program) lookupMethod(rt types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.LookupMethod(rt, m.Pkg(), m.Name())
}

func (p *Program) lookupType(name, pkg string) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := pkg + "|" + name
	if t, ok := p.types[k]; ok {
		return t
	}
	t := p.lookupType0(name, pkg)
	p.types[k] = t
	return t
}
func (p *Program) lookupType0(name, pkg string) types.Type {
	if strings.HasPrefix(name, "*") {
		if t := p.lookupType0(name[1:], pkg); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(name, "[]") {
		if t := p.lookupType0(name[2:], pkg); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if o := types.Universe.Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg, name = name[:i], name[i+1:]
	}
	q := p.byShort[pkg]
	if q == nil {
		return nil
	}
	if tn, ok := q.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

func (x *Exec) typeID(t types.Type) int {
	k := typeKey(t)
	if id, ok := x.tids[k]; ok {
		return id
	}
	x.tlist = append(x.tlist, t)
	x.tids[k] = len(x.tlist)
	return len(x.tlist)
}
func (x *Exec) typeByID(i int) types.Type {
	if i >= 1 && i <= len(x.tlist) {
		return x.tlist[i-1]
	}
	return nil
}

// sliceTypeOfHeap finds the slice type of a slice-valued object field from its heap name.
func (p *Program) sliceTypeOfHeap(name string) types.Type {
	// "pkg/path.Type.field"
	for sn, q := range p.byShort {
		_ = sn
		pre := q.Pkg.Path() + "."
		if !strings.HasPrefix(name, pre) {
			continue
		}
		parts := strings.Split(name[len(pre):], ".")
		tn, ok := q.Pkg.Scope().Lookup(parts[0]).(*types.TypeName)
		if !ok {
			continue
		}
		t := tn.Type()
		for _, f := range parts[1:] {
			st, ok := under(t).(*types.Struct)
			if !ok {
				return nil
			}
			found := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					t = st.Field(i).Type()
					found = true
				}
			}
			if !found {
				return nil
			}
		}
		return t
	}
	if strings.HasPrefix(name, "[]") { // a local slice variable captured by reference
		switch name {
		case "[]uint8":
			return types.NewSlice(types.Typ[types.Uint8])
		}
	}
	return nil
}

// computeSCC finds recursion among repository functions.
func (p *Program) computeSCC(list []*ssa.Function) {
	var nodes []*ssa.Function
	byMeth := map[string][]*ssa.Function{}
	idx := map[*ssa.Function]int{}
	for _, f := range list {
		pk := f.Pkg
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Pkg
		}
		path := ""
		if pk != nil {
			path = pk.Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			path = f.Object().Pkg().Path()
		}
		if !inRepo(path) {
			continue
		}
		idx[f] = len(nodes)
		nodes = append(nodes, f)
		if f.Signature.Recv() != nil {
			byMeth[f.Name()] = append(byMeth[f.Name()], f)
		}
	}
	adj := make([][]int, len(nodes))
	p.selfrec = map[*ssa.Function]bool{}
	for i, f := range nodes {
		seen := map[int]bool{}
		addE := func(g *ssa.Function) {
			if j, ok := idx[g]; ok && !seen[j] {
				seen[j] = true
				adj[i] = append(adj[i], j)
				if i == j {
					p.selfrec[f] = true
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if g, ok := (*op).(*ssa.Function); ok {
						addE(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					iface, _ := under(c.Common().Value.Type()).(*types.Interface)
					for _, g := range byMeth[m.Name()] {
						if iface != nil && (types.Implements(g.Signature.Recv().Type(), iface)) {
							addE(g)
						}
					}
				}
			}
		}
	}
	// Tarjan
	n := len(nodes)
	low, num, comp := make([]int, n), make([]int, n), make([]int, n)
	on := make([]bool, n)
	var stack []int
	cnt, nc := 0, 0
	var dfs func(v int)
	dfs = func(v int) {
		cnt++
		num[v], low[v] = cnt, cnt
		stack = append(stack, v)
		on[v] = true
		for _, w := range adj[v] {
			if num[w] == 0 {
				dfs(w)
				low[v] = min(low[v], low[w])
			} else if on[w] {
				low[v] = min(low[v], num[w])
			}
		}
		if low[v] == num[v] {
			nc++
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				comp[w] = nc
				if w == v {
					break
				}
			}
		}
	}
	for v := range nodes {
		if num[v] == 0 {
			dfs(v)
		}
	}
	p.scc = map[*ssa.Function]int{}
	p.sccN = map[int]int{}
	for i, f := range nodes {
		p.scc[f] = comp[i]
		p.sccN[comp[i]]++
	}
}

func (p *Program) sameSCC(f *ssa.Function, ct *Contract) bool {
	g := p.fns[ct.Name]
	if g == nil {
		return false
	}
	if f == g {
		return p.selfrec[f] || p.sccN[p.scc[f]] > 1
	}
	a, ok := p.scc[f]
	b, ok2 := p.scc[g]
	return ok && ok2 && a == b
}

// triggers rewrites assumed universals so that they match on plain array reads.
func (x *Exec) triggers(t *Term) *Term {
	c := x.c
	switch t.op {
	case "and":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = x.triggers(a)
		}
		return c.And(as...)
	case "=>":
		return c.Imp(t.args[0], x.triggers(t.args[1]))
	case "or":
		if !hasQuant(t) {
			return t
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = x.triggers(a)
		}
		return c.Or(as...)
	case "not":
		if e := t.args[0]; e.op == "exists" {
			var nv, np int
			fmt.Sscanf(e.name, "%d/%d", &nv, &np)
			if nv == 1 {
				return x.triggers(c.Quant("forall", e.args[:nv], c.Not(e.args[nv])))
			}
		}
	case "forall":
		var nv, np int
		fmt.Sscanf(t.name, "%d/%d", &nv, &np)
		if np > 0 || nv != 1 || t.args[0].sort != SInt {
			return t
		}
		q := t.args[0]
		body := t.args[1]
		if inner := x.triggersIn(body); inner != body {
			body = inner
		}
		var shifts []*Term
		seenS := map[*Term]bool{}
		seen := map[int]bool{}
		var rec func(u *Term)
		rec = func(u *Term) {
			if seen[u.id] || !u.qv && u != q {
				return
			}
			seen[u.id] = true
			if u.op == "forall" || u.op == "exists" {
				return
			}
			var base, idx *Term
			if u.op == "select" {
				base, idx = u.args[0], u.args[1]
			} else if u.op == "app" && u.name == "sat" {
				base, idx = u.args[0], u.args[1]
			}
			if base != nil && !base.qv {
				r := c.Sub(idx, q)
				if !mentions(r, q) && !r.qv && !seenS[r] {
					seenS[r] = true
					shifts = append(shifts, r)
				}
			}
			for _, a := range u.args {
				rec(a)
			}
		}
		rec(body)
		// an application of a specification function to the variable itself, when it is the only one of that function
		funApps := map[string][]*Term{}
		{
			seen := map[int]bool{}
			var rec func(u *Term)
			rec = func(u *Term) {
				if seen[u.id] || !u.qv && u != q {
					return
				}
				seen[u.id] = true
				if u.op == "forall" || u.op == "exists" {
					return
				}
				if u.op == "app" && strings.HasPrefix(u.name, "s$") && mentions(u, q) {
					funApps[u.name] = append(funApps[u.name], u)
				}
				for _, a := range u.args {
					rec(a)
				}
			}
			rec(body)
		}
		var fpats []*Term
		for _, n := range sortedKeys(funApps) {
			us := funApps[n]
			if len(us) != 1 {
				continue
			}
			direct, other := false, false
			for _, a := range us[0].args {
				if a == q {
					direct = true
				} else if a.qv {
					other = true
				}
			}
			if direct && !other {
				fpats = append(fpats, us[0])
			}
		}
		if len(shifts) == 0 || len(shifts) > 6 {
			return c.Quant("forall", []*Term{q}, body)
		}
		var out []*Term
		for _, r := range shifts {
			n := c.QVar("x", SInt)
			nb := c.Subst(body, map[*Term]*Term{q: c.Sub(n, r)})
			// patterns: reads indexed by exactly n
			var pats []*Term
			seen := map[int]bool{}
			var rec func(u *Term)
			rec = func(u *Term) {
				if seen[u.id] || !u.qv {
					return
				}
				seen[u.id] = true
				if u.op == "forall" || u.op == "exists" {
					return
				}
				if (u.op == "select" || u.op == "app" && u.name == "sat") && u.args[1] == n && !u.args[0].qv {
					pats = append(pats, u)
				}
				for _, a := range u.args {
					rec(a)
				}
			}
			rec(nb)
			if len(pats) > 0 {
				out = append(out, c.Quant("forall", []*Term{n}, nb, pats...))
			}
		}
		if len(out) == 0 {
			return c.Quant("forall", []*Term{q}, body)
		}
		for _, u := range fpats {
			out = append(out, c.Quant("forall", []*Term{q}, body, u))
		}
		return c.And(out...)
	}
	return t
}
func (x *Exec) triggersIn(t *Term) *Term {
	switch t.op {
	case "and", "=>", "forall":
		if hasQuant(t) {
			return x.triggers(t)
		}
	}
	return t
}

func (x *Exec) modelHints(t *Term) map[string]string { return nil }
