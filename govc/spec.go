package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---------- syntax ----------

type SExpr struct {
	op    string
	name  string
	args  []*SExpr
	ival  *big.Int
	src   string
	label string
	vars  []string // quantifier variables / macro parameters
	pats  []*SExpr // quantifier patterns
}

type Contract struct {
	Name       string // short function name
	File       string
	Params     []string
	Results    []string
	Props      []string
	Requires   []*SExpr
	Ensures    []*SExpr
	Assume     []*SExpr // trusted postconditions (extern only)
	Panics     []*SExpr // panics exactly when
	MayPanic   []*SExpr
	UnfoldPost []*SExpr
	Modifies   []*SExpr
	HasMod     bool
	ModAll     bool
	Invs       []*SExpr
	LoopDecr   [][]*SExpr
	Decreases  []*SExpr
	Extern     bool
	Inline     bool
	NoAlloc    bool
	Epochs     bool
	Diverge    bool
	Reveal     []string
	Unfold     []*SExpr // defining equations of spec functions, assumed at entry
	Helper     bool
	Timeout    int
	Uses       []string // lemmas
	Split      int
	Pkg        string
	Note       string
	Known      bool
}

type macro struct {
	params []string
	body   *SExpr
	pkg    string
}
type specFun struct {
	name  string
	args  []string
	ret   string
	retT  string
	argT  []string
	names []string
	body  *SExpr // definition, if any (pred); assumed only where it is revealed
	pkg   string
	heap  bool // its value depends on the heap (see heapfun.go)
}
type Lemma struct {
	Name  string
	Body  *SExpr
	Trust bool
	Props []string
	Pkg   string
}

type lexer struct {
	src  string
	pos  int
	tok  string
	kind byte // 'i' ident, 'n' number, 's' string, 'p' punct, 'e' eof
}

func (l *lexer) next() {
	for l.pos < len(l.src) && (l.src[l.pos] == ' ' || l.src[l.pos] == '\t' || l.src[l.pos] == '\n') {
		l.pos++
	}
	if l.pos >= len(l.src) {
		l.kind, l.tok = 'e', ""
		return
	}
	c := l.src[l.pos]
	st := l.pos
	isid := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' || c >= '0' && c <= '9'
	}
	switch {
	case c >= '0' && c <= '9':
		for l.pos < len(l.src) && (isid(l.src[l.pos])) {
			l.pos++
		}
		l.kind = 'n'
	case isid(c):
		for l.pos < len(l.src) && isid(l.src[l.pos]) {
			l.pos++
		}
		l.kind = 'i'
	case c == '"':
		l.pos++
		for l.pos < len(l.src) && l.src[l.pos] != '"' {
			l.pos++
		}
		l.pos++
		l.kind = 's'
		l.tok = l.src[st+1 : l.pos-1]
		return
	default:
		for _, p := range []string{"<==>", "==>", "::", "..", "==", "!=", "<=", ">=", "&&", "||"} {
			if strings.HasPrefix(l.src[l.pos:], p) {
				l.pos += len(p)
				l.kind, l.tok = 'p', p
				return
			}
		}
		l.pos++
		l.kind = 'p'
	}
	l.tok = l.src[st:l.pos]
}

type specErr struct{ msg string }

func serr(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func parseSpec(src string) (e *SExpr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s in %q", se.msg, src)
				return
			}
			panic(r)
		}
	}()
	l := &lexer{src: src}
	l.next()
	e = l.expr(0)
	if l.kind != 'e' {
		serr("unexpected %q", l.tok)
	}
	e.src = strings.Join(strings.Fields(src), " ")
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (l *lexer) expect(t string) {
	if l.tok != t || l.kind == 's' {
		serr("expected %q, got %q", t, l.tok)
	}
	l.next()
}
func (l *lexer) expr(min int) *SExpr {
	left := l.unary()
	for {
		p, ok := prec[l.tok]
		if !ok || l.kind == 's' || p < min || p == 0 {
			return left
		}
		op := l.tok
		if op == "in" {
			return left
		}
		l.next()
		switch op {
		case "==>":
			left = &SExpr{op: "bin", name: op, args: []*SExpr{left, l.expr(p)}}
		case "?":
			a := l.expr(p)
			l.expect(":")
			b := l.expr(p)
			left = &SExpr{op: "cond", args: []*SExpr{left, a, b}}
		case "==", "!=", "<", "<=", ">", ">=":
			right := l.expr(p + 1)
			e := &SExpr{op: "bin", name: op, args: []*SExpr{left, right}}
			// chains
			for prec[l.tok] == 6 && l.tok != "in" && l.kind == 'p' {
				op2 := l.tok
				l.next()
				r2 := l.expr(p + 1)
				e = &SExpr{op: "bin", name: "&&", args: []*SExpr{e, {op: "bin", name: op2, args: []*SExpr{right, r2}}}}
				right = r2
			}
			left = e
		default:
			left = &SExpr{op: "bin", name: op, args: []*SExpr{left, l.expr(p + 1)}}
		}
	}
}
func (l *lexer) unary() *SExpr {
	if l.kind == 'p' {
		switch l.tok {
		case "!":
			l.next()
			return &SExpr{op: "not", args: []*SExpr{l.unary()}}
		case "-":
			l.next()
			return &SExpr{op: "neg", args: []*SExpr{l.unary()}}
		case "*":
			l.next()
			return &SExpr{op: "deref", args: []*SExpr{l.unary()}}
		}
	}
	if l.kind == 'i' && (l.tok == "forall" || l.tok == "exists") {
		q := l.tok
		l.next()
		var vs []string
		var ranges []*SExpr
		for {
			vs = append(vs, l.tok)
			l.next()
			if l.tok == "in" {
				l.next()
				lo := l.expr(7)
				l.expect("..")
				hi := l.expr(7)
				ranges = append(ranges, lo, hi)
			} else if l.tok == ":" {
				l.next()
				ranges = append(ranges, &SExpr{op: "sort", name: l.tok}, nil)
				l.next()
			} else {
				ranges = append(ranges, nil, nil)
			}
			if l.tok == "," {
				l.next()
				continue
			}
			break
		}
		var pats []*SExpr
		for l.tok == "{" && l.kind == 'p' {
			l.next()
			pats = append(pats, l.expr(0))
			l.expect("}")
		}
		l.expect("::")
		body := l.expr(0)
		return &SExpr{op: q, vars: vs, pats: pats, args: append([]*SExpr{body}, ranges...)}
	}
	return l.postfix(l.primary())
}
func (l *lexer) primary() *SExpr {
	switch l.kind {
	case 'n':
		n, ok := new(big.Int).SetString(l.tok, 0)
		if !ok {
			serr("bad number %q", l.tok)
		}
		l.next()
		return &SExpr{op: "int", ival: n}
	case 's':
		s := l.tok
		l.next()
		return &SExpr{op: "str", name: s}
	case 'i':
		n := l.tok
		l.next()
		switch n {
		case "true", "false":
			return &SExpr{op: "bool", name: n}
		case "nil":
			return &SExpr{op: "nil"}
		}
		return &SExpr{op: "id", name: n}
	case 'p':
		if l.tok == "(" {
			l.next()
			e := l.expr(0)
			l.expect(")")
			return e
		}
	}
	serr("unexpected %q", l.tok)
	return nil
}
func (l *lexer) postfix(e *SExpr) *SExpr {
	for l.kind == 'p' {
		switch l.tok {
		case ".":
			l.next()
			e = &SExpr{op: "field", name: l.tok, args: []*SExpr{e}}
			l.next()
		case "(":
			l.next()
			var as []*SExpr
			for l.tok != ")" {
				as = append(as, l.expr(0))
				if l.tok == "," {
					l.next()
				} else if l.tok != ")" {
					serr("expected , or ) got %q", l.tok)
				}
			}
			l.next()
			n := ""
			if e.op == "id" {
				n = e.name
			} else {
				serr("call of a non-identifier")
			}
			e = &SExpr{op: "call", name: n, args: as}
		case "[":
			l.next()
			if l.tok == "*" {
				l.next()
				l.expect("]")
				e = &SExpr{op: "star", args: []*SExpr{e}}
				continue
			}
			var lo *SExpr
			if l.tok != ":" {
				lo = l.expr(0)
			}
			switch l.tok {
			case "..":
				l.next()
				hi := l.expr(0)
				l.expect("]")
				e = &SExpr{op: "range", args: []*SExpr{e, lo, hi}}
			case ":":
				l.next()
				var hi *SExpr
				if l.tok != "]" {
					hi = l.expr(0)
				}
				l.expect("]")
				e = &SExpr{op: "slice", args: []*SExpr{e, lo, hi}}
			default:
				l.expect("]")
				e = &SExpr{op: "index", args: []*SExpr{e, lo}}
			}
		default:
			return e
		}
	}
	return e
}

// ---------- contract files ----------

var clauseKw = map[string]bool{"package": true, "def": true, "func": true, "property": true, "requires": true, "ensures": true, "modifies": true, "panics": true, "maypanic": true,
	"inv": true, "decreases": true, "loopdecr": true, "extern": true, "inline": true, "noalloc": true, "maydiverge": true, "epochs": true, "helper": true, "timeout": true, "uses": true, "assume": true, "fun": true, "axiom": true, "lemma": true, "note": true, "split": true, "unfold": true, "unfoldpost": true, "heapfun": true, "heapreads": true, "pred": true, "reveal": true}

type Specs struct {
	contracts map[string]*Contract
	macros    map[string]*macro
	funs      map[string]*specFun
	heapReads []string // prefixes of the heaps that heapfuns depend on
	axioms    []*Lemma
	lemmas    []*Lemma
	order     []string
}

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{contracts: map[string]*Contract{}, macros: map[string]*macro{}, funs: map[string]*specFun{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parse(string(b), f); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return sp, nil
}

func (sp *Specs) parse(src, file string) error {
	var stmts []string
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "#"); i >= 0 && (i == 0 || l[i-1] == ' ' || l[i-1] == '\t') {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t("); i >= 0 {
			w = t[:i]
		}
		if clauseKw[w] || len(stmts) == 0 {
			stmts = append(stmts, t)
		} else {
			stmts[len(stmts)-1] += " " + t
		}
	}
	pkg := ""
	var curs []*Contract
	for _, s := range stmts {
		kw, rest := s, ""
		if i := strings.IndexAny(s, " \t"); i >= 0 {
			kw, rest = s[:i], strings.TrimSpace(s[i+1:])
		}
		pe := func(t string) (*SExpr, error) {
			label := ""
			if i := strings.Index(t, ":"); i > 0 && i < 40 && !strings.HasPrefix(t[i:], "::") && isLabel(t[:i]) {
				label = strings.TrimSpace(t[:i])
				t = t[i+1:]
			}
			e, err := parseSpec(t)
			if e != nil {
				e.label = label
			}
			return e, err
		}
		add := func(f func(c *Contract, e *SExpr)) error {
			e, err := pe(rest)
			if err != nil {
				return err
			}
			for _, c := range curs {
				f(c, e)
			}
			return nil
		}
		var err error
		switch kw {
		case "package":
			pkg = rest
			curs = nil
		case "def":
			i := strings.Index(rest, "=")
			// the first '=' that is not part of ==, <=, >=, != in the header
			h := strings.TrimSpace(rest[:i])
			body, e2 := parseSpec(rest[i+1:])
			if e2 != nil {
				return e2
			}
			name, ps := splitHeader(h)
			sp.macros[name] = &macro{ps, body, pkg}
		case "heapreads":
			sp.heapReads = append(sp.heapReads, strings.Fields(rest)...)
		case "fun", "heapfun", "pred":
			var body *SExpr
			if kw == "pred" { // pred name(a T, b T) = body
				k := strings.Index(rest, "=")
				if k < 0 {
					return fmt.Errorf("pred without definition: %s", rest)
				}
				if body, err = parseSpec(rest[k+1:]); err != nil {
					return err
				}
				rest = strings.TrimSpace(rest[:k]) + " bool"
			}
			// fun name(a T, b T) T
			i, j := strings.Index(rest, "("), strings.LastIndex(rest, ")")
			f := &specFun{heap: kw == "heapfun", body: body, pkg: pkg, name: strings.TrimSpace(rest[:i]), retT: strings.TrimSpace(rest[j+1:])}
			f.ret = specSort(f.retT)
			for _, p := range strings.Split(rest[i+1:j], ",") {
				fs := strings.Fields(p)
				if len(fs) == 2 {
					f.args = append(f.args, specSort(fs[1]))
					f.argT = append(f.argT, fs[1])
					f.names = append(f.names, fs[0])
				}
			}
			sp.funs[f.name] = f
		case "axiom", "lemma":
			l := &Lemma{Pkg: pkg, Trust: kw == "axiom"}
			i := strings.Index(rest, ":")
			l.Name = strings.TrimSpace(rest[:i])
			if k := strings.Index(l.Name, "["); k >= 0 {
				l.Props = strings.Fields(strings.Trim(l.Name[k:], "[]"))
				l.Name = strings.TrimSpace(l.Name[:k])
			}
			l.Body, err = parseSpec(rest[i+1:])
			if kw == "axiom" {
				sp.axioms = append(sp.axioms, l)
			} else {
				sp.lemmas = append(sp.lemmas, l)
			}
		case "func":
			curs = nil
			// func NAME|NAME (params) (results)
			depth, cut := 0, -1
			for i, r := range rest {
				if r == '(' {
					if depth == 0 && i > 0 && rest[i-1] != '|' && rest[i-1] != ' ' {
						cut = i
						break
					}
					depth++
				} else if r == ')' {
					depth--
				}
			}
			names, ps, rs := rest, []string{}, []string{}
			if cut >= 0 {
				names = rest[:cut]
				e := strings.Index(rest[cut:], ")") + cut
				ps = splitNames(rest[cut+1 : e])
				tail := strings.TrimSpace(rest[e+1:])
				tail = strings.Trim(tail, "()")
				rs = splitNames(tail)
			}
			for _, n := range strings.Split(names, "|") {
				n = strings.TrimSpace(n)
				n = qualify(n, pkg)
				c := &Contract{Name: n, File: filepath.Base(file), Params: ps, Results: rs, Pkg: pkg}
				if _, dup := sp.contracts[n]; dup {
					return fmt.Errorf("duplicate contract for %s", n)
				}
				sp.contracts[n] = c
				sp.order = append(sp.order, n)
				curs = append(curs, c)
			}
		case "property":
			for _, c := range curs {
				c.Props = append(c.Props, strings.Fields(rest)...)
			}
		case "requires":
			err = add(func(c *Contract, e *SExpr) { c.Requires = append(c.Requires, e) })
		case "ensures":
			err = add(func(c *Contract, e *SExpr) { c.Ensures = append(c.Ensures, e) })
		case "assume":
			err = add(func(c *Contract, e *SExpr) { c.Assume = append(c.Assume, e) })
		case "unfold":
			err = add(func(c *Contract, e *SExpr) { c.Unfold = append(c.Unfold, e) })
		case "unfoldpost": // a definition, used in the state in which the function returns
			err = add(func(c *Contract, e *SExpr) { c.UnfoldPost = append(c.UnfoldPost, e) })
		case "reveal":
			for _, c := range curs {
				c.Reveal = append(c.Reveal, splitNames(rest)...)
			}
		case "panics":
			err = add(func(c *Contract, e *SExpr) { c.Panics = append(c.Panics, e) })
		case "maypanic":
			err = add(func(c *Contract, e *SExpr) { c.MayPanic = append(c.MayPanic, e) })
		case "inv":
			err = add(func(c *Contract, e *SExpr) { c.Invs = append(c.Invs, e) })
		case "modifies":
			for _, c := range curs {
				c.HasMod = true
			}
			if rest == "*" {
				for _, c := range curs {
					c.ModAll = true
				}
				break
			}
			for _, part := range splitTop(rest) {
				e, err := parseSpec(part)
				if err != nil {
					return err
				}
				for _, c := range curs {
					c.Modifies = append(c.Modifies, e)
				}
			}
		case "decreases", "loopdecr":
			var es []*SExpr
			for _, part := range splitTop(rest) {
				e, err := parseSpec(part)
				if err != nil {
					return err
				}
				es = append(es, e)
			}
			for _, c := range curs {
				if kw == "decreases" {
					c.Decreases = es
				} else {
					c.LoopDecr = append(c.LoopDecr, es)
				}
			}
		default:
			for _, c := range curs {
				switch kw {
				case "extern":
					c.Extern = true
				case "inline":
					c.Inline = true
				case "noalloc":
					c.NoAlloc = true
				case "epochs":
					c.Epochs = true
				case "maydiverge":
					c.Diverge = true
				case "helper":
					c.Helper = true
				case "uses":
					c.Uses = append(c.Uses, strings.Fields(rest)...)
				case "timeout":
					fmt.Sscan(rest, &c.Timeout)
				case "note":
					c.Note = rest
				}
			}
		}
		if err != nil {
			return err
		}
	}
	return nil
}
func isLabel(s string) bool {
	s = strings.TrimSpace(s)
	if s == "" {
		return false
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '_' || r == '-' || r >= 'A' && r <= 'Z') {
			return false
		}
	}
	return true
}
func specSort(t string) string {
	switch t {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "str":
		return SStr
	case "mem":
		return arrOf(SInt)
	}
	return SInt // references
}
func splitNames(s string) []string {
	var out []string
	for _, p := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		out = append(out, p)
	}
	return out
}
func splitHeader(h string) (string, []string) {
	i := strings.Index(h, "(")
	if i < 0 {
		return h, nil
	}
	return strings.TrimSpace(h[:i]), splitNames(strings.Trim(h[i:], "()"))
}
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, s[st:])
	}
	return out
}

// qualify adds the package to a bare name: F -> pkg.F, (T).M -> (pkg.T).M, (*T).M -> (*pkg.T).M
func qualify(n, pkg string) string {
	if pkg == "" || strings.HasPrefix(n, "func:") {
		return n
	}
	if strings.HasPrefix(n, "(") {
		e := strings.Index(n, ")")
		t := n[1:e]
		star := ""
		if strings.HasPrefix(t, "*") {
			star, t = "*", t[1:]
		}
		if strings.Contains(t, ".") {
			return n
		}
		return "(" + star + pkg + "." + t + n[e:]
	}
	if i := strings.Index(n, "."); i >= 0 {
		return n
	}
	return pkg + "." + n
}

// ---------- evaluation ----------

type TV struct {
	v Val
	t types.Type // nil for specification values (Int, Bool, Str terms)
}

type SpecEnv struct {
	x      *Exec
	st     *State
	old    *State
	vars   map[string]TV
	params map[string]TV // of the function, inside loop invariants (a reassigned parameter has its current value outside old)
	root   func(string) (TV, bool)
	res    []TV
	pkg    string
	lookup func(string) (TV, bool)
	inOld  bool
	depth  int
	iter   *VIter
}

func (e *SpecEnv) setResNames(ct *Contract, sig *types.Signature) {
	nv := map[string]TV{}
	for k, v := range e.vars {
		nv[k] = v
	}
	for i, n := range ct.Results {
		if i < len(e.res) {
			nv[n] = e.res[i]
		}
	}
	e.vars = nv
}

func (x *Exec) callEnv(ct *Contract, sig *types.Signature, args []Val, recvType types.Type) *SpecEnv {
	env := &SpecEnv{x: x, vars: map[string]TV{}, pkg: ct.Pkg}
	var ts []types.Type
	var ns []string
	if recvType != nil {
		ts = append(ts, recvType)
		if r := sig.Recv(); r != nil {
			ns = append(ns, r.Name())
		} else {
			ns = append(ns, "recv")
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
		ns = append(ns, sig.Params().At(i).Name())
	}
	for i := range args {
		if i >= len(ts) {
			break
		}
		n := ns[i]
		if i < len(ct.Params) {
			n = ct.Params[i]
		}
		env.vars[n] = TV{args[i], ts[i]}
	}
	return env
}

func (x *Exec) specBool(env *SpecEnv, e *SExpr) *Term {
	v := env.eval(e)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		serr("not a boolean: %s", e.src)
	}
	return t
}
func (x *Exec) specInt(env *SpecEnv, e *SExpr) *Term {
	v := env.eval(e)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SInt {
		serr("not an integer: %s", e.src)
	}
	return t
}

func (env *SpecEnv) with(n string, v TV) *SpecEnv {
	e := *env
	e.vars = make(map[string]TV, len(env.vars)+1)
	for k, w := range env.vars {
		e.vars[k] = w
	}
	e.vars[n] = v
	return &e
}
func (env *SpecEnv) term(e *SExpr) *Term {
	v := env.eval(e)
	t, ok := v.v.(*Term)
	if !ok {
		serr("expected a scalar, got %T in %s", v.v, show(e))
	}
	return t
}
func show(e *SExpr) string {
	if e == nil {
		return "<nil>"
	}
	if e.src != "" {
		return e.src
	}
	return e.op + " " + e.name
}

func (env *SpecEnv) eval(e *SExpr) TV {
	x := env.x
	c := x.c
	env.depth++
	defer func() { env.depth-- }()
	if env.depth > 200 {
		serr("specification recursion too deep")
	}
	switch e.op {
	case "int":
		return TV{c.BigInt(e.ival), nil}
	case "bool":
		return TV{c.Bool(e.name == "true"), nil}
	case "str":
		return TV{x.strLit(e.name), nil}
	case "nil":
		return TV{nil, nil}
	case "id":
		return env.ident(e.name)
	case "not":
		return TV{c.Not(env.term(e.args[0])), nil}
	case "neg":
		return TV{c.Neg(env.term(e.args[0])), nil}
	case "cond":
		g := env.term(e.args[0])
		if g.isTrue() {
			return env.eval(e.args[1])
		}
		if g.isFalse() {
			return env.eval(e.args[2])
		}
		l, r := env.term(e.args[1]), env.term(e.args[2])
		if l.sort == SBool && (hasQuant(l) || hasQuant(r)) {
			return TV{c.And(c.Imp(g, l), c.Imp(c.Not(g), r)), nil}
		}
		return TV{c.Ite(g, l, r), nil}
	case "bin":
		return env.bin(e)
	case "forall", "exists":
		return env.quant(e)
	case "field":
		return env.field(e)
	case "deref":
		v := env.eval(e.args[0])
		p, ok := v.v.(*VPtr)
		if !ok {
			serr("dereference of a non-pointer: %s", show(e))
		}
		return TV{x.load(env.st, p), x.ptrTarget(p)}
	case "index":
		return env.index(env.eval(e.args[0]), e.args[1])
	case "slice":
		v := env.eval(e.args[0])
		lo := c.Int(0)
		if e.args[1] != nil {
			lo = env.term(e.args[1])
		}
		switch s := v.v.(type) {
		case *VSlice:
			hi := s.len
			if e.args[2] != nil {
				hi = env.term(e.args[2])
			}
			return TV{&VSlice{s.arr, c.Add(s.off, lo), c.Sub(hi, lo), c.Sub(s.cap, lo)}, v.t}
		case *Term:
			hi := x.slen(s)
			if e.args[2] != nil {
				hi = env.term(e.args[2])
			}
			return TV{x.substr(s, lo, hi), nil}
		}
		serr("slicing of %T", v.v)
	case "call":
		return env.call(e)
	}
	serr("cannot evaluate %s", show(e))
	return TV{}
}

func (env *SpecEnv) ident(n string) TV {
	if v, ok := env.vars[n]; ok {
		return v
	}
	if strings.HasPrefix(n, "r") && len(n) == 2 && n[1] >= '0' && n[1] <= '9' && env.res != nil {
		i := int(n[1] - '0')
		if i < len(env.res) {
			return env.res[i]
		}
	}
	if v, ok := env.params[n]; ok {
		if !env.inOld {
			if w, ok := env.root(n); ok {
				return w
			}
		}
		return v
	}
	if env.lookup != nil {
		if v, ok := env.lookup(n); ok {
			return v
		}
	}
	if m, ok := env.x.P.specs.macros[n]; ok && len(m.params) == 0 {
		return env.eval(m.body)
	}
	if v, ok := env.x.pkgMember(env.st, env.pkg, n); ok {
		return v
	}
	serr("unknown name %s", n)
	return TV{}
}

func (x *Exec) pkgMember(st *State, pkg, n string) (TV, bool) {
	p := x.P.byShort[pkg]
	if p == nil {
		return TV{}, false
	}
	o := p.Pkg.Scope().Lookup(n)
	switch o := o.(type) {
	case *types.Const:
		v := o.Val()
		switch v.Kind() {
		case constant.Int:
			return TV{x.c.BigInt(constBig(v)), nil}, true
		case constant.String:
			return TV{x.strLit(constant.StringVal(v)), nil}, true
		case constant.Bool:
			return TV{x.c.Bool(constant.BoolVal(v)), nil}, true
		}
	case *types.Var:
		g := p.Var(n)
		if g == nil {
			return TV{}, false
		}
		if v, ok := x.globalVal(st, g); ok {
			return TV{v, o.Type()}, true
		}
		ptr := &VPtr{ref: x.globalRef(g), root: o.Type()}
		return TV{x.load(st, ptr), o.Type()}, true
	}
	return TV{}, false
}

func (env *SpecEnv) field(e *SExpr) TV {
	x := env.x
	// qualified package member
	if e.args[0].op == "id" {
		n := e.args[0].name
		_, isVar := env.vars[n]
		if !isVar {
			_, isVar = env.params[n]
		}
		if !isVar && env.lookup != nil {
			_, isVar = env.lookup(n)
		}
		if !isVar {
			if v, ok := x.pkgMember(env.st, n, e.name); ok {
				return v
			}
		}
	}
	v := env.eval(e.args[0])
	return env.fieldOf(v, e.name)
}
func (env *SpecEnv) fieldOf(v TV, name string) TV {
	x := env.x
	t := v.t
	if t == nil {
		serr("field %s of a specification value", name)
	}
	if pt, ok := under(t).(*types.Pointer); ok {
		st, ok := under(pt.Elem()).(*types.Struct)
		if !ok {
			serr("field %s of %s", name, t)
		}
		p := v.v.(*VPtr)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				q := &VPtr{ref: p.ref, root: p.root, elem: p.elem, idx: p.idx, path: appendStep(p.path, pstep{field: i})}
				return TV{x.load(env.st, q), st.Field(i).Type()}
			}
		}
		for i := 0; i < st.NumFields(); i++ { // promoted
			if st.Field(i).Embedded() {
				if f := findField(st.Field(i).Type(), name); f {
					q := &VPtr{ref: p.ref, root: p.root, elem: p.elem, idx: p.idx, path: appendStep(p.path, pstep{field: i})}
					return env.fieldOf(TV{x.load(env.st, q), st.Field(i).Type()}, name)
				}
			}
		}
		serr("no field %s in %s", name, t)
	}
	if st, ok := under(t).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return TV{v.v.(*VStruct).f[i], st.Field(i).Type()}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && findField(st.Field(i).Type(), name) {
				return env.fieldOf(TV{v.v.(*VStruct).f[i], st.Field(i).Type()}, name)
			}
		}
	}
	serr("no field %s in %s", name, t)
	return TV{}
}
func findField(t types.Type, name string) bool {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name || st.Field(i).Embedded() && findField(st.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (env *SpecEnv) index(v TV, ie *SExpr) TV {
	x := env.x
	switch s := v.v.(type) {
	case *VSlice:
		i := env.term(ie)
		el := under(v.t).(*types.Slice).Elem()
		return TV{x.load(env.st, &VPtr{ref: s.arr, root: el, elem: true, idx: x.c.Add(s.off, i)}), el}
	case *VArr:
		i := env.term(ie)
		el := under(v.t).(*types.Array).Elem()
		var ts []*Term
		for k, l := range leavesOf(el) {
			t := x.c.Select(s.leaves[k], i)
			x.leafFacts(env.st, t, l)
			ts = append(ts, t)
		}
		return TV{x.unpack(ts, el), el}
	case *VPtr:
		return env.index(TV{x.load(env.st, s), x.ptrTarget(s)}, ie)
	case *Term:
		if s.sort == SStr {
			return TV{x.sat(s, env.term(ie)), nil}
		}
		if v.t != nil {
			if mt, ok := under(v.t).(*types.Map); ok {
				k := env.eval(ie)
				kt := x.mapKeyTerm(k.v, mt.Key())
				return TV{x.mapGet(env.st, s, v.t, kt), mt.Elem()}
			}
		}
		if strings.HasPrefix(s.sort, "(Array") {
			return TV{x.c.Select(s, env.term(ie)), nil}
		}
	}
	serr("cannot index %T", v.v)
	return TV{}
}

func (env *SpecEnv) eq(a, b TV) *Term {
	x := env.x
	c := x.c
	if a.v == nil && b.v == nil {
		return c.True()
	}
	if a.v == nil {
		a, b = b, a
	}
	if b.v == nil { // nil literal
		switch v := a.v.(type) {
		case *VSlice:
			return c.Eq(v.arr, c.Int(0))
		case *VIface:
			return c.Eq(v.tag, c.Int(0))
		case *VPtr:
			if v.elem || len(v.path) > 0 {
				return c.False()
			}
			return c.Eq(v.ref, c.Int(0))
		case *VFunc:
			return c.Eq(x.funcRef(v), c.Int(0))
		case *Term:
			return c.Eq(v, c.Int(0))
		}
	}
	switch v := a.v.(type) {
	case *Term:
		w, ok := b.v.(*Term)
		if !ok {
			serr("comparison of %T and %T", a.v, b.v)
		}
		return c.Eq(v, w)
	case *VSlice:
		w := b.v.(*VSlice)
		return c.And(c.Eq(v.arr, w.arr), c.Eq(v.off, w.off), c.Eq(v.len, w.len))
	case *VPtr:
		w := b.v.(*VPtr)
		return c.Eq(x.pack(v, types.NewPointer(types.Typ[types.Int]))[0], x.pack(w, types.NewPointer(types.Typ[types.Int]))[0])
	case *VFunc:
		if w, ok := b.v.(*VFunc); ok {
			return c.Eq(x.funcRef(v), x.funcRef(w))
		}
	case *VIface:
		w, ok := b.v.(*VIface)
		if !ok {
			serr("comparison of an interface with %T", b.v)
		}
		return c.And(c.Eq(v.tag, w.tag), c.Eq(v.val, w.val))
	case *VStruct:
		w := b.v.(*VStruct)
		var fs []*Term
		st := under(a.t).(*types.Struct)
		for i := range v.f {
			fs = append(fs, env.eq(TV{v.f[i], st.Field(i).Type()}, TV{w.f[i], st.Field(i).Type()}))
		}
		return c.And(fs...)
	case *VArr:
		w := b.v.(*VArr)
		n := under(a.t).(*types.Array).Len()
		var fs []*Term
		for k := range v.leaves {
			for i := int64(0); i < n; i++ {
				fs = append(fs, c.Eq(c.Select(v.leaves[k], c.Int(i)), c.Select(w.leaves[k], c.Int(i))))
			}
		}
		return c.And(fs...)
	}
	serr("comparison of %T", a.v)
	return nil
}

func (env *SpecEnv) bin(e *SExpr) TV {
	c := env.x.c
	b := func(t *Term) TV { return TV{t, nil} }
	switch e.name {
	case "==>":
		l := env.term(e.args[0])
		if l.isFalse() {
			return b(c.True())
		}
		return b(c.Imp(l, env.term(e.args[1])))
	case "<==>":
		return b(c.Eq(env.term(e.args[0]), env.term(e.args[1])))
	case "&&":
		l := env.term(e.args[0])
		if l.isFalse() {
			return b(l)
		}
		return b(c.And(l, env.term(e.args[1])))
	case "||":
		l := env.term(e.args[0])
		if l.isTrue() {
			return b(l)
		}
		return b(c.Or(l, env.term(e.args[1])))
	case "==":
		return b(env.eq(env.eval(e.args[0]), env.eval(e.args[1])))
	case "!=":
		return b(c.Not(env.eq(env.eval(e.args[0]), env.eval(e.args[1]))))
	}
	l, r := env.term(e.args[0]), env.term(e.args[1])
	if l.sort == SStr && e.name == "+" {
		return b(env.x.scat(l, r))
	}
	switch e.name {
	case "<":
		return b(c.Lt(l, r))
	case "<=":
		return b(c.Le(l, r))
	case ">":
		return b(c.Gt(l, r))
	case ">=":
		return b(c.Ge(l, r))
	case "+":
		return b(c.Add(l, r))
	case "-":
		return b(c.Sub(l, r))
	case "*":
		return b(c.Mul(l, r))
	case "/":
		return b(c.Div(l, r))
	case "%":
		return b(c.Mod(l, r))
	}
	serr("operator %s", e.name)
	return TV{}
}

func (env *SpecEnv) quant(e *SExpr) TV {
	x := env.x
	c := x.c
	n := *env
	cur := &n
	var qs []*Term
	guard := c.True()
	small := int64(-1)
	var lo0 *Term
	for i, v := range e.vars {
		lo, hi := e.args[1+2*i], e.args[2+2*i]
		srt := SInt
		if lo != nil && lo.op == "sort" {
			srt = specSort(lo.name)
			q := c.QVar(v, srt)
			qs = append(qs, q)
			var tt types.Type
			if srt == SInt && lo.name != "int" {
				tt = x.P.lookupType(lo.name, env.pkg)
			}
			if tt != nil {
				cur = cur.with(v, TV{x.unpack([]*Term{q}, tt), tt})
			} else {
				cur = cur.with(v, TV{q, nil})
			}
			continue
		}
		q := c.QVar(v, srt)
		qs = append(qs, q)
		if lo != nil {
			l, h := cur.term(lo), cur.term(hi)
			guard = c.And(guard, c.Le(l, q), c.Lt(q, h))
			if d := c.Sub(h, l); d.op == "int" && d.ival.IsInt64() && len(e.vars) == 1 {
				small = d.ival.Int64()
				lo0 = l
			}
		}
		cur = cur.with(v, TV{q, nil})
	}
	// small constant ranges are expanded
	if small >= 0 && small <= 24 {
		var fs []*Term
		for k := int64(0); k < small; k++ {
			fs = append(fs, env.with(e.vars[0], TV{c.Add(lo0, c.Int(k)), nil}).term(e.args[0]))
		}
		if e.op == "forall" {
			return TV{c.And(fs...), nil}
		}
		return TV{c.Or(fs...), nil}
	}
	body := cur.term(e.args[0])
	if e.op == "forall" {
		if len(e.pats) > 0 {
			// patterns given by the annotation
			var fs []*Term
			for _, pe := range e.pats {
				p, b, vs := cur.term(pe), c.Imp(guard, body), qs
				if len(qs) == 1 && (p.op == "select" || p.op == "app" && p.name == "sat") && !p.args[0].qv {
					if r := c.Sub(p.args[1], qs[0]); !mentions(r, qs[0]) {
						n := c.QVar("x", SInt)
						m := map[*Term]*Term{qs[0]: c.Sub(n, r)}
						p, b, vs = c.Subst(p, m), c.Subst(b, m), []*Term{n}
					}
				}
				fs = append(fs, c.Quant("forall", vs, b, p))
			}
			return TV{c.And(fs...), nil}
		}
		return TV{c.Quant("forall", qs, c.Imp(guard, body)), nil}
	}
	return TV{c.Quant("exists", qs, c.And(guard, body)), nil}
}

func (env *SpecEnv) strVal(v TV) *Term {
	x := env.x
	switch s := v.v.(type) {
	case *Term:
		if s.sort == SStr {
			return s
		}
	case *VSlice:
		el := under(v.t).(*types.Slice).Elem()
		return x.strOf(x.memOf(env.st, el, s.arr, leavesOf(el)[0]), s.off, s.len)
	case *VArr:
		return x.strOf(s.leaves[0], x.c.Int(0), x.c.Int(under(v.t).(*types.Array).Len()))
	case *VPtr:
		return env.strVal(TV{x.load(env.st, s), x.ptrTarget(s)})
	}
	serr("str of %T", v.v)
	return nil
}
func (env *SpecEnv) byteAt(v TV, i *Term) *Term {
	x := env.x
	switch s := v.v.(type) {
	case *Term:
		if s.sort == SStr {
			return x.sat(s, i)
		}
		return x.c.Select(s, i)
	case *VSlice:
		el := under(v.t).(*types.Slice).Elem()
		return x.load(env.st, &VPtr{ref: s.arr, root: el, elem: true, idx: x.c.Add(s.off, i)}).(*Term)
	case *VArr:
		t := x.c.Select(s.leaves[0], i)
		return x.c.setRange(t, big0, big.NewInt(255))
	}
	serr("byte of %T", v.v)
	return nil
}

func (env *SpecEnv) call(e *SExpr) TV {
	x := env.x
	c := x.c
	arg := func(i int) *SExpr {
		if i >= len(e.args) {
			serr("%s: missing argument", e.name)
		}
		return e.args[i]
	}
	tv := func(t *Term) TV { return TV{t, nil} }
	switch e.name {
	case "init": // of a metavariable: its value at loop entry
		if a := arg(0); a.op == "id" {
			if v, ok := env.vars["init "+a.name]; ok {
				return v
			}
		}
		serr("init of %s", show(arg(0)))
	case "old":
		n := *env
		n.st = env.old
		n.inOld = true
		return n.eval(arg(0))
	case "len":
		v := env.eval(arg(0))
		switch s := v.v.(type) {
		case *VSlice:
			return tv(s.len)
		case *Term:
			if s.sort == SStr {
				return tv(x.slen(s))
			}
			return tv(x.mapLen(env.st, s, v.t))
		case *VArr:
			return tv(c.Int(under(v.t).(*types.Array).Len()))
		}
		serr("len of %T", v.v)
	case "cap":
		return tv(env.eval(arg(0)).v.(*VSlice).cap)
	case "off":
		return tv(env.eval(arg(0)).v.(*VSlice).off)
	case "arr":
		return tv(env.eval(arg(0)).v.(*VSlice).arr)
	case "ref":
		v := env.eval(arg(0))
		switch p := v.v.(type) {
		case *VPtr:
			return tv(x.pack(p, v.t)[0])
		case *VIface:
			return tv(p.val)
		case *VSlice:
			return tv(p.arr)
		case *Term:
			return tv(p)
		}
		serr("ref of %T", v.v)
	case "tag":
		return tv(env.eval(arg(0)).v.(*VIface).tag)
	case "str":
		return tv(env.strVal(env.eval(arg(0))))
	case "with": // with(s, field, v): the struct s with one field replaced
		v := env.eval(arg(0))
		st, ok := under(v.t).(*types.Struct)
		sv, ok2 := v.v.(*VStruct)
		if !ok || !ok2 {
			serr("with of a non-struct")
		}
		n := &VStruct{append([]Val{}, sv.f...)}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == arg(1).name {
				f := env.eval(arg(2))
				n.f[i] = f.v
				return TV{v: n, t: v.t}
			}
		}
		serr("no field %s", arg(1).name)
	case "has":
		m := env.eval(arg(0))
		mt := under(m.t).(*types.Map)
		k := env.eval(arg(1))
		return tv(x.mapHas(env.st, m.v.(*Term), m.t, x.mapKeyTerm(k.v, mt.Key())))
	case "le32", "le64", "le16":
		n := map[string]int64{"le32": 4, "le64": 8, "le16": 2}[e.name]
		v := env.eval(arg(0))
		o := c.Int(0)
		if len(e.args) > 1 {
			o = env.term(arg(1))
		}
		r := c.Int(0)
		for i := int64(0); i < n; i++ {
			r = c.Add(r, c.MulC(env.byteAt(v, c.Add(o, c.Int(i))), new(big.Int).Lsh(big1, uint(8*i))))
		}
		return tv(r)
	case "be32":
		v := env.eval(arg(0))
		o := c.Int(0)
		if len(e.args) > 1 {
			o = env.term(arg(1))
		}
		r := c.Int(0)
		for i := int64(0); i < 4; i++ {
			r = c.Add(r, c.MulC(env.byteAt(v, c.Add(o, c.Int(i))), new(big.Int).Lsh(big1, uint(8*(3-i)))))
		}
		return tv(r)
	case "u8", "u16", "u32", "u64":
		var w uint
		fmt.Sscan(e.name[1:], &w)
		return tv(c.UWrap(env.term(arg(0)), w))
	case "i8", "i16", "i32", "i64":
		var w uint
		fmt.Sscan(e.name[1:], &w)
		return tv(c.SWrap(env.term(arg(0)), w))
	case "fresh":
		v := env.eval(arg(0))
		var r *Term
		switch p := v.v.(type) {
		case *VPtr:
			r = p.ref
		case *VSlice:
			r = p.arr
		case *Term:
			r = p
		case *VIface:
			r = p.val
		}
		return tv(c.Ge(r, env.old.alloc))
	case "isnil":
		return tv(env.eq(env.eval(arg(0)), TV{}))
	case "is", "as":
		v := env.eval(arg(0))
		i, ok := v.v.(*VIface)
		if !ok {
			serr("%s of a non-interface", e.name)
		}
		t := x.P.lookupType(arg(1).name, env.pkg)
		if t == nil {
			serr("unknown type %s", arg(1).name)
		}
		if e.name == "is" {
			return tv(c.Eq(i.tag, x.tid(t)))
		}
		return TV{x.unbox(env.st, &VIface{x.tid(t), i.val}, t), t}
	case "ptr": // ptr(ref, "T"): view a reference as a pointer
		t := x.P.lookupType(arg(1).name, env.pkg)
		return TV{&VPtr{ref: env.term(arg(0)), root: t}, types.NewPointer(t)}
	case "min", "max":
		a, b := env.term(arg(0)), env.term(arg(1))
		if e.name == "min" {
			return tv(c.Ite(c.Le(a, b), a, b))
		}
		return tv(c.Ite(c.Ge(a, b), a, b))
	case "abs":
		a := env.term(arg(0))
		return tv(c.Ite(c.Ge(a, c.Int(0)), a, c.Neg(a)))
	case "pow2":
		return tv(x.pow2(env.term(arg(0))))
	case "feq", "flt", "fle":
		return tv(c.App(e.name+"64", SBool, env.term(arg(0)), env.term(arg(1))))
	case "apply": // apply("fn", sort, args...): uninterpreted function
		var as []*Term
		for _, a := range e.args[2:] {
			as = append(as, env.term(a))
		}
		return tv(c.App("u$"+arg(0).name, specSort(arg(1).name), as...))
	case "seen": // seen(k): the map iteration of the loop has produced k
		if env.iter == nil {
			serr("seen outside a map iteration")
		}
		seen, _ := x.iterSeen(env.st, env.iter)
		return tv(c.Select(seen, env.term(arg(0))))
	case "i2f":
		t := c.App("i2ffloat64", SInt, env.term(arg(0)))
		return tv(c.setRange(t, big0, new(big.Int).Sub(new(big.Int).Lsh(big1, 64), big1)))
	case "f2i64":
		t := c.App("f2ifloat64int64", SInt, env.term(arg(0)))
		lo, hi := typeRange(types.Typ[types.Int64])
		return tv(c.setRange(t, lo, hi))
	case "mem":
		v := env.eval(arg(0))
		if t, ok := v.v.(*Term); ok && t.sort == SStr {
			return tv(x.c.App("bytesof", arrOf(SInt), t))
		}
		s := v.v.(*VSlice)
		el := under(v.t).(*types.Slice).Elem()
		return tv(x.memOf(env.st, el, s.arr, leavesOf(el)[0]))
	}
	if m, ok := x.P.specs.macros[e.name]; ok {
		if len(m.params) != len(e.args) {
			serr("macro %s wants %d arguments", e.name, len(m.params))
		}
		n := *env
		n.vars = make(map[string]TV, len(env.vars)+len(m.params))
		for k, v := range env.vars {
			n.vars[k] = v
		}
		for i, p := range m.params {
			n.vars[p] = env.eval(e.args[i])
		}
		return n.eval(m.body)
	}
	if f, ok := x.P.specs.funs[e.name]; ok {
		if len(f.args) != len(e.args) {
			serr("function %s wants %d arguments", e.name, len(f.args))
		}
		var as []*Term
		for i, a := range e.args {
			v := env.eval(a)
			switch w := v.v.(type) {
			case *Term:
				as = append(as, w)
			case *VPtr:
				as = append(as, x.pack(w, v.t)[0])
			case nil:
				as = append(as, c.Int(0))
			case *VIface:
				as = append(as, w.val)
			default:
				serr("argument %d of %s", i, e.name)
			}
		}
		fname := "s$" + e.name
		if f.heap && env.st != nil && env.st.hepoch > 0 {
			fname += "@" + fmt.Sprint(env.st.hepoch)
		}
		r := c.App(fname, f.ret, as...)
		if tt := x.P.lookupType(f.retT, env.pkg); tt != nil && f.ret == SInt && f.retT != "int" {
			return TV{x.unpack([]*Term{r}, tt), tt}
		}
		return tv(r)
	}
	serr("unknown function %s", e.name)
	return TV{}
}

// ---------- modifies ----------

func (x *Exec) modLocs(env *SpecEnv, e *SExpr) []modLoc {
	switch e.op {
	case "range", "star":
		v := env.eval(e.args[0])
		if m, ok := v.v.(*Term); ok && v.t != nil {
			if mt, ok := under(v.t).(*types.Map); ok {
				var out []modLoc
				n, _ := x.mapDom(env.st, v.t)
				out = append(out, modLoc{heap: n, ref: m})
				n, _ = x.mapLenH(env.st, v.t)
				out = append(out, modLoc{heap: n, ref: m})
				for _, l := range leavesOf(mt.Elem()) {
					n, _ := x.mapValH(env.st, v.t, l)
					out = append(out, modLoc{heap: n, ref: m})
				}
				return out
			}
		}
		s, ok := v.v.(*VSlice)
		if !ok {
			serr("modifies range of %T", v.v)
		}
		el := under(v.t).(*types.Slice).Elem()
		lo, hi := s.off, x.c.Add(s.off, s.len)
		if e.op == "range" {
			lo, hi = x.c.Add(s.off, env.term(e.args[1])), x.c.Add(s.off, env.term(e.args[2]))
		}
		var out []modLoc
		for _, l := range leavesOf(el) {
			x.memOf(env.st, el, s.arr, l)
			out = append(out, modLoc{heap: elemHeapName(el, l.path), ref: s.arr, lo: lo, hi: hi})
		}
		return out
	case "call":
		if e.name == "backing" { // the whole backing array of a slice, visible or not
			v := env.eval(e.args[0])
			s := v.v.(*VSlice)
			el := under(v.t).(*types.Slice).Elem()
			var out []modLoc
			for _, l := range leavesOf(el) {
				x.memOf(env.st, el, s.arr, l)
				out = append(out, modLoc{heap: elemHeapName(el, l.path), ref: s.arr})
			}
			return out
		}
		if e.name == "all" { // all("T"): every object of type T
			t := x.P.lookupType(e.args[0].name, env.pkg)
			if t == nil {
				serr("unknown type %s", e.args[0].name)
			}
			var out []modLoc
			for _, l := range leavesOf(t) {
				if len(e.args) > 1 { // all("T", "f"): field f of every object of type T
					if f := strings.TrimPrefix(l.path, "."); f != e.args[1].name && !strings.HasPrefix(f, e.args[1].name+".") {
						continue
					}
				}
				n := objHeapName(t, l.path)
				x.heapL(env.st, n, arrOf(l.sort), l)
				out = append(out, modLoc{heap: n, all: true})
			}
			return out
		}
		if e.name == "allmem" {
			t := x.P.lookupType(e.args[0].name, env.pkg)
			var out []modLoc
			for _, l := range leavesOf(t) {
				n := elemHeapName(t, l.path)
				x.heapL(env.st, n, arrOf(arrOf(l.sort)), l)
				out = append(out, modLoc{heap: n, all: true})
			}
			return out
		}
	case "deref":
		v := env.eval(e.args[0])
		p := v.v.(*VPtr)
		return x.ptrLocs(env.st, p)
	case "field":
		v := env.eval(e.args[0])
		p, ok := v.v.(*VPtr)
		if !ok {
			serr("modifies %s", show(e))
		}
		st := under(x.ptrTarget(p)).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.name {
				return x.ptrLocs(env.st, &VPtr{ref: p.ref, root: p.root, elem: p.elem, idx: p.idx, path: appendStep(p.path, pstep{field: i})})
			}
		}
	}
	serr("unsupported modifies item %s", show(e))
	return nil
}
func (x *Exec) ptrLocs(st *State, p *VPtr) []modLoc {
	t, prefix, aidx := subLeaves(p.root, p.path)
	var out []modLoc
	for _, l := range leavesOf(t) {
		x.leafTerm(st, p, prefix, len(aidx), l)
		if p.elem {
			out = append(out, modLoc{heap: elemHeapName(p.root, prefix+l.path), ref: p.ref, lo: p.idx, hi: x.c.Add(p.idx, x.c.Int(1))})
		} else if isArr(p.root) {
			el := under(p.root).(*types.Array).Elem()
			out = append(out, modLoc{heap: elemHeapName(el, strings.TrimPrefix(prefix+l.path, "[]")), ref: p.ref})
		} else {
			out = append(out, modLoc{heap: objHeapName(p.root, prefix+l.path), ref: p.ref})
		}
	}
	return out
}

// ---------- the function under verification ----------

func (x *Exec) entryEnv() *SpecEnv {
	env := &SpecEnv{x: x, st: x.entry, old: x.entry, vars: x.params, pkg: x.ct.Pkg}
	return env
}

func (x *Exec) checkPost(st *State, res []Val) {
	env := &SpecEnv{x: x, st: st, old: x.entry, vars: x.params, pkg: x.ct.Pkg}
	sig := x.fn.Signature
	for i := range res {
		env.res = append(env.res, TV{res[i], sig.Results().At(i).Type()})
	}
	if env.res == nil {
		env.res = []TV{}
	}
	env.setResNames(x.ct, sig)
	for _, p := range x.ct.Panics {
		x.oblige(st, "panics", "the function panics whenever "+p.src, x.c.Not(x.specBool(x.entryEnv(), p)))
	}
	if x.usesHeapFuns(x.ct) {
		x.heapStable(st)
	}
	for _, e := range x.ct.UnfoldPost {
		x.assume(x.specBool(env, e))
	}
	for i, e := range x.ct.Ensures {
		lb := e.label
		if lb == "" {
			lb = fmt.Sprint(i + 1)
		}
		x.oblige(st, "post:"+lb, e.src, x.specBool(env, e))
	}
	if x.ct.NoAlloc {
		x.oblige(st, "frame", "nothing is allocated", x.c.Eq(st.alloc, x.entry.alloc))
	}
	x.frameCheck(st)
}
