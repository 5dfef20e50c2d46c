package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed SMT terms with light simplification. Integer sums are kept in a linear normal form
// (op "lin": args are the non-constant monomials, coef their coefficients, ival the constant).
type Term struct {
	op   string
	args []*Term
	coef []*big.Int
	ival *big.Int
	sort string
	name string // for op "var", "app" (function name), "qvar"
	id   int
	key  string
	lo   *big.Int // interval (nil = unbounded), only for Int
	hi   *big.Int
	qv   bool // mentions a bound variable
	pats []*Term
	size int
	defd int
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
)

func arrOf(s string) string { return "(Array Int " + s + ")" }
func elemSort(s string) string {
	if strings.HasPrefix(s, "(Array Int ") {
		return s[len("(Array Int ") : len(s)-1]
	}
	panic("elemSort of " + s)
}

type Ctx struct {
	tab     map[string]*Term
	next    int
	fresh   int
	varsrt  map[string]string // declared variables
	funs    map[string]funDecl
	order   []string // declaration order of vars and funs
	strlits map[string]*Term
	litOf   map[*Term]string
}
type funDecl struct {
	args []string
	ret  string
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, varsrt: map[string]string{}, funs: map[string]funDecl{}, strlits: map[string]*Term{}, litOf: map[*Term]string{}}
}

var big0 = big.NewInt(0)
var big1 = big.NewInt(1)

func (c *Ctx) mk(op, srt, name string, args []*Term, coef []*big.Int, ival *big.Int) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	sb.WriteByte('|')
	sb.WriteString(name)
	for i, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if coef != nil {
			sb.WriteByte('*')
			sb.WriteString(coef[i].String())
		}
	}
	if ival != nil {
		sb.WriteByte('#')
		sb.WriteString(ival.String())
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{op: op, args: args, coef: coef, ival: ival, sort: srt, name: name, id: c.next, key: k, size: 1}
	for _, a := range args {
		t.size += a.size
		if a.qv {
			t.qv = true
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	if op == "qvar" {
		t.qv = true
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(n int64) *Term { return c.BigInt(big.NewInt(n)) }
func (c *Ctx) BigInt(n *big.Int) *Term {
	t := c.mk("int", SInt, "", nil, nil, new(big.Int).Set(n))
	t.lo, t.hi = t.ival, t.ival
	return t
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.mk("true", SBool, "", nil, nil, nil)
	}
	return c.mk("false", SBool, "", nil, nil, nil)
}
func (c *Ctx) True() *Term  { return c.Bool(true) }
func (c *Ctx) False() *Term { return c.Bool(false) }
func (t *Term) isTrue() bool {
	return t.op == "true"
}
func (t *Term) isFalse() bool { return t.op == "false" }
func (t *Term) isInt() bool   { return t.op == "int" }

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (c *Ctx) Fresh(hint, srt string) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), srt)
}
func (c *Ctx) Var(name, srt string) *Term {
	if old, ok := c.varsrt[name]; ok {
		if old != srt {
			panic("var redeclared " + name)
		}
	} else {
		c.varsrt[name] = srt
		c.order = append(c.order, "v:"+name)
	}
	return c.mk("var", srt, name, nil, nil, nil)
}
func (c *Ctx) QVar(hint, srt string) *Term {
	c.fresh++
	return c.mk("qvar", srt, fmt.Sprintf("%s?%d", sanitize(hint), c.fresh), nil, nil, nil)
}
func (c *Ctx) setRange(t *Term, lo, hi *big.Int) *Term {
	if t.op == "int" {
		return t
	}
	if lo != nil && (t.lo == nil || t.lo.Cmp(lo) < 0) {
		t.lo = lo
	}
	if hi != nil && (t.hi == nil || t.hi.Cmp(hi) > 0) {
		t.hi = hi
	}
	return t
}

func (c *Ctx) App(fn, ret string, args ...*Term) *Term {
	if _, ok := c.funs[fn]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, a.sort)
		}
		c.funs[fn] = funDecl{as, ret}
		c.order = append(c.order, "f:"+fn)
	}
	return c.mk("app", ret, fn, args, nil, nil)
}

// ---------- linear arithmetic ----------

type linForm struct {
	m map[int]*big.Int
	t map[int]*Term
	k *big.Int
}

func (c *Ctx) lin(t *Term) linForm {
	l := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
	l.add(t, big1)
	return l
}
func (l *linForm) add(t *Term, f *big.Int) {
	switch t.op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(t.ival, f))
	case "lin":
		for i, a := range t.args {
			l.addMono(a, new(big.Int).Mul(t.coef[i], f))
		}
		l.k.Add(l.k, new(big.Int).Mul(t.ival, f))
	default:
		l.addMono(t, f)
	}
}
func (l *linForm) addMono(t *Term, f *big.Int) {
	if o, ok := l.m[t.id]; ok {
		l.m[t.id] = new(big.Int).Add(o, f)
	} else {
		l.m[t.id] = new(big.Int).Set(f)
		l.t[t.id] = t
	}
}

// digit views a term as (x div A) mod B; B nil means no reduction.
func digit(t *Term) (x *Term, a, b *big.Int, ok bool) {
	pos := func(u *Term) bool { return u.op == "int" && u.ival.Sign() > 0 }
	switch t.op {
	case "mod":
		if !pos(t.args[1]) {
			return
		}
		in := t.args[0]
		if in.op == "div" && pos(in.args[1]) {
			return in.args[0], in.args[1].ival, t.args[1].ival, true
		}
		return in, big1, t.args[1].ival, true
	case "div":
		if pos(t.args[1]) {
			return t.args[0], t.args[1].ival, nil, true
		}
	}
	return
}

// joinDigits merges adjacent digits of the same number: f*((x/A)%B) + f*B*((x/(A*B))%C) = f*((x/A)%(B*C)).
func (c *Ctx) joinDigits(l linForm) linForm {
	n := 0
	for _, t := range l.t {
		if t.op == "mod" || t.op == "div" {
			n++
		}
	}
	for n >= 2 {
		joined := false
		var ids []int
		for id, f := range l.m {
			if f.Sign() != 0 && (l.t[id].op == "mod" || l.t[id].op == "div") {
				ids = append(ids, id)
			}
		}
		sort.Ints(ids)
	search:
		for _, i := range ids {
			x, a, b, ok := digit(l.t[i])
			if !ok || b == nil {
				continue
			}
			for _, j := range ids {
				if i == j {
					continue
				}
				y, a2, b2, ok := digit(l.t[j])
				if !ok || y != x || a2.Cmp(new(big.Int).Mul(a, b)) != 0 || l.m[j].Cmp(new(big.Int).Mul(l.m[i], b)) != 0 {
					continue
				}
				f := l.m[i]
				delete(l.m, i)
				delete(l.m, j)
				delete(l.t, i)
				delete(l.t, j)
				r := c.Div(x, c.BigInt(a))
				if b2 != nil {
					r = c.Mod(r, c.BigInt(new(big.Int).Mul(b, b2)))
				}
				l.add(r, f)
				joined = true
				break search
			}
		}
		if !joined {
			break
		}
	}
	return l
}

func (c *Ctx) fromLin(l linForm) *Term {
	l = c.joinDigits(l)
	var ids []int
	for id, f := range l.m {
		if f.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return c.BigInt(l.k)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.k.Sign() == 0 && l.m[ids[0]].Cmp(big1) == 0 {
		return l.t[ids[0]]
	}
	var args []*Term
	var coef []*big.Int
	for _, id := range ids {
		args = append(args, l.t[id])
		coef = append(coef, l.m[id])
	}
	t := c.mk("lin", SInt, "", args, coef, l.k)
	// interval
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for i, a := range args {
		f := coef[i]
		alo, ahi := a.lo, a.hi
		if f.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil && alo != nil {
			lo.Add(lo, new(big.Int).Mul(f, alo))
		} else {
			lo = nil
		}
		if hi != nil && ahi != nil {
			hi.Add(hi, new(big.Int).Mul(f, ahi))
		} else {
			hi = nil
		}
	}
	c.setRange(t, lo, hi)
	return t
}
func (c *Ctx) Add(ts ...*Term) *Term {
	l := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
	for _, t := range ts {
		l.add(t, big1)
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.lin(a)
	l.add(b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }
func (c *Ctx) MulC(a *Term, f *big.Int) *Term {
	l := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
	l.add(a, f)
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" {
		return c.MulC(b, a.ival)
	}
	if b.op == "int" {
		return c.MulC(a, b.ival)
	}
	// distribute over sums so that products meet in a normal form
	if a.op == "lin" || b.op == "lin" {
		la, lb := c.lin(a), c.lin(b)
		if len(la.m) <= 6 && len(lb.m) <= 6 {
			out := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
			for ia, fa := range la.m {
				for ib, fb := range lb.m {
					out.add(c.mulMono(la.t[ia], lb.t[ib]), new(big.Int).Mul(fa, fb))
				}
				out.add(la.t[ia], new(big.Int).Mul(fa, lb.k))
			}
			for ib, fb := range lb.m {
				out.add(lb.t[ib], new(big.Int).Mul(fb, la.k))
			}
			out.k.Add(out.k, new(big.Int).Mul(la.k, lb.k))
			r := c.fromLin(out)
			mulRange(c, r, a, b)
			return r
		}
	}
	return c.mulMono(a, b)
}
func (c *Ctx) mulMono(a, b *Term) *Term {
	if a.op == "int" || b.op == "int" {
		return c.Mul(a, b)
	}
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == "mul" {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	t := c.mk("mul", SInt, "", fs, nil, nil)
	mulRange(c, t, a, b)
	return t
}
func mulRange(c *Ctx, t, a, b *Term) {
	if a.lo != nil && b.lo != nil && a.hi != nil && b.hi != nil {
		var lo, hi *big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		c.setRange(t, lo, hi)
	} else if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		c.setRange(t, new(big.Int).Mul(a.lo, b.lo), nil)
	}
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; for b>0 equals floor
	return q
}

// Div and Mod are floor division and modulus by a positive divisor (SMT-LIB div/mod for positive divisors).
func (c *Ctx) Div(a, b *Term) *Term {
	if b.op == "int" && b.ival.Sign() > 0 {
		d := b.ival
		if d.Cmp(big1) == 0 {
			return a
		}
		if a.op == "int" {
			return c.BigInt(floorDiv(a.ival, d))
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := floorDiv(a.lo, d), floorDiv(a.hi, d)
			if ql.Cmp(qh) == 0 {
				return c.BigInt(ql)
			}
		}
		// (x div m) div n = x div (m*n)
		if a.op == "div" && a.args[1].op == "int" {
			return c.Div(a.args[0], c.BigInt(new(big.Int).Mul(a.args[1].ival, d)))
		}
		// split off multiples of d
		if a.op == "lin" {
			q := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
			r := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
			any := false
			for i, x := range a.args {
				if new(big.Int).Mod(a.coef[i], d).Sign() == 0 {
					q.add(x, new(big.Int).Div(a.coef[i], d))
					any = true
				} else {
					r.add(x, a.coef[i])
				}
			}
			kq, km := new(big.Int), new(big.Int)
			kq.DivMod(a.ival, d, km)
			q.k, r.k = kq, km
			if any || kq.Sign() != 0 {
				return c.Add(c.fromLin(q), c.divRaw(c.fromLin(r), b))
			}
		}
	}
	return c.divRaw(a, b)
}
func (c *Ctx) divRaw(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.ival.Sign() > 0 {
		return c.BigInt(floorDiv(a.ival, b.ival))
	}
	if b.op == "int" && b.ival.Sign() > 0 && a.lo != nil && a.hi != nil {
		ql, qh := floorDiv(a.lo, b.ival), floorDiv(a.hi, b.ival)
		if ql.Cmp(qh) == 0 {
			return c.BigInt(ql)
		}
	}
	t := c.mk("div", SInt, "", []*Term{a, b}, nil, nil)
	if b.op == "int" && b.ival.Sign() > 0 {
		var lo, hi *big.Int
		if a.lo != nil {
			lo = floorDiv(a.lo, b.ival)
		}
		if a.hi != nil {
			hi = floorDiv(a.hi, b.ival)
		}
		c.setRange(t, lo, hi)
	} else if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		c.setRange(t, big0, a.hi)
	}
	return t
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.op == "int" && b.ival.Sign() > 0 {
		d := b.ival
		if a.op == "int" {
			return c.BigInt(new(big.Int).Mod(a.ival, d))
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(d) < 0 {
			return a
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := floorDiv(a.lo, d), floorDiv(a.hi, d)
			if ql.Cmp(qh) == 0 {
				return c.Sub(a, c.BigInt(new(big.Int).Mul(ql, d)))
			}
		}
		if a.op == "sw" && new(big.Int).Mod(new(big.Int).Lsh(big1, uint(a.ival.Int64())), d).Sign() == 0 {
			return c.Mod(a.args[0], b)
		}
		if a.op == "mod" && a.args[1].op == "int" && new(big.Int).Mod(a.args[1].ival, d).Sign() == 0 {
			return c.Mod(a.args[0], b)
		}
		if a.op == "lin" {
			r := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
			ch := false
			for i, x := range a.args {
				f := new(big.Int).Mod(a.coef[i], d)
				if f.Sign() == 0 {
					ch = true
					continue
				}
				// reduce inner mods/wraps that are multiples of d
				y := x
				for {
					if y.op == "mod" && y.args[1].op == "int" && new(big.Int).Mod(y.args[1].ival, d).Sign() == 0 {
						y = y.args[0]
						ch = true
						continue
					}
					if y.op == "sw" && new(big.Int).Mod(new(big.Int).Lsh(big1, uint(y.ival.Int64())), d).Sign() == 0 {
						y = y.args[0]
						ch = true
						continue
					}
					break
				}
				r.add(y, a.coef[i])
			}
			k := new(big.Int).Mod(a.ival, d)
			if k.Cmp(a.ival) != 0 {
				ch = true
			}
			r.k.Add(r.k, k)
			if ch {
				return c.Mod(c.fromLin(r), b)
			}
		}
	}
	t := c.mk("mod", SInt, "", []*Term{a, b}, nil, nil)
	if b.op == "int" && b.ival.Sign() > 0 {
		c.setRange(t, big0, new(big.Int).Sub(b.ival, big1))
	} else if b.hi != nil {
		c.setRange(t, big0, new(big.Int).Sub(b.hi, big1))
	}
	return t
}

// SWrap is two's complement wrap of x to w bits (signed).
func (c *Ctx) SWrap(x *Term, w uint) *Term {
	half := new(big.Int).Lsh(big1, w-1)
	max := new(big.Int).Sub(half, big1)
	min := new(big.Int).Neg(half)
	if x.lo != nil && x.hi != nil && x.lo.Cmp(min) >= 0 && x.hi.Cmp(max) <= 0 {
		return x
	}
	m := new(big.Int).Lsh(big1, w)
	if x.op == "int" {
		r := new(big.Int).Mod(new(big.Int).Add(x.ival, half), m)
		return c.BigInt(r.Sub(r, half))
	}
	// drop inner wraps of at least this width
	x = c.stripMod(x, m)
	if x.lo != nil && x.hi != nil && x.lo.Cmp(min) >= 0 && x.hi.Cmp(max) <= 0 {
		return x
	}
	t := c.mk("sw", SInt, "", []*Term{x}, nil, big.NewInt(int64(w)))
	c.setRange(t, min, max)
	return t
}

// stripMod removes inner reductions that do not matter modulo m.
func (c *Ctx) stripMod(x *Term, m *big.Int) *Term {
	switch x.op {
	case "mod":
		if x.args[1].op == "int" && new(big.Int).Mod(x.args[1].ival, m).Sign() == 0 {
			return c.stripMod(x.args[0], m)
		}
	case "sw":
		if new(big.Int).Mod(new(big.Int).Lsh(big1, uint(x.ival.Int64())), m).Sign() == 0 {
			return c.stripMod(x.args[0], m)
		}
	case "lin":
		l := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int).Set(x.ival)}
		for i, a := range x.args {
			l.add(c.stripMod(a, m), x.coef[i])
		}
		return c.fromLin(l)
	}
	return x
}

func (c *Ctx) UWrap(x *Term, w uint) *Term {
	return c.Mod(x, c.BigInt(new(big.Int).Lsh(big1, w)))
}

// ---------- booleans ----------

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	}
	return c.mk("not", SBool, "", []*Term{a}, nil, nil)
}
func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == "true" {
			return true
		}
		if t.op == "false" {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return c.False()
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0].id] {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", SBool, "", out, nil, nil)
}
func (c *Ctx) Or(ts ...*Term) *Term {
	var ns []*Term
	for _, t := range ts {
		if t.op == "or" {
			ns = append(ns, t.args...)
		} else {
			ns = append(ns, t)
		}
	}
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ns {
		if t.op == "true" {
			return t
		}
		if t.op == "false" || seen[t.id] {
			continue
		}
		seen[t.id] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0].id] {
			return c.True()
		}
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", SBool, "", out, nil, nil)
}
func (c *Ctx) Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	if b.op == "=>" {
		return c.Imp(c.And(a, b.args[0]), b.args[1])
	}
	return c.mk("=>", SBool, "", []*Term{a, b}, nil, nil)
}
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s / %s", a.sort, b.sort, c.Show(a), c.Show(b)))
	}
	if a.sort == SInt {
		if a.op == "int" && b.op == "int" {
			return c.Bool(a.ival.Cmp(b.ival) == 0)
		}
		if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 || b.lo != nil && a.hi != nil && b.lo.Cmp(a.hi) > 0 {
			return c.False()
		}
		d := c.Sub(a, b)
		if d.op == "int" {
			return c.Bool(d.ival.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return c.False()
		}
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.sort == SStr && a.op == "var" && b.op == "var" && strings.HasPrefix(a.name, "lit$") && strings.HasPrefix(b.name, "lit$") {
		return c.False()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, "", []*Term{a, b}, nil, nil)
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }
func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b) // a-b <= 0
	if d.hi != nil && d.hi.Sign() <= 0 {
		return c.True()
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return c.False()
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return c.True()
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return c.False()
	}
	return c.mk("<=", SBool, "", []*Term{a, b}, nil, nil)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
	}
	t := c.mk("ite", a.sort, "", []*Term{g, a, b}, nil, nil)
	if a.sort == SInt {
		var lo, hi *big.Int
		if a.lo != nil && b.lo != nil {
			lo = a.lo
			if b.lo.Cmp(lo) < 0 {
				lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			hi = a.hi
			if b.hi.Cmp(hi) > 0 {
				hi = b.hi
			}
		}
		c.setRange(t, lo, hi)
	}
	return t
}

// ---------- arrays ----------

// distinct reports whether two index terms are syntactically different integers.
func (c *Ctx) distinct(a, b *Term) bool {
	if a.sort != SInt {
		return a.op == "var" && b.op == "var" && a != b && strings.HasPrefix(a.name, "lit$") && strings.HasPrefix(b.name, "lit$")
	}
	return c.Eq(a, b).isFalse()
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	if a.op == "ite" && a.size < 4000 {
		x, y := c.Select(a.args[1], i), c.Select(a.args[2], i)
		return c.Ite(a.args[0], x, y)
	}
	if a.op == "app" && a.name == "bytesof" {
		if v, ok := c.litOf[a.args[0]]; ok && i.op == "int" && i.ival.Sign() >= 0 && i.ival.Cmp(big.NewInt(int64(len(v)))) < 0 {
			return c.Int(int64(v[i.ival.Int64()]))
		}
		t := c.App("sat", SInt, a.args[0], i)
		c.setRange(t, big0, big.NewInt(255))
		return t
	}
	// A spliced array at an index known to be outside / inside.
	if a.op == "app" && strings.HasPrefix(a.name, "splice$") {
		d, doff, s, soff, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		if c.Lt(i, doff).isTrue() || c.Ge(i, c.Add(doff, n)).isTrue() {
			return c.Select(d, i)
		}
		if c.Ge(i, doff).isTrue() && c.Lt(i, c.Add(doff, n)).isTrue() {
			return c.Select(s, c.Sub(c.Add(soff, i), doff))
		}
	}
	return c.mk("select", elemSortOf(a), "", []*Term{a, i}, nil, nil)
}
func elemSortOf(a *Term) string {
	s := a.sort
	// (Array K V)
	inner := s[len("(Array ") : len(s)-1]
	// skip key sort
	if inner[0] == '(' {
		depth := 0
		for i, r := range inner {
			if r == '(' {
				depth++
			} else if r == ')' {
				depth--
				if depth == 0 {
					return inner[i+2:]
				}
			}
		}
	}
	return inner[strings.IndexByte(inner, ' ')+1:]
}
func keySortOf(a *Term) string {
	s := a.sort
	inner := s[len("(Array ") : len(s)-1]
	return inner[:strings.IndexByte(inner, ' ')]
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	// reorder stores at distinct constant indices: bubble older same-index store away
	if a.op == "store" && c.distinct(a.args[1], i) {
		// look for an earlier store at i
		var chain []*Term
		b := a
		for b.op == "store" && c.distinct(b.args[1], i) {
			chain = append(chain, b)
			b = b.args[0]
		}
		if b.op == "store" && b.args[1] == i {
			r := b.args[0]
			for k := len(chain) - 1; k >= 0; k-- {
				r = c.mk("store", r.sort, "", []*Term{r, chain[k].args[1], chain[k].args[2]}, nil, nil)
			}
			a = r
		}
	}
	return c.mk("store", a.sort, "", []*Term{a, i, v}, nil, nil)
}
func (c *Ctx) ConstArr(srt string, v *Term) *Term {
	return c.mk("constarr", srt, "", []*Term{v}, nil, nil)
}

func (c *Ctx) Quant(kind string, vars []*Term, body *Term, pats ...*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	used := false
	for _, v := range vars {
		if mentions(body, v) {
			used = true
		}
	}
	if !used {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	args = append(args, pats...)
	t := c.mk(kind, SBool, fmt.Sprintf("%d/%d", len(vars), len(pats)), args, nil, nil)
	t.qv = false
	// still open if body mentions other qvars
	bound := map[*Term]bool{}
	for _, v := range vars {
		bound[v] = true
	}
	seen := map[int]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if !x.qv || seen[x.id] {
			return false
		}
		seen[x.id] = true
		if x.op == "qvar" {
			return !bound[x]
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	// nested quantifiers have their own qvars inside args; they were closed, qv=false, so skipped
	t.qv = rec(body)
	return t
}
func mentions(t, v *Term) bool {
	seen := map[int]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == v {
			return true
		}
		if seen[x.id] {
			return false
		}
		seen[x.id] = true
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst replaces terms (typically variables) bottom up, re-simplifying.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		as := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = c.rebuild(x, as)
		}
		memo[x.id] = r
		return r
	}
	return rec(t)
}
func (c *Ctx) rebuild(x *Term, as []*Term) *Term {
	switch x.op {
	case "lin":
		l := linForm{map[int]*big.Int{}, map[int]*Term{}, new(big.Int).Set(x.ival)}
		for i, a := range as {
			l.add(a, x.coef[i])
		}
		return c.fromLin(l)
	case "mul":
		r := as[0]
		for _, a := range as[1:] {
			r = c.Mul(r, a)
		}
		return r
	case "div":
		return c.Div(as[0], as[1])
	case "mod":
		return c.Mod(as[0], as[1])
	case "sw":
		return c.SWrap(as[0], uint(x.ival.Int64()))
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "=>":
		return c.Imp(as[0], as[1])
	case "=":
		return c.Eq(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "select":
		r := c.Select(as[0], as[1])
		if r.op == "select" {
			c.setRange(r, x.lo, x.hi)
		}
		return r
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "constarr":
		return c.ConstArr(x.sort, as[0])
	case "app":
		r := c.mk("app", x.sort, x.name, as, nil, nil)
		c.setRange(r, x.lo, x.hi)
		return r
	case "forall", "exists":
		var nv, np int
		fmt.Sscanf(x.name, "%d/%d", &nv, &np)
		return c.Quant(x.op, as[:nv], as[nv], as[nv+1:]...)
	}
	panic("rebuild " + x.op)
}

// vars collects free variables.
func (t *Term) vars(out map[*Term]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "var" {
		out[t] = true
	}
	for _, a := range t.args {
		a.vars(out, seen)
	}
}

// ---------- printing ----------

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func smtName(s string) string {
	return "|" + s + "|"
}

// print writes t, using name(t) for subterms that have been given a definition.
func (c *Ctx) print(sb *strings.Builder, t *Term, named func(*Term) string) {
	if named != nil {
		if n := named(t); n != "" {
			sb.WriteString(n)
			return
		}
	}
	c.printBody(sb, t, named)
}
func (c *Ctx) printBody(sb *strings.Builder, t *Term, named func(*Term) string) {
	pr := func(x *Term) { c.print(sb, x, named) }
	app := func(op string, as ...*Term) {
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range as {
			sb.WriteByte(' ')
			pr(a)
		}
		sb.WriteByte(')')
	}
	switch t.op {
	case "int":
		sb.WriteString(smtInt(t.ival))
	case "true", "false":
		sb.WriteString(t.op)
	case "var", "qvar":
		sb.WriteString(smtName(t.name))
	case "lin":
		n := len(t.args)
		if t.ival.Sign() != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(+")
		}
		for i, a := range t.args {
			if n > 1 {
				sb.WriteByte(' ')
			}
			if t.coef[i].Cmp(big1) == 0 {
				pr(a)
			} else {
				sb.WriteString("(* " + smtInt(t.coef[i]) + " ")
				pr(a)
				sb.WriteByte(')')
			}
		}
		if t.ival.Sign() != 0 {
			sb.WriteByte(' ')
			sb.WriteString(smtInt(t.ival))
		}
		if n > 1 {
			sb.WriteByte(')')
		}
	case "mul":
		app("*", t.args...)
	case "sw":
		w := uint(t.ival.Int64())
		half := new(big.Int).Lsh(big1, w-1)
		m := new(big.Int).Lsh(big1, w)
		x := t.args[0]
		// x in (-2^w, 2^w) style ranges: use ite; otherwise mod
		lo2 := new(big.Int).Neg(new(big.Int).Add(half, m))
		hi2 := new(big.Int).Add(half, m)
		if x.lo != nil && x.hi != nil && x.lo.Cmp(lo2) > 0 && x.hi.Cmp(hi2) < 0 {
			hasHi := x.hi.Cmp(half) >= 0
			hasLo := x.lo.Cmp(new(big.Int).Neg(half)) < 0
			if hasHi {
				sb.WriteString("(ite (>= ")
				pr(x)
				sb.WriteString(" " + half.String() + ") (- ")
				pr(x)
				sb.WriteString(" " + m.String() + ") ")
			}
			if hasLo {
				sb.WriteString("(ite (< ")
				pr(x)
				sb.WriteString(" (- " + half.String() + ")) (+ ")
				pr(x)
				sb.WriteString(" " + m.String() + ") ")
			}
			pr(x)
			if hasLo {
				sb.WriteString(")")
			}
			if hasHi {
				sb.WriteString(")")
			}
			return
		}
		sb.WriteString("(- (mod (+ ")
		pr(x)
		sb.WriteString(" " + half.String() + ") " + m.String() + ") " + half.String() + ")")
	case "div", "mod", "and", "or", "not", "=>", "=", "<=", "ite", "select", "store":
		app(t.op, t.args...)
	case "constarr":
		sb.WriteString("((as const " + t.sort + ") ")
		pr(t.args[0])
		sb.WriteByte(')')
	case "app":
		if len(t.args) == 0 {
			sb.WriteString(smtName(t.name))
			return
		}
		app(smtName(t.name), t.args...)
	case "forall", "exists":
		var nv, np int
		fmt.Sscanf(t.name, "%d/%d", &nv, &np)
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.args[:nv] {
			sb.WriteString("(" + smtName(v.name) + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if np > 0 {
			sb.WriteString("(! ")
		}
		pr(t.args[nv])
		if np > 0 {
			for _, p := range t.args[nv+1:] {
				sb.WriteString(" :pattern (")
				if p.op == "app" && p.name == "multipat" {
					for _, q := range p.args {
						pr(q)
						sb.WriteByte(' ')
					}
				} else {
					pr(p)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		panic("print " + t.op)
	}
}
func (c *Ctx) Show(t *Term) string {
	var sb strings.Builder
	if t.size > 3000 {
		return fmt.Sprintf("<big term %d>", t.size)
	}
	c.print(&sb, t, nil)
	return strings.ReplaceAll(sb.String(), "|", "")
}
