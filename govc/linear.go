package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// linearScript abstracts the current assertions into linear integer arithmetic: every product of
// non-constants becomes a fresh variable with the bounds its factors imply, every quotient and
// remainder gets its defining equation, and a variable that is split into quotient and remainder is
// replaced by that split inside products. Assertions it cannot express are dropped (or their opaque
// parts become fresh propositions), so "unsat" of the result implies "unsat" of the original.
// It returns "" when there is nothing non-linear to abstract.
func (s *Solver) linearScript() string {
	l := &linz{c: s.c, poly: map[int]mpoly{}, bools: map[int]string{}, mono: map[string]string{}, split: map[int]*big.Int{}, known: map[string]bool{}, qr: map[string][2]string{}, atoms: map[string]*Term{}, lo: map[string]*big.Int{}, hi: map[string]*big.Int{}}
	seen := map[int]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t.id] || t.qv {
			return
		}
		seen[t.id] = true
		if t.op == "mul" {
			l.nonlin = true
		}
		if t.op == "div" || t.op == "mod" {
			if t.args[1].op != "int" {
				l.nonlin = true
			} else if a := t.args[0]; a.op == "var" || a.op == "app" || a.op == "select" {
				if k, ok := l.split[a.id]; !ok || k.Cmp(t.args[1].ival) > 0 {
					l.split[a.id] = t.args[1].ival
				}
			}
		}
		if t.op == "forall" || t.op == "exists" {
			return
		}
		for _, a := range t.args {
			scan(a)
		}
	}
	for _, lv := range s.asserts {
		for _, t := range lv {
			scan(t)
		}
	}
	if !l.nonlin {
		return ""
	}
	for _, lv := range s.asserts {
		for _, t := range lv {
			l.assert(l.boolT(t))
		}
	}
	return strings.Join(l.decl, "") + l.out.String() + "(check-sat)\n"
}

type mpoly map[string]*big.Int // monomial ("" constant, atoms joined by "*") -> coefficient

type linz struct {
	c      *Ctx
	nonlin bool
	decl   []string
	out    strings.Builder
	poly   map[int]mpoly
	bools  map[int]string
	mono   map[string]string
	split  map[int]*big.Int
	known  map[string]bool
	qr     map[string][2]string
	atoms  map[string]*Term
	lo, hi map[string]*big.Int
	n      int
}

func (l *linz) assert(f string) {
	if f != "true" {
		l.out.WriteString("(assert " + f + ")\n")
	}
}

func (l *linz) fresh(sort string) string {
	l.n++
	n := fmt.Sprintf("v%d", l.n)
	l.decl = append(l.decl, "(declare-const "+n+" "+sort+")\n")
	return n
}

func (l *linz) atom(lo, hi *big.Int) string {
	n := l.fresh("Int")
	l.lo[n], l.hi[n] = lo, hi
	if lo != nil {
		l.assert("(<= " + smtInt(lo) + " " + n + ")")
	}
	if hi != nil {
		l.assert("(<= " + n + " " + smtInt(hi) + ")")
	}
	return n
}

func padd(a, b mpoly, k *big.Int) mpoly {
	r := mpoly{}
	for m, c := range a {
		r[m] = c
	}
	for m, c := range b {
		x := new(big.Int).Mul(c, k)
		if o, ok := r[m]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = x
		}
	}
	return r
}

func pmul(a, b mpoly) mpoly {
	r := mpoly{}
	for m, c := range a {
		for n, d := range b {
			var fs []string
			if m != "" {
				fs = append(fs, strings.Split(m, "*")...)
			}
			if n != "" {
				fs = append(fs, strings.Split(n, "*")...)
			}
			sort.Strings(fs)
			r = padd(r, mpoly{strings.Join(fs, "*"): new(big.Int).Mul(c, d)}, big1)
		}
	}
	return r
}

// monoVar is the variable standing for a product of atoms.
func (l *linz) monoVar(m string) string {
	fs := strings.Split(m, "*")
	if len(fs) == 1 {
		return m
	}
	if v, ok := l.mono[m]; ok {
		return v
	}
	rest := l.monoVar(strings.Join(fs[1:], "*"))
	x, y := fs[0], rest
	xl, xh, yl, yh := l.lo[x], l.hi[x], l.lo[y], l.hi[y]
	var lo, hi *big.Int
	if xl != nil && xh != nil && yl != nil && yh != nil {
		for _, a := range []*big.Int{xl, xh} {
			for _, b := range []*big.Int{yl, yh} {
				p := new(big.Int).Mul(a, b)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
	} else if xl != nil && yl != nil && xl.Sign() >= 0 && yl.Sign() >= 0 {
		lo = new(big.Int).Mul(xl, yl)
	}
	v := l.atom(lo, hi)
	l.mono[m] = v
	// (x-a)*(y-b) has a known sign at the corners of the box
	corner := func(a, b *big.Int, ge bool) {
		if a == nil || b == nil {
			return
		}
		f := fmt.Sprintf("(+ %s (* %s %s) (* %s %s) %s)", v, smtInt(new(big.Int).Neg(a)), y, smtInt(new(big.Int).Neg(b)), x, smtInt(new(big.Int).Mul(a, b)))
		if ge {
			l.assert("(>= " + f + " 0)")
		} else {
			l.assert("(<= " + f + " 0)")
		}
	}
	l.assert("(=> (or (= " + x + " 0) (= " + y + " 0)) (= " + v + " 0))")
	corner(xl, yl, true)
	corner(xh, yh, true)
	corner(xl, yh, false)
	corner(xh, yl, false)
	return v
}

func (l *linz) show(p mpoly) string {
	var ms []string
	for m := range p {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	if len(ms) == 0 {
		return "0"
	}
	var ts []string
	for _, m := range ms {
		if m == "" {
			ts = append(ts, smtInt(p[m]))
		} else {
			ts = append(ts, "(* "+smtInt(p[m])+" "+l.monoVar(m)+")")
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return "(+ " + strings.Join(ts, " ") + ")"
}

var linKs = func() []*big.Int {
	var r []*big.Int
	for _, e := range []uint{8, 16, 31, 32, 48, 63, 64} {
		r = append(r, new(big.Int).Lsh(big1, e))
	}
	return r
}()

// quoRem returns the quotient and remainder atoms of a by d.
func (l *linz) quoRem(a, d *Term) (string, string) {
	k := fmt.Sprintf("%d/%d", a.id, d.id)
	if v, ok := l.qr[k]; ok {
		return v[0], v[1]
	}
	if d.op == "int" && d.ival.Sign() > 0 {
		dv := d.ival
		var qlo, qhi *big.Int
		if a.lo != nil {
			qlo = new(big.Int).Div(a.lo, dv)
		}
		if a.hi != nil {
			qhi = new(big.Int).Div(a.hi, dv)
		}
		q := l.atom(nil, nil)
		l.lo[q], l.hi[q] = qlo, qhi
		if kv, ok := l.split[a.id]; ok && kv.Cmp(dv) == 0 && (a.op == "var" || a.op == "app" || a.op == "select") && l.poly[a.id] == nil {
			// a itself becomes q*d+r
			r := l.atom(new(big.Int), new(big.Int).Sub(dv, big1))
			l.qr[k] = [2]string{q, r}
			l.poly[a.id] = mpoly{q: dv, r: big1}
			if a.lo != nil {
				l.assert("(<= " + smtInt(a.lo) + " " + l.show(l.poly[a.id]) + ")")
			}
			if a.hi != nil {
				l.assert("(<= " + l.show(l.poly[a.id]) + " " + smtInt(a.hi) + ")")
			}
		} else {
			// the remainder is a - q*d
			l.qr[k] = [2]string{q, ""}
			r := l.show(padd(l.polyT(a), mpoly{q: dv}, big.NewInt(-1)))
			l.assert("(and (<= 0 " + r + ") (< " + r + " " + dv.String() + "))")
		}
		if qlo != nil {
			l.assert("(<= " + smtInt(qlo) + " " + q + ")")
		}
		if qhi != nil {
			l.assert("(<= " + q + " " + smtInt(qhi) + ")")
		}
		return q, l.qr[k][1]
	}
	pa, pd := l.polyT(a), l.polyT(d)
	q, r := l.fresh("Int"), l.fresh("Int")
	l.qr[k] = [2]string{q, r}
	prod := pmul(mpoly{q: big1}, pd)
	ds := l.show(pd)
	l.assert("(=> (> " + ds + " 0) (and (= " + l.show(pa) + " " + l.show(padd(prod, mpoly{r: big1}, big1)) + ") (<= 0 " + r + ") (< " + r + " " + ds + ")))")
	l.assert("(=> (and (> " + ds + " 0) (>= " + l.show(pa) + " 0)) (and (>= " + q + " 0) (<= " + q + " " + l.show(pa) + ")))")
	for _, kv := range append([]*big.Int{new(big.Int), big1}, linKs...) {
		l.assert("(=> (and (> " + ds + " 0) (>= " + q + " " + smtInt(kv) + ")) (>= " + l.show(prod) + " " + l.show(padd(mpoly{}, pd, kv)) + "))")
		l.assert("(=> (and (> " + ds + " 0) (< " + q + " " + smtInt(kv) + ")) (<= " + l.show(prod) + " " + l.show(padd(mpoly{}, pd, new(big.Int).Sub(kv, big1))) + "))")
	}
	return q, r
}

func (l *linz) polyT(t *Term) mpoly {
	if p, ok := l.poly[t.id]; ok {
		return p
	}
	p := l.polyT1(t)
	if q, ok := l.poly[t.id]; ok {
		return q
	}
	l.poly[t.id] = p
	return p
}

func (l *linz) polyT1(t *Term) mpoly {
	switch t.op {
	case "int":
		if t.ival.Sign() == 0 {
			return mpoly{}
		}
		return mpoly{"": t.ival}
	case "lin":
		p := mpoly{}
		if t.ival.Sign() != 0 {
			p[""] = t.ival
		}
		for i, a := range t.args {
			p = padd(p, l.polyT(a), t.coef[i])
		}
		return p
	case "mul":
		p := mpoly{"": big1}
		for _, a := range t.args {
			p = pmul(p, l.polyT(a))
		}
		return p
	case "div", "mod":
		q, r := l.quoRem(t.args[0], t.args[1])
		if t.op == "div" {
			return mpoly{q: big1}
		}
		if r == "" {
			return padd(l.polyT(t.args[0]), mpoly{q: t.args[1].ival}, big.NewInt(-1))
		}
		return mpoly{r: big1}
	case "sw":
		w := uint(t.ival.Int64())
		half := new(big.Int).Lsh(big1, w-1)
		v := l.atom(new(big.Int).Neg(half), new(big.Int).Sub(half, big1))
		k := l.fresh("Int")
		l.assert("(= " + l.show(l.polyT(t.args[0])) + " " + l.show(mpoly{v: big1, k: new(big.Int).Lsh(big1, w)}) + ")")
		return mpoly{v: big1}
	case "ite":
		cnd := l.boolT(t.args[0])
		a, b := l.polyT(t.args[1]), l.polyT(t.args[2])
		v := l.atom(nil, nil)
		l.assert("(ite " + cnd + " (= " + v + " " + l.show(a) + ") (= " + v + " " + l.show(b) + "))")
		l.lo[v], l.hi[v] = t.lo, t.hi
		return mpoly{v: big1}
	case "var", "app", "select":
		if t.op == "app" && strings.HasPrefix(t.name, "bvor") && len(t.args) == 2 {
			// a|b = a + b - (a&b), and a&b = 0 when the bits do not overlap
			a, b := l.polyT(t.args[0]), l.polyT(t.args[1])
			w := l.atom(nil, nil)
			l.assert("(=> (and (<= 0 " + l.show(a) + ") (<= 0 " + l.show(b) + ")) (and (<= 0 " + w + ") (<= " + w + " " + l.show(a) + ") (<= " + w + " " + l.show(b) + ")))")
			for i := 0; i < 2; i++ {
				if k := lowZeros(t.args[1-i]); k > 0 {
					l.assert("(=> (and (<= 0 " + l.show(a) + ") (<= 0 " + l.show(b) + ") (< " + l.show(l.polyT(t.args[i])) + " " + new(big.Int).Lsh(big1, k).String() + ")) (= " + w + " 0))")
				}
			}
			return padd(padd(a, b, big1), mpoly{w: big1}, big.NewInt(-1))
		}
		if k, ok := l.split[t.id]; ok {
			l.quoRem(t, l.c.BigInt(k))
			if p, ok := l.poly[t.id]; ok {
				return p
			}
		}
		return mpoly{l.atom(t.lo, t.hi): big1}
	}
	return mpoly{l.atom(nil, nil): big1}
}

func (l *linz) boolT(t *Term) string {
	if v, ok := l.bools[t.id]; ok {
		return v
	}
	v := l.boolT1(t)
	if len(v) > 40 {
		n := l.fresh("Bool")
		l.assert("(= " + n + " " + v + ")")
		v = n
	}
	l.bools[t.id] = v
	return v
}

func (l *linz) boolT1(t *Term) string {
	if t.isTrue() {
		return "true"
	}
	if t.isFalse() {
		return "false"
	}
	switch t.op {
	case "and", "or", "not", "=>":
		var as []string
		for _, a := range t.args {
			as = append(as, l.boolT(a))
		}
		return "(" + t.op + " " + strings.Join(as, " ") + ")"
	case "<=":
		return "(<= " + l.show(l.polyT(t.args[0])) + " " + l.show(l.polyT(t.args[1])) + ")"
	case "=":
		switch t.args[0].sort {
		case SInt:
			return "(= " + l.show(padd(l.polyT(t.args[0]), l.polyT(t.args[1]), big.NewInt(-1))) + " 0)"
		case SBool:
			return "(= " + l.boolT(t.args[0]) + " " + l.boolT(t.args[1]) + ")"
		}
	case "ite":
		return "(ite " + l.boolT(t.args[0]) + " " + l.boolT(t.args[1]) + " " + l.boolT(t.args[2]) + ")"
	}
	return l.fresh("Bool")
}

// lowZeros is a number of low bits known to be zero in t (0 if none is known).
func lowZeros(t *Term) uint {
	switch t.op {
	case "mod":
		if m := t.args[1]; m.op == "int" && m.ival.Sign() > 0 {
			return min(lowZeros(t.args[0]), m.ival.TrailingZeroBits())
		}
	case "int":
		if t.ival.Sign() == 0 {
			return 1000
		}
		return t.ival.TrailingZeroBits()
	case "lin":
		r := uint(1000)
		if t.ival.Sign() != 0 {
			r = t.ival.TrailingZeroBits()
		}
		for i, a := range t.args {
			r = min(r, t.coef[i].TrailingZeroBits()+lowZeros(a))
		}
		return r
	}
	return 0
}
