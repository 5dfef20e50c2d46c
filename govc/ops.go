package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func identOf(e ast.Expr) (string, bool) {
	if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
		return id.Name, true
	}
	return "", false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// wrap reduces a mathematical integer to the machine type, unless it provably fits.
func (x *Exec) wrap(t *Term, typ types.Type) *Term {
	w, s, ok := intInfo(typ)
	if !ok {
		return t
	}
	lo, hi := typeRange(typ)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if t.op == "int" {
		if s {
			return x.c.SWrap(t, w)
		}
		return x.c.UWrap(t, w)
	}
	// already a pure reduction candidate: leave mod/sw to the simplifier when the operand is itself unbounded by design
	if x.fits(t, lo, hi) {
		return t
	}
	if s {
		return x.c.SWrap(t, w)
	}
	return x.c.UWrap(t, w)
}

// fits asks the solver whether lo <= t <= hi on this path.
func (x *Exec) fits(t *Term, lo, hi *big.Int) bool {
	if t.qv {
		return false
	}
	k := fmt.Sprintf("fit%d-%s-%s", t.id, lo, hi)
	if x.isAsserted(k) {
		return true
	}
	g := x.c.And(x.c.Le(x.c.BigInt(lo), t), x.c.Le(t, x.c.BigInt(hi)))
	if x.s.Entails(g, 60000) {
		x.markAsserted(k)
		return true
	}
	return false
}

func (x *Exec) constFloat(f float64) *Term {
	return x.c.BigInt(new(big.Int).SetUint64(math.Float64bits(f)))
}

func tzOf(t *Term) uint {
	switch t.op {
	case "int":
		if t.ival.Sign() == 0 {
			return 1 << 20
		}
		return t.ival.TrailingZeroBits()
	case "lin":
		m := uint(1 << 20)
		if t.ival.Sign() != 0 {
			m = t.ival.TrailingZeroBits()
		}
		for i, a := range t.args {
			z := t.coef[i].TrailingZeroBits() + tzOf(a)
			if z < m {
				m = z
			}
		}
		return m
	case "mod":
		if t.args[1].op == "int" {
			z := t.args[1].ival.TrailingZeroBits()
			if y := tzOf(t.args[0]); y < z {
				return y
			}
			return z
		}
	case "sw":
		z := uint(t.ival.Int64())
		if y := tzOf(t.args[0]); y < z {
			return y
		}
		return z
	case "ite":
		a, b := tzOf(t.args[1]), tzOf(t.args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

// maskAnd computes x & m for a constant non-negative mask as a sum over its runs of ones.
func (x *Exec) maskAnd(t *Term, m *big.Int) *Term {
	if m.Sign() == 0 {
		return x.c.Int(0)
	}
	r := x.c.Int(0)
	n := uint(m.BitLen())
	for i := uint(0); i < n; {
		if m.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(int(j)) == 1 {
			j++
		}
		// bits i..j-1
		p := x.c.Mod(x.c.Div(t, x.c.BigInt(new(big.Int).Lsh(big1, i))), x.c.BigInt(new(big.Int).Lsh(big1, j-i)))
		r = x.c.Add(r, x.c.MulC(p, new(big.Int).Lsh(big1, i)))
		i = j
	}
	return r
}

func (x *Exec) bitAnd(a, b *Term, typ types.Type) *Term {
	if a.op == "int" {
		a, b = b, a
	}
	w, s, _ := intInfo(typ)
	if b.op == "int" {
		m := b.ival
		if m.Sign() >= 0 {
			return x.maskAnd(a, m)
		}
		// negative mask in w-bit two's complement
		m = new(big.Int).Add(m, new(big.Int).Lsh(big1, w))
		r := x.maskAnd(a, m)
		if s {
			return x.c.SWrap(r, w)
		}
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := x.c.App(fmt.Sprintf("bvand%d", w), SInt, a, b)
	lo, hi := typeRange(typ)
	x.c.setRange(t, lo, hi)
	if a.lo != nil && a.lo.Sign() >= 0 {
		x.c.setRange(t, big0, a.hi)
	}
	if b.lo != nil && b.lo.Sign() >= 0 {
		x.c.setRange(t, big0, b.hi)
	}
	return t
}
func (x *Exec) bitOr(a, b *Term, typ types.Type) *Term {
	for k := 0; k < 2; k++ {
		if a.op == "int" && a.ival.Sign() == 0 {
			return b
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 {
			z := tzOf(b)
			if z >= uint(a.hi.BitLen()) {
				return x.c.Add(a, b)
			}
		}
		a, b = b, a
	}
	w, s, _ := intInfo(typ)
	// a | b = a + b - (a & b)
	if a.op == "int" || b.op == "int" {
		r := x.c.Sub(x.c.Add(a, b), x.bitAnd(a, b, typ))
		lo, hi := typeRange(typ)
		if r.op != "int" {
			_ = s
			x.c.setRange(r, lo, hi)
		}
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := x.c.App(fmt.Sprintf("bvor%d", w), SInt, a, b)
	lo, hi := typeRange(typ)
	x.c.setRange(t, lo, hi)
	return t
}
func (x *Exec) bitXor(a, b *Term, typ types.Type) *Term {
	w, s, _ := intInfo(typ)
	if a.op == "int" {
		a, b = b, a
	}
	if a == b {
		return x.c.Int(0)
	}
	if b.op == "int" {
		if b.ival.Sign() == 0 {
			return a
		}
		if s && b.ival.Cmp(big.NewInt(-1)) == 0 {
			return x.c.Sub(x.c.Int(-1), a)
		}
		if _, hi := typeRange(typ); !s && b.ival.Cmp(hi) == 0 {
			return x.c.Sub(b, a)
		}
		// a ^ m = a + m - 2(a & m)
		r := x.c.Sub(x.c.Add(a, b), x.c.MulC(x.bitAnd(a, b, typ), big.NewInt(2)))
		lo, hi := typeRange(typ)
		x.c.setRange(r, lo, hi)
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := x.c.App(fmt.Sprintf("bvxor%d", w), SInt, a, b)
	lo, hi := typeRange(typ)
	x.c.setRange(t, lo, hi)
	return t
}

func (x *Exec) pow2(k *Term) *Term {
	if k.op == "int" && k.ival.Sign() >= 0 && k.ival.Cmp(big.NewInt(4096)) < 0 {
		return x.c.BigInt(new(big.Int).Lsh(big1, uint(k.ival.Int64())))
	}
	if k.lo != nil && k.hi != nil && k.lo.Sign() >= 0 && k.hi.Cmp(big.NewInt(64)) <= 0 {
		r := x.c.BigInt(new(big.Int).Lsh(big1, uint(k.hi.Int64())))
		for i := k.hi.Int64() - 1; i >= k.lo.Int64(); i-- {
			r = x.c.Ite(x.c.Le(k, x.c.Int(i)), x.c.BigInt(new(big.Int).Lsh(big1, uint(i))), r)
		}
		return r
	}
	t := x.c.App("pow2", SInt, k)
	x.c.setRange(t, big1, nil)
	return t
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type) Val {
	switch op {
	case token.EQL:
		return x.eqVal(st, a, b, ta)
	case token.NEQ:
		return x.c.Not(x.eqVal(st, a, b, ta))
	}
	p, q := a.(*Term), b.(*Term)
	if isString(ta) {
		switch op {
		case token.ADD:
			return x.scat(p, q)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			switch op {
			case token.LSS:
				return x.c.App("strlt", SBool, p, q)
			case token.GTR:
				return x.c.App("strlt", SBool, q, p)
			case token.LEQ:
				return x.c.Not(x.c.App("strlt", SBool, q, p))
			}
			return x.c.Not(x.c.App("strlt", SBool, p, q))
		}
	}
	if isFloat(ta) {
		sfx := "64"
		if under(ta).(*types.Basic).Kind() == types.Float32 {
			sfx = "32"
		}
		switch op {
		case token.LSS:
			return x.c.App("flt"+sfx, SBool, p, q)
		case token.GTR:
			return x.c.App("flt"+sfx, SBool, q, p)
		case token.LEQ:
			return x.c.App("fle"+sfx, SBool, p, q)
		case token.GEQ:
			return x.c.App("fle"+sfx, SBool, q, p)
		}
		t := x.c.App("f"+op.String()+sfx, SInt, p, q)
		lo, hi := typeRange(ta)
		x.c.setRange(t, lo, hi)
		return t
	}
	if isBool(ta) {
		switch op {
		case token.AND, token.LAND:
			return x.c.And(p, q)
		case token.OR, token.LOR:
			return x.c.Or(p, q)
		}
	}
	switch op {
	case token.LSS:
		return x.c.Lt(p, q)
	case token.LEQ:
		return x.c.Le(p, q)
	case token.GTR:
		return x.c.Gt(p, q)
	case token.GEQ:
		return x.c.Ge(p, q)
	case token.ADD:
		return x.wrap(x.c.Add(p, q), tr)
	case token.SUB:
		return x.wrap(x.c.Sub(p, q), tr)
	case token.MUL:
		return x.wrap(x.c.Mul(p, q), tr)
	case token.QUO, token.REM:
		x.oblige(st, "safety:div0", "divisor not zero", x.c.Ne(q, x.c.Int(0)))
		quo, rem := x.truncDiv(p, q)
		if op == token.QUO {
			return x.wrap(quo, tr)
		}
		return rem
	case token.AND:
		return x.bitAnd(p, q, tr)
	case token.OR:
		return x.bitOr(p, q, tr)
	case token.XOR:
		return x.bitXor(p, q, tr)
	case token.AND_NOT:
		if q.op == "int" {
			w, s, _ := intInfo(tr)
			full := new(big.Int).Sub(new(big.Int).Lsh(big1, w), big1)
			m := new(big.Int).Set(q.ival)
			if m.Sign() < 0 {
				m.Add(m, new(big.Int).Lsh(big1, w))
			}
			m.Xor(m, full)
			r := x.maskAnd(p, m)
			if s {
				return x.c.SWrap(r, w)
			}
			return r
		}
		return x.c.Sub(p, x.bitAnd(p, q, tr))
	case token.SHL, token.SHR:
		if _, s, _ := intInfo(tb); s {
			x.oblige(st, "safety:shift", "shift count not negative", x.c.Ge(q, x.c.Int(0)))
		}
		w, s, _ := intInfo(tr)
		if q.op == "int" {
			k := q.ival
			if op == token.SHL {
				if k.Cmp(big.NewInt(int64(w))) >= 0 {
					return x.c.Int(0)
				}
				r := x.c.MulC(p, new(big.Int).Lsh(big1, uint(k.Int64())))
				if s {
					return x.c.SWrap(r, w)
				}
				return x.c.UWrap(r, w)
			}
			if k.Cmp(big.NewInt(int64(w))) >= 0 {
				k = big.NewInt(int64(w))
			}
			return x.c.Div(p, x.c.BigInt(new(big.Int).Lsh(big1, uint(k.Int64()))))
		}
		if q.lo == nil || q.hi == nil || q.hi.Cmp(big.NewInt(64)) > 0 {
			t := x.c.App("sh"+map[token.Token]string{token.SHL: "l", token.SHR: "r"}[op]+fmt.Sprint(w, s), SInt, p, q)
			lo, hi := typeRange(tr)
			x.c.setRange(t, lo, hi)
			return t
		}
		if op == token.SHL {
			return x.wrap(x.c.Mul(p, x.pow2(q)), tr)
		}
		// enumerate the shift amounts
		r := x.c.Div(p, x.c.BigInt(new(big.Int).Lsh(big1, uint(q.hi.Int64()))))
		for i := q.hi.Int64() - 1; i >= q.lo.Int64(); i-- {
			r = x.c.Ite(x.c.Eq(q, x.c.Int(i)), x.c.Div(p, x.c.BigInt(new(big.Int).Lsh(big1, uint(i)))), r)
		}
		return r
	}
	return unsup("binop %s on %s", op, ta)
}

func (x *Exec) truncDiv(p, q *Term) (*Term, *Term) {
	var quo *Term
	pos := func(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }
	ppos := pos(p) || !p.qv && x.s.Entails(x.c.Ge(p, x.c.Int(0)), 60000)
	if ppos && pos(q) {
		quo = x.c.Div(p, q)
		if q.op == "int" {
			return quo, x.c.Mod(p, q)
		}
		return quo, x.c.Sub(p, x.c.Mul(q, quo))
	}
	absq := q
	neg := x.c.False()
	if !pos(q) {
		absq = x.c.Ite(x.c.Ge(q, x.c.Int(0)), q, x.c.Neg(q))
		neg = x.c.Lt(q, x.c.Int(0))
	}
	m := x.c.Ite(x.c.Ge(p, x.c.Int(0)), x.c.Div(p, absq), x.c.Neg(x.c.Div(x.c.Neg(p), absq)))
	quo = x.c.Ite(neg, x.c.Neg(m), m)
	return quo, x.c.Sub(p, x.c.Mul(q, quo))
}

func (x *Exec) scat(a, b *Term) *Term {
	la, oka := x.litvals[a]
	lb, okb := x.litvals[b]
	if oka && okb {
		return x.strLit(la + lb)
	}
	if oka && la == "" {
		return b
	}
	if okb && lb == "" {
		return a
	}
	return x.c.App("scat", SStr, a, b)
}

func (x *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		p, q := a.(*Term), b.(*Term)
		if isFloat(t) {
			sfx := "64"
			if u.Kind() == types.Float32 {
				sfx = "32"
			}
			return x.c.App("feq"+sfx, SBool, p, q)
		}
		return x.c.Eq(p, q)
	case *types.Pointer:
		p, q := a.(*VPtr), b.(*VPtr)
		if p.elem || q.elem || len(p.path) > 0 || len(q.path) > 0 {
			for _, z := range []*VPtr{p, q} {
				if !z.elem && len(z.path) == 0 && z.ref.op == "int" && z.ref.ival.Sign() == 0 {
					return x.c.False() // interior pointers are never nil
				}
			}
			pr, qr := x.interiorRef(p), x.interiorRef(q)
			if pr == qr {
				return x.c.True()
			}
			return x.c.Fresh("ptreq", SBool)
		}
		return x.c.Eq(p.ref, q.ref)
	case *types.Map, *types.Chan:
		return x.c.Eq(a.(*Term), b.(*Term))
	case *types.Signature:
		return x.c.Eq(x.funcRef(a.(*VFunc)), x.funcRef(b.(*VFunc)))
	case *types.Slice: // only against nil
		p, q := a.(*VSlice), b.(*VSlice)
		return x.c.Eq(p.arr, q.arr)
	case *types.Interface:
		p, okp := a.(*VIface)
		q, okq := b.(*VIface)
		if !okp || !okq {
			return unsup("mixed interface comparison").(*Term)
		}
		if p.tag.op == "int" && p.tag.ival.Sign() == 0 || q.tag.op == "int" && q.tag.ival.Sign() == 0 {
			return x.c.Eq(p.tag, q.tag)
		}
		exact := false
		for _, z := range []*VIface{p, q} {
			if z.tag.op == "int" {
				if rt := x.typeByID(int(z.tag.ival.Int64())); rt != nil && scalarBox(rt) {
					exact = true
				}
			}
		}
		same := x.c.And(x.c.Eq(p.tag, q.tag), x.c.Eq(p.val, q.val))
		if exact {
			return same
		}
		f := x.c.Fresh("ifeq", SBool)
		x.assume(x.c.Imp(same, f))
		x.assume(x.c.Imp(f, x.c.Eq(p.tag, q.tag)))
		return f
	case *types.Struct:
		p, q := a.(*VStruct), b.(*VStruct)
		var fs []*Term
		for i := range p.f {
			fs = append(fs, x.eqVal(st, p.f[i], q.f[i], u.Field(i).Type()))
		}
		return x.c.And(fs...)
	case *types.Array:
		p, q := a.(*VArr), b.(*VArr)
		var fs []*Term
		if u.Len() > 64 {
			unsup("comparison of a large array")
		}
		for k := range p.leaves {
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, x.c.Eq(x.c.Select(p.leaves[k], x.c.Int(i)), x.c.Select(q.leaves[k], x.c.Int(i))))
			}
		}
		return x.c.And(fs...)
	}
	return unsup("comparison of %s", t).(*Term)
}

func (x *Exec) unop(st *State, i *ssa.UnOp) {
	v := x.val(st, i.X)
	switch i.Op {
	case token.MUL:
		p := v.(*VPtr)
		x.nilCheck(st, p)
		if g, ok := i.X.(*ssa.Global); ok {
			if gv, ok := x.globalVal(st, g); ok {
				x.bind(st, i, gv)
				return
			}
		}
		if ia, ok := i.X.(*ssa.IndexAddr); ok {
			if g, ok := ia.X.(*ssa.Global); ok {
				if t := x.tableAt(g, x.val(st, ia.Index).(*Term)); t != nil {
					x.bind(st, i, t)
					return
				}
			}
		}
		x.bind(st, i, x.load(st, p))
	case token.SUB:
		if isFloat(i.Type()) {
			t := x.c.App("fneg64", SInt, v.(*Term))
			lo, hi := typeRange(i.Type())
			x.c.setRange(t, lo, hi)
			x.bind(st, i, t)
			return
		}
		x.bind(st, i, x.wrap(x.c.Neg(v.(*Term)), i.Type()))
	case token.NOT:
		x.bind(st, i, x.c.Not(v.(*Term)))
	case token.XOR:
		_, s, _ := intInfo(i.Type())
		if s {
			x.bind(st, i, x.c.Sub(x.c.Int(-1), v.(*Term)))
		} else {
			_, hi := typeRange(i.Type())
			x.bind(st, i, x.c.Sub(x.c.BigInt(hi), v.(*Term)))
		}
	default:
		unsup("unop %s", i.Op)
	}
}

func (x *Exec) bytesOf(s *Term) *Term {
	if s.op == "app" && s.name == "strof" {
		// the array shifted to offset 0 is only available when the offset is 0
		if o := s.args[1]; o.op == "int" && o.ival.Sign() == 0 {
			return s.args[0]
		}
	}
	return x.c.App("bytesof", arrOf(SInt), s)
}
func (x *Exec) strOf(mem, off, n *Term) *Term {
	if mem.op == "app" && mem.name == "bytesof" {
		s := mem.args[0]
		if off.op == "int" && off.ival.Sign() == 0 && n == x.slen(s) {
			return s
		}
	}
	if n.op == "int" && n.ival.Sign() == 0 {
		return x.strLit("")
	}
	if n.op == "int" && n.ival.Cmp(big.NewInt(32)) <= 0 && n.ival.Sign() > 0 {
		lit := make([]byte, 0, 32)
		for i := int64(0); i < n.ival.Int64(); i++ {
			e := x.c.Select(mem, x.c.Add(off, x.c.Int(i)))
			if e.op != "int" || !e.ival.IsInt64() || e.ival.Sign() < 0 || e.ival.Int64() > 255 {
				lit = nil
				break
			}
			lit = append(lit, byte(e.ival.Int64()))
		}
		if lit != nil {
			return x.strLit(string(lit))
		}
	}
	return x.c.App("strof", SStr, mem, off, n)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	uf, ut := under(from), under(to)
	if p, ok := v.(*VPtr); ok {
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return p
		}
		if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			q := *p
			q.cast = ut.(*types.Pointer).Elem()
			return &q
		}
	}
	bf, okf := uf.(*types.Basic)
	bt, okt := ut.(*types.Basic)
	if okf && okt {
		_, _, fi := intInfo(from)
		w, s, ti := intInfo(to)
		switch {
		case fi && ti:
			t := v.(*Term)
			lo, hi := typeRange(to)
			if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
				return t
			}
			// wrapping conversions of unsigned bit patterns are meant: only ask the solver for narrowing of plain values
			if x.fits(t, lo, hi) {
				return t
			}
			if s {
				return x.c.SWrap(t, w)
			}
			return x.c.UWrap(t, w)
		case fi && bt.Info()&types.IsFloat != 0:
			if t := v.(*Term); t.op == "int" && bt.Kind() == types.Float64 {
				f, _ := new(big.Float).SetInt(t.ival).Float64()
				return x.constFloat(f)
			}
			t := x.c.App("i2f"+bt.Name(), SInt, v.(*Term))
			lo, hi := typeRange(to)
			return x.c.setRange(t, lo, hi)
		case bf.Info()&types.IsFloat != 0 && ti:
			t := x.c.App("f2i"+bf.Name()+bt.Name(), SInt, v.(*Term))
			lo, hi := typeRange(to)
			return x.c.setRange(t, lo, hi)
		case bf.Info()&types.IsFloat != 0 && bt.Info()&types.IsFloat != 0:
			if bf.Kind() == bt.Kind() {
				return v
			}
			t := x.c.App("f2f"+bf.Name()+bt.Name(), SInt, v.(*Term))
			lo, hi := typeRange(to)
			return x.c.setRange(t, lo, hi)
		case isString(from) && isString(to):
			return v
		case fi && isString(to):
			return x.c.App("runestr", SStr, v.(*Term))
		case bf.Kind() == types.UnsafePointer || bt.Kind() == types.UnsafePointer:
			unsup("unsafe conversion")
		}
	}
	if sl, ok := uf.(*types.Slice); ok && isString(to) {
		s := v.(*VSlice)
		eb, isb := under(sl.Elem()).(*types.Basic)
		if isb && eb.Kind() == types.Uint8 {
			return x.strOf(x.memOf(st, sl.Elem(), s.arr, leavesOf(sl.Elem())[0]), s.off, s.len)
		}
		unsup("string from runes")
	}
	if sl, ok := ut.(*types.Slice); ok && isString(from) {
		eb, isb := under(sl.Elem()).(*types.Basic)
		if isb && eb.Kind() == types.Uint8 {
			return x.sliceFromStr(st, v.(*Term), sl.Elem())
		}
		unsup("runes from string")
	}
	if _, ok := uf.(*types.Slice); ok {
		if _, ok := ut.(*types.Slice); ok {
			return v
		}
	}
	if _, ok := uf.(*types.Pointer); ok {
		if _, ok := ut.(*types.Pointer); ok {
			unsup("pointer conversion")
		}
	}
	return unsup("convert %s to %s", from, to)
}

func (x *Exec) sliceFromStr(st *State, s *Term, el types.Type) *VSlice {
	r := x.newRef(st)
	n := x.slen(s)
	x.setMem(st, el, r, leavesOf(el)[0], x.bytesOf(s))
	cp := x.c.Fresh("cap", SInt)
	x.c.setRange(cp, big0, maxLen)
	x.assume(x.c.Ge(cp, n))
	return &VSlice{r, x.c.Int(0), n, cp}
}

// scalarBox: the interface payload identifies the value exactly (ints, bools, pointers, maps, chans, strings).
func scalarBox(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat == 0
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	case *types.Struct:
		return u.NumFields() == 0
	}
	return false
}

func (x *Exec) makeIface(st *State, v Val, t types.Type) Val {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	tag := x.tid(t)
	switch u := under(t).(type) {
	case *types.Basic:
		p := v.(*Term)
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &VIface{tag, x.c.Ite(p, x.c.Int(1), x.c.Int(0))}
		case u.Info()&types.IsString != 0:
			return &VIface{tag, x.boxStr(p)}
		}
		return &VIface{tag, p}
	case *types.Pointer:
		p := v.(*VPtr)
		if p.elem || len(p.path) > 0 {
			return &VIface{tag, x.interiorRef(p)}
		}
		return &VIface{tag, p.ref}
	case *types.Map, *types.Chan:
		return &VIface{tag, v.(*Term)}
	case *types.Signature:
		return &VIface{tag, x.funcRef(v.(*VFunc))}
	case *types.Struct:
		if u.NumFields() == 0 {
			return &VIface{tag, x.c.Int(0)}
		}
	}
	r := x.newRef(st)
	x.boxStore(st, r, t, v)
	return &VIface{tag, r}
}

// boxed non-scalar values live in their own heaps so that they never alias addressable objects.
func (x *Exec) boxStore(st *State, r *Term, t types.Type, v Val) {
	ts := x.pack(v, t)
	for i, l := range leavesOf(t) {
		n := "box:" + typeKey(t) + l.path
		h := x.heapGet(st, n, arrOf(l.sort))
		st.heap[n] = x.c.Store(h, r, ts[i])
	}
}
func (x *Exec) boxLoad(st *State, r *Term, t types.Type) Val {
	var ts []*Term
	for _, l := range leavesOf(t) {
		n := "box:" + typeKey(t) + l.path
		h := x.heapGet(st, n, arrOf(l.sort))
		e := x.c.Select(h, r)
		x.leafFacts(st, e, l)
		ts = append(ts, e)
	}
	v := x.unpack(ts, t)
	x.typeFacts(st, v, t)
	return v
}
func (x *Exec) boxStr(s *Term) *Term {
	t := x.c.App("boxS", SInt, s)
	x.c.setRange(t, big1, nil)
	return t
}
func (x *Exec) unboxStr(v *Term) *Term {
	if v.op == "app" && v.name == "boxS" {
		return v.args[0]
	}
	return x.c.App("unboxS", SStr, v)
}

// unbox reads the payload of an interface known to hold type t.
func (x *Exec) unbox(st *State, v *VIface, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if v.val.op == "ite" && v.val.args[1].isInt() && v.val.args[2].isInt() {
				return v.val.args[0]
			}
			return x.c.Eq(v.val, x.c.Int(1))
		case u.Info()&types.IsString != 0:
			return x.unboxStr(v.val)
		}
		if lo, hi := typeRange(t); lo != nil && v.val.op != "int" {
			x.assume(x.c.And(x.c.Le(x.c.BigInt(lo), v.val), x.c.Le(v.val, x.c.BigInt(hi))))
		}
		return v.val
	case *types.Pointer:
		if p, ok := x.interior[v.val]; ok {
			return p
		}
		p := &VPtr{ref: v.val, root: u.Elem()}
		x.refFact(st, v.val)
		return p
	case *types.Map, *types.Chan:
		x.refFact(st, v.val)
		return v.val
	case *types.Signature:
		if f, ok := x.funcs[v.val]; ok {
			return f
		}
		return &VFunc{ref: v.val}
	case *types.Struct:
		if u.NumFields() == 0 {
			return &VStruct{}
		}
	}
	return x.boxLoad(st, v.val, t)
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) bool {
	v := x.val(st, i.X).(*VIface)
	var ok *Term
	it, toIface := under(i.AssertedType).(*types.Interface)
	if toIface {
		if v.tag.op == "int" {
			ok = x.c.False()
			if v.tag.ival.Sign() != 0 {
				if rt := x.typeByID(int(v.tag.ival.Int64())); rt != nil {
					ok = x.c.Bool(types.Implements(rt, it))
				} else {
					ok = x.c.Fresh("impl", SBool)
				}
			}
		} else if it.NumMethods() == 0 {
			ok = x.c.Ne(v.tag, x.c.Int(0))
		} else if types.AssignableTo(i.X.Type(), i.AssertedType) {
			ok = x.c.Ne(v.tag, x.c.Int(0))
		} else {
			ok = x.c.And(x.c.Ne(v.tag, x.c.Int(0)), x.c.App("impl:"+typeKey(i.AssertedType), SBool, v.tag))
			for _, id := range x.tids {
				if rt := x.typeByID(id); rt != nil {
					x.assume(x.c.Eq(x.c.App("impl:"+typeKey(i.AssertedType), SBool, x.c.Int(int64(id))), x.c.Bool(types.Implements(rt, it))))
				}
			}
		}
	} else {
		ok = x.c.Eq(v.tag, x.tid(i.AssertedType))
	}
	get := func(s *State) Val {
		if toIface {
			return v
		}
		return x.unbox(s, &VIface{x.tid(i.AssertedType), v.val}, i.AssertedType)
	}
	if !i.CommaOk {
		x.fork(st, ok, func(s *State) {
			x.bind(s, i, get(s))
			x.run(s)
		}, func(s *State) {
			x.doPanic(s, "failed type assertion")
		})
		return true
	}
	x.fork(st, ok, func(s *State) {
		x.bind(s, i, VTuple{get(s), x.c.True()})
		x.run(s)
	}, func(s *State) {
		x.bind(s, i, VTuple{x.zero(i.AssertedType), x.c.False()})
		x.run(s)
	})
	return true
}

// ---------- maps ----------

func mapKeySort(t types.Type) string {
	ls := leavesOf(t)
	if len(ls) != 1 {
		if _, ok := under(t).(*types.Struct); ok && len(ls) > 1 {
			return SInt
		}
	}
	if len(ls) != 1 || ls[0].kind == "arr" {
		unsup("map key type %s", t)
	}
	return ls[0].sort
}
func mapParts(t types.Type) (*types.Map, string) {
	m := under(t).(*types.Map)
	return m, "map:" + typeKey(m.Key()) + ":" + typeKey(m.Elem())
}
func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func (x *Exec) mapDom(st *State, t types.Type) (string, *Term) {
	m, base := mapParts(t)
	n := base + ":dom"
	return n, x.heapGet(st, n, arrOf(arrSort(mapKeySort(m.Key()), SBool)))
}
func (x *Exec) mapLenH(st *State, t types.Type) (string, *Term) {
	_, base := mapParts(t)
	n := base + ":len"
	return n, x.heapGet(st, n, arrOf(SInt))
}
func (x *Exec) mapValH(st *State, t types.Type, l leaf) (string, *Term) {
	m, base := mapParts(t)
	n := base + ":val" + l.path
	return n, x.heapGet(st, n, arrOf(arrSort(mapKeySort(m.Key()), l.sort)))
}
func (x *Exec) mapInit(st *State, r *Term, t types.Type) {
	m, _ := mapParts(t)
	n, h := x.mapDom(st, t)
	st.heap[n] = x.c.Store(h, r, x.c.ConstArr(arrSort(mapKeySort(m.Key()), SBool), x.c.False()))
	n, h = x.mapLenH(st, t)
	st.heap[n] = x.c.Store(h, r, x.c.Int(0))
	for _, l := range leavesOf(m.Elem()) {
		n, h := x.mapValH(st, t, l)
		st.heap[n] = x.c.Store(h, r, x.c.ConstArr(arrSort(mapKeySort(m.Key()), l.sort), x.zeroLeaf(l.sort)))
	}
}

// mapKeyTerm is the key as one term; a struct key is boxed by an injective function of its fields.
func (x *Exec) mapKeyTerm(k Val, t types.Type) *Term {
	ts := x.pack(k, t)
	if len(ts) == 1 {
		return ts[0]
	}
	b := x.c.App("key:"+typeKey(t), SInt, ts...)
	if !b.qv && !x.isAsserted(fmt.Sprint("key", b.id)) {
		x.markAsserted(fmt.Sprint("key", b.id))
		for i, f := range ts {
			x.assume(x.c.Eq(x.c.App(fmt.Sprintf("unkey%d:%s", i, typeKey(t)), f.sort, b), f))
		}
	}
	return b
}
func (x *Exec) mapHas(st *State, m *Term, t types.Type, k *Term) *Term {
	_, h := x.mapDom(st, t)
	return x.c.And(x.c.Ne(m, x.c.Int(0)), x.c.Select(x.c.Select(h, m), k))
}
func (x *Exec) mapGet(st *State, m *Term, t types.Type, k *Term) Val {
	mt, _ := mapParts(t)
	var ts []*Term
	for _, l := range leavesOf(mt.Elem()) {
		_, h := x.mapValH(st, t, l)
		e := x.c.Select(x.c.Select(h, m), k)
		x.leafFacts(st, e, l)
		ts = append(ts, e)
	}
	v := x.unpack(ts, mt.Elem())
	x.typeFacts(st, v, mt.Elem())
	return v
}
func (x *Exec) mapLen(st *State, m *Term, t types.Type) *Term {
	_, h := x.mapLenH(st, t)
	l := x.c.Select(h, m)
	x.c.setRange(l, big0, maxLen)
	return x.c.Ite(x.c.Eq(m, x.c.Int(0)), x.c.Int(0), l)
}
func (x *Exec) mapStore(st *State, m *Term, t types.Type, key, v Val) {
	mt, _ := mapParts(t)
	k := x.mapKeyTerm(key, mt.Key())
	has := x.mapHas(st, m, t, k)
	n, h := x.mapLenH(st, t)
	old := x.c.Select(h, m)
	x.c.setRange(old, big0, maxLen)
	st.heap[n] = x.c.Store(h, m, x.c.Ite(has, old, x.c.Add(old, x.c.Int(1))))
	n, h = x.mapDom(st, t)
	st.heap[n] = x.c.Store(h, m, x.c.Store(x.c.Select(h, m), k, x.c.True()))
	ts := x.pack(v, mt.Elem())
	for i, l := range leavesOf(mt.Elem()) {
		n, h := x.mapValH(st, t, l)
		st.heap[n] = x.c.Store(h, m, x.c.Store(x.c.Select(h, m), k, ts[i]))
	}
}
func (x *Exec) mapDelete(st *State, m *Term, t types.Type, key Val) {
	mt, _ := mapParts(t)
	k := x.mapKeyTerm(key, mt.Key())
	has := x.mapHas(st, m, t, k)
	n, h := x.mapLenH(st, t)
	old := x.c.Select(h, m)
	st.heap[n] = x.c.Store(h, m, x.c.Ite(has, x.c.Sub(old, x.c.Int(1)), old))
	n, h = x.mapDom(st, t)
	st.heap[n] = x.c.Store(h, m, x.c.Store(x.c.Select(h, m), k, x.c.False()))
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) {
	if isString(i.X.Type()) {
		x.bind(st, i, x.index(st, x.val(st, i.X), i.X.Type(), x.val(st, i.Index).(*Term)))
		return
	}
	m := x.val(st, i.X).(*Term)
	mt, _ := mapParts(i.X.Type())
	k := x.mapKeyTerm(x.val(st, i.Index), mt.Key())
	has := x.mapHas(st, m, i.X.Type(), k)
	v := x.mapGet(st, m, i.X.Type(), k)
	zero := x.pack(x.zero(mt.Elem()), mt.Elem())
	ts := x.pack(v, mt.Elem())
	out := make([]*Term, len(ts))
	for j := range ts {
		out[j] = x.c.Ite(has, ts[j], zero[j])
	}
	r := x.unpack(out, mt.Elem())
	if i.CommaOk {
		x.bind(st, i, VTuple{r, has})
	} else {
		x.bind(st, i, r)
	}
}

// ---------- range over maps and strings ----------

type VIter struct {
	ref *Term
	x   Val
	t   types.Type
}

func (x *Exec) rangeInit(st *State, i *ssa.Range) {
	r := x.newRef(st)
	it := &VIter{r, x.val(st, i.X), i.X.Type()}
	if isString(i.X.Type()) {
		h := x.heapGet(st, "iter:pos", arrOf(SInt))
		st.heap["iter:pos"] = x.c.Store(h, r, x.c.Int(0))
	} else {
		mt, _ := mapParts(i.X.Type())
		ks := mapKeySort(mt.Key())
		n := "iter:seen:" + ks
		h := x.heapGet(st, n, arrOf(arrSort(ks, SBool)))
		st.heap[n] = x.c.Store(h, r, x.c.ConstArr(arrSort(ks, SBool), x.c.False()))
	}
	x.bind(st, i, it)
}

func (x *Exec) next(st *State, i *ssa.Next) bool {
	it := x.val(st, i.Iter).(*VIter)
	if i.IsString {
		s := it.x.(*Term)
		h := x.heapGet(st, "iter:pos", arrOf(SInt))
		p := x.c.Select(h, it.ref)
		x.c.setRange(p, big0, maxLen)
		more := x.c.Lt(p, x.slen(s))
		x.fork(st, more, func(s2 *State) {
			b := x.sat(s, p)
			ru := x.c.Fresh("rune", SInt)
			x.c.setRange(ru, big0, big.NewInt(0x10ffff))
			w := x.c.Fresh("width", SInt)
			x.c.setRange(w, big1, big.NewInt(4))
			x.assume(x.c.Imp(x.c.Lt(b, x.c.Int(128)), x.c.And(x.c.Eq(ru, b), x.c.Eq(w, x.c.Int(1)))))
			x.assume(x.c.Imp(x.c.Ge(b, x.c.Int(128)), x.c.And(x.c.Ge(ru, x.c.Int(128)), x.c.Le(x.c.Add(p, w), x.slen(s)))))
			hh := x.heapGet(s2, "iter:pos", arrOf(SInt))
			s2.heap["iter:pos"] = x.c.Store(hh, it.ref, x.c.Add(p, w))
			x.bind(s2, i, VTuple{x.c.True(), p, ru})
			x.run(s2)
		}, func(s2 *State) {
			x.bind(s2, i, VTuple{x.c.False(), x.c.Int(0), x.c.Int(0)})
			x.run(s2)
		})
		return true
	}
	mt, _ := mapParts(it.t)
	m := it.x.(*Term)
	ks := mapKeySort(mt.Key())
	n := "iter:seen:" + ks
	cond := x.c.Fresh("more", SBool)
	x.fork(st, cond, func(s2 *State) {
		h := x.heapGet(s2, n, arrOf(arrSort(ks, SBool)))
		seen := x.c.Select(h, it.ref)
		kv := x.freshVal(s2, "key", mt.Key())
		k := x.mapKeyTerm(kv, mt.Key())
		x.assume(x.mapHas(s2, m, it.t, k))
		x.assume(x.c.Not(x.c.Select(seen, k)))
		s2.heap[n] = x.c.Store(h, it.ref, x.c.Store(seen, k, x.c.True()))
		x.bind(s2, i, VTuple{x.c.True(), kv, x.mapGet(s2, m, it.t, k)})
		x.run(s2)
	}, func(s2 *State) {
		h := x.heapGet(s2, n, arrOf(arrSort(ks, SBool)))
		seen := x.c.Select(h, it.ref)
		q := x.c.QVar("k", ks)
		_, dh := x.mapDom(s2, it.t)
		dom := x.c.Select(dh, m)
		x.assume(x.c.Or(x.c.Eq(m, x.c.Int(0)), x.c.Quant("forall", []*Term{q}, x.c.Imp(x.c.Select(dom, q), x.c.Select(seen, q)), x.c.Select(dom, q), x.c.Select(seen, q))))
		x.bind(s2, i, VTuple{x.c.False(), x.zero(mt.Key()), x.zero(mt.Elem())})
		x.run(s2)
	})
	return true
}
