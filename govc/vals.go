package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val interface{}

type VSlice struct{ arr, off, len, cap *Term }
type VIface struct{ tag, val *Term }
type VStruct struct{ f []Val }
type VArr struct{ leaves []*Term } // array value: leaf terms of sort (Array Int X)
type VTuple []Val
type VFunc struct {
	fn   *ssa.Function
	bind []Val
	ref  *Term // identity (0 = nil); for unknown functions fn == nil
	key  string
}

// VPtr: pointer. Either a whole object (path empty, idx nil) or an interior location.
type VPtr struct {
	ref  *Term      // object reference, or backing array reference when elem
	root types.Type // type of the root object (or element type when elem)
	elem bool       // points into a backing array at index idx
	idx  *Term
	path []pstep
	cast types.Type // reinterpretation through unsafe.Pointer
}
type pstep struct {
	field int   // struct field index, or -1 for an array index step
	idx   *Term // array index step
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return "unsupported: " + u.msg }
func unsup(f string, a ...any) Val  { panic(Unsupported{fmt.Sprintf(f, a...)}) }

type leaf struct {
	path string
	sort string
	typ  types.Type // basic type for ranges (nil if none)
	kind string     // "int","bool","str","ref","len","off","cap","tag","ival","arr"
}

var leafCache sync.Map

var typeKeyCache sync.Map
var reByte = regexp.MustCompile(`\b(byte|rune|any)\b`)

// typeKey names a type; aliases of basic types are normalised.
func typeKey(t types.Type) string {
	if k, ok := typeKeyCache.Load(t); ok {
		return k.(string)
	}
	k := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
	k = reByte.ReplaceAllStringFunc(k, func(m string) string {
		switch m {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
	k = strings.ReplaceAll(k, "interface {}", "interface{}")
	typeKeyCache.Store(t, k)
	return k
}

func under(t types.Type) types.Type { return t.Underlying() }

func leavesOf(t types.Type) []leaf {
	k := typeKey(t)
	if l, ok := leafCache.Load(k); ok {
		return l.([]leaf)
	}
	var out []leaf
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			out = []leaf{{"", SBool, u, "bool"}}
		case u.Info()&types.IsString != 0:
			out = []leaf{{"", SStr, u, "str"}}
		case u.Info()&types.IsInteger != 0:
			out = []leaf{{"", SInt, u, "int"}}
		case u.Info()&types.IsFloat != 0:
			out = []leaf{{"", SInt, u, "float"}}
		case u.Kind() == types.UnsafePointer:
			out = []leaf{{"", SInt, nil, "ref"}}
		default:
			unsup("basic type %s", t)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		out = []leaf{{"", SInt, t, "ref"}}
	case *types.Slice:
		out = []leaf{{".arr", SInt, nil, "ref"}, {".off", SInt, nil, "off"}, {".len", SInt, nil, "len"}, {".cap", SInt, nil, "cap"}}
	case *types.Interface:
		out = []leaf{{".tag", SInt, nil, "tag"}, {".val", SInt, nil, "ival"}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				l.path = "." + u.Field(i).Name() + l.path
				out = append(out, l)
			}
		}
	case *types.Array:
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, arrOf(l.sort), l.typ, "arr"})
		}
	case *types.Tuple:
		unsup("leaves of tuple")
	default:
		unsup("leaves of %T %s", u, t)
	}
	leafCache.Store(k, out)
	return out
}

func intInfo(t types.Type) (w uint, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int64, types.Int:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	case types.UntypedInt, types.UntypedRune:
		return 64, true, true
	}
	return 0, false, false
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		w := uint(64)
		if b.Kind() == types.Float32 {
			w = 32
		}
		return big0, new(big.Int).Sub(new(big.Int).Lsh(big1, w), big1)
	}
	w, s, ok := intInfo(t)
	if !ok {
		return nil, nil
	}
	if s {
		h := new(big.Int).Lsh(big1, w-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big1)
	}
	return big0, new(big.Int).Sub(new(big.Int).Lsh(big1, w), big1)
}

var maxLen = new(big.Int).Lsh(big1, 48)

func isArr(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }

// pack flattens a value of type t to its leaf terms.
func (x *Exec) pack(v Val, t types.Type) []*Term {
	switch u := under(t).(type) {
	case *types.Basic:
		return []*Term{v.(*Term)}
	case *types.Pointer:
		p, ok := v.(*VPtr)
		if !ok {
			unsup("pack pointer %T", v)
		}
		if p.cast != nil {
			unsup("unsafe pointer stored")
		}
		if p.elem || len(p.path) > 0 {
			return []*Term{x.interiorRef(p)}
		}
		return []*Term{p.ref}
	case *types.Map, *types.Chan:
		return []*Term{v.(*Term)}
	case *types.Signature:
		return []*Term{x.funcRef(v.(*VFunc))}
	case *types.Slice:
		s := v.(*VSlice)
		return []*Term{s.arr, s.off, s.len, s.cap}
	case *types.Interface:
		i := v.(*VIface)
		return []*Term{i.tag, i.val}
	case *types.Struct:
		s := v.(*VStruct)
		var out []*Term
		for i := range s.f {
			out = append(out, x.pack(s.f[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		return v.(*VArr).leaves
	}
	unsup("pack %s", t)
	return nil
}

// unpack builds a value of type t from leaf terms.
func (x *Exec) unpack(ts []*Term, t types.Type) Val {
	v, rest := x.unpackN(ts, t)
	if len(rest) != 0 {
		panic("unpack leftover " + typeKey(t))
	}
	return v
}
func (x *Exec) unpackN(ts []*Term, t types.Type) (Val, []*Term) {
	switch u := under(t).(type) {
	case *types.Basic:
		return ts[0], ts[1:]
	case *types.Pointer:
		if p, ok := x.interior[ts[0]]; ok {
			return p, ts[1:]
		}
		return &VPtr{ref: ts[0], root: u.Elem()}, ts[1:]
	case *types.Map, *types.Chan:
		return ts[0], ts[1:]
	case *types.Signature:
		if f, ok := x.funcs[ts[0]]; ok {
			return f, ts[1:]
		}
		return &VFunc{ref: ts[0]}, ts[1:]
	case *types.Slice:
		return &VSlice{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return &VIface{ts[0], ts[1]}, ts[2:]
	case *types.Struct:
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = x.unpackN(ts, u.Field(i).Type())
			s.f = append(s.f, f)
		}
		return s, ts
	case *types.Array:
		n := len(leavesOf(t))
		return &VArr{ts[:n:n]}, ts[n:]
	}
	unsup("unpack %s", t)
	return nil, nil
}

// zero value of a type
func (x *Exec) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, x.zeroLeaf(l.sort))
	}
	return x.unpack(ts, t)
}
func (x *Exec) zeroLeaf(s string) *Term {
	switch {
	case s == SInt:
		return x.c.Int(0)
	case s == SBool:
		return x.c.False()
	case s == SStr:
		return x.strLit("")
	case strings.HasPrefix(s, "(Array"):
		return x.c.ConstArr(s, x.zeroLeaf(elemSort(s)))
	}
	panic("zeroLeaf " + s)
}

func (x *Exec) strLit(s string) *Term {
	if t, ok := x.c.strlits[s]; ok {
		return t
	}
	t := x.c.Var(fmt.Sprintf("lit$%d", len(x.c.strlits)), SStr)
	x.c.strlits[s] = t
	x.litvals[t] = s
	x.c.litOf[t] = s
	return t
}

// litFacts returns the defining facts of the string literals occurring in t that are not yet asserted.
func (x *Exec) litFacts(t *Term) []*Term {
	vs := map[*Term]bool{}
	t.vars(vs, map[int]bool{})
	var out []*Term
	for v := range vs {
		s, ok := x.litvals[v]
		if !ok || x.litDone[v] {
			continue
		}
		out = append(out, x.litFact(v, s))
	}
	return out
}
func (x *Exec) litFact(v *Term, s string) *Term {
	fs := []*Term{x.c.Eq(x.slen(v), x.c.Int(int64(len(s))))}
	for i := 0; i < len(s) && i < 64; i++ {
		fs = append(fs, x.c.Eq(x.c.App("sat", SInt, v, x.c.Int(int64(i))), x.c.Int(int64(s[i]))))
	}
	return x.c.And(fs...)
}

func (x *Exec) slen(s *Term) *Term {
	if v, ok := x.litvals[s]; ok {
		return x.c.Int(int64(len(v)))
	}
	if s.op == "ite" {
		return x.c.Ite(s.args[0], x.slen(s.args[1]), x.slen(s.args[2]))
	}
	if s.op == "app" {
		switch s.name {
		case "scat":
			return x.c.Add(x.slen(s.args[0]), x.slen(s.args[1]))
		}
	}
	t := x.c.App("slen", SInt, s)
	if s.op == "app" && (s.name == "strof" || s.name == "ssub") {
		return t // as long as its arguments say
	}
	x.c.setRange(t, big0, maxLen)
	return t
}
func (x *Exec) sat(s, i *Term) *Term {
	if v, ok := x.litvals[s]; ok && i.op == "int" && i.ival.Sign() >= 0 && i.ival.Cmp(big.NewInt(int64(len(v)))) < 0 {
		return x.c.Int(int64(v[i.ival.Int64()]))
	}
	if s.op == "ite" {
		return x.c.Ite(s.args[0], x.sat(s.args[1], i), x.sat(s.args[2], i))
	}
	t := x.c.App("sat", SInt, s, i)
	x.c.setRange(t, big0, big.NewInt(255))
	if v, ok := x.litvals[s]; ok && !i.qv && len(v) > 1 && len(v) <= 1024 {
		if r := x.litAt(v, i); r != nil {
			return x.c.Ite(x.c.And(x.c.Le(x.c.Int(0), i), x.c.Lt(i, x.c.Int(int64(len(v))))), r, t)
		}
	}
	return t
}

// litAt is byte i of the literal v by cases, when v consists of few runs of equal or of consecutive bytes.
func (x *Exec) litAt(v string, i *Term) *Term {
	var r *Term
	runs := 0
	for hi := len(v); hi > 0; {
		lo := hi - 1
		step := 0
		if lo > 0 {
			step = int(v[lo]) - int(v[lo-1])
		}
		if step != 0 && step != 1 {
			step = 0
		}
		for lo > 0 && int(v[lo])-int(v[lo-1]) == step {
			lo--
		}
		val := x.c.Int(int64(v[lo]))
		if step == 1 {
			val = x.c.Add(i, x.c.Int(int64(v[lo])-int64(lo)))
		}
		if r == nil {
			r = val
		} else {
			r = x.c.Ite(x.c.Lt(i, x.c.Int(int64(hi))), val, r)
		}
		hi = lo
		if runs++; runs > 8 {
			return nil
		}
	}
	return r
}
