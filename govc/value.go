package main

import (
	"fmt"
	"go/types"
	"strings"
)

type Value interface{}

type VStruct struct {
	typ types.Type
	f   []Value
}
type VSlice struct {
	elem types.Type
	arr  []*Term // one array per element leaf
	off  *Term
	ln   *Term
	nn   *Term // non-nil
	ref  *Term // live backing store (component "A|elem"), or nil: contents are in arr
}
type VArray struct { // array value
	elem types.Type
	n    int64
	arr  []*Term
}
type VTuple struct{ f []Value }
type VFunc struct {
	fn   interface{} // *ssa.Function
	bind []Value
}
type VAddr struct {
	kind string // "field" "cell" "aelem" "selem" "sub"
	ref  *Term
	key  string     // component key prefix
	typ  types.Type // type of the addressed thing
	idx  *Term
	sl   *VSlice
	par  *VAddr
	fi   int
}
type VIter struct {
	mapRef *Term
	mt     *types.Map
	str    *Term
	id     string
	cv     []*Term
	dom    *Term
	vals   []*Term
	n      *Term
	st     *State
	pos    *Term // string iteration
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// opaque library types: modelled by ghost leaves
var opaqueTypes = map[string][]string{
	"math/big.Float":         {"Real"},
	"time.Time":              {"Int"},
	"bytes.Buffer":           {"Str"},
	"strings.Builder":        {"Str"},
	"bufio.Writer":           {"Ref", "Str"}, // target, pending
	"os.File":                {"Int"},
	"regexp.Regexp":          {"Str"},
	"sync.Mutex":             {"Int"},
	"text/template.Template": {"Int"},
	"encoding/json.Encoder":  {"Ref"},
	"reflect.Value":          {"Iface"},
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func opaqueLeaves(t types.Type) ([]string, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		l, ok := opaqueTypes[typeKey(n)]
		return l, ok
	}
	return nil, false
}

func isStructVal(t types.Type) (*types.Struct, bool) {
	if _, ok := opaqueLeaves(t); ok {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func leafSorts(t types.Type) []string {
	if l, ok := opaqueLeaves(t); ok {
		return l
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []string{"Bool"}
		case u.Info()&types.IsInteger != 0:
			return []string{"Int"}
		case u.Info()&types.IsString != 0:
			return []string{"Str"}
		case u.Info()&types.IsFloat != 0:
			return []string{"Flt"}
		case u.Kind() == types.UnsafePointer:
			return []string{"Ref"}
		case u.Kind() == types.UntypedNil:
			return []string{"Ref"}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []string{"Ref"}
	case *types.Signature:
		return []string{"Int"}
	case *types.Interface:
		return []string{"Iface"}
	case *types.Slice:
		var out []string
		for _, s := range leafSorts(u.Elem()) {
			out = append(out, arrSort("Int", s))
		}
		return append(out, "Int", "Int", "Bool")
	case *types.Array:
		var out []string
		for _, s := range leafSorts(u.Elem()) {
			out = append(out, arrSort("Int", s))
		}
		return out
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leafSorts(u.Field(i).Type())...)
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

func zeroLeaf(sort string) *Term {
	switch sort {
	case "Bool":
		return tFalse
	case "Int":
		return Int(0)
	case "Str":
		return Str("")
	case "Ref":
		return tNull
	case "Iface":
		return tNilI
	case "Real":
		return mk("real", "0.0", "Real")
	case "Flt":
		return Sym("flt!0", "Flt")
	}
	if strings.HasPrefix(sort, "(Array ") {
		_, e := arrParts(sort)
		return ConstArr(sort, zeroLeaf(e))
	}
	panic("zero of " + sort)
}

func zeroValue(t types.Type) Value {
	var ls []*Term
	for _, s := range leafSorts(t) {
		ls = append(ls, zeroLeaf(s))
	}
	return fromLeaves(t, ls)
}

func fromLeaves(t types.Type, ls []*Term) Value {
	v, rest := takeLeaves(t, ls)
	if len(rest) != 0 {
		panic("fromLeaves: leftover for " + t.String())
	}
	return v
}

func takeLeaves(t types.Type, ls []*Term) (Value, []*Term) {
	if l, ok := opaqueLeaves(t); ok {
		if len(l) == 1 {
			return ls[0], ls[1:]
		}
		v := &VTuple{}
		for i := range l {
			v.f = append(v.f, ls[i])
		}
		return v, ls[len(l):]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		n := len(leafSorts(u.Elem()))
		return &VSlice{elem: u.Elem(), arr: ls[:n:n], off: ls[n], ln: ls[n+1], nn: ls[n+2]}, ls[n+3:]
	case *types.Array:
		n := len(leafSorts(u.Elem()))
		return &VArray{elem: u.Elem(), n: u.Len(), arr: ls[:n:n]}, ls[n:]
	case *types.Struct:
		v := &VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ls = takeLeaves(u.Field(i).Type(), ls)
			v.f = append(v.f, f)
		}
		return v, ls
	}
	return ls[0], ls[1:]
}

func (x *Exec) leaves(v Value, st *State) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *VSlice:
		v = x.snapshot(v, st)
		out := append([]*Term{}, v.arr...)
		return append(out, v.off, v.ln, v.nn)
	case *VArray:
		return v.arr
	case *VStruct:
		var out []*Term
		for _, f := range v.f {
			out = append(out, x.leaves(f, st)...)
		}
		return out
	case *VTuple:
		var out []*Term
		for _, f := range v.f {
			out = append(out, x.leaves(f, st)...)
		}
		return out
	case *VAddr:
		return []*Term{x.addrRef(v)}
	case *VFunc:
		unsup("function value stored or merged")
	case *VIter:
		unsup("iterator stored")
	}
	panic(fmt.Sprintf("leaves of %T", v))
}

// snapshot turns a live slice into a value slice
func (x *Exec) snapshot(v *VSlice, st *State) *VSlice {
	if v.ref == nil {
		return v
	}
	n := &VSlice{elem: v.elem, off: v.off, ln: v.ln, nn: v.nn}
	for i, s := range leafSorts(v.elem) {
		c := x.comp(st, fmt.Sprintf("A|%s|%d", typeKey(v.elem), i), arrSort("Ref", arrSort("Int", s)))
		n.arr = append(n.arr, Select(c, v.ref))
	}
	return n
}

func (x *Exec) substValue(v Value, m map[*Term]*Term, memo map[*Term]*Term) Value {
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return subst(t, m, memo)
	}
	subs := func(ts []*Term) []*Term {
		out := make([]*Term, len(ts))
		for i, t := range ts {
			out[i] = sub(t)
		}
		return out
	}
	switch v := v.(type) {
	case nil:
		return nil
	case *Term:
		return sub(v)
	case *VSlice:
		return &VSlice{elem: v.elem, arr: subs(v.arr), off: sub(v.off), ln: sub(v.ln), nn: sub(v.nn), ref: sub(v.ref)}
	case *VArray:
		return &VArray{elem: v.elem, n: v.n, arr: subs(v.arr)}
	case *VStruct:
		n := &VStruct{typ: v.typ}
		for _, f := range v.f {
			n.f = append(n.f, x.substValue(f, m, memo))
		}
		return n
	case *VTuple:
		n := &VTuple{}
		for _, f := range v.f {
			n.f = append(n.f, x.substValue(f, m, memo))
		}
		return n
	case *VFunc:
		n := &VFunc{fn: v.fn}
		for _, f := range v.bind {
			n.bind = append(n.bind, x.substValue(f, m, memo))
		}
		return n
	case *VAddr:
		n := *v
		n.ref = sub(v.ref)
		n.idx = sub(v.idx)
		if v.sl != nil {
			n.sl = x.substValue(v.sl, m, memo).(*VSlice)
		}
		if v.par != nil {
			n.par = x.substValue(v.par, m, memo).(*VAddr)
		}
		return &n
	case *VIter:
		n := *v
		n.mapRef, n.str, n.dom, n.n, n.pos = sub(v.mapRef), sub(v.str), sub(v.dom), sub(v.n), sub(v.pos)
		n.vals = subs(v.vals)
		n.cv = subs(v.cv)
		return &n
	}
	panic(fmt.Sprintf("subst %T", v))
}
