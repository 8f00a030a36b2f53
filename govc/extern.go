package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type externFn func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term)

var externModels map[string]externFn

func pureFn(f func(x *Exec, a []*Term) Value) externFn {
	return func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
		var ts []*Term
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				unsup("argument of %s", fn)
			}
			ts = append(ts, t)
		}
		return f(x, ts), st, cond
	}
}

func hasPrefix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return BoolT(strings.HasPrefix(s.name, p.name))
	}
	if p.op == "str" && s.op == "concat" && s.args[0].op == "str" && len(s.args[0].name) >= len(p.name) {
		return BoolT(strings.HasPrefix(s.args[0].name, p.name))
	}
	return And(Le(SLen(p), SLen(s)), Eq(SubStr(s, Int(0), SLen(p)), p))
}
func hasSuffix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return BoolT(strings.HasSuffix(s.name, p.name))
	}
	return And(Le(SLen(p), SLen(s)), Eq(SubStr(s, Sub(SLen(s), SLen(p)), SLen(s)), p))
}

func mkErr(msg *Term) *Term { return ICon(errIcon, msg) }

// sindexFacts: the basic laws of strings.Index
func sindexT(x *Exec, s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return Int(int64(strings.Index(s.name, p.name)))
	}
	i := mk("sindex", "", "Int", s, p)
	x.addFact(And(Le(Int(-1), i), Implies(Le(Int(0), i), And(Le(Add(i, SLen(p)), SLen(s)), Eq(SubStr(s, i, Add(i, SLen(p))), p)))))
	if p.op == "str" && len(p.name) == 1 {
		x.symSeq++
		j := Var(fmt.Sprintf("j!%d", x.symSeq), "Int")
		at := SAt(s, j)
		x.addFact(Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, SLen(s)), Or(Lt(i, Int(0)), Lt(j, i))), Not(Eq(at, Int(int64(p.name[0]))))), []*Term{at}))
		x.addFact(Implies(Le(Int(0), i), Eq(SAt(s, i), Int(int64(p.name[0])))))
	}
	return i
}

func init() {
	externModels = map[string]externFn{
		"strings.HasPrefix": pureFn(func(x *Exec, a []*Term) Value { return hasPrefix(a[0], a[1]) }),
		"strings.HasSuffix": pureFn(func(x *Exec, a []*Term) Value { return hasSuffix(a[0], a[1]) }),
		"strings.TrimPrefix": pureFn(func(x *Exec, a []*Term) Value {
			return Ite(hasPrefix(a[0], a[1]), SubStr(a[0], SLen(a[1]), SLen(a[0])), a[0])
		}),
		"strings.TrimSuffix": pureFn(func(x *Exec, a []*Term) Value {
			return Ite(hasSuffix(a[0], a[1]), SubStr(a[0], Int(0), Sub(SLen(a[0]), SLen(a[1]))), a[0])
		}),
		"strings.Index": pureFn(func(x *Exec, a []*Term) Value { return sindexT(x, a[0], a[1]) }),
		"strings.IndexByte": pureFn(func(x *Exec, a []*Term) Value {
			if n, ok := a[1].intVal(); ok {
				return sindexT(x, a[0], Str(string([]byte{byte(n.Int64())})))
			}
			return App("sindexByte", "Int", a[0], a[1])
		}),
		"strings.Contains": pureFn(func(x *Exec, a []*Term) Value { return Le(Int(0), sindexT(x, a[0], a[1])) }),
		"strings.ToUpper": pureFn(func(x *Exec, a []*Term) Value {
			if a[0].op == "str" {
				return Str(strings.ToUpper(a[0].name))
			}
			for c := byte('a'); c <= 'z'; c++ {
				x.addFact(Eq(App("toUpper", "Str", Str(string([]byte{c}))), Str(string([]byte{c - 32}))))
			}
			return App("toUpper", "Str", a[0])
		}),
		"strings.ToLower": pureFn(func(x *Exec, a []*Term) Value {
			if a[0].op == "str" {
				return Str(strings.ToLower(a[0].name))
			}
			for c := byte('A'); c <= 'Z'; c++ {
				x.addFact(Eq(App("toLower", "Str", Str(string([]byte{c}))), Str(string([]byte{c + 32}))))
			}
			return App("toLower", "Str", a[0])
		}),
		"strings.Split": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			s, sep := args[0].(*Term), args[1].(*Term)
			oldSyms["splitArr"] = true
			nonNegSyms["splitLen"] = true
			n := App("splitLen", "Int", s, sep)
			if sep.op == "str" && sep.name != "" {
				x.addFact(Le(Int(1), n))
				// no separator: one piece, the text itself
				i := sindexT(x, s, sep)
				x.addFact(Implies(Lt(i, Int(0)), And(Eq(n, Int(1)), Eq(Select(App("splitArr", "(Array Int Str)", s, sep), Int(0)), s))))
			}
			return &VSlice{elem: types.Typ[types.String], arr: []*Term{App("splitArr", "(Array Int Str)", s, sep)}, off: Int(0), ln: n, nn: tTrue}, st, cond
		},
		"strings.Join": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			sl := x.snapshot(args[0].(*VSlice), st)
			sep := args[1].(*Term)
			if n, ok := sl.ln.intVal(); ok && n.Int64() <= 16 {
				var ps []*Term
				for i := int64(0); i < n.Int64(); i++ {
					if i > 0 {
						ps = append(ps, sep)
					}
					ps = append(ps, Select(sl.arr[0], Add(sl.off, Int(i))))
				}
				return Concat(ps...), st, cond
			}
			r := App("joinStr", "Str", sl.arr[0], sl.off, sl.ln, sep)
			x.addFact(Implies(Eq(sl.ln, Int(0)), Eq(r, Str(""))))
			x.addFact(Implies(Eq(sl.ln, Int(1)), Eq(r, Select(sl.arr[0], sl.off))))
			return r, st, cond
		},
		"strconv.Itoa": pureFn(func(x *Exec, a []*Term) Value { return itoa(a[0]) }),
		"errors.New":   pureFn(func(x *Exec, a []*Term) Value { return mkErr(a[0]) }),
		"fmt.Errorf": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			return mkErr(x.sprintf(args, st)), st, cond
		},
		"fmt.Sprintf": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			return x.sprintf(args, st), st, cond
		},
		"fmt.Sprint": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			sl := x.snapshot(args[0].(*VSlice), st)
			if n, ok := sl.ln.intVal(); ok && n.Int64() == 1 {
				return x.fmtV(Select(sl.arr[0], sl.off), 'v'), st, cond
			}
			return x.fresh("sprint", "Str"), st, cond
		},
		"fmt.Println": noEffect, "fmt.Printf": noEffect, "fmt.Print": noEffect, "fmt.Fprintln": noEffect, "fmt.Fprintf": noEffect,
		"log.Printf": noEffect, "log.Println": noEffect,
		"math/big.NewFloat": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			r := x.newRef()
			st = st.copy()
			x.storeRef(st, bigFloatType(fn), r, realOfFlt(args[0].(*Term)))
			return r, st, cond
		},
		"(*math/big.Float).Cmp": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			a, b := args[0].(*Term), args[1].(*Term)
			cond = x.nonNil(a, cond, pos)
			cond = x.nonNil(b, cond, pos)
			t := bigFloatType(fn)
			p, q := x.loadRef(st, t, a).(*Term), x.loadRef(st, t, b).(*Term)
			return Ite(mk("r<", "", "Bool", p, q), Int(-1), Ite(Eq(p, q), Int(0), Int(1))), st, cond
		},
		"(*math/big.Float).Float64": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			cond = x.nonNil(args[0], cond, pos)
			p := x.loadRef(st, recvElem(fn), args[0].(*Term)).(*Term)
			return &VTuple{f: []Value{App("fltOfReal", "Flt", p), App("fltAcc", "Int", p)}}, st, cond
		},
		"(*math/big.Float).Text": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			cond = x.nonNil(args[0], cond, pos)
			p := x.loadRef(st, recvElem(fn), args[0].(*Term)).(*Term)
			return App("bigText", "Str", p, args[1].(*Term), args[2].(*Term)), st, cond
		},
		"(*math/big.Float).IsInf": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			cond = x.nonNil(args[0], cond, pos)
			p := x.loadRef(st, recvElem(fn), args[0].(*Term)).(*Term)
			var inf func(p *Term) *Term
			inf = func(p *Term) *Term {
				switch p.op {
				case "to_real":
					return tFalse
				case "ite":
					return Ite(p.args[0], inf(p.args[1]), inf(p.args[2]))
				}
				return App("isInfReal", "Bool", p)
			}
			return inf(p), st, cond
		},
		"unicode/utf8.DecodeRuneInString": pureFn(func(x *Exec, a []*Term) Value {
			s := a[0]
			if s.op == "str" {
				r, n := utf8.DecodeRuneInString(s.name)
				return &VTuple{f: []Value{Int(int64(r)), Int(int64(n))}}
			}
			wd := App("utf8width", "Int", s, Int(0))
			rn := App("utf8rune", "Int", s, Int(0))
			empty := Eq(s, Str(""))
			x.addFact(Or(empty, And(Le(Int(1), wd), Le(wd, Int(4)), Le(wd, SLen(s)))))
			return &VTuple{f: []Value{Ite(empty, Int(0xfffd), rn), Ite(empty, Int(0), wd)}}
		}),
		"math/big.ParseFloat": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			s := args[0].(*Term)
			r := x.newRef()
			st = st.copy()
			ok := App("isDecimalText", "Bool", s)
			val := App("realOfText", "Real", s)
			if s.op == "app" && s.name == "itoa" {
				// the decimal text of an integer parses to that integer (250-bit precision)
				ok = tTrue
				val = mk("to_real", "", "Real", s.args[0])
			} else if s.op == "str" {
				var n int64
				if _, err := fmt.Sscanf(s.name, "%d", &n); err == nil && fmt.Sprint(n) == s.name {
					ok = tTrue
					val = mk("to_real", "", "Real", Int(n))
				}
			}
			x.storeRef(st, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), r, val)
			return &VTuple{f: []Value{Ite(ok, r, tNull), Int(10), Ite(ok, tNilI, mkErr(App("parseFloatErr", "Str", s)))}}, st, cond
		},
		"regexp.Compile": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			s := args[0].(*Term)
			r := x.newRef()
			st = st.copy()
			x.storeRef(st, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), r, s)
			ok := isRegexp(s)
			return &VTuple{f: []Value{Ite(ok, r, tNull), Ite(ok, tNilI, mkErr(App("regexpErr", "Str", s)))}}, st, cond
		},
		"(*regexp.Regexp).MatchString": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			a := args[0].(*Term)
			cond = x.nonNil(a, cond, pos)
			p := x.loadRef(st, fn.Signature.Recv().Type().(*types.Pointer).Elem(), a).(*Term)
			return App("regexpMatch", "Bool", p, args[1].(*Term)), st, cond
		},
		"regexp.MustCompile": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			s := args[0].(*Term)
			if isRegexp(s) != tTrue {
				unsup("regexp.MustCompile of a computed or invalid pattern")
			}
			r := x.newRef()
			st = st.copy()
			x.storeRef(st, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), r, s)
			return r, st, cond
		},
		"(*regexp.Regexp).ReplaceAllString": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			a := args[0].(*Term)
			cond = x.nonNil(a, cond, pos)
			p := x.loadRef(st, fn.Signature.Recv().Type().(*types.Pointer).Elem(), a).(*Term)
			return App("regexpReplace", "Str", p, args[1].(*Term), args[2].(*Term)), st, cond
		},
		"regexp.MatchString": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			p, s := args[0].(*Term), args[1].(*Term)
			ok := isRegexp(p)
			return &VTuple{f: []Value{And(ok, App("regexpMatch", "Bool", p, s)), Ite(ok, tNilI, mkErr(App("regexpErr", "Str", p)))}}, st, cond
		},
		// string builders
		"(*bytes.Buffer).WriteString":    bufWrite,
		"(*strings.Builder).WriteString": bufWrite,
		"(*bytes.Buffer).WriteByte":      bufWriteByte,
		"(*strings.Builder).WriteByte":   bufWriteByte,
		"(*bytes.Buffer).WriteRune":      bufWriteRune,
		"(*strings.Builder).WriteRune":   bufWriteRune,
		"(*bytes.Buffer).String":         bufString,
		"(*strings.Builder).String":      bufString,
		"(*bytes.Buffer).Len":            bufLen,
		"(*strings.Builder).Len":         bufLen,
		"(*bytes.Buffer).Reset": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			r := args[0].(*Term)
			cond = x.nonNil(r, cond, pos)
			st = st.copy()
			x.storeRef(st, recvElem(fn), r, Str(""))
			return nil, st, cond
		},
		"bufio.NewWriter": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			w := args[0].(*Term)
			r := x.newRef()
			st = st.copy()
			if w.op != "icon" || len(w.args) != 1 || w.args[0].sort != "Ref" {
				unsup("bufio.NewWriter on unknown writer")
			}
			x.noteWriter(w)
			x.storeRef(st, fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), r, &VTuple{f: []Value{w.args[0], Str("")}})
			return r, st, cond
		},
		"(*bufio.Writer).WriteString": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			r := args[0].(*Term)
			cond = x.nonNil(r, cond, pos)
			st = st.copy()
			t := recvElem(fn)
			v := x.loadRef(st, t, r).(*VTuple)
			// the target is an in-memory buffer (writes never fail); pending text is only observable after Flush
			x.storeRef(st, t, r, &VTuple{f: []Value{v.f[0], Concat(v.f[1].(*Term), args[1].(*Term))}})
			return &VTuple{f: []Value{SLen(args[1].(*Term)), tNilI}}, st, cond
		},
		"(*bufio.Writer).Flush": func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
			r := args[0].(*Term)
			cond = x.nonNil(r, cond, pos)
			st = st.copy()
			t := recvElem(fn)
			v := x.loadRef(st, t, r).(*VTuple)
			bt := x.eng.bytesBuffer
			if bt == nil {
				unsup("bytes.Buffer not loaded")
			}
			tgt := v.f[0].(*Term)
			old := x.loadRef(st, bt, tgt).(*Term)
			x.storeRef(st, bt, tgt, Concat(old, v.f[1].(*Term)))
			x.storeRef(st, t, r, &VTuple{f: []Value{tgt, Str("")}})
			return tNilI, st, cond
		},
	}
}

// ufExtern: a deterministic, effect-free library function about which nothing else is assumed
func ufExtern(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	var as []*Term
	for _, a := range args {
		switch v := a.(type) {
		case *Term:
			if v.sort == "Ref" {
				unsup("reference argument of %s", fn)
			}
			as = append(as, v)
		case *VSlice:
			v = x.snapshot(v, st)
			as = append(as, v.arr...)
			as = append(as, v.off, v.ln)
		default:
			unsup("argument of %s", fn)
		}
	}
	rs := fn.Signature.Results()
	if v := foldLib(fn.String(), as); v != nil && rs.Len() == 1 {
		return v, st, cond
	}
	var vals []Value
	name := "lib!" + fn.String()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isErrorType(t) {
			vals = append(vals, Ite(App(name+"!ok", "Bool", as...), tNilI, mkErr(App(name+"!err", "Str", as...))))
			continue
		}
		roles := leafRoles(t)
		var ls []*Term
		for k, so := range leafSorts(t) {
			n := fmt.Sprintf("%s!%d!%d", name, i, k)
			switch {
			case roles[k] == "#off":
				ls = append(ls, Int(0))
				continue
			case roles[k] == "#len":
				nonNegSyms[n] = true
			}
			oldSyms[n] = true
			ls = append(ls, App(n, so, as...))
		}
		v := fromLeaves(t, ls)
		fixNN(v)
		vals = append(vals, v)
	}
	if len(vals) == 1 {
		return vals[0], st, cond
	}
	return &VTuple{f: vals}, st, cond
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// foldLib: the library's own result on literal arguments
func foldLib(name string, as []*Term) *Term {
	var ss []string
	for _, a := range as {
		if a.op == "str" {
			ss = append(ss, a.name)
			continue
		}
		if n, ok := a.intVal(); ok && n.IsInt64() {
			ss = append(ss, n.String())
			continue
		}
		return nil
	}
	num := func(i int) int { n, _ := strconv.Atoi(ss[i]); return n }
	switch name {
	case "strings.LastIndex":
		return Int(int64(strings.LastIndex(ss[0], ss[1])))
	case "strings.LastIndexByte":
		return Int(int64(strings.LastIndexByte(ss[0], byte(num(1)))))
	case "strings.Replace":
		return Str(strings.Replace(ss[0], ss[1], ss[2], num(3)))
	case "strings.TrimSpace":
		return Str(strings.TrimSpace(ss[0]))
	case "strings.Trim":
		return Str(strings.Trim(ss[0], ss[1]))
	case "strings.TrimLeft":
		return Str(strings.TrimLeft(ss[0], ss[1]))
	case "strings.TrimRight":
		return Str(strings.TrimRight(ss[0], ss[1]))
	case "strings.Count":
		return Int(int64(strings.Count(ss[0], ss[1])))
	case "strings.EqualFold":
		return BoolT(strings.EqualFold(ss[0], ss[1]))
	case "strings.ContainsAny":
		return BoolT(strings.ContainsAny(ss[0], ss[1]))
	case "strings.IndexAny":
		return Int(int64(strings.IndexAny(ss[0], ss[1])))
	case "strings.Repeat":
		if n := num(1); n >= 0 && n < 1000 {
			return Str(strings.Repeat(ss[0], n))
		}
	case "unicode.IsLetter":
		return BoolT(unicode.IsLetter(rune(num(0))))
	case "unicode.IsDigit":
		return BoolT(unicode.IsDigit(rune(num(0))))
	case "unicode.IsUpper":
		return BoolT(unicode.IsUpper(rune(num(0))))
	case "unicode.IsLower":
		return BoolT(unicode.IsLower(rune(num(0))))
	case "unicode.IsSpace":
		return BoolT(unicode.IsSpace(rune(num(0))))
	case "unicode.ToUpper":
		return Int(int64(unicode.ToUpper(rune(num(0)))))
	case "unicode.ToLower":
		return Int(int64(unicode.ToLower(rune(num(0)))))
	}
	return nil
}

func init() {
	uf := func(name string, fn *ssa.Function, x *Exec, so string, a ...*Term) *Term {
		if v := foldLib(name, a); v != nil {
			return v
		}
		oldSyms["lib!"+name+"!0!0"] = true
		return App("lib!"+name+"!0!0", so, a...)
	}
	var replace func(x *Exec, s, old, new, n *Term) *Term
	replace = func(x *Exec, s, old, new, n *Term) *Term {
		if s.op == "ite" && (s.args[1].op == "str" || s.args[2].op == "str") {
			return Ite(s.args[0], replace(x, s.args[1], old, new, n), replace(x, s.args[2], old, new, n))
		}
		return uf("strings.Replace", nil, x, "Str", s, old, new, n)
	}
	externModels["strings.Replace"] = pureFn(func(x *Exec, a []*Term) Value { return replace(x, a[0], a[1], a[2], a[3]) })
	externModels["strings.ReplaceAll"] = pureFn(func(x *Exec, a []*Term) Value { return replace(x, a[0], a[1], a[2], Int(-1)) })
	externModels["strings.LastIndex"] = pureFn(func(x *Exec, a []*Term) Value {
		i := uf("strings.LastIndex", nil, x, "Int", a[0], a[1])
		if _, ok := i.intVal(); !ok {
			x.addFact(And(Le(Int(-1), i), Implies(Le(Int(0), i), And(Le(Add(i, SLen(a[1])), SLen(a[0])), Eq(SubStr(a[0], i, Add(i, SLen(a[1]))), a[1])))))
			first := sindexT(x, a[0], a[1])
			x.addFact(And(Le(first, i), Eq(Lt(first, Int(0)), Lt(i, Int(0)))))
		}
		return i
	})
	externModels["strings.Cut"] = func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
		s, sep := args[0].(*Term), args[1].(*Term)
		i := sindexT(x, s, sep)
		ok := Le(Int(0), i)
		return &VTuple{f: []Value{Ite(ok, SubStr(s, Int(0), i), s), Ite(ok, SubStr(s, Add(i, SLen(sep)), SLen(s)), Str("")), ok}}, st, cond
	}
	externModels["strings.ContainsRune"] = func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
		if n, ok := args[1].(*Term).intVal(); ok && n.Sign() > 0 && n.Int64() < 128 {
			return Le(Int(0), sindexT(x, args[0].(*Term), Str(string([]byte{byte(n.Int64())})))), st, cond
		}
		return ufExtern(x, fn, args, st, cond, pos)
	}
	externModels["strings.IndexRune"] = func(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
		if n, ok := args[1].(*Term).intVal(); ok && n.Sign() > 0 && n.Int64() < 128 {
			return sindexT(x, args[0].(*Term), Str(string([]byte{byte(n.Int64())}))), st, cond
		}
		return ufExtern(x, fn, args, st, cond, pos)
	}
	for _, n := range []string{"time.Parse", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight",
		"strings.Count", "strings.EqualFold", "strings.Title", "strings.Fields", "strings.Repeat", "strings.SplitN",
		"strings.ContainsAny", "strings.IndexAny",
		"unicode.IsLetter", "unicode.IsDigit", "unicode.IsUpper", "unicode.IsLower", "unicode.ToUpper", "unicode.ToLower", "unicode.IsSpace", "unicode/utf8.RuneCountInString",
		"strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat", "strconv.FormatInt", "strconv.Quote", "strconv.ParseBool", "strconv.FormatBool", "strconv.FormatFloat",
		"path/filepath.Base", "path/filepath.Ext", "path/filepath.Dir", "path.Join", "path.Base", "net/url.PathEscape", "net/url.QueryEscape", "html.EscapeString"} {
		externModels[n] = ufExtern
	}
}

func (x *Exec) noteWriter(w *Term) {
	for _, k := range iconOrder {
		if icons[k].name == w.name {
			if k != "*bytes.Buffer" {
				unsup("bufio.Writer on %s", k)
			}
			return
		}
	}
}

func recvElem(fn *ssa.Function) types.Type {
	return fn.Signature.Recv().Type().(*types.Pointer).Elem()
}

func bigFloatType(fn *ssa.Function) types.Type {
	if fn.Signature.Recv() != nil {
		return recvElem(fn)
	}
	return fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
}

func realOfFlt(t *Term) *Term {
	if t.op == "app" && t.name == "fltOfInt" {
		return mk("to_real", "", "Real", t.args[0])
	}
	if t.op == "app" && strings.HasPrefix(t.name, "fltlit!") {
		if r, ok := new(big.Rat).SetString(strings.TrimPrefix(t.name, "fltlit!")); ok && r.IsInt() {
			return mk("to_real", "", "Real", BigInt(r.Num()))
		}
	}
	return App("realOfFlt", "Real", t)
}

func itoa(t *Term) *Term {
	if n, ok := t.intVal(); ok {
		return Str(n.String())
	}
	return App("itoa", "Str", t)
}

func noEffect(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	rs := fn.Signature.Results()
	if rs.Len() == 0 {
		return nil, st, cond
	}
	t := &VTuple{}
	for i := 0; i < rs.Len(); i++ {
		t.f = append(t.f, zeroValue(rs.At(i).Type()))
	}
	if rs.Len() == 1 {
		return t.f[0], st, cond
	}
	return t, st, cond
}

func bufWrite(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	r := args[0].(*Term)
	cond = x.nonNil(r, cond, pos)
	st = st.copy()
	t := recvElem(fn)
	s := args[1].(*Term)
	x.storeRef(st, t, r, Concat(x.loadRef(st, t, r).(*Term), s))
	return &VTuple{f: []Value{SLen(s), tNilI}}, st, cond
}
func bufWriteByte(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	r := args[0].(*Term)
	cond = x.nonNil(r, cond, pos)
	st = st.copy()
	t := recvElem(fn)
	b := args[1].(*Term)
	s := App("bytestr1", "Str", b)
	if n, ok := b.intVal(); ok {
		s = Str(string([]byte{byte(n.Int64())}))
	}
	x.storeRef(st, t, r, Concat(x.loadRef(st, t, r).(*Term), s))
	return tNilI, st, cond
}
func bufWriteRune(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	r := args[0].(*Term)
	cond = x.nonNil(r, cond, pos)
	st = st.copy()
	t := recvElem(fn)
	s := mk("runestr", "", "Str", args[1].(*Term))
	x.storeRef(st, t, r, Concat(x.loadRef(st, t, r).(*Term), s))
	return &VTuple{f: []Value{SLen(s), tNilI}}, st, cond
}
func bufString(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	r := args[0].(*Term)
	cond = x.nonNil(r, cond, pos)
	return x.loadRef(st, recvElem(fn), r), st, cond
}
func bufLen(x *Exec, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	r := args[0].(*Term)
	cond = x.nonNil(r, cond, pos)
	return SLen(x.loadRef(st, recvElem(fn), r).(*Term)), st, cond
}

// sprintf expands a constant format string
func (x *Exec) sprintf(args []Value, st *State) *Term {
	f := args[0].(*Term)
	var sl *VSlice
	if len(args) > 1 {
		sl = x.snapshot(args[1].(*VSlice), st)
	}
	if f.op != "str" {
		return x.fresh("sprintf", "Str")
	}
	s := f.name
	var out []*Term
	k := int64(0)
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, Str(string(s[i:i+1])))
			continue
		}
		i++
		if i >= len(s) {
			return x.fresh("sprintf", "Str")
		}
		if s[i] == '%' {
			out = append(out, Str("%"))
			continue
		}
		flags := ""
		for i < len(s) && strings.IndexByte("0123456789.+-# ", s[i]) >= 0 {
			flags += string(s[i : i+1])
			i++
		}
		if i >= len(s) || sl == nil {
			return x.fresh("sprintf", "Str")
		}
		a := Select(sl.arr[0], Add(sl.off, Int(k)))
		k++
		if flags != "" {
			out = append(out, x.fmtFlags(a, flags, s[i]))
			continue
		}
		out = append(out, x.fmtV(a, s[i]))
	}
	return Concat(out...)
}

func (x *Exec) fmtFlags(a *Term, flags string, verb byte) *Term {
	if a.op == "icon" {
		if t := iconType(a.name); t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && methodless(t) && b.Info()&(types.IsString|types.IsInteger) != 0 {
				return App("fmt!"+flags+string(rune(verb)), "Str", a)
			}
		}
	}
	return x.fresh("fmtf", "Str")
}

func iconType(name string) types.Type {
	for _, ic := range icons {
		if ic.name == name {
			return ic.typ
		}
	}
	return nil
}

func (x *Exec) fmtV(a *Term, verb byte) *Term {
	if a.op == "ite" {
		return Ite(a.args[0], x.fmtV(a.args[1], verb), x.fmtV(a.args[2], verb))
	}
	if a.op == "icon" {
		t := iconType(a.name)
		if a.name == errIcon && (verb == 's' || verb == 'v') {
			return a.args[0]
		}
		if t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && methodless(t) {
				switch {
				case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
					return a.args[0]
				case b.Info()&types.IsString != 0 && verb == 'q':
					if a.args[0].op == "str" {
						return Str(fmt.Sprintf("%q", a.args[0].name))
					}
					return App("quote", "Str", a.args[0])
				case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
					return itoa(a.args[0])
				case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v') && a.args[0].sort == "Bool":
					return Ite(a.args[0], Str("true"), Str("false"))
				}
			}
		}
	}
	// the text depends on memory reachable from the value: nothing is known about it
	return x.fresh("fmt!"+string(rune(verb)), "Str")
}

func methodless(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return n.NumMethods() == 0
	}
	return true
}

// isRegexp: whether a text is a regular expression; decided here for constants
func isRegexp(p *Term) *Term {
	if p.op == "str" {
		_, err := regexp.Compile(p.name)
		return BoolT(err == nil)
	}
	return App("isRegexp", "Bool", p)
}
