package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed; sorts are SMT-LIB sort strings.
// Sorts used: Bool Int Str Ref Iface Real Flt Time, (Array X Y).

type Term struct {
	op   string // "sym", "int", "str", "real", "true", "false", "app" and SMT ops
	name string // symbol / UF name / literal text
	args []*Term
	sort string
	id   int
	fv   map[*Term]bool // free variable symbols (op "var")
	bind []*Term        // for quantifiers: bound variables
	pats [][]*Term      // triggers
	old  int8           // cached isOld: 0 unknown 1 yes 2 no
}

var termTab = map[string]*Term{}
var termSeq int

func mk(op, name, sort string, args ...*Term) *Term { return mkB(op, name, sort, nil, nil, args...) }

func mkB(op, name, srt string, bind []*Term, pats [][]*Term, args ...*Term) *Term {
	var buf [96]byte
	sb := buf[:0]
	sb = append(sb, op...)
	sb = append(sb, '|')
	sb = append(sb, name...)
	sb = append(sb, '|')
	sb = append(sb, srt...)
	for _, a := range args {
		sb = strconv.AppendInt(append(sb, ','), int64(a.id), 10)
	}
	for _, b := range bind {
		sb = strconv.AppendInt(append(sb, ';'), int64(b.id), 10)
	}
	for _, p := range pats {
		sb = append(sb, '!')
		for _, t := range p {
			sb = strconv.AppendInt(append(sb, '.'), int64(t.id), 10)
		}
	}
	if t, ok := termTab[string(sb)]; ok {
		return t
	}
	k := string(sb)
	termSeq++
	t := &Term{op: op, name: name, args: args, sort: srt, id: termSeq, bind: bind, pats: pats}
	if op == "var" {
		t.fv = map[*Term]bool{t: true}
	} else {
		n := 0
		var only map[*Term]bool
		for _, a := range args {
			if len(a.fv) > 0 {
				n++
				only = a.fv
			}
		}
		if len(bind) == 0 && n == 1 {
			t.fv = only
		} else if n > 0 {
			m := map[*Term]bool{}
			for _, a := range args {
				for v := range a.fv {
					m[v] = true
				}
			}
			for _, b := range bind {
				delete(m, b)
			}
			if len(m) > 0 {
				t.fv = m
			}
		}
	}
	termTab[k] = t
	return t
}

var (
	tTrue  = mk("true", "", "Bool")
	tFalse = mk("false", "", "Bool")
	tNull  = mk("null", "", "Ref")
	tNilI  = mk("nili", "", "Iface")
)

func arrSort(a, b string) string { return "(Array " + a + " " + b + ")" }

// splits "(Array X Y)" into X, Y
func arrParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func Int(n int64) *Term       { return mk("int", fmt.Sprint(n), "Int") }
func BigInt(n *big.Int) *Term { return mk("int", n.String(), "Int") }
func Str(s string) *Term      { return mk("str", s, "Str") }
func Sym(name, sort string) *Term {
	return mk("app", name, sort)
}
func Var(name, sort string) *Term { return mk("var", name, sort) }
func App(name, sort string, args ...*Term) *Term {
	if strings.HasPrefix(name, "spec!") {
		if sg := specSigs[name]; sg != nil {
			return specApp(sg.base, sort, args[:sg.nargs], sg.keys, args[sg.nargs:])
		}
	}
	return mk("app", name, sort, args...)
}
func BoolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isLit() bool {
	switch t.op {
	case "int", "str", "true", "false", "null", "nili":
		return true
	}
	return false
}

func (t *Term) intVal() (*big.Int, bool) {
	if t.op != "int" {
		return nil, false
	}
	n, ok := new(big.Int).SetString(t.name, 10)
	return n, ok
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", "", "Bool", a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == tTrue || seen[x] {
			return true
		}
		if x == tFalse || seen[Not(x)] {
			return false
		}
		if x.op == "and" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tFalse
		}
	}
	// absorb: (a and (a or b)), (a and (not a or b)) => simplifications
	for i, x := range out {
		if x.op == "or" {
			changed := false
			sat := false
			var rest []*Term
			for _, d := range x.args {
				if seen[d] {
					sat = true
					break
				}
				if seen[Not(d)] {
					changed = true
					continue
				}
				rest = append(rest, d)
			}
			if sat {
				nn := append(append([]*Term{}, out[:i]...), out[i+1:]...)
				return And(nn...)
			}
			if changed {
				nn := append([]*Term{}, out[:i]...)
				nn = append(nn, Or(rest...))
				nn = append(nn, out[i+1:]...)
				return And(nn...)
			}
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", "", "Bool", out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == tFalse || seen[x] {
			return true
		}
		if x == tTrue || seen[Not(x)] {
			return false
		}
		if x.op == "or" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tTrue
		}
	}
	// (a and b) or (a and not b) => a ; generic: common factor extraction for two conjunctions
	for i := 0; i < len(out); i++ {
		for j := i + 1; j < len(out); j++ {
			if m := mergeOr(out[i], out[j]); m != nil {
				nn := []*Term{m}
				for k, x := range out {
					if k != i && k != j {
						nn = append(nn, x)
					}
				}
				return Or(nn...)
			}
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", "", "Bool", out...)
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func mergeOr(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inb := map[*Term]bool{}
	for _, x := range cb {
		inb[x] = true
	}
	var common, ra []*Term
	cm := map[*Term]bool{}
	for _, x := range ca {
		if inb[x] {
			common = append(common, x)
			cm[x] = true
		} else {
			ra = append(ra, x)
		}
	}
	var rb []*Term
	for _, x := range cb {
		if !cm[x] {
			rb = append(rb, x)
		}
	}
	if len(ra) == 0 {
		return a
	} // a subsumes b
	if len(rb) == 0 {
		return b
	}
	if len(ra) == 1 && And(rb...) == Not(ra[0]) {
		return And(common...)
	}
	if len(rb) == 1 && And(ra...) == Not(rb[0]) {
		return And(common...)
	}
	// (c and p and X) or (c and not p) => c and (not p or X)
	if len(rb) == 1 {
		nb := Not(rb[0])
		for i, x := range ra {
			if x == nb {
				rest := append(append([]*Term{}, ra[:i]...), ra[i+1:]...)
				return And(append(common, Or(rb[0], And(rest...)))...)
			}
		}
	}
	if len(ra) == 1 {
		na := Not(ra[0])
		for i, x := range rb {
			if x == na {
				rest := append(append([]*Term{}, rb[:i]...), rb[i+1:]...)
				return And(append(common, Or(ra[0], And(rest...)))...)
			}
		}
	}
	return nil
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if a == b {
		return tTrue
	}
	return mk("=>", "", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	// ite(c, store(x,i,v), x) and friends kept as is
	return mk("ite", "", a.sort, c, a, b)
}

// distinctRefs: provably different references
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isLit() && b.isLit() {
		return true
	}
	switch a.sort {
	case "Ref":
		if a.op == "new" && b.op == "new" {
			if a.name != b.name {
				return true
			}
			for i := range a.args {
				if distinctTerms(a.args[i], b.args[i]) {
					return true
				}
			}
			return false
		}
		if a.op == "new" && b.op == "fld" {
			return distinctBase(b, a)
		}
		if b.op == "new" && a.op == "fld" {
			return distinctBase(a, b)
		}
		if a.op == "fld" && b.op == "fld" {
			if a.name != b.name {
				return true
			}
			return distinctTerms(a.args[0], b.args[0])
		}
		if a.op == "fld" && b.op == "null" || b.op == "fld" && a.op == "null" {
			return true
		}
		if a.op == "new" && b.op == "null" || a.op == "null" && b.op == "new" {
			return true
		}
		if isNew(a) && isOld(b) || isOld(a) && isNew(b) {
			return true
		}
	case "Iface":
		ca, cb := a.op == "icon", b.op == "icon"
		if ca && cb && a.name != b.name {
			return true
		}
		if ca && b.op == "nili" || cb && a.op == "nili" {
			return true
		}
	case "Int":
		if d, ok := diffConst(a, b); ok && d.Sign() != 0 {
			return true
		}
	case "Str":
		return distinctStr(a, b)
	}
	return false
}

func distinctBase(f, n *Term) bool { return true } // interior pointers never equal object roots (distinct struct types/levels)

func distinctStr(a, b *Term) bool {
	// literal prefix/suffix mismatch
	pa, pb := strParts(a), strParts(b)
	if len(pa) > 0 && len(pb) > 0 && pa[0].op == "str" && pb[0].op == "str" {
		x, y := pa[0].name, pb[0].name
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if x[:n] != y[:n] {
			return true
		}
	}
	if len(pa) > 0 && len(pb) > 0 {
		la, lb := pa[len(pa)-1], pb[len(pb)-1]
		if la.op == "str" && lb.op == "str" {
			x, y := la.name, lb.name
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if x[len(x)-n:] != y[len(y)-n:] {
				return true
			}
		}
	}
	if a.op == "str" && a.name == "" {
		for _, p := range pb {
			if p.op == "str" && p.name != "" {
				return true
			}
		}
	}
	if b.op == "str" && b.name == "" {
		for _, p := range pa {
			if p.op == "str" && p.name != "" {
				return true
			}
		}
	}
	return false
}

func isNew(t *Term) bool {
	switch t.op {
	case "new":
		return true
	case "fld":
		return isNew(t.args[0])
	case "ite":
		return isNew(t.args[1]) && isNew(t.args[2])
	}
	return false
}

// isOld: term denotes a reference (or interface payload) that existed before the contract started
func isOld(t *Term) bool {
	if t.old == 0 {
		if computeOld(t) {
			t.old = 1
		} else {
			t.old = 2
		}
	}
	return t.old == 1
}

var oldSyms = map[string]bool{} // UF / symbol names whose values are always old
func computeOld(t *Term) bool {
	switch t.op {
	case "null", "nili":
		return true
	case "app":
		return oldSyms[t.name]
	case "var":
		return oldSyms[t.name]
	case "select":
		return isOld(t.args[0])
	case "fld":
		return isOld(t.args[0])
	case "isel":
		return isOld(t.args[0])
	case "ite":
		return isOld(t.args[1]) && isOld(t.args[2])
	case "const":
		return isOld(t.args[0])
	case "store":
		return isOld(t.args[0]) && isOld(t.args[2])
	case "icon":
		for _, a := range t.args {
			if a.sort == "Ref" && !isOld(a) {
				return false
			}
		}
		return true
	}
	return false
}

var eqMemo = map[[2]int]*Term{}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op != "ite" && b.op != "ite" {
		return eq(a, b)
	}
	k := [2]int{a.id, b.id}
	if r, ok := eqMemo[k]; ok {
		return r
	}
	r := eq(a, b)
	eqMemo[k] = r
	return r
}

// under simplifies a boolean known to be needed only where c (or its negation) holds
func under(c *Term, pos bool, e *Term) *Term {
	if e.isLit() {
		return e
	}
	if !pos {
		// not(or(..)): every disjunct is false; not(x): x
		switch {
		case c == e:
			return tFalse
		case c == Not(e):
			return tTrue
		case c.op == "or":
			for _, d := range c.args {
				if d == e {
					return tFalse
				}
				if d == Not(e) {
					return tTrue
				}
			}
		}
		return e
	}
	if c == e {
		return tTrue
	}
	n := Not(e)
	if c == n {
		return tFalse
	}
	if c.op == "and" {
		for _, d := range c.args {
			if d == e {
				return tTrue
			}
			if d == n {
				return tFalse
			}
		}
	}
	return e
}

func eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s = %s", a.sort, b.sort, a, b))
	}
	if distinctTerms(a, b) {
		return tFalse
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	// push through ite when one side is decided
	if a.op == "ite" {
		e1, e2 := under(a.args[0], true, Eq(a.args[1], b)), under(a.args[0], false, Eq(a.args[2], b))
		if e1.isLit() || e2.isLit() {
			return Ite(a.args[0], e1, e2)
		}
	}
	if b.op == "ite" {
		e1, e2 := under(b.args[0], true, Eq(a, b.args[1])), under(b.args[0], false, Eq(a, b.args[2]))
		if e1.isLit() || e2.isLit() {
			return Ite(b.args[0], e1, e2)
		}
	}
	if a.op == "new" && b.op == "new" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == "fld" && b.op == "fld" && a.name == b.name {
		return Eq(a.args[0], b.args[0])
	}
	if a.op == "icon" && b.op == "icon" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == "Str" {
		if r := eqStr(a, b); r != nil {
			return r
		}
	}
	if a.sort == "Int" {
		// normalise x+c1 = y+c2
		if d, ok := diffConst(a, b); ok {
			return BoolT(d.Sign() == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", "Bool", a, b)
}

func eqStr(a, b *Term) *Term {
	pa, pb := strParts(a), strParts(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	i := 0
	// strip common prefix
	ca := append([]*Term{}, pa...)
	cb := append([]*Term{}, pb...)
	for len(ca) > 0 && len(cb) > 0 {
		x, y := ca[0], cb[0]
		if x == y {
			ca, cb = ca[1:], cb[1:]
			i++
			continue
		}
		if x.op == "str" && y.op == "str" {
			n := len(x.name)
			if len(y.name) < n {
				n = len(y.name)
			}
			if n > 0 && x.name[:n] == y.name[:n] {
				ca[0], cb[0] = Str(x.name[n:]), Str(y.name[n:])
				if ca[0].name == "" {
					ca = ca[1:]
				}
				if cb[0].name == "" {
					cb = cb[1:]
				}
				i++
				continue
			}
		}
		break
	}
	for len(ca) > 0 && len(cb) > 0 {
		x, y := ca[len(ca)-1], cb[len(cb)-1]
		if x == y {
			ca, cb = ca[:len(ca)-1], cb[:len(cb)-1]
			i++
			continue
		}
		if x.op == "str" && y.op == "str" {
			n := len(x.name)
			if len(y.name) < n {
				n = len(y.name)
			}
			if n > 0 && x.name[len(x.name)-n:] == y.name[len(y.name)-n:] {
				ca[len(ca)-1], cb[len(cb)-1] = Str(x.name[:len(x.name)-n]), Str(y.name[:len(y.name)-n])
				if ca[len(ca)-1].name == "" {
					ca = ca[:len(ca)-1]
				}
				if cb[len(cb)-1].name == "" {
					cb = cb[:len(cb)-1]
				}
				i++
				continue
			}
		}
		break
	}
	if i == 0 {
		return nil
	}
	return Eq(Concat(ca...), Concat(cb...))
}

func strParts(t *Term) []*Term {
	if t.op == "concat" {
		return t.args
	}
	if t.op == "str" && t.name == "" {
		return nil
	}
	return []*Term{t}
}

func Concat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		for _, p := range strParts(x) {
			if len(out) > 0 && p.op == "str" && out[len(out)-1].op == "str" {
				out[len(out)-1] = Str(out[len(out)-1].name + p.name)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mk("concat", "", "Str", out...)
}

// ---- linear integer arithmetic: canonical sums
type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	var add func(t *Term, m *big.Int)
	add = func(t *Term, m *big.Int) {
		switch t.op {
		case "int":
			n, _ := t.intVal()
			l.c.Add(l.c, new(big.Int).Mul(n, m))
		case "+":
			for _, a := range t.args {
				add(a, m)
			}
		case "*":
			if n, ok := t.args[0].intVal(); ok {
				add(t.args[1], new(big.Int).Mul(n, m))
				return
			}
			fallthrough
		default:
			if o, ok := l.co[t]; ok {
				o.Add(o, m)
				if o.Sign() == 0 {
					delete(l.co, t)
				}
			} else {
				l.co[t] = new(big.Int).Set(m)
			}
		}
	}
	add(t, big.NewInt(1))
	return l
}

func (l lin) term() *Term {
	var keys []*Term
	for k := range l.co {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var out []*Term
	for _, k := range keys {
		c := l.co[k]
		if c.Cmp(big.NewInt(1)) == 0 {
			out = append(out, k)
		} else {
			out = append(out, mk("*", "", "Int", BigInt(c), k))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, BigInt(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", "", "Int", out...)
}

func Add(a, b *Term) *Term {
	l := linOf(a)
	m := linOf(b)
	l.c.Add(l.c, m.c)
	for k, v := range m.co {
		if o, ok := l.co[k]; ok {
			o.Add(o, v)
			if o.Sign() == 0 {
				delete(l.co, k)
			}
		} else {
			l.co[k] = v
		}
	}
	return l.term()
}
func Neg(a *Term) *Term {
	l := linOf(a)
	l.c.Neg(l.c)
	for _, v := range l.co {
		v.Neg(v)
	}
	return l.term()
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func Mul(a, b *Term) *Term {
	if n, ok := a.intVal(); ok {
		l := linOf(b)
		l.c.Mul(l.c, n)
		for k, v := range l.co {
			v.Mul(v, n)
			if v.Sign() == 0 {
				delete(l.co, k)
			}
		}
		return l.term()
	}
	if _, ok := b.intVal(); ok {
		return Mul(b, a)
	}
	return mk("*", "", "Int", a, b)
}
func diffConst(a, b *Term) (*big.Int, bool) {
	d := Sub(a, b)
	n, ok := d.intVal()
	return n, ok
}
func Le(a, b *Term) *Term {
	if d, ok := diffConst(a, b); ok {
		return BoolT(d.Sign() <= 0)
	}
	if a.op == "int" && a.name == "0" && nonNeg(b) {
		return tTrue
	}
	return mk("<=", "", "Bool", a, b)
}
func Lt(a, b *Term) *Term {
	if d, ok := diffConst(a, b); ok {
		return BoolT(d.Sign() < 0)
	}
	if b.op == "int" && b.name == "0" && nonNeg(a) {
		return tFalse
	}
	return Not(Le(b, a))
}

var nonNegSyms = map[string]bool{}

func nonNeg(t *Term) bool {
	switch t.op {
	case "slen":
		return true
	case "int":
		n, _ := t.intVal()
		return n.Sign() >= 0
	case "app":
		return nonNegSyms[t.name]
	case "select":
		return nonNeg(t.args[0])
	case "ite":
		return nonNeg(t.args[1]) && nonNeg(t.args[2])
	case "+":
		for _, a := range t.args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	case "*":
		return nonNeg(t.args[0]) && nonNeg(t.args[1])
	case "store":
		return nonNeg(t.args[0]) && nonNeg(t.args[2])
	case "const":
		return nonNeg(t.args[0])
	}
	return false
}

func SLen(s *Term) *Term {
	if s.op == "str" {
		return Int(int64(len(s.name)))
	}
	if s.op == "concat" {
		t := Int(0)
		for _, a := range s.args {
			t = Add(t, SLen(a))
		}
		return t
	}
	if s.op == "ite" {
		a, b := SLen(s.args[1]), SLen(s.args[2])
		if a.op == "int" && b.op == "int" {
			return Ite(s.args[0], a, b)
		}
	}
	return mk("slen", "", "Int", s)
}

// loop heap symbols: name -> info for select simplification
type lheapInfo struct {
	params  []*Term // context variables + counter, the UF's formal args
	base    *Term   // entry value of the component, over params
	siteLo  int     // allocation sites >= siteLo are inside the loop
	newOnly bool
	sites   []int
	shapes  map[int]siteSh
	next    *Term // the contents after iteration k, in terms of those before
	cv      []*Term
	k       *Term
}

type siteSh struct {
	arity int
	paths [][]string
}

var lheaps = map[string]*lheapInfo{}

func Select(a, i *Term) *Term {
	_, es := arrParts(a.sort)
	switch a.op {
	case "store":
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctTerms(a.args[1], i) {
			return Select(a.args[0], i)
		}
	case "const":
		return a.args[0]
	case "ite":
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		return Ite(a.args[0], x, y)
	case "app":
		if li, ok := lheaps[a.name]; ok && li.newOnly && refBefore(i, li.siteLo) {
			m := map[*Term]*Term{}
			for k, p := range li.params {
				m[p] = a.args[k]
			}
			return Select(Subst(li.base, m), i)
		}
	}
	if i.op == "ite" {
		x, y := Select(a, i.args[1]), Select(a, i.args[2])
		return Ite(i.args[0], x, y)
	}
	return mk("select", "", es, a, i)
}

// refBefore: the reference certainly existed before allocation site number lo
func refBefore(r *Term, lo int) bool {
	if isOld(r) {
		return true
	}
	switch r.op {
	case "new":
		var n int
		fmt.Sscanf(r.name, "%d", &n)
		return n < lo
	case "fld":
		return refBefore(r.args[0], lo)
	case "ite":
		return refBefore(r.args[1], lo) && refBefore(r.args[2], lo)
	}
	return false
}

func Store(a, i, v *Term) *Term {
	_, es := arrParts(a.sort)
	if es != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s (%s)", a.sort, v.sort, v))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, a, i, v)
}
func ConstArr(sort string, v *Term) *Term { return mk("const", "", sort, v) }

func New(site int, args []*Term) *Term { return mk("new", fmt.Sprint(site), "Ref", args...) }
func Fld(name string, base *Term) *Term {
	if base.op == "ite" {
		return Ite(base.args[0], Fld(name, base.args[1]), Fld(name, base.args[2]))
	}
	return mk("fld", name, "Ref", base)
}

// interface constructors
func ICon(name string, args ...*Term) *Term { return mk("icon", name, "Iface", args...) }
func ITest(name string, t *Term) *Term {
	switch t.op {
	case "icon":
		return BoolT(t.name == name)
	case "nili":
		return tFalse
	case "ite":
		a, b := ITest(name, t.args[1]), ITest(name, t.args[2])
		return Ite(t.args[0], a, b)
	}
	return mk("itest", name, "Bool", t)
}
func ISel(name string, k int, sort string, t *Term) *Term {
	switch t.op {
	case "icon":
		if t.name == name {
			return t.args[k]
		}
	case "ite":
		x, y := t.args[1], t.args[2]
		if x.op == "nili" || x.op == "icon" && x.name != name {
			return ISel(name, k, sort, y)
		}
		if y.op == "nili" || y.op == "icon" && y.name != name {
			return ISel(name, k, sort, x)
		}
		return Ite(t.args[0], ISel(name, k, sort, x), ISel(name, k, sort, y))
	}
	return mk("isel", fmt.Sprintf("%s_%d", name, k), sort, t)
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var used []*Term
	for _, v := range vars {
		if body.fv[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return mkB("forall", "", "Bool", used, cleanPats(used, pats), body)
}
func Exists(vars []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var used []*Term
	for _, v := range vars {
		if body.fv[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return mkB("exists", "", "Bool", used, nil, body)
}
func cleanPats(vars []*Term, pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		m := map[*Term]bool{}
		ok := len(p) > 0
		for _, t := range p {
			for v := range t.fv {
				m[v] = true
			}
			if !patOK(t) {
				ok = false
			}
		}
		for _, v := range vars {
			if !m[v] {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}
func patOK(t *Term) bool {
	switch t.op {
	case "app", "select", "slen":
		for _, a := range t.args {
			if !patArg(a) {
				return false
			}
		}
		return true
	}
	return false
}
func patArg(t *Term) bool {
	if len(t.fv) == 0 {
		return true
	}
	switch t.op {
	case "var":
		return true
	case "app", "select", "fld", "isel", "new", "slen":
		for _, a := range t.args {
			if !patArg(a) {
				return false
			}
		}
		return true
	}
	return false
}

// Subst replaces variables (op "var") or arbitrary leaf terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.fv) == 0 {
		return t
	}
	need := false
	for k := range m {
		if t.fv[k] {
			need = true
			break
		}
	}
	if !need {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
	}
	var r *Term
	switch t.op {
	case "forall", "exists":
		// bound vars are globally unique; no capture
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, subst(x, m, memo))
			}
			pats = append(pats, q)
		}
		if t.op == "forall" {
			r = Forall(t.bind, args[0], pats...)
		} else {
			r = Exists(t.bind, args[0])
		}
	default:
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "const":
		return ConstArr(t.sort, args[0])
	case "concat":
		return Concat(args...)
	case "slen":
		return SLen(args[0])
	case "fld":
		return Fld(t.name, args[0])
	case "itest":
		return ITest(t.name, args[0])
	case "isel":
		i := strings.LastIndex(t.name, "_")
		var k int
		fmt.Sscanf(t.name[i+1:], "%d", &k)
		return ISel(t.name[:i], k, t.sort, args[0])
	case "sub":
		return SubStr(args[0], args[1], args[2])
	case "sat":
		return SAt(args[0], args[1])
	case "app":
		return App(t.name, t.sort, args...)
	}
	return mk(t.op, t.name, t.sort, args...)
}

// string primitives (byte semantics)
func SubStr(s, lo, hi *Term) *Term { // s[lo:hi]
	if s.op == "str" {
		if l, ok := lo.intVal(); ok {
			if h, ok := hi.intVal(); ok && l.IsInt64() && h.IsInt64() {
				a, b := l.Int64(), h.Int64()
				if 0 <= a && a <= b && b <= int64(len(s.name)) {
					return Str(s.name[a:b])
				}
			}
		}
	}
	if lo.op == "int" && lo.name == "0" && hi == SLen(s) {
		return s
	}
	if lo == hi {
		return Str("")
	}
	// concat prefix stripping
	if s.op == "concat" {
		first := s.args[0]
		fl := SLen(first)
		rest := Concat(s.args[1:]...)
		if lo == fl {
			return SubStr(rest, Int(0), Sub(hi, fl))
		}
		if lo.op == "int" && lo.name == "0" {
			// prefix
			acc := Int(0)
			for i, a := range s.args {
				if acc == hi {
					return Concat(s.args[:i]...)
				}
				acc = Add(acc, SLen(a))
			}
		}
	}
	return mk("sub", "", "Str", s, lo, hi)
}
func SAt(s, i *Term) *Term { // byte code at index
	if s.op == "str" {
		if n, ok := i.intVal(); ok && n.IsInt64() {
			k := n.Int64()
			if 0 <= k && k < int64(len(s.name)) {
				return Int(int64(s.name[k]))
			}
		}
	}
	return mk("sat", "", "Int", s, i)
}

func (t *Term) String() string {
	s := t.str(4)
	return s
}
func (t *Term) str(d int) string {
	switch t.op {
	case "int", "var":
		return t.name
	case "str":
		return fmt.Sprintf("%q", t.name)
	case "true", "false", "null", "nili":
		return t.op
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	if t.name != "" {
		sb.WriteString(":" + t.name)
	}
	for _, b := range t.bind {
		sb.WriteString(" [" + b.name + "]")
	}
	for _, a := range t.args {
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}
