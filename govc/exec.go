package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct{ comps map[string]*Term }

func (s *State) copy() *State {
	n := &State{comps: make(map[string]*Term, len(s.comps))}
	for k, v := range s.comps {
		n.comps[k] = v
	}
	return n
}

type Fact struct {
	f    *Term
	note string
}
type Obl struct {
	label string
	kind  string // "ensures" "safety" "requires"
	pos   string
	goal  *Term // already guarded
	hyps  []*Term
	free  []*Term
	loops []*LoopInfo
	cover bool
	x     *Exec
	lem   []*Term // induction lemmas, discharged from hyps
}

// Recorder collects facts, obligations and loops of one context (function body, loop body, quantifier body)
type Recorder struct {
	facts []*Term
	obls  []*Obl
	loops []*LoopInfo
	lheap []string
	memo  []memoCall
}

type Exec struct {
	eng             *Engine
	rec             *Recorder
	cv              []*Term // context variables (loop counters, quantified variables)
	litMemo         map[*Term]map[*Term]bool
	guards          []*Term
	stack           []*ssa.Function
	siteSeq         int
	loopSeq         int
	symSeq          int
	tag             string // distinguishes the symbols of this run: names are never reused for another meaning
	splitting       int
	lemmas          []*lemma
	mayPanic        bool
	assume          int // >0: executing a contract in assume mode
	hole            *ssa.Function
	holeRes         Value
	pure            int // inside quantifier
	target          map[*ssa.Function]bool
	externs         map[string]bool // assumed external models used
	inlined         map[string]bool
	ufuel           map[*Term]int
	specDepth       int
	opaque          map[string]bool
	steps           int
	h0              *State
	extraObl        bool
	unwound         int
	ensured         map[string]bool
	covers          []*Obl
	snaps           []*State
	modifies        []modLoc
	subst           map[*Term]*Term // case splits
	casePath, caseN []int
	caseLab         string
}

type compInfo struct {
	sort string
	role string
}

var compSorts = map[string]string{}

// initComp: a heap component as it was at the start
func initComp(key, sort string) *Term {
	name := "H|" + key
	compSorts[key] = sort
	if strings.HasSuffix(key, "#off") {
		// input slices start at offset 0 of their backing store
		return zeroLeaf(sort)
	}
	if strings.HasSuffix(key, "#len") {
		nonNegSyms[name] = true
	}
	oldSyms[name] = true
	return Sym(name, sort)
}

func (x *Exec) comp(st *State, key, sort string) *Term {
	if t, ok := st.comps[key]; ok {
		return t
	}
	t := initComp(key, sort)
	if st.comps == nil {
		st.comps = map[string]*Term{}
	}
	return t
}

func leafRoles(t types.Type) []string {
	if l, ok := opaqueLeaves(t); ok {
		return make([]string, len(l))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		var out []string
		for range leafSorts(u.Elem()) {
			out = append(out, "")
		}
		return append(out, "#off", "#len", "#nn")
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leafRoles(u.Field(i).Type())...)
		}
		return out
	}
	return make([]string, len(leafSorts(t)))
}

func compKeys(prefix string, t types.Type) ([]string, []string) {
	ls := leafSorts(t)
	rs := leafRoles(t)
	var ks, ss []string
	for i := range ls {
		ks = append(ks, fmt.Sprintf("%s|%d%s", prefix, i, rs[i]))
		ss = append(ss, arrSort("Ref", ls[i]))
	}
	return ks, ss
}

func (x *Exec) loadComps(st *State, prefix string, t types.Type, ref *Term) Value {
	ks, ss := compKeys(prefix, t)
	var ls []*Term
	for i := range ks {
		ls = append(ls, Select(x.comp(st, ks[i], ss[i]), ref))
	}
	v := fromLeaves(t, ls)
	fixNN(v)
	return v
}

// input slices: nil implies empty (nn := nn or len>0)
func fixNN(v Value) {
	switch v := v.(type) {
	case *VSlice:
		v.nn = Or(v.nn, Lt(Int(0), v.ln))
	case *VStruct:
		for _, f := range v.f {
			fixNN(f)
		}
	}
}

func (x *Exec) storeComps(st *State, prefix string, t types.Type, ref *Term, v Value) {
	ks, ss := compKeys(prefix, t)
	ls := x.leaves(v, st)
	if len(ls) != len(ks) {
		panic(fmt.Sprintf("store leaf mismatch %s %d %d %T", t, len(ls), len(ks), v))
	}
	for i := range ks {
		st.comps[ks[i]] = Store(x.comp(st, ks[i], ss[i]), ref, ls[i])
	}
}

func structName(t types.Type) string { return typeKey(t) }

func fieldKey(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	return structName(st) + "." + s.Field(i).Name()
}

func isStructLike(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// load the value of type t at pointer ref
func (x *Exec) loadRef(st *State, t types.Type, ref *Term) Value {
	if s, ok := isStructVal(t); ok {
		v := &VStruct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStructLike(ft) {
				v.f = append(v.f, x.loadRef(st, ft, Fld(fieldKey(t, i), ref)))
			} else {
				v.f = append(v.f, x.loadComps(st, "F|"+fieldKey(t, i), ft, ref))
			}
		}
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		v := &VArray{elem: a.Elem(), n: a.Len()}
		for i, s := range leafSorts(a.Elem()) {
			v.arr = append(v.arr, Select(x.comp(st, fmt.Sprintf("V|%s|%d", typeKey(a.Elem()), i), arrSort("Ref", arrSort("Int", s))), ref))
		}
		return v
	}
	return x.loadComps(st, "C|"+typeKey(t), t, ref)
}

func (x *Exec) storeRef(st *State, t types.Type, ref *Term, v Value) {
	if s, ok := isStructVal(t); ok {
		vs, ok := v.(*VStruct)
		if !ok {
			unsup("store of %T as struct", v)
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStructLike(ft) {
				x.storeRef(st, ft, Fld(fieldKey(t, i), ref), vs.f[i])
			} else {
				x.storeComps(st, "F|"+fieldKey(t, i), ft, ref, vs.f[i])
			}
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		va := v.(*VArray)
		for i, s := range leafSorts(a.Elem()) {
			k := fmt.Sprintf("V|%s|%d", typeKey(a.Elem()), i)
			st.comps[k] = Store(x.comp(st, k, arrSort("Ref", arrSort("Int", s))), ref, va.arr[i])
		}
		return
	}
	x.storeComps(st, "C|"+typeKey(t), t, ref, v)
}

func (x *Exec) loadAddr(st *State, v Value, t types.Type) Value {
	switch a := v.(type) {
	case *Term:
		return x.loadRef(st, t, a)
	case *VAddr:
		switch a.kind {
		case "field":
			return x.loadComps(st, a.key, a.typ, a.ref)
		case "aelem":
			var ls []*Term
			for i, s := range leafSorts(a.typ) {
				c := x.comp(st, fmt.Sprintf("V|%s|%d", typeKey(a.typ), i), arrSort("Ref", arrSort("Int", s)))
				ls = append(ls, Select(Select(c, a.ref), a.idx))
			}
			return fromLeaves(a.typ, ls)
		case "selem":
			sl := x.snapshot(a.sl, st)
			var ls []*Term
			for _, arr := range sl.arr {
				ls = append(ls, Select(arr, Add(sl.off, a.idx)))
			}
			return fromLeaves(a.typ, ls)
		case "sub":
			pv := x.loadAddr(st, a.par, a.par.typ)
			vs, ok := pv.(*VStruct)
			if !ok {
				unsup("subfield of %T", pv)
			}
			return vs.f[a.fi]
		}
	}
	panic(fmt.Sprintf("loadAddr %T", v))
}

// inputElemFacts: documented input invariant: pointer elements of input slices are non-nil
func (x *Exec) inputElemFacts(v Value, t types.Type, cond *Term) {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return
	}
	if tm, ok := v.(*Term); ok && x.eng.nonNilElems {
		x.assumeInputElem(tm, cond)
	}
}

func (x *Exec) assumeInputElem(tm, cond *Term) {
	switch {
	case isInput(tm):
		x.assumeAt(cond, Not(Eq(tm, tNull)))
	case tm.op == "ite":
		x.assumeInputElem(tm.args[1], And(cond, tm.args[0]))
		x.assumeInputElem(tm.args[2], And(cond, Not(tm.args[0])))
	}
}

func (x *Exec) storeAddr(st *State, v Value, t types.Type, val Value) {
	switch a := v.(type) {
	case *Term:
		x.storeRef(st, t, a, val)
		return
	case *VAddr:
		switch a.kind {
		case "field":
			x.storeComps(st, a.key, a.typ, a.ref, val)
			return
		case "aelem":
			ls := x.leaves(val, st)
			for i, s := range leafSorts(a.typ) {
				k := fmt.Sprintf("V|%s|%d", typeKey(a.typ), i)
				c := x.comp(st, k, arrSort("Ref", arrSort("Int", s)))
				st.comps[k] = Store(c, a.ref, Store(Select(c, a.ref), a.idx, ls[i]))
			}
			return
		case "selem":
			if a.sl.ref == nil {
				unsup("assignment to an element of a slice that may be shared")
			}
			ls := x.leaves(val, st)
			for i, s := range leafSorts(a.typ) {
				k := fmt.Sprintf("A|%s|%d", typeKey(a.typ), i)
				c := x.comp(st, k, arrSort("Ref", arrSort("Int", s)))
				st.comps[k] = Store(c, a.sl.ref, Store(Select(c, a.sl.ref), Add(a.sl.off, a.idx), ls[i]))
			}
			return
		}
		unsup("store through %s address", a.kind)
	}
	panic(fmt.Sprintf("storeAddr %T", v))
}

func (x *Exec) addrRef(a *VAddr) *Term {
	unsup("address of %s escapes", a.key)
	return nil
}

// ---------------------------------------------------------------- facts & obligations

func (x *Exec) guard(cond *Term) *Term {
	return And(append(append([]*Term{}, x.guards...), cond)...)
}

func (x *Exec) addFact(f *Term) { // universally valid
	if f == tTrue {
		return
	}
	x.rec.facts = append(x.rec.facts, f)
}
func (x *Exec) assumeAt(cond, f *Term) {
	x.addFact(Implies(x.guard(cond), f))
}

func (x *Exec) oblige(kind, label string, cond, goal *Term, pos token.Pos) {
	g := Implies(x.guard(cond), goal)
	if g == tTrue {
		x.eng.trivial++
		if kind != "ensures" {
			return
		}
	}
	x.rec.obls = append(x.rec.obls, &Obl{label: label, kind: kind, goal: g, pos: x.eng.posStr(pos),
		hyps: x.rec.facts[:len(x.rec.facts):len(x.rec.facts)], free: append([]*Term{}, x.cv...)})
}

// safety obligation: returns the strengthened path condition
func (x *Exec) safe(what string, cond, ok *Term, pos token.Pos) *Term {
	if ok == tTrue {
		return cond
	}
	if !x.mayPanic && x.assume == 0 && x.pure == 0 {
		x.oblige("safety", what, cond, ok, pos)
	}
	return And(cond, ok)
}

func (x *Exec) fresh(prefix, sort string) *Term {
	x.symSeq++
	name := fmt.Sprintf("%s!%s%d", prefix, x.tag, x.symSeq)
	return App(name, sort, x.cv...)
}
func (x *Exec) freshOld(prefix, sort string) *Term {
	t := x.fresh(prefix, sort)
	oldSyms[t.name] = true
	t.old = 0
	return t
}
func (x *Exec) freshValue(prefix string, t types.Type) Value {
	var ls []*Term
	roles := leafRoles(t)
	for i, s := range leafSorts(t) {
		if roles[i] == "#off" {
			ls = append(ls, Int(0))
			continue
		}
		f := x.freshOld(prefix, s)
		if roles[i] == "#len" {
			nonNegSyms[f.name] = true
		}
		ls = append(ls, f)
	}
	v := fromLeaves(t, ls)
	fixNN(v)
	return v
}

func (x *Exec) newRef() *Term {
	x.siteSeq++
	return New(x.siteSeq, x.cv)
}

// ---------------------------------------------------------------- function execution

type frame struct {
	x       *Exec
	fn      *ssa.Function
	env     map[ssa.Value]Value
	rets    []retInfo
	defers  []deferInfo
	loops   map[*ssa.BasicBlock]*natLoop
	rpo     map[*ssa.BasicBlock]int
	headIf  map[*ssa.BasicBlock]*Term
	curK    map[*ssa.BasicBlock]*Term
	strNext *Term
}
type deferInfo struct {
	cond *Term
	call *ssa.Defer
	args []Value
	fnv  Value
}
type retInfo struct {
	cond *Term
	st   *State
	v    Value
}
type edge struct {
	from, to *ssa.BasicBlock
	cond     *Term
	st       *State
	vals     map[ssa.Value]Value
}
type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*natLoop, map[*ssa.BasicBlock]int) {
	loops := map[*ssa.BasicBlock]*natLoop{}
	rpo := map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := loops[h]
				if l == nil {
					l = &natLoop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					loops[h] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	return loops, rpo
}

// call executes fn with args; returns result value, exit state, exit condition (relative to cond)
func (x *Exec) callFn(fn *ssa.Function, args []Value, bind []Value, st *State, cond *Term) (Value, *State, *Term) {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if len(x.stack) > 60 {
		unsup("inlining too deep at %s", fn)
	}
	outer, outerGuards := x.stack, x.guards
	x.stack = append(x.stack, fn)
	x.guards = append(x.guards, cond)
	defer func() {
		x.stack, x.guards = outer, outerGuards
	}()
	f := &frame{x: x, fn: fn, env: map[ssa.Value]Value{}, headIf: map[*ssa.BasicBlock]*Term{}, curK: map[*ssa.BasicBlock]*Term{}}
	f.loops, f.rpo = findLoops(fn)
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = bind[i]
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	f.runRegion(fn.Blocks[0], all, nil, []edge{{from: nil, to: fn.Blocks[0], cond: tTrue, st: st}})
	if len(f.rets) == 0 {
		return nil, st, tFalse
	}
	var conds []*Term
	var vals []Value
	var sts []*State
	for _, r := range f.rets {
		conds = append(conds, r.cond)
		vals = append(vals, r.v)
		sts = append(sts, r.st)
	}
	return x.mergeValues(conds, vals, sts), x.mergeStates(conds, sts), And(cond, Or(conds...))
}

func (x *Exec) mergeStates(conds []*Term, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	same := true
	for _, s := range sts[1:] {
		if s != sts[0] {
			same = false
		}
	}
	if same {
		return sts[0]
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.comps {
			keys[k] = true
		}
	}
	out := &State{comps: map[string]*Term{}}
	for _, k := range sortedKeys(keys) {
		n := len(sts)
		t := x.comp(sts[n-1], k, compSorts[k])
		for i := n - 2; i >= 0; i-- {
			t = Ite(conds[i], x.comp(sts[i], k, compSorts[k]), t)
		}
		out.comps[k] = t
	}
	return out
}

func (x *Exec) mergeValues(conds []*Term, vals []Value, sts []*State) Value {
	if len(vals) == 1 {
		return vals[0]
	}
	v0 := vals[0]
	switch a := v0.(type) {
	case nil:
		return nil
	case *Term:
		n := len(vals)
		lt, ok := vals[n-1].(*Term)
		if !ok {
			lt = x.leaves(vals[n-1], sts[n-1])[0]
		}
		t := lt
		for i := n - 2; i >= 0; i-- {
			ti, ok := vals[i].(*Term)
			if !ok {
				ti = x.leaves(vals[i], sts[i])[0]
			}
			t = Ite(conds[i], ti, t)
		}
		return t
	case *VTuple:
		out := &VTuple{}
		for k := range a.f {
			var vs []Value
			for _, v := range vals {
				vs = append(vs, v.(*VTuple).f[k])
			}
			out.f = append(out.f, x.mergeValues(conds, vs, sts))
		}
		return out
	case *VStruct:
		out := &VStruct{typ: a.typ}
		for k := range a.f {
			var vs []Value
			for _, v := range vals {
				vs = append(vs, v.(*VStruct).f[k])
			}
			out.f = append(out.f, x.mergeValues(conds, vs, sts))
		}
		return out
	case *VSlice:
		allSame := true
		for _, v := range vals[1:] {
			if b := v.(*VSlice); b.ref != a.ref || a.ref == nil {
				allSame = false
			}
		}
		var ss []*VSlice
		for i, v := range vals {
			s := v.(*VSlice)
			if !allSame {
				s = x.snapshot(s, sts[i])
			}
			ss = append(ss, s)
		}
		out := &VSlice{elem: a.elem}
		if allSame {
			out.ref = a.ref
		}
		n := len(ss)
		out.off, out.ln, out.nn = ss[n-1].off, ss[n-1].ln, ss[n-1].nn
		out.arr = append([]*Term{}, ss[n-1].arr...)
		for i := n - 2; i >= 0; i-- {
			out.off = Ite(conds[i], ss[i].off, out.off)
			out.ln = Ite(conds[i], ss[i].ln, out.ln)
			out.nn = Ite(conds[i], ss[i].nn, out.nn)
			for k := range out.arr {
				out.arr[k] = Ite(conds[i], ss[i].arr[k], out.arr[k])
			}
		}
		return out
	case *VArray:
		out := &VArray{elem: a.elem, n: a.n}
		n := len(vals)
		out.arr = append([]*Term{}, vals[n-1].(*VArray).arr...)
		for i := n - 2; i >= 0; i-- {
			for k := range out.arr {
				out.arr[k] = Ite(conds[i], vals[i].(*VArray).arr[k], out.arr[k])
			}
		}
		return out
	case *VFunc:
		for _, v := range vals[1:] {
			b, ok := v.(*VFunc)
			if !ok || b.fn != a.fn || len(b.bind) != len(a.bind) {
				unsup("merge of function values")
			}
			for i := range a.bind {
				if a.bind[i] != b.bind[i] {
					unsup("merge of closures")
				}
			}
		}
		return a
	case *VAddr:
		for _, v := range vals[1:] {
			b, ok := v.(*VAddr)
			if !ok || b.key != a.key || b.ref != a.ref || b.kind != a.kind || b.idx != a.idx {
				unsup("merge of addresses")
			}
		}
		return a
	case *VIter:
		return a
	}
	panic(fmt.Sprintf("merge %T", v0))
}

// runRegion executes the blocks of region starting at start. header (if not nil) is the loop whose body this is.
func (f *frame) runRegion(start *ssa.BasicBlock, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in []edge) (exits, backs []edge) {
	x := f.x
	pend := map[*ssa.BasicBlock][]edge{start: in}
	var order []*ssa.BasicBlock
	for b := range region {
		order = append(order, b)
	}
	sort.Slice(order, func(i, j int) bool { return f.rpo[order[i]] < f.rpo[order[j]] })
	done := map[*ssa.BasicBlock]bool{}
	route := func(e edge) {
		if e.cond == tFalse {
			return
		}
		if header != nil && e.to == header {
			backs = append(backs, e)
		} else if !region[e.to] {
			exits = append(exits, e)
		} else {
			pend[e.to] = append(pend[e.to], e)
		}
	}
	for _, b := range order {
		if done[b] || len(pend[b]) == 0 {
			continue
		}
		if l := f.loops[b]; l != nil && b != header {
			for lb := range l.blocks {
				done[lb] = true
			}
			for _, e := range f.execLoop(l, pend[b]) {
				route(e)
			}
			continue
		}
		es := pend[b]
		cond, st := x.mergeEdges(es)
		// phis
		if !(b == header && header != nil) {
			f.doPhis(b, es)
		}
		f.execBlock(b, cond, st.copy(), route)
	}
	return
}

func (x *Exec) mergeEdges(es []edge) (*Term, *State) {
	var conds []*Term
	var sts []*State
	for _, e := range es {
		conds = append(conds, e.cond)
		sts = append(sts, e.st)
	}
	return Or(conds...), x.mergeStates(conds, sts)
}

func (f *frame) doPhis(b *ssa.BasicBlock, es []edge) {
	vals := map[*ssa.Phi]Value{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = f.phiValue(phi, b, es)
	}
	for p, v := range vals {
		f.env[p] = v
	}
}

func (f *frame) phiValue(phi *ssa.Phi, b *ssa.BasicBlock, es []edge) Value {
	var conds []*Term
	var vs []Value
	var sts []*State
	for _, e := range es {
		for i, p := range b.Preds {
			if p == e.from {
				conds = append(conds, e.cond)
				if ov, ok := e.vals[phi.Edges[i]]; ok {
					vs = append(vs, ov)
				} else {
					vs = append(vs, f.val(phi.Edges[i], e.st))
				}
				sts = append(sts, e.st)
				break
			}
		}
	}
	if len(vs) == 0 {
		panic("phi without edges")
	}
	return f.x.mergeValues(conds, vs, sts)
}

func (f *frame) val(v ssa.Value, st *State) Value {
	if r, ok := f.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return f.x.constValue(v)
	case *ssa.Function:
		return &VFunc{fn: v}
	case *ssa.Global:
		return f.x.globalAddr(v)
	case *ssa.Builtin:
		return v
	}
	panic(fmt.Sprintf("%s: no value for %s = %s (%T)", f.fn, v.Name(), v, v))
}

func (x *Exec) constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolT(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return BigInt(n)
		case u.Info()&types.IsString != 0:
			return Str(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			if constant.Sign(c.Value) == 0 {
				return zeroLeaf("Flt")
			}
			return App("fltlit!"+c.Value.ExactString(), "Flt")
		}
	}
	unsup("constant %s", c)
	return nil
}

// globals: cells at the null reference of component G|name
func (x *Exec) globalAddr(g *ssa.Global) Value {
	t := g.Type().(*types.Pointer).Elem()
	if isStructLike(t) {
		r := Fld("global:"+g.String(), tNull)
		return r
	}
	return &VAddr{kind: "field", ref: tNull, key: "G|" + g.String(), typ: t}
}

// known decides a condition that is a literal of the path condition
func (x *Exec) known(c, cond *Term) *Term {
	if c == tTrue || c == tFalse {
		return c
	}
	n := Not(c)
	look := func(g *Term) *Term {
		lits := x.litMemo[g]
		if lits == nil {
			lits = map[*Term]bool{}
			guardLits(g, lits)
			x.litMemo[g] = lits
		}
		if lits[c] {
			return tTrue
		}
		if lits[n] {
			return tFalse
		}
		return nil
	}
	if r := look(cond); r != nil {
		return r
	}
	for _, g := range x.guards {
		if r := look(g); r != nil {
			return r
		}
	}
	return c
}

func (f *frame) execBlock(b *ssa.BasicBlock, cond *Term, st *State, route func(edge)) {
	x := f.x
	for _, ins := range b.Instrs {
		x.steps++
		if x.steps > 3000000 {
			unsup("symbolic execution too long")
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.known(f.val(i.Cond, st).(*Term), cond)
			f.headIf[b] = c
			route(edge{from: b, to: b.Succs[0], cond: And(cond, c), st: st})
			route(edge{from: b, to: b.Succs[1], cond: And(cond, Not(c)), st: st})
			return
		case *ssa.Jump:
			f.headIf[b] = nil
			route(edge{from: b, to: b.Succs[0], cond: cond, st: st})
			return
		case *ssa.Return:
			var v Value
			if len(i.Results) == 1 {
				v = f.val(i.Results[0], st)
				if a, ok := v.(*VSlice); ok {
					_ = a
				}
			} else if len(i.Results) > 1 {
				t := &VTuple{}
				for _, r := range i.Results {
					t.f = append(t.f, f.val(r, st))
				}
				v = t
			}
			f.rets = append(f.rets, retInfo{cond, st, v})
			return
		case *ssa.Panic:
			x.safe("no-panic", cond, tFalse, i.Pos())
			return
		default:
			cond = f.instr(ins, cond, st)
			if cond == tFalse {
				return
			}
		}
	}
}

func (f *frame) setv(v ssa.Value, r Value) {
	if len(f.x.subst) > 0 {
		if t, ok := r.(*Term); ok {
			if u, ok := f.x.subst[t]; ok {
				r = u
			}
		}
	}
	f.env[v] = r
}

func (x *Exec) nonNil(v Value, cond *Term, pos token.Pos) *Term {
	if t, ok := v.(*Term); ok && t.sort == "Ref" {
		return x.safe("no-nil-dereference", cond, Not(Eq(t, tNull)), pos)
	}
	return cond
}

func (f *frame) instr(ins ssa.Instruction, cond *Term, st *State) *Term {
	x := f.x
	switch i := ins.(type) {
	case *ssa.Alloc:
		r := x.newRef()
		t := i.Type().(*types.Pointer).Elem()
		x.storeRef(st, t, r, zeroValue(t))
		f.setv(i, r)
	case *ssa.BinOp:
		v, c := x.binop(i, f.val(i.X, st), f.val(i.Y, st), st, cond)
		f.setv(i, v)
		return c
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			a := f.val(i.X, st)
			cond = x.nonNil(a, cond, i.Pos())
			if g, ok := i.X.(*ssa.Global); ok {
				if v := x.eng.constGlobal(g); v != nil {
					f.setv(i, v)
					return cond
				}
			}
			lv := x.loadAddr(st, a, i.Type())
			if va, ok := a.(*VAddr); ok && va.kind == "selem" {
				x.inputElemFacts(lv, i.Type(), cond)
			}
			f.setv(i, lv)
		case token.NOT:
			f.setv(i, Not(f.val(i.X, st).(*Term)))
		case token.SUB:
			t := f.val(i.X, st).(*Term)
			if t.sort == "Int" {
				f.setv(i, Neg(t))
			} else {
				f.setv(i, App("fneg", "Flt", t))
			}
		default:
			unsup("unary %s", i.Op)
		}
	case *ssa.ChangeType:
		v := f.val(i.X, st)
		f.setv(i, x.retype(v, i.Type()))
	case *ssa.ChangeInterface:
		f.setv(i, f.val(i.X, st))
	case *ssa.Convert:
		f.setv(i, x.convert(f.val(i.X, st), i.X.Type(), i.Type(), st))
	case *ssa.MakeInterface:
		f.setv(i, x.makeIface(f.val(i.X, st), i.X.Type(), st))
	case *ssa.TypeAssert:
		v, c := x.typeAssert(i, f.val(i.X, st).(*Term), cond)
		f.setv(i, v)
		return c
	case *ssa.Extract:
		f.setv(i, f.val(i.Tuple, st).(*VTuple).f[i.Index])
	case *ssa.Field:
		f.setv(i, f.val(i.X, st).(*VStruct).f[i.Field])
	case *ssa.FieldAddr:
		b := f.val(i.X, st)
		cond = x.nonNil(b, cond, i.Pos())
		stt := i.X.Type().Underlying().(*types.Pointer).Elem()
		ft := stt.Underlying().(*types.Struct).Field(i.Field).Type()
		switch bb := b.(type) {
		case *Term:
			if isStructLike(ft) {
				f.setv(i, Fld(fieldKey(stt, i.Field), bb))
			} else {
				f.setv(i, &VAddr{kind: "field", ref: bb, key: "F|" + fieldKey(stt, i.Field), typ: ft})
			}
		case *VAddr:
			f.setv(i, &VAddr{kind: "sub", par: bb, fi: i.Field, typ: ft})
		default:
			unsup("fieldaddr of %T", b)
		}
	case *ssa.IndexAddr:
		b := f.val(i.X, st)
		idx := f.val(i.Index, st).(*Term)
		switch bb := b.(type) {
		case *VSlice:
			cond = x.safe("index-in-range", cond, And(Le(Int(0), idx), Lt(idx, bb.ln)), i.Pos())
			f.setv(i, &VAddr{kind: "selem", sl: bb, idx: idx, typ: bb.elem})
		case *Term:
			at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			cond = x.safe("index-in-range", cond, And(Le(Int(0), idx), Lt(idx, Int(at.Len()))), i.Pos())
			f.setv(i, &VAddr{kind: "aelem", ref: bb, idx: idx, typ: at.Elem()})
		default:
			unsup("indexaddr of %T", b)
		}
	case *ssa.Index:
		b := f.val(i.X, st)
		idx := f.val(i.Index, st).(*Term)
		switch bb := b.(type) {
		case *Term:
			cond = x.safe("index-in-range", cond, And(Le(Int(0), idx), Lt(idx, SLen(bb))), i.Pos())
			f.setv(i, SAt(bb, idx))
		case *VArray:
			cond = x.safe("index-in-range", cond, And(Le(Int(0), idx), Lt(idx, Int(bb.n))), i.Pos())
			var ls []*Term
			for _, a := range bb.arr {
				ls = append(ls, Select(a, idx))
			}
			f.setv(i, fromLeaves(bb.elem, ls))
		default:
			unsup("index of %T", b)
		}
	case *ssa.Lookup:
		if m, ok := i.X.Type().Underlying().(*types.Map); ok {
			f.setv(i, x.mapLookup(f.val(i.X, st).(*Term), m, f.val(i.Index, st), i.CommaOk, st))
			return cond
		}
		s := f.val(i.X, st).(*Term)
		idx := f.val(i.Index, st).(*Term)
		cond = x.safe("index-in-range", cond, And(Le(Int(0), idx), Lt(idx, SLen(s))), i.Pos())
		f.setv(i, SAt(s, idx))
	case *ssa.MakeMap:
		r := x.newRef()
		m := i.Type().Underlying().(*types.Map)
		x.mapInit(st, m, r)
		f.setv(i, r)
	case *ssa.MapUpdate:
		m := i.Map.Type().Underlying().(*types.Map)
		r := f.val(i.Map, st).(*Term)
		cond = x.safe("no-nil-map-write", cond, Not(Eq(r, tNull)), i.Pos())
		x.mapStore(st, m, r, f.val(i.Key, st), f.val(i.Value, st))
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		ln := f.val(i.Len, st).(*Term)
		cond = x.safe("makeslice-len", cond, Le(Int(0), ln), i.Pos())
		if ln.op == "int" && ln.name == "0" {
			v := zeroValue(i.Type()).(*VSlice)
			v.nn = tTrue
			f.setv(i, v)
			return cond
		}
		r := x.newRef()
		for k, s := range leafSorts(et) {
			key := fmt.Sprintf("A|%s|%d", typeKey(et), k)
			c := x.comp(st, key, arrSort("Ref", arrSort("Int", s)))
			st.comps[key] = Store(c, r, zeroLeaf(arrSort("Int", s)))
		}
		v := zeroValue(i.Type()).(*VSlice)
		v.ref, v.ln, v.nn, v.off = r, ln, tTrue, Int(0)
		f.setv(i, v)
	case *ssa.Slice:
		v, c := x.slice(f, i, st, cond)
		f.setv(i, v)
		return c
	case *ssa.Store:
		a := f.val(i.Addr, st)
		cond = x.nonNil(a, cond, i.Pos())
		v := f.val(i.Val, st)
		x.storeAddr(st, a, i.Val.Type(), v)
	case *ssa.MakeClosure:
		c := &VFunc{fn: i.Fn}
		for _, b := range i.Bindings {
			c.bind = append(c.bind, f.val(b, st))
		}
		f.setv(i, c)
	case *ssa.Range:
		f.setv(i, x.rangeIter(i, f.val(i.X, st), st))
	case *ssa.Next:
		return f.nextInstr(i, cond, st)
	case *ssa.Call:
		v, nst, c := x.call(f, &i.Call, i, st, cond)
		*st = *nst
		f.setv(i, v)
		return c
	case *ssa.Defer:
		d := deferInfo{cond: cond, call: i}
		for _, a := range i.Call.Args {
			d.args = append(d.args, f.val(a, st))
		}
		if !i.Call.IsInvoke() {
			d.fnv = f.val(i.Call.Value, st)
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		for k := len(f.defers) - 1; k >= 0; k-- {
			d := f.defers[k]
			x.runDefer(f, d, st, cond)
		}
	default:
		unsup("instruction %T", ins)
	}
	return cond
}

func (x *Exec) runDefer(f *frame, d deferInfo, st *State, cond *Term) {
	if fn := d.call.Call.StaticCallee(); fn != nil {
		if fn.String() == "(*os.File).Close" {
			x.externs["(*os.File).Close"] = true
			return
		}
	}
	unsup("defer %s", d.call)
}

func (x *Exec) retype(v Value, t types.Type) Value {
	if s, ok := v.(*VStruct); ok {
		return &VStruct{typ: t, f: s.f}
	}
	return v
}

func (x *Exec) binop(i *ssa.BinOp, a, b Value, st *State, cond *Term) (Value, *Term) {
	switch i.Op {
	case token.EQL, token.NEQ:
		r := x.equalValues(a, b, i.X.Type(), i.Y.Type(), st)
		if i.Op == token.NEQ {
			r = Not(r)
		}
		return r, cond
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T", i.Op, a)
	}
	switch p.sort {
	case "Int":
		switch i.Op {
		case token.ADD:
			return Add(p, q), cond
		case token.SUB:
			return Sub(p, q), cond
		case token.MUL:
			return Mul(p, q), cond
		case token.QUO, token.REM:
			cond = x.safe("no-division-by-zero", cond, Not(Eq(q, Int(0))), i.Pos())
			op := "tdiv"
			if i.Op == token.REM {
				op = "tmod"
			}
			return mk(op, "", "Int", p, q), cond
		case token.LSS:
			return Lt(p, q), cond
		case token.LEQ:
			return Le(p, q), cond
		case token.GTR:
			return Lt(q, p), cond
		case token.GEQ:
			return Le(q, p), cond
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			return App("bit"+i.Op.String(), "Int", p, q), cond
		}
	case "Str":
		switch i.Op {
		case token.ADD:
			return Concat(p, q), cond
		case token.LSS:
			return mk("strlt", "", "Bool", p, q), cond
		case token.GTR:
			return mk("strlt", "", "Bool", q, p), cond
		case token.LEQ:
			return Not(mk("strlt", "", "Bool", q, p)), cond
		case token.GEQ:
			return Not(mk("strlt", "", "Bool", p, q)), cond
		}
	case "Flt":
		switch i.Op {
		case token.LSS:
			return App("flt<", "Bool", p, q), cond
		case token.GTR:
			return App("flt<", "Bool", q, p), cond
		case token.LEQ:
			return App("flt<=", "Bool", p, q), cond
		case token.GEQ:
			return App("flt<=", "Bool", q, p), cond
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return App("flt"+i.Op.String(), "Flt", p, q), cond
		}
	case "Bool":
		switch i.Op {
		case token.AND, token.LAND:
			return And(p, q), cond
		case token.OR, token.LOR:
			return Or(p, q), cond
		}
	}
	unsup("binop %s on %s", i.Op, p.sort)
	return nil, cond
}

func (x *Exec) equalValues(a, b Value, ta, tb types.Type, st *State) *Term {
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		b = x.makeIface(b, tb, st)
	}
	if ib && !ia {
		a = x.makeIface(a, ta, st)
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			if va, ok := b.(*VAddr); ok && p == tNull {
				_ = va
				return tFalse
			}
			unsup("comparison with %T", b)
		}
		return Eq(p, q)
	case *VSlice: // only against nil
		q := b.(*VSlice)
		if q.nn == tFalse {
			return Not(p.nn)
		}
		if p.nn == tFalse {
			return Not(q.nn)
		}
		unsup("slice comparison")
	case *VStruct:
		q := b.(*VStruct)
		var cs []*Term
		s := p.typ.Underlying().(*types.Struct)
		for k := range p.f {
			ft := s.Field(k).Type()
			cs = append(cs, x.equalValues(p.f[k], q.f[k], ft, ft, st))
		}
		return And(cs...)
	case *VAddr:
		if q, ok := b.(*Term); ok && q == tNull {
			return tFalse
		}
	case *VFunc:
		if q, ok := b.(*Term); ok && q.isLit() {
			return tFalse
		}
	}
	unsup("comparison of %T", a)
	return nil
}

// ---------------------------------------------------------------- interfaces

type iconInfo struct {
	name  string
	typ   types.Type
	sorts []string
	boxed bool
}

var icons = map[string]*iconInfo{}
var iconOrder []string

func iconFor(t types.Type) *iconInfo {
	k := typeKey(t)
	if ic, ok := icons[k]; ok {
		return ic
	}
	ic := &iconInfo{name: fmt.Sprintf("I%d", len(icons)), typ: t}
	ls := leafSorts(t)
	if len(ls) == 1 && !strings.HasPrefix(ls[0], "(Array") {
		ic.sorts = ls
	} else {
		ic.sorts = []string{"Int"}
		ic.boxed = true
	}
	icons[k] = ic
	iconOrder = append(iconOrder, k)
	return ic
}

const errIcon = "Ierr" // errors made by fmt.Errorf / errors.New (message)

func (x *Exec) makeIface(v Value, t types.Type, st *State) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(*Term)
	}
	if va, ok := v.(*VAddr); ok {
		// address of a leaf location used as an interface (e.g. &d.value): opaque pointer
		_ = va
		return ICon(iconFor(t).name, x.fresh("leafaddr", "Ref"))
	}
	if _, ok := v.(*VFunc); ok {
		return ICon(iconFor(t).name, x.fresh("funcval", "Int"))
	}
	ic := iconFor(t)
	ls := x.leaves(v, st)
	if !ic.boxed {
		return ICon(ic.name, ls[0])
	}
	id := App("box!"+ic.name, "Int", ls...)
	roles := leafRoles(t)
	for k, s := range leafSorts(t) {
		if roles[k] == "#off" {
			continue
		}
		// unboxing the box gives the leaf back
		lv := ls[k]
		x.addFact(Eq(App(fmt.Sprintf("unbox!%s!%d", ic.name, k), s, id), x.normOff(lv, ls, roles, k)))
	}
	return ICon(ic.name, id)
}

// boxed slices are stored at offset 0
func (x *Exec) normOff(lv *Term, ls []*Term, roles []string, k int) *Term {
	for j := k; j < len(roles); j++ {
		if roles[j] == "#off" && roles[k] == "" && strings.HasPrefix(lv.sort, "(Array Int") {
			if ls[j].op == "int" && ls[j].name == "0" {
				return lv
			}
			sh := x.fresh("shift", lv.sort)
			i := Var(fmt.Sprintf("i!%d", x.symSeq), "Int")
			x.addFact(Forall([]*Term{i}, Eq(Select(sh, i), Select(lv, Add(ls[j], i))), []*Term{Select(sh, i)}))
			return sh
		}
	}
	return lv
}

func (x *Exec) unbox(ic *iconInfo, t *Term) Value {
	if !ic.boxed {
		s := ISel(ic.name, 0, ic.sorts[0], t)
		v, _ := takeLeaves(ic.typ, []*Term{s})
		return v
	}
	id := ISel(ic.name, 0, "Int", t)
	var ls []*Term
	roles := leafRoles(ic.typ)
	for k, s := range leafSorts(ic.typ) {
		if roles[k] == "#off" {
			ls = append(ls, Int(0))
			continue
		}
		name := fmt.Sprintf("unbox!%s!%d", ic.name, k)
		if roles[k] == "#len" {
			nonNegSyms[name] = true
		}
		oldSyms[name] = true
		if id.op == "app" && id.name == "box!"+ic.name {
			ls = append(ls, id.args[k])
			continue
		}
		ls = append(ls, App(name, s, id))
	}
	v := fromLeaves(ic.typ, ls)
	fixNN(v)
	return v
}

func (x *Exec) typeAssert(i *ssa.TypeAssert, t *Term, cond *Term) (Value, *Term) {
	at := i.AssertedType
	if it, ok := at.Underlying().(*types.Interface); ok {
		if it.Empty() {
			if i.CommaOk {
				return &VTuple{f: []Value{t, Not(Eq(t, tNilI))}}, cond
			}
			return t, x.safe("type-assertion", cond, Not(Eq(t, tNilI)), i.Pos())
		}
		// concrete icons implementing the interface
		var impl []*Term
		for _, k := range iconOrder {
			ic := icons[k]
			if types.Implements(ic.typ, it) {
				impl = append(impl, ITest(ic.name, t))
			}
		}
		if it.NumMethods() == 1 && it.Method(0).Name() == "Error" {
			impl = append(impl, ITest(errIcon, t))
		}
		ok := Or(append(impl, App("implements!"+typeKey(at), "Bool", t))...)
		ok = And(ok, Not(Eq(t, tNilI)))
		if i.CommaOk {
			return &VTuple{f: []Value{Ite(ok, t, tNilI), ok}}, cond
		}
		return t, x.safe("type-assertion", cond, ok, i.Pos())
	}
	ic := iconFor(at)
	ok := ITest(ic.name, t)
	v := x.unbox(ic, t)
	if _, isp := at.Underlying().(*types.Pointer); isp && x.eng.nonNilElems && noTypedNil(t) {
		// inputs hold no typed nil pointers
		x.addFact(Implies(ok, Not(Eq(v.(*Term), tNull))))
	}
	if i.CommaOk {
		// value is zero when the assertion fails
		z := zeroValue(at)
		mv := x.mergeValues([]*Term{ok, Not(ok)}, []Value{v, z}, []*State{x.h0, x.h0})
		return &VTuple{f: []Value{mv, ok}}, cond
	}
	return v, x.safe("type-assertion", cond, ok, i.Pos())
}

// ---------------------------------------------------------------- maps

func mapKeySort(m *types.Map) string {
	ls := leafSorts(m.Key())
	if len(ls) != 1 {
		unsup("map key %s", m.Key())
	}
	return ls[0]
}
func (x *Exec) mapComps(st *State, m *types.Map) (dk, lk string, vks []string, ds, lsrt string, vss []string) {
	k := typeKey(m)
	ks := mapKeySort(m)
	dk, lk = "MD|"+k, "ML|"+k+"#len"
	ds, lsrt = arrSort("Ref", arrSort(ks, "Bool")), arrSort("Ref", "Int")
	roles := leafRoles(m.Elem())
	for i, s := range leafSorts(m.Elem()) {
		vks = append(vks, fmt.Sprintf("MV|%s|%d%s", k, i, roles[i]))
		vss = append(vss, arrSort("Ref", arrSort(ks, s)))
	}
	return
}

func (x *Exec) mapInit(st *State, m *types.Map, r *Term) {
	dk, lk, vks, ds, ls, vss := x.mapComps(st, m)
	_, e := arrParts(ds)
	st.comps[dk] = Store(x.comp(st, dk, ds), r, ConstArr(e, tFalse))
	st.comps[lk] = Store(x.comp(st, lk, ls), r, Int(0))
	for i := range vks {
		_, e := arrParts(vss[i])
		st.comps[vks[i]] = Store(x.comp(st, vks[i], vss[i]), r, zeroLeaf(e))
	}
}

func (x *Exec) mapDom(st *State, m *types.Map, r *Term) *Term {
	dk, _, _, ds, _, _ := x.mapComps(st, m)
	return Select(x.comp(st, dk, ds), r)
}
func (x *Exec) mapVals(st *State, m *types.Map, r *Term) []*Term {
	_, _, vks, _, _, vss := x.mapComps(st, m)
	var out []*Term
	for i := range vks {
		out = append(out, Select(x.comp(st, vks[i], vss[i]), r))
	}
	return out
}
func (x *Exec) mapLen(st *State, m *types.Map, r *Term) *Term {
	_, lk, _, _, ls, _ := x.mapComps(st, m)
	n := Select(x.comp(st, lk, ls), r)
	dom := x.mapDom(st, m, r)
	x.symSeq++
	kv := Var(fmt.Sprintf("key!%d", x.symSeq), mapKeySort(m))
	// a non-empty domain means a positive length and conversely
	x.addFact(Implies(Not(Eq(r, tNull)), Forall([]*Term{kv}, Implies(Select(dom, kv), Lt(Int(0), n)), []*Term{Select(dom, kv)})))
	w := x.fresh("somekey", mapKeySort(m))
	x.addFact(Implies(And(Not(Eq(r, tNull)), Lt(Int(0), n)), Select(dom, w)))
	return Ite(Eq(r, tNull), Int(0), n)
}

func (x *Exec) mapLookup(r *Term, m *types.Map, key Value, commaOk bool, st *State) Value {
	k := x.leaves(key, st)[0]
	ok := And(Not(Eq(r, tNull)), Select(x.mapDom(st, m, r), k))
	var ls []*Term
	for _, va := range x.mapVals(st, m, r) {
		v := Select(va, k)
		ls = append(ls, Ite(ok, v, zeroLeaf(v.sort)))
	}
	v := fromLeaves(m.Elem(), ls)
	fixNN(v)
	if _, isp := m.Elem().Underlying().(*types.Pointer); isp && x.eng.nonNilElems {
		raw := Select(x.mapVals(st, m, r)[0], k)
		if isInput(raw) {
			x.addFact(Implies(ok, Not(Eq(raw, tNull))))
		}
	}
	if commaOk {
		return &VTuple{f: []Value{v, ok}}
	}
	return v
}

func (x *Exec) mapStore(st *State, m *types.Map, r *Term, key, val Value) {
	k := x.leaves(key, st)[0]
	dk, lk, vks, ds, ls, vss := x.mapComps(st, m)
	dom := x.comp(st, dk, ds)
	ln := x.comp(st, lk, ls)
	old := Select(Select(dom, r), k)
	st.comps[lk] = Store(ln, r, Ite(old, Select(ln, r), Add(Select(ln, r), Int(1))))
	st.comps[dk] = Store(dom, r, Store(Select(dom, r), k, tTrue))
	lv := x.leaves(val, st)
	for i := range vks {
		c := x.comp(st, vks[i], vss[i])
		st.comps[vks[i]] = Store(c, r, Store(Select(c, r), k, lv[i]))
	}
}

func (x *Exec) mapDelete(st *State, m *types.Map, r *Term, key Value) {
	k := x.leaves(key, st)[0]
	dk, lk, _, ds, ls, _ := x.mapComps(st, m)
	dom := x.comp(st, dk, ds)
	ln := x.comp(st, lk, ls)
	old := Select(Select(dom, r), k)
	st.comps[lk] = Store(ln, r, Ite(old, Sub(Select(ln, r), Int(1)), Select(ln, r)))
	st.comps[dk] = Store(dom, r, Store(Select(dom, r), k, tFalse))
}

func (x *Exec) rangeIter(i *ssa.Range, v Value, st *State) Value {
	x.symSeq++
	it := &VIter{id: fmt.Sprintf("it%s%d", x.tag, x.symSeq), cv: append([]*Term{}, x.cv...), st: st.copy()}
	switch m := i.X.Type().Underlying().(type) {
	case *types.Map:
		r := v.(*Term)
		it.mapRef, it.mt = r, m
		it.dom = x.mapDom(st, m, r)
		it.vals = x.mapVals(st, m, r)
		it.n = x.mapLen(st, m, r)
		ks := mapKeySort(m)
		ka := func(j *Term) *Term { return App("keyAt!"+it.id, ks, append(append([]*Term{}, it.cv...), j)...) }
		pos := func(k *Term) *Term { return App("pos!"+it.id, "Int", append(append([]*Term{}, it.cv...), k)...) }
		j := Var(fmt.Sprintf("j!%d", x.symSeq), "Int")
		kv := Var(fmt.Sprintf("q!%d", x.symSeq), ks)
		x.addFact(Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, it.n)), And(Select(it.dom, ka(j)), Eq(pos(ka(j)), j))), []*Term{ka(j)}))
		x.addFact(Forall([]*Term{kv}, Implies(And(Not(Eq(r, tNull)), Select(it.dom, kv)), And(Le(Int(0), pos(kv)), Lt(pos(kv), it.n), Eq(ka(pos(kv)), kv))), []*Term{Select(it.dom, kv)}, []*Term{pos(kv)}))
	case *types.Basic:
		it.str = v.(*Term)
	default:
		unsup("range over %s", i.X.Type())
	}
	return it
}

func (it *VIter) key(j *Term) *Term {
	return App("keyAt!"+it.id, mapKeySort(it.mt), append(append([]*Term{}, it.cv...), j)...)
}

// ---------------------------------------------------------------- conversions, slices

func (x *Exec) convert(v Value, from, to types.Type, st *State) Value {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		t := v.(*Term)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return convInt(t, fb, tb)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return App("fltOfInt", "Flt", t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return App("truncFlt", "Int", t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if fb.Kind() == types.Float32 && tb.Kind() == types.Float64 || fb.Kind() == tb.Kind() {
				return t
			}
			return App("f32OfFlt", "Flt", t)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return mk("runestr", "", "Str", t)
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s := v.(*Term)
			eb, _ := sl.Elem().Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				return &VSlice{elem: sl.Elem(), arr: []*Term{mk("strbytes", "", "(Array Int Int)", s)}, off: Int(0), ln: SLen(s), nn: tTrue}
			}
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := v.(*VSlice); ok {
			sl = x.snapshot(sl, st)
			eb, _ := sl.elem.Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				if sl.arr[0].op == "strbytes" && sl.off.op == "int" && sl.off.name == "0" && sl.ln == SLen(sl.arr[0].args[0]) {
					return sl.arr[0].args[0]
				}
				r := mk("bytestr", "", "Str", sl.arr[0], sl.off, sl.ln)
				x.symSeq++
				i := Var(fmt.Sprintf("i!%d", x.symSeq), "Int")
				x.addFact(Implies(Le(Int(0), sl.ln), Eq(mk("slen", "", "Int", r), sl.ln)))
				x.addFact(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, sl.ln)), Eq(SAt(r, i), Select(sl.arr[0], Add(sl.off, i)))), []*Term{SAt(r, i)}))
				return r
			}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func intBits(b *types.Basic) (bits int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func convInt(t *Term, fb, tb *types.Basic) *Term {
	fbits, fs := intBits(fb)
	tbits, ts := intBits(tb)
	if tbits > fbits && (ts || !fs) || tbits == fbits && fs == ts {
		return t
	}
	if n, ok := t.intVal(); ok {
		m := new(big.Int).Lsh(big.NewInt(1), uint(tbits))
		r := new(big.Int).Mod(n, m)
		if ts && r.Bit(tbits-1) == 1 {
			r.Sub(r, m)
		}
		return BigInt(r)
	}
	name := fmt.Sprintf("wrap%d", tbits)
	if ts {
		name += "s"
	}
	return mk(name, "", "Int", t)
}

func (x *Exec) slice(f *frame, i *ssa.Slice, st *State, cond *Term) (Value, *Term) {
	v := f.val(i.X, st)
	lo := Int(0)
	if i.Low != nil {
		lo = f.val(i.Low, st).(*Term)
	}
	switch b := v.(type) {
	case *Term:
		if b.sort == "Str" {
			hi := SLen(b)
			if i.High != nil {
				hi = f.val(i.High, st).(*Term)
			}
			cond = x.safe("slice-in-range", cond, And(Le(Int(0), lo), Le(lo, hi), Le(hi, SLen(b))), i.Pos())
			return SubStr(b, lo, hi), cond
		}
		// pointer to array
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		hi := Int(at.Len())
		if i.High != nil {
			hi = f.val(i.High, st).(*Term)
		}
		va := x.loadRef(st, i.X.Type().Underlying().(*types.Pointer).Elem(), b).(*VArray)
		return &VSlice{elem: at.Elem(), arr: va.arr, off: lo, ln: Sub(hi, lo), nn: tTrue}, cond
	case *VSlice:
		hi := b.ln
		if i.High != nil {
			hi = f.val(i.High, st).(*Term)
			// reslicing beyond len up to cap is not modelled
		}
		cond = x.safe("slice-in-range", cond, And(Le(Int(0), lo), Le(lo, hi), Le(hi, b.ln)), i.Pos())
		n := *b
		n.off = Add(b.off, lo)
		n.ln = Sub(hi, lo)
		return &n, cond
	}
	unsup("slice of %T", v)
	return nil, cond
}

func (x *Exec) appendSlice(a, b *VSlice, st *State) *VSlice {
	a, b = x.snapshot(a, st), x.snapshot(b, st)
	if a.ln.op == "int" && a.ln.name == "0" {
		r := *b
		r.nn = Or(a.nn, Lt(Int(0), b.ln))
		return &r
	}
	if n, ok := b.ln.intVal(); ok && n.IsInt64() && n.Int64() <= 64 {
		r := &VSlice{elem: a.elem, off: a.off, ln: Add(a.ln, b.ln), nn: tTrue, arr: append([]*Term{}, a.arr...)}
		if n.Sign() == 0 {
			return a
		}
		for k := range r.arr {
			for j := int64(0); j < n.Int64(); j++ {
				r.arr[k] = Store(r.arr[k], Add(Add(a.off, a.ln), Int(j)), Select(b.arr[k], Add(b.off, Int(j))))
			}
		}
		return r
	}
	r := &VSlice{elem: a.elem, off: Int(0), ln: Add(a.ln, b.ln), nn: Or(a.nn, Lt(Int(0), b.ln))}
	for k := range a.arr {
		R := App("appendArr|"+a.arr[k].sort, a.arr[k].sort, a.arr[k], a.off, a.ln, b.arr[k], b.off, b.ln)
		x.symSeq++
		i := Var(fmt.Sprintf("i!%d", x.symSeq), "Int")
		x.addFact(Forall([]*Term{i}, And(
			Implies(And(Le(Int(0), i), Lt(i, a.ln)), Eq(Select(R, i), Select(a.arr[k], Add(a.off, i)))),
			Implies(And(Le(a.ln, i), Lt(i, r.ln)), Eq(Select(R, i), Select(b.arr[k], Add(b.off, Sub(i, a.ln)))))), []*Term{Select(R, i)}))
		r.arr = append(r.arr, R)
	}
	return r
}

// ---------------------------------------------------------------- calls

func (x *Exec) call(f *frame, c *ssa.CallCommon, ins ssa.Value, st *State, cond *Term) (Value, *State, *Term) {
	if c.IsInvoke() {
		return x.invoke(f, c, ins, st, cond)
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, f.val(a, st))
	}
	switch fn := c.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(f, fn, c, args, ins, st, cond)
	}
	fv := f.val(c.Value, st)
	vf, ok := fv.(*VFunc)
	if !ok {
		unsup("call of unknown function value %s", c.Value)
	}
	fn := vf.fn.(*ssa.Function)
	return x.callFunction(fn, args, vf.bind, st, cond, ins.Pos())
}

func (x *Exec) callFunction(fn *ssa.Function, args []Value, bind []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	if org := fn.Origin(); org != nil && x.eng.isSpecPkgFn(org) && strings.HasPrefix(org.Name(), "v") && isIntrinsic(org.Name()) {
		return x.intrinsic(org.Name(), fn, args, st, cond, pos)
	}
	if x.eng.isSpecFile(fn) && isIntrinsic(fn.Name()) {
		return x.intrinsic(fn.Name(), fn, args, st, cond, pos)
	}
	if x.assume > 0 && fn == x.hole {
		return x.takeHole(fn, st), st, cond
	}
	if m, ok := externModels[fn.String()]; ok {
		x.externs[fn.String()] = true
		v, nst, nc := m(x, fn, args, st, cond, pos)
		return v, nst, nc
	}
	if x.eng.opaqueFns[fn.String()] {
		x.externs[fn.String()+" (assumed effect-free)"] = true
		return x.ufResult(fn, args, st), st, cond
	}
	if fn.Pkg != nil && !x.eng.ours(fn) || fn.Pkg == nil && len(fn.Blocks) == 0 {
		return x.externDefault(fn, args, st), st, cond
	}
	if x.eng.isSpecFile(fn) && (x.eng.opaqueSpec[fn] || x.assume > 0 && x.eng.hiddenSpec[fn] || x.eng.hasFuel(fn) || x.eng.recursive(fn)) {
		return x.specUF(fn, args, st, cond), st, cond
	}
	h := x.eng.contractOf[fn]
	if h != nil && (x.onStack(fn) || x.eng.modular[fn] && !x.target[fn]) {
		return x.applyContract(fn, h, args, st, cond, pos)
	}
	if n := x.stackCount(fn); n > 0 {
		// recursion without a contract: the deeper call has to be unreachable, which becomes an obligation
		g := Not(x.guard(cond))
		if ok, _, _, _, _ := valid(x.rec.facts, g, 3); ok {
			x.oblige("recursion", "unreachable recursive call of "+shortName(fn.String()), cond, tFalse, pos)
			return x.freshResults(fn), st, tFalse
		}
		if n >= 3 || x.eng.isSpecFile(fn) {
			unsup("recursion without contract: %s", fn)
		}
	}
	if !x.eng.isSpecFile(fn) {
		x.inlined[fn.String()] = true
	}
	// a text argument that is one of a few literals: one call for each
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok || t.sort != "Str" || t.op != "ite" || x.splitting > 2 {
			continue
		}
		var conds, lits []*Term
		if !litLeaves(t, tTrue, &conds, &lits) || len(lits) > 16 {
			continue
		}
		x.splitting++
		var vals []Value
		var sts []*State
		var cs, outs []*Term
		for k, lit := range lits {
			as := append([]Value{}, args...)
			as[i] = lit
			c := And(cond, conds[k])
			if c == tFalse {
				continue
			}
			v, s2, c2 := x.callFunction(fn, as, bind, st, c, pos)
			vals, sts, cs, outs = append(vals, v), append(sts, s2), append(cs, conds[k]), append(outs, c2)
		}
		x.splitting--
		if len(vals) == 0 {
			return x.freshResults(fn), st, tFalse
		}
		return x.mergeValues(cs, vals, sts), x.mergeStates(cs, sts), Or(outs...)
	}
	return x.callMemo(fn, args, bind, st, cond)
}

// callMemo: a second call of the same function with the same arguments in the same state gives the same
// result (Go functions without outside effects are deterministic; used only where the first call changed
// nothing that existed before and returned nothing that it allocated)
type memoCall struct {
	fn   *ssa.Function
	args []*Term
	st   map[string]*Term
	cond *Term
	res  Value
	out  *Term
}

func (x *Exec) callMemo(fn *ssa.Function, args []Value, bind []Value, st *State, cond *Term) (Value, *State, *Term) {
	var key []*Term
	ok := len(bind) == 0 && x.assume == 0
	for _, a := range args {
		if !ok {
			break
		}
		switch v := a.(type) {
		case *Term:
			key = append(key, v)
		case *VSlice:
			key = append(key, x.leaves(v, st)...)
		default:
			ok = false
		}
	}
	if ok {
	search:
		for _, m := range x.rec.memo {
			if m.fn != fn || m.cond != cond || len(m.args) != len(key) {
				continue
			}
			for i := range key {
				if key[i] != m.args[i] {
					continue search
				}
			}
			for _, k := range stateKeys(st) {
				t := st.comps[k]
				o, ok := m.st[k]
				if !ok {
					o = x.comp(&State{comps: map[string]*Term{}}, k, compSorts[k])
				}
				if o != t {
					continue search
				}
			}
			for k, o := range m.st {
				if _, ok := st.comps[k]; !ok && o != x.comp(&State{comps: map[string]*Term{}}, k, compSorts[k]) {
					continue search
				}
			}
			return m.res, st, m.out
		}
	}
	lo := x.siteSeq + 1
	rec := x.rec
	before := map[string]*Term{}
	for k, t := range st.comps {
		before[k] = t
	}
	res, nst, out := x.callFn(fn, args, bind, st.copy(), cond)
	if !ok || res == nil || rec != x.rec {
		return res, nst, out
	}
	for _, k := range stateKeys(nst) {
		t := nst.comps[k]
		o, ok := before[k]
		if !ok {
			o = x.comp(&State{comps: map[string]*Term{}}, k, compSorts[k])
		}
		if t != o && !onlyNewStores(t, o, lo) {
			return res, nst, out
		}
	}
	vs := []Value{res}
	if t, ok := res.(*VTuple); ok {
		vs = t.f
	}
	for _, v := range vs {
		t, ok := v.(*Term)
		if !ok {
			return res, nst, out
		}
		switch t.sort {
		case "Str", "Int", "Bool", "Flt", "Real":
		default:
			if !isOld(t) {
				return res, nst, out
			}
		}
	}
	x.rec.memo = append(x.rec.memo[:len(x.rec.memo):len(x.rec.memo)], memoCall{fn, key, before, cond, res, out})
	return res, nst, out
}

// litLeaves: the literals of an ite tree with the condition of each
func litLeaves(t, c *Term, conds, lits *[]*Term) bool {
	if len(*lits) > 16 {
		return false
	}
	switch t.op {
	case "str":
		for i, l := range *lits {
			if l == t {
				(*conds)[i] = Or((*conds)[i], c)
				return true
			}
		}
		*conds = append(*conds, c)
		*lits = append(*lits, t)
		return true
	case "ite":
		return litLeaves(t.args[1], And(c, t.args[0]), conds, lits) && litLeaves(t.args[2], And(c, Not(t.args[0])), conds, lits)
	}
	return false
}

func (x *Exec) stackCount(fn *ssa.Function) int {
	n := 0
	for _, g := range x.stack {
		if g == fn {
			n++
		}
	}
	return n
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, g := range x.stack {
		if g == fn {
			return true
		}
	}
	return false
}

func (x *Exec) takeHole(fn *ssa.Function, st *State) Value {
	return x.holeRes
}

func (x *Exec) freshResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	if rs.Len() == 0 {
		return nil
	}
	if rs.Len() == 1 {
		return x.freshValue("res_"+fn.Name(), rs.At(0).Type())
	}
	t := &VTuple{}
	for i := 0; i < rs.Len(); i++ {
		t.f = append(t.f, x.freshValue("res_"+fn.Name(), rs.At(i).Type()))
	}
	return t
}

// applyContract: requires become obligations, results are unknown, ensures are assumed
func (x *Exec) applyContract(fn, h *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	x.eng.usedContracts[fn.String()] = true
	res := x.freshResults(fn)
	if x.eng.pureFn(fn) {
		res = x.ufResult(fn, args, st) // the same arguments give the same result
	}
	oh, or := x.hole, x.holeRes
	x.hole, x.holeRes = fn, res
	x.assume++
	defer func() { x.assume--; x.hole, x.holeRes = oh, or }()
	if len(h.Params) != len(args) {
		unsup("contract %s does not have the signature of %s", h.Name(), fn)
	}
	saved := x.stack
	x.stack = nil // calls inside the contract text are not recursive calls of the program
	_, nst, _ := x.callFn(h, args, nil, st.copy(), cond)
	x.stack = saved
	return res, nst, cond
}

// pureFn: plain arguments and results, reads nothing else
func (e *Engine) pureFn(fn *ssa.Function) bool {
	sg := fn.Signature
	if sg.Recv() != nil || len(fn.FreeVars) > 0 || sg.Results().Len() != 1 {
		return false
	}
	for i := 0; i < sg.Params().Len(); i++ {
		if _, ok := sg.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	if _, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); !ok {
		return false
	}
	fp := e.footprintOf(fn)
	return !fp.all && len(fp.fields) == 0 && len(fp.maps) == 0 && len(fp.glob) == 0
}

func (x *Exec) ufResult(fn *ssa.Function, args []Value, st *State) Value {
	var as []*Term
	for _, a := range args {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); ok {
						as = append(as, x.fresh("arg", "Int"))
						return
					}
					panic(r)
				}
			}()
			as = append(as, x.leaves(a, st)...)
		}()
	}
	rs := fn.Signature.Results()
	mkRes := func(k int, t types.Type) Value {
		var ls []*Term
		roles := leafRoles(t)
		for i, s := range leafSorts(t) {
			if roles[i] == "#off" {
				ls = append(ls, Int(0))
				continue
			}
			name := fmt.Sprintf("fn!%s!%d!%d", fn.String(), k, i)
			oldSyms[name] = true
			if roles[i] == "#len" {
				nonNegSyms[name] = true
			}
			ls = append(ls, App(name, s, as...))
		}
		v := fromLeaves(t, ls)
		fixNN(v)
		return v
	}
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return mkRes(0, rs.At(0).Type())
	}
	tp := &VTuple{}
	for i := 0; i < rs.Len(); i++ {
		tp.f = append(tp.f, mkRes(i, rs.At(i).Type()))
	}
	return tp
}

// external functions without a model: only if all arguments and results are plain values
func (x *Exec) externDefault(fn *ssa.Function, args []Value, st *State) Value {
	ok := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Slice:
			_, b := u.Elem().Underlying().(*types.Basic)
			return b
		case *types.Interface:
			return typeKey(t) == "error"
		}
		return false
	}
	sig := fn.Signature
	if sig.Recv() != nil {
		unsup("external method %s", fn)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !ok(sig.Params().At(i).Type()) {
			unsup("external function %s", fn)
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !ok(sig.Results().At(i).Type()) {
			unsup("external function %s", fn)
		}
	}
	x.externs[fn.String()+" (uninterpreted)"] = true
	return x.ufResult(fn, args, st)
}

func (x *Exec) invoke(f *frame, c *ssa.CallCommon, ins ssa.Value, st *State, cond *Term) (Value, *State, *Term) {
	recv := f.val(c.Value, st).(*Term)
	cond = x.safe("no-nil-dereference", cond, Not(Eq(recv, tNilI)), c.Pos())
	if c.Method.Name() == "Error" {
		return errText(recv), st, cond
	}
	if recv.op == "icon" {
		for _, k := range iconOrder {
			if ic := icons[k]; ic.name == recv.name {
				m := x.eng.prog.LookupMethod(ic.typ, c.Method.Pkg(), c.Method.Name())
				if m != nil {
					args := []Value{x.unbox(ic, recv)}
					for _, a := range c.Args {
						args = append(args, f.val(a, st))
					}
					return x.callFunction(m, args, nil, st, cond, c.Pos())
				}
			}
		}
	}
	unsup("interface method call %s", c.Method.Name())
	return nil, st, cond
}

func errText(t *Term) *Term {
	if t.op == "icon" && t.name == errIcon {
		return t.args[0]
	}
	return App("errtext", "Str", t)
}

func (x *Exec) builtin(f *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value, ins ssa.Value, st *State, cond *Term) (Value, *State, *Term) {
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case *Term:
			if v.sort == "Str" {
				return SLen(v), st, cond
			}
			if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				return x.mapLen(st, m, v), st, cond
			}
		case *VSlice:
			if b.Name() == "len" {
				return v.ln, st, cond
			}
			return x.fresh("cap", "Int"), st, cond
		}
	case "append":
		a := args[0].(*VSlice)
		if len(args) == 1 {
			return a, st, cond
		}
		if s, ok := args[1].(*Term); ok && s.sort == "Str" {
			bs := &VSlice{elem: a.elem, arr: []*Term{mk("strbytes", "", "(Array Int Int)", s)}, off: Int(0), ln: SLen(s), nn: tTrue}
			return x.appendSlice(a, bs, st), st, cond
		}
		return x.appendSlice(a, args[1].(*VSlice), st), st, cond
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(st, m, args[0].(*Term), args[1])
		return nil, st, cond
	case "print", "println":
		return nil, st, cond
	case "ssa:wrapnilchk":
		return args[0], st, x.nonNil(args[0], cond, c.Pos())
	case "min":
		if p, ok := args[0].(*Term); ok && p.sort == "Int" && len(args) == 2 {
			q := args[1].(*Term)
			return Ite(Le(p, q), p, q), st, cond
		}
	case "max":
		if p, ok := args[0].(*Term); ok && p.sort == "Int" && len(args) == 2 {
			q := args[1].(*Term)
			return Ite(Le(q, p), p, q), st, cond
		}
	}
	unsup("builtin %s", b.Name())
	return nil, st, cond
}

// recursive specification functions: uninterpreted, unfolded on ground applications
func (x *Exec) specUF(fn *ssa.Function, args []Value, st *State, cond *Term) Value {
	var as []*Term
	for _, a := range args {
		as = append(as, x.leaves(a, st)...)
	}
	var keys []string
	var hs []*Term
	fp := x.eng.footprintOf(fn)
	for _, k := range sortedComps(st) {
		if !strings.HasPrefix(k, "V|") && fp.reads(k) && st.comps[k] != x.comp(&State{}, k, compSorts[k]) {
			keys, hs = append(keys, k), append(hs, st.comps[k])
		}
	}
	rs := fn.Signature.Results()
	if rs.Len() != 1 {
		unsup("recursive spec function with several results")
	}
	rt := rs.At(0).Type()
	var ls []*Term
	for i, s := range leafSorts(rt) {
		ls = append(ls, specApp(fmt.Sprintf("spec!%s!%d", specName(fn), i), s, as, keys, hs))
	}
	res := fromLeaves(rt, ls)
	lim := x.eng.fuel
	if x.assume > 0 {
		lim--
		if x.eng.assumeFuel >= 0 {
			lim = x.eng.assumeFuel
		}
	}
	if n, ok := x.eng.specFuel[fn]; ok {
		lim = n[0]
		if x.assume > 0 {
			lim = n[1]
		}
	}
	if x.specDepth < lim && !x.eng.opaqueSpec[fn] && !x.eng.hiddenSpec[fn] {
		key := specApp("spec!unfold!"+specName(fn), "Bool", as, keys, hs)
		if d, ok := x.ufuel[key]; !ok || d > x.specDepth {
			x.ufuel[key] = x.specDepth
			x.specDepth++
			x.pure++
			g := x.guards
			x.guards = nil
			sv := x.stack
			x.stack = nil
			v, vst, c := x.callFn(fn, args, nil, st.copy(), tTrue)
			x.stack = sv
			x.guards = g
			x.pure--
			x.specDepth--
			bl := x.leaves(v, vst)
			var eqs []*Term
			for i := range ls {
				eqs = append(eqs, Eq(ls[i], bl[i]))
			}
			x.addFact(Implies(c, And(eqs...)))
		}
	}
	return res
}

func specName(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return fn.String()
}

func sortedComps(st *State) []string {
	var ks []string
	for k := range st.comps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// A spec function reads its arguments and the heap: the application carries the components that differ from
// the initial heap. Writes to objects allocated during the run do not matter when the arguments, and the
// references stored in objects that existed before, are old: then no new object can be reached.
type specSig struct {
	base  string
	nargs int
	keys  []string
}

var specSigs = map[string]*specSig{}
var specNames = map[string]string{}

func specApp(base, sortName string, args []*Term, keys []string, hs []*Term) *Term {
	strip := true
	for _, a := range args {
		if (strings.Contains(a.sort, "Ref") || strings.Contains(a.sort, "Iface")) && !isOldElem(a) {
			strip = false
		}
	}
	if strip {
		ns := make([]*Term, len(hs))
		for i, h := range hs {
			ns[i] = stripNew(h)
			if _, el := arrParts(h.sort); (strings.Contains(el, "Ref") || strings.Contains(el, "Iface")) && !isOld(ns[i]) {
				strip = false
				break
			}
		}
		if strip {
			hs = ns
		}
	}
	if !strip && os.Getenv("GOVC_DEBUG") != "" {
		for i, a := range args {
			if strings.Contains(a.sort, "Ref") && !isOldElem(a) {
				dbg("specApp %s not old: arg %d %.900s RES %.9000s\n", base, i, a, whyNotOld(resolveElems(a, map[*Term]*Term{})))
			}
		}
		for i, h := range hs {
			if _, el := arrParts(h.sort); strings.Contains(el, "Ref") && !isOld(stripNew(h)) {
				dbg("specApp %s not old: heap %s %.300s\n", base, keys[i], stripNew(h))
			}
		}
	}
	var ks []string
	as := append([]*Term{}, args...)
	for i, k := range keys {
		if hs[i] == initComp(k, compSorts[k]) {
			continue
		}
		ks, as = append(ks, k), append(as, hs[i])
	}
	if len(ks) == 0 {
		return mk("app", base, sortName, as...)
	}
	id := base + "@" + strings.Join(ks, ";")
	name, ok := specNames[id]
	if !ok {
		name = fmt.Sprintf("%s@%d", base, len(specNames)+1)
		specNames[id] = name
		specSigs[name] = &specSig{base, len(args), ks}
	}
	return mk("app", name, sortName, as...)
}

func stripNew(t *Term) *Term {
	switch t.op {
	case "store":
		if isNew(t.args[1]) {
			return stripNew(t.args[0])
		}
		return t
	case "ite":
		a, b := stripNew(t.args[1]), stripNew(t.args[2])
		return Ite(t.args[0], a, b)
	case "app":
		if li, ok := lheaps[t.name]; ok && li.newOnly {
			m := map[*Term]*Term{}
			for k, p := range li.params {
				m[p] = t.args[k]
			}
			return stripNew(Subst(li.base, m))
		}
	}
	return t
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

func stateKeys(st *State) []string {
	var ks []string
	for k := range st.comps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
