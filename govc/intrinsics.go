package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type bigInt = big.Int

var bigOne = big.NewInt(1)

var intrinsicNames = map[string]bool{
	"vRequires": true, "vEnsures": true, "vForall": true, "vExists": true, "vForallKey": true, "vExistsKey": true,
	"vMayPanic": true, "vUnchanged": true, "vSnap": true, "vTrace": true, "vAssume": true, "vCases": true, "vSplit": true, "vInline": true, "vModifies": true,
}

func isIntrinsic(n string) bool { return intrinsicNames[n] }

func (x *Exec) intrinsic(name string, fn *ssa.Function, args []Value, st *State, cond *Term, pos token.Pos) (Value, *State, *Term) {
	switch name {
	case "vRequires":
		c := args[0].(*Term)
		if x.assume > 0 {
			x.assumeOblige("requires", "precondition of "+x.hole.Name(), cond, c, pos)
			return nil, st, And(cond, c)
		}
		x.assumeAt(cond, c)
		return nil, st, And(cond, c)
	case "vAssume": // documented assumption
		c := args[0].(*Term)
		x.assumeAt(cond, c)
		return nil, st, And(cond, c)
	case "vEnsures":
		lab := "?"
		if t := args[0].(*Term); t.op == "str" {
			lab = t.name
		}
		c := args[1].(*Term)
		if x.assume > 0 {
			x.assumeAt(cond, c)
			return nil, st, cond
		}
		x.eng.nEnsures++
		x.ensured[lab] = true
		x.oblige("ensures", lab, cond, c, pos)
		x.cover(lab, cond, pos)
		return nil, st, cond
	case "vForall", "vExists":
		n := args[0].(*Term)
		f := args[1].(*VFunc)
		x.symSeq++
		i := Var(fmt.Sprintf("i!%d", x.symSeq), "Int")
		rng := And(Le(Int(0), i), Lt(i, n))
		body := x.quantBody(f, []Value{i}, []*Term{i}, rng, st, cond)
		if name == "vForall" {
			return autoForall(i, rng, body), st, cond
		}
		return Exists([]*Term{i}, And(rng, body)), st, cond
	case "vForallKey", "vExistsKey":
		mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
		r := args[0].(*Term)
		f := args[1].(*VFunc)
		x.symSeq++
		kv := Var(fmt.Sprintf("key!%d", x.symSeq), mapKeySort(mt))
		dom := x.mapDom(st, mt, r)
		in := And(Not(Eq(r, tNull)), Select(dom, kv))
		key, _ := takeLeaves(mt.Key(), []*Term{kv})
		var ls []*Term
		for _, va := range x.mapVals(st, mt, r) {
			ls = append(ls, Select(va, kv))
		}
		val := fromLeaves(mt.Elem(), ls)
		fixNN(val)
		if _, isp := mt.Elem().Underlying().(*types.Pointer); isp && x.eng.nonNilElems && isInput(ls[0]) {
			x.addFact(Forall([]*Term{kv}, Implies(in, Not(Eq(ls[0], tNull)))))
		}
		body := x.quantBody(f, []Value{key, val}, []*Term{kv}, in, st, cond)
		if name == "vForallKey" {
			return Forall([]*Term{kv}, Implies(in, body), []*Term{Select(dom, kv)}), st, cond
		}
		return Exists([]*Term{kv}, And(in, body)), st, cond
	case "vInline": // use the body of a function under contract instead of its contract, from here on
		if t, ok := args[0].(*Term); ok && t.op == "str" && x.assume == 0 {
			for f := range x.eng.contractOf {
				if shortName(f.String()) == t.name {
					x.target[f] = true
				}
			}
		}
		return nil, st, cond
	case "vSplit":
		if x.assume > 0 || x.specDepth > 0 {
			return nil, st, cond
		}
		c := args[0].(*Term)
		k := x.nextCase(2)
		if k == 1 {
			c = Not(c)
		}
		x.caseLab += fmt.Sprintf(" [split %d]", k)
		x.substLit(c)
		x.assumeAt(cond, c)
		return nil, st, And(cond, c)
	case "vCases":
		if x.assume > 0 || x.specDepth > 0 {
			return nil, st, cond
		}
		t := args[0].(*Term)
		sl := args[1].(*VSlice)
		n, ok := sl.ln.intVal()
		if !ok {
			unsup("vCases")
		}
		var lits []*Term
		for i := int64(0); i < n.Int64(); i++ {
			l := Select(sl.arr[0], Add(sl.off, Int(i)))
			if l.op != "str" {
				unsup("vCases: not a literal")
			}
			lits = append(lits, l)
		}
		k := x.nextCase(len(lits) + 1)
		c := tTrue
		if k < len(lits) {
			c = Eq(t, lits[k])
			x.subst[t] = lits[k]
			x.caseLab += " [" + lits[k].name + "]"
			dbg("case %s\n", x.caseLab)
		} else {
			for _, l := range lits {
				x.substLit(Not(Eq(t, l)))
				c = And(c, Not(Eq(t, l)))
			}
			x.caseLab += " [other]"
		}
		x.assumeAt(cond, c)
		return nil, st, And(cond, c)
	case "vMayPanic":
		x.mayPanic = true
		return nil, st, cond
	case "vSnap":
		id := len(x.snaps)
		x.snaps = append(x.snaps, st.copy())
		return Int(int64(id)), st, cond
	case "vModifies": // the function may change the entries of this map (and nothing else that existed before)
		m := fn.Params[0].Type().Underlying().(*types.Map)
		r := args[0].(*Term)
		dk, lk, vks, ds, ls, vss := x.mapComps(st, m)
		keys, sorts := append([]string{dk, lk}, vks...), append([]string{ds, ls}, vss...)
		if x.assume == 0 {
			for _, k := range keys {
				x.modifies = append(x.modifies, modLoc{k, r})
			}
			return nil, st, cond
		}
		st = st.copy()
		for i, k := range keys {
			c := x.comp(st, k, sorts[i])
			st.comps[k] = Ite(cond, Store(c, r, x.fresh("mod", elemSort(c))), c)
		}
		x.addFact(Le(Int(0), Select(x.comp(st, lk, ls), r)))
		return nil, st, cond
	case "vUnchanged":
		if x.assume > 0 {
			return nil, st, cond
		}
		lab := "?"
		if t := args[0].(*Term); t.op == "str" {
			lab = t.name
		}
		n, _ := args[1].(*Term).intVal()
		old := x.snaps[n.Int64()]
		x.frameObl(lab, old, st, cond, pos)
		return nil, st, cond
	}
	unsup("intrinsic %s", name)
	return nil, st, cond
}

func (x *Exec) assumeOblige(kind, label string, cond, goal *Term, pos token.Pos) {
	x.oblige(kind, label, cond, goal, pos)
}

// cover records that a clause is stated under a condition that must be satisfiable (no vacuous contract)
func (x *Exec) cover(lab string, cond *Term, pos token.Pos) {
	if len(x.cv) > 0 {
		return
	}
	g := x.guard(cond)
	x.covers = append(x.covers, &Obl{label: lab, kind: "cover", goal: Not(g), pos: x.eng.posStr(pos), cover: true,
		hyps: x.rec.facts[:len(x.rec.facts):len(x.rec.facts)], free: append([]*Term{}, x.cv...)})
}

// quantBody evaluates a closure under a bound variable
func (x *Exec) quantBody(f *VFunc, args []Value, vars []*Term, rng *Term, st *State, cond *Term) *Term {
	fn := f.fn.(*ssa.Function)
	if And(cond, rng) == tFalse {
		return tTrue // no value of the variable to speak about
	}
	parent := x.rec
	child := &Recorder{}
	fuel := x.ufuel
	x.ufuel = copyFuel(fuel)
	x.rec = child
	cv := x.cv
	x.cv = append(append([]*Term{}, cv...), vars...)
	x.pure++
	x.guards = append(x.guards, And(cond, rng))
	restore := func() {
		x.rec = parent
		x.ufuel = fuel
		x.cv = cv
		x.pure--
		x.guards = x.guards[:len(x.guards)-1]
	}
	done := false
	defer func() {
		if !done {
			restore()
		}
	}()
	v, _, _ := x.callFn(fn, args, f.bind, st.copy(), tTrue)
	restore()
	done = true
	for _, t := range child.facts {
		ps := inferPats(vars[0], t)
		var pp [][]*Term
		for _, p := range ps {
			pp = append(pp, []*Term{p})
		}
		x.addFact(Forall(vars, t, pp...))
	}
	for _, l := range child.loops {
		l.quant = append(l.quant, vars...)
		x.rec.loops = append(x.rec.loops, l)
	}
	x.rec.lheap = append(x.rec.lheap, child.lheap...)
	// obligations other than safety (requires of contracts) inside specifications are dropped: specifications are total
	t, ok := v.(*Term)
	if !ok {
		if v == nil {
			return x.fresh("nobody", "Bool") // only reached where the body has no value: nothing is known about it
		}
		unsup("quantifier body does not return")
	}
	return t
}

// modLoc: a location the contract allows the function to change
type modLoc struct {
	key string
	ref *Term
}

// frameObl: every location that existed in old is unchanged in st
func (x *Exec) frameObl(lab string, old, st *State, cond *Term, pos token.Pos) {
	keys := map[string]bool{}
	for k := range st.comps {
		keys[k] = true
	}
	any := false
	for _, k := range sortedKeys(keys) {
		if len(k) > 2 && (k[:2] == "V|" || k[:2] == "O|") {
			continue
		}
		a := x.comp(old, k, compSorts[k])
		b := x.comp(st, k, compSorts[k])
		if a == b {
			continue
		}
		r := x.freshOld("frame_r", "Ref")
		goal := Eq(Select(a, r), Select(b, r))
		for _, m := range x.modifies {
			if m.key == k {
				goal = Or(Eq(r, m.ref), goal)
			}
		}
		any = true
		x.oblige("frame", lab+" ["+k+"]", cond, goal, pos)
	}
	x.eng.nEnsures++
	x.ensured[lab] = true
	if !any {
		x.eng.trivial++
	}
	x.cover(lab, cond, pos)
}

func (x *Exec) nextCase(n int) int {
	i := len(x.caseN)
	x.caseN = append(x.caseN, n)
	if i < len(x.casePath) {
		return x.casePath[i]
	}
	x.casePath = append(x.casePath, 0)
	return 0
}

func (x *Exec) substLit(c *Term) {
	for _, l := range conjuncts(c) {
		if l.op == "not" {
			x.subst[l.args[0]] = tFalse
		} else {
			x.subst[l] = tTrue
			if l.op == "=" && !l.args[0].isLit() && l.args[1].op == "int" {
				x.subst[l.args[0]] = l.args[1]
			} else if l.op == "=" && !l.args[1].isLit() && l.args[0].op == "int" {
				x.subst[l.args[1]] = l.args[0]
			}
		}
	}
}
