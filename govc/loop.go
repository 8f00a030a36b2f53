package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopInfo is the summary of one symbolic loop: its state as functions of the iteration counter.
type LoopInfo struct {
	id      string
	fn      string
	spec    bool    // the loop is in specification text
	cv      []*Term // outer context variables
	k       *Term   // counter variable
	n       *Term   // number of completed iterations, over cv
	guard   *Term   // condition under which the loop is entered
	C       *Term   // back-edge condition at iteration k
	states  []*lstate
	facts   []*Term // body facts at iteration k
	inner   []*LoopInfo
	newOnly []string
	quant   []*Term
}

type lstate struct {
	name string // UF name
	what string
	v    *Term // the header variable (before substitution)
	s0   *Term
	next *Term
	cur  *Term // closed form or UF application at k
	uf   bool
	phi  *ssa.Phi
	leaf int
	comp string
	ref  *Term // promoted reference
	done bool
}

func (s *lstate) at(l *LoopInfo, k *Term) *Term {
	return Subst(s.cur, map[*Term]*Term{l.k: k})
}

type xsnap struct {
	rec          Recorder
	siteSeq      int
	env          map[ssa.Value]Value
	defers, rets int
	ufuel        map[*Term]int
	steps        int
}

func (f *frame) snap() xsnap {
	x := f.x
	s := xsnap{rec: *x.rec, siteSeq: x.siteSeq, defers: len(f.defers), rets: len(f.rets)}
	s.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		s.env[k] = v
	}
	s.ufuel = copyFuel(x.ufuel)
	return s
}
func copyFuel(m map[*Term]int) map[*Term]int {
	r := make(map[*Term]int, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}
func (f *frame) restore(s xsnap) {
	x := f.x
	*x.rec = s.rec
	x.siteSeq = s.siteSeq // loop and symbol names are not reused: what is known about a name stays true
	f.env = make(map[ssa.Value]Value, len(s.env))
	for k, v := range s.env {
		f.env[k] = v
	}
	f.defers = f.defers[:s.defers]
	f.rets = f.rets[:s.rets]
	x.ufuel = copyFuel(s.ufuel)
}

func (f *frame) execLoop(l *natLoop, in []edge) []edge {
	if ex, ok := f.unroll(l, in); ok {
		return ex
	}
	return f.symLoop(l, in)
}

// ---------------------------------------------------------------- concrete unrolling

func (f *frame) loopHeadIf(l *natLoop) bool {
	_, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	return ok
}

func (f *frame) unroll(l *natLoop, in []edge) ([]edge, bool) {
	if !f.loopHeadIf(l) {
		return nil, false
	}
	s := f.snap()
	x := f.x
	type ex struct {
		e    edge
		vals map[ssa.Value]Value
	}
	var all []ex
	cur := in
	maxIter := 70
	for it := 0; it < maxIter; it++ {
		cond, st := x.mergeEdges(cur)
		f.doPhis(l.head, cur)
		f.curK[l.head] = Int(int64(it))
		exits, backs := f.runRegion(l.head, l.blocks, l.head, []edge{{from: nil, to: l.head, cond: cond, st: st}})
		delete(f.curK, l.head)
		hi := f.headIf[l.head]
		if hi == nil || !(hi == tTrue || hi == tFalse) {
			f.restore(s)
			return nil, false
		}
		vals := map[ssa.Value]Value{}
		for _, b := range sortedBlocks(l.blocks) {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					if r, ok := f.env[v]; ok {
						vals[v] = r
					}
				}
			}
		}
		for _, e := range exits {
			all = append(all, ex{e, vals})
		}
		if len(backs) == 0 {
			break
		}
		if it == maxIter-1 {
			f.restore(s)
			return nil, false
		}
		// back-edge phi inputs must be evaluated against this iteration's environment
		cur = nil
		for _, e := range backs {
			e.vals = vals
			cur = append(cur, e)
		}
	}
	var out []edge
	for _, e := range all {
		e.e.vals = e.vals
		out = append(out, e.e)
	}
	// values defined in the loop and used directly outside
	for _, b := range sortedBlocks(l.blocks) {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			outside := false
			for _, r := range *v.Referrers() {
				if !l.blocks[r.Block()] {
					if _, isPhi := r.(*ssa.Phi); !isPhi {
						outside = true
					}
				}
			}
			if !outside {
				continue
			}
			var conds []*Term
			var vs []Value
			var sts []*State
			for _, e := range all {
				if r, ok := e.vals[v]; ok {
					conds = append(conds, e.e.cond)
					vs = append(vs, r)
					sts = append(sts, e.e.st)
				}
			}
			if len(vs) > 0 {
				f.env[v] = x.mergeValues(conds, vs, sts)
			}
		}
	}
	return out, true
}

// ---------------------------------------------------------------- symbolic loops

func (f *frame) symLoop(l *natLoop, in []edge) []edge {
	x := f.x
	base := f.snap()
	entryCond, entrySt := x.mergeEdges(in)
	f.doPhis(l.head, in)
	entryPhi := map[*ssa.Phi]Value{}
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		entryPhi[p] = f.env[p]
	}
	// string iterators advanced in this loop's header
	var strIt *ssa.Next
	for _, ins := range l.head.Instrs {
		if nx, ok := ins.(*ssa.Next); ok && nx.IsString {
			strIt = nx
		}
	}
	mod := map[string]bool{}
	notOld := map[string]bool{}
	notNN := map[string]bool{}
	dropped := map[string]bool{}
	base2 := f.snap()
	base2.siteSeq = base.siteSeq
	for attempt := 0; ; attempt++ {
		if attempt > 40 {
			unsup("loop state does not stabilise")
		}
		f.restore(base2)
		x.loopSeq++
		lid := fmt.Sprintf("L%s%d", x.tag, x.loopSeq)
		k := Var("k!"+lid, "Int")
		siteLo := x.siteSeq + 1
		parent := x.rec
		child := &Recorder{}
		parentFuel := x.ufuel
		x.ufuel = copyFuel(parentFuel)
		x.rec = child
		x.cv = append(append([]*Term{}, x.cv...), k)
		x.guards = append(x.guards, entryCond)
		var states []*lstate
		vseq := 0
		mkVar := func(what, srt string, s0 *Term) *Term {
			vseq++
			name := fmt.Sprintf("s!%s!%d!%s", lid, attempt, what)
			v := Var(name, srt)
			key := what
			if !notOld[key] && isOld(s0) {
				oldSyms[name] = true
			}
			if !notNN[key] && nonNeg(s0) {
				nonNegSyms[name] = true
			}
			return v
		}
		for pi, p := range phis {
			ev := entryPhi[p]
			switch ev.(type) {
			case *VFunc, *VAddr, *VIter:
				f.env[p] = ev
				continue
			}
			lv := x.leaves(ev, entrySt)
			var nl []*Term
			for li, s0 := range lv {
				w := fmt.Sprintf("p%d.%d", pi, li)
				v := mkVar(w, s0.sort, s0)
				states = append(states, &lstate{what: w, v: v, s0: s0, phi: p, leaf: li, name: fmt.Sprintf("φ!%s!%s", lid, w)})
				nl = append(nl, v)
			}
			f.env[p] = fromLeaves(p.Type(), nl)
		}
		st := entrySt.copy()
		var mkeys []string
		for m := range mod {
			mkeys = append(mkeys, m)
		}
		sort.Strings(mkeys)
		for _, m := range mkeys {
			s0 := x.comp(entrySt, m, compSorts[m])
			v := mkVar("c:"+m, s0.sort, s0)
			states = append(states, &lstate{what: "c:" + m, v: v, s0: s0, comp: m, name: fmt.Sprintf("φ!%s!%s", lid, m)})
			st.comps[m] = v
		}
		var posState *lstate
		if strIt != nil {
			v := mkVar("strpos", "Int", Int(0))
			posState = &lstate{what: "strpos", v: v, s0: Int(0), name: "φ!" + lid + "!strpos"}
			states = append(states, posState)
			f.curK[l.head] = v
		} else {
			f.curK[l.head] = k
		}
		f.strNext = nil
		cleanup := func() {
			x.rec = parent
			x.cv = x.cv[:len(x.cv)-1]
			x.guards = x.guards[:len(x.guards)-1]
			x.ufuel = parentFuel
			delete(f.curK, l.head)
		}
		var exits, backs []edge
		func() {
			okk := false
			defer func() {
				if !okk {
					cleanup()
				}
			}()
			exits, backs = f.runRegion(l.head, l.blocks, l.head, []edge{{from: nil, to: l.head, cond: tTrue, st: st}})
			okk = true
		}()
		// no back edge reachable: the body runs at most once
		grow := false
		var C *Term = tFalse
		var bst *State
		if len(backs) > 0 {
			C, bst = x.mergeEdges(backs)
			for _, key := range stateKeys(bst) {
				t := bst.comps[key]
				if dropped[key] || mod[key] {
					continue
				}
				if t != x.comp(st, key, compSorts[key]) {
					if strings.HasPrefix(key, "V|") && onlyNewStores(t, x.comp(st, key, compSorts[key]), siteLo) {
						dropped[key] = true
						continue
					}
					mod[key] = true
					grow = true
				}
			}
		}
		if grow {
			cleanup()
			continue
		}
		if len(backs) > 0 {
			for _, s := range states {
				switch {
				case s.phi != nil:
				case s.comp != "":
					s.next = x.comp(bst, s.comp, compSorts[s.comp])
				default:
					if f.strNext == nil {
						unsup("string iterator state")
					}
					s.next = f.strNext
				}
			}
			for _, p := range phis {
				switch entryPhi[p].(type) {
				case *VFunc, *VAddr, *VIter:
					nv := f.phiValue(p, l.head, backs)
					if va, ok := nv.(*VAddr); ok {
						e := entryPhi[p].(*VAddr)
						if e.key == va.key && e.ref == va.ref && e.kind == va.kind && e.idx == va.idx {
							continue
						}
					}
					if nv != entryPhi[p] {
						unsup("loop-carried function or address")
					}
					continue
				}
				nv := f.phiValue(p, l.head, backs)
				// live slices carried around the loop are snapshotted
				nl := x.leaves(nv, bst)
				for _, s := range states {
					if s.phi == p {
						s.next = nl[s.leaf]
					}
				}
			}
			for _, s := range states {
				if oldSyms[s.v.name] && !isOld(s.next) {
					notOld[s.what] = true
					grow = true
				}
				if nonNegSyms[s.v.name] && !nonNeg(s.next) {
					notNN[s.what] = true
					grow = true
				}
			}
		} else {
			for _, s := range states {
				s.next = s.v
			}
		}
		if grow {
			cleanup()
			continue
		}
		// ---- solve
		info := &LoopInfo{id: lid, fn: f.fn.String(), spec: x.eng.isSpecFile(f.fn), k: k, guard: x.guard(tTrue)}
		info.cv = append([]*Term{}, x.cv[:len(x.cv)-1]...)
		info.n = App("n!"+lid, "Int", info.cv...)
		nonNegSyms["n!"+lid] = true
		m, laws := f.solve(info, l, C, states, child, siteLo)
		cleanup()
		memo := map[*Term]*Term{}
		sub := func(t *Term) *Term { return subst(t, m, memo) }
		info.C = sub(C)
		for _, t := range child.facts {
			info.facts = append(info.facts, sub(t))
		}
		for _, h := range child.lheap {
			if li := lheaps[h]; li != nil {
				li.base = sub(li.base)
			}
		}
		for _, il := range child.loops {
			il.subst(sub)
		}
		info.inner = child.loops
		var sts []*lstate
		for _, s := range states {
			s.next = sub(s.next)
			s.cur = sub(s.v)
			if s.uf {
				sts = append(sts, s)
			}
		}
		for _, s := range info.states {
			s.next = sub(s.next)
			s.s0 = sub(s.s0)
			if s.cur == nil {
				s.cur = App(s.name, s.s0.sort, append(append([]*Term{}, info.cv...), k)...)
			}
		}
		info.states = append(sts, info.states...)
		parent.lheap = append(parent.lheap, child.lheap...)
		for _, h := range info.newOnly {
			parent.lheap = append(parent.lheap, h)
			if li := lheaps[h]; li != nil {
				li.base = sub(li.base)
			}
		}
		parent.loops = append(parent.loops, info)
		// state laws (definitions by recursion on the counter; always consistent)
		preLaw := len(parent.facts)
		_ = preLaw
		for _, lw := range laws(sub) {
			addF(parent, lw)
		}
		n := info.n
		G := info.guard
		j := Var("j!"+lid, "Int")
		toJ := map[*Term]*Term{k: j}
		jm := map[*Term]*Term{}
		// base instances
		for _, s := range info.states {
			if s.cur.op == "app" {
				z := s.at(info, Int(0))
				if z != s.s0 {
					addF(parent, Eq(z, s.s0))
				}
			}
		}
		// body obligations
		inHyps := append([]*Term{}, parent.facts[:len(parent.facts):len(parent.facts)]...)
		rangeK := []*Term{Le(Int(0), k), Le(k, n)}
		var closed []*Term
		for _, c := range conjuncts(info.C) {
			closed = append(closed, c)
		}
		closed = append(closed, info.facts...)
		pre := append([]*Term{}, rangeK...)
		for _, c := range closed {
			b := subst(c, toJ, jm)
			pre = append(pre, Implies(G, autoForall(j, And(Le(Int(0), j), Lt(j, k)), b)))
		}
		km1 := Sub(k, Int(1))
		for _, s := range info.states {
			if s.cur.op == "app" && !s.done {
				pre = append(pre, Implies(And(G, Lt(Int(0), k)), Eq(s.cur, Subst(s.next, map[*Term]*Term{k: km1}))))
			}
		}
		for _, o := range child.obls {
			o.goal = sub(o.goal)
			nh := append([]*Term{}, inHyps...)
			nh = append(nh, pre...)
			for _, h := range o.hyps {
				nh = append(nh, sub(h))
			}
			o.hyps = nh
			o.loops = append(o.loops, info)
			parent.obls = append(parent.obls, o)
		}
		// facts after the loop
		for _, c := range closed {
			b := subst(c, toJ, jm)
			addF(parent, Implies(G, autoForall(j, And(Le(Int(0), j), Lt(j, n)), b)))
		}
		toN := map[*Term]*Term{k: n}
		nmemo := map[*Term]*Term{}
		subN := func(t *Term) *Term { return subst(sub(t), toN, nmemo) }
		for _, t := range info.facts {
			addF(parent, Implies(G, subst(t, toN, nmemo)))
		}
		addF(parent, Implies(G, Not(subst(info.C, toN, nmemo))))
		// last completed iteration
		nm1 := Sub(n, Int(1))
		addF(parent, Implies(And(G, Lt(Int(0), n)), Subst(info.C, map[*Term]*Term{k: nm1})))
		for _, s := range info.states {
			if s.cur.op == "app" && !s.done {
				addF(parent, Implies(And(G, Lt(Int(0), n)), Eq(s.at(info, n), Subst(s.next, map[*Term]*Term{k: nm1}))))
			}
		}
		// inner loops' instances at the exit iteration are covered by facts(n)
		mm := map[*Term]*Term{}
		for _, kk := range sortedVars(m) {
			mm[kk] = subst(m[kk], toN, nmemo)
		}
		mm[k] = n
		vmemo := map[*Term]*Term{}
		for _, b := range sortedBlocks(l.blocks) {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					if r, ok := f.env[v]; ok {
						f.env[v] = x.substValue(r, mm, vmemo)
					}
				}
			}
		}
		var out []edge
		for _, e := range exits {
			ns := &State{comps: map[string]*Term{}}
			for _, key := range stateKeys(e.st) {
				t := e.st.comps[key]
				if dropped[key] {
					ns.comps[key] = x.comp(entrySt, key, compSorts[key])
					continue
				}
				ns.comps[key] = subN(t)
			}
			out = append(out, edge{from: e.from, to: e.to, cond: And(entryCond, subN(e.cond)), st: ns})
		}
		return out
	}
}

func (l *LoopInfo) subst(sub func(*Term) *Term) {
	l.guard = sub(l.guard)
	l.C = sub(l.C)
	l.n = sub(l.n)
	for i := range l.facts {
		l.facts[i] = sub(l.facts[i])
	}
	for _, s := range l.states {
		s.s0, s.next, s.cur = sub(s.s0), sub(s.next), sub(s.cur)
	}
	for _, i := range l.inner {
		i.subst(sub)
	}
}

func onlyNewStores(t, base *Term, siteLo int) bool {
	switch t.op {
	case "store":
		return newAfter(t.args[1], siteLo) && onlyNewStores(t.args[0], base, siteLo)
	case "ite":
		return onlyNewStores(t.args[1], base, siteLo) && onlyNewStores(t.args[2], base, siteLo)
	}
	return t == base
}

func newAfter(r *Term, lo int) bool {
	switch r.op {
	case "new":
		var n int
		fmt.Sscanf(r.name, "%d", &n)
		return n >= lo
	case "fld":
		return newAfter(r.args[0], lo)
	case "ite":
		return newAfter(r.args[1], lo) && newAfter(r.args[2], lo)
	}
	return false
}

type storeRec struct{ cond, idx, val *Term }

// collectStores decomposes an ite/store tree over base; ok=false if another shape occurs.
func collectStores(t, base *Term, cond *Term) ([]storeRec, bool) {
	if t == base {
		return nil, true
	}
	switch t.op {
	case "store":
		a, ok := collectStores(t.args[0], base, cond)
		if !ok {
			return nil, false
		}
		if t.args[1].op == "ite" {
			// store at a conditional index
			return append(a, storeRec{And(cond, t.args[1].args[0]), t.args[1].args[1], t.args[2]},
				storeRec{And(cond, Not(t.args[1].args[0])), t.args[1].args[2], t.args[2]}), true
		}
		return append(a, storeRec{cond, t.args[1], t.args[2]}), true
	case "ite":
		a, ok := collectStores(t.args[1], base, And(cond, t.args[0]))
		if !ok {
			return nil, false
		}
		b, ok := collectStores(t.args[2], base, And(cond, Not(t.args[0])))
		if !ok {
			return nil, false
		}
		return append(a, b...), true
	case "app":
		if li, ok := lheaps[t.name]; ok && li.newOnly {
			m := map[*Term]*Term{}
			for k, p := range li.params {
				m[p] = t.args[k]
			}
			a, ok := collectStores(Subst(li.base, m), base, cond)
			if !ok {
				return nil, false
			}
			for _, s := range li.sites {
				a = append(a, storeRec{cond, mk("new", fmt.Sprint(s), "Ref"), nil})
			}
			return a, true
		}
	}
	return nil, false
}

func hasAny(t *Term, vs map[*Term]bool) bool {
	for v := range t.fv {
		if vs[v] {
			return true
		}
	}
	return false
}

// solve finds closed forms for the loop state; returns the substitution header-variable -> term(k) and a
// function producing the laws (to be called with the final substitution).
func (f *frame) solve(info *LoopInfo, l *natLoop, C *Term, states []*lstate, child *Recorder, siteLo int) (map[*Term]*Term, func(func(*Term) *Term) []*Term) {
	x := f.x
	k := info.k
	cvk := append(append([]*Term{}, info.cv...), k)
	m := map[*Term]*Term{}
	loopVars := func() map[*Term]bool {
		r := map[*Term]bool{k: true}
		for _, s := range states {
			if !s.done {
				r[s.v] = true
			}
		}
		return r
	}
	f.solveSingleKey(info, l, C, states, m)
	// invariants and linear states to fixpoint
	for changed := true; changed; {
		changed = false
		lv := loopVars()
		for _, s := range states {
			if s.done {
				continue
			}
			nx := Subst(s.next, m)
			var cl *Term
			if nx == s.v || nx == s.s0 && !hasAny(s.s0, lv) && false {
				cl = s.s0
			} else if s.v.sort == "Int" {
				d := Sub(nx, s.v)
				if _, ok := d.intVal(); ok {
					cl = Add(s.s0, Mul(d, k))
				}
			}
			if cl != nil {
				m[s.v] = cl
				s.done = true
				changed = true
				// earlier closed forms never mention undone variables
			}
		}
	}
	lv := loopVars()
	var laws []func(sub func(*Term) *Term) []*Term
	var extra []*lstate
	for _, s := range states {
		if s.done {
			continue
		}
		nx := Subst(s.next, m)
		// heap components: promote invariant references, keep new ones symbolic
		if s.comp != "" && strings.HasPrefix(s.v.sort, "(Array Ref ") {
			if recs, ok := collectStores(nx, s.v, tTrue); ok {
				var refs []*Term
				sites := map[int]bool{}
				good := true
				for _, r := range recs {
					switch {
					case newAfter(r.idx, siteLo):
						collectSites(r.idx, sites)
					case !hasAny(r.idx, lv) && refKnown(r.idx):
						dup := false
						for _, q := range refs {
							if q == r.idx {
								dup = true
							} else if !distinctTerms(q, r.idx) {
								good = false
							}
						}
						if !dup {
							refs = append(refs, r.idx)
						}
					default:
						good = false
					}
				}
				if good {
					cur := s.s0
					if len(sites) > 0 {
						hn := fmt.Sprintf("LH!%s!%s", info.id, s.comp)
						cur = App(hn, s.v.sort, cvk...)
						li := &lheapInfo{params: cvk, base: s.s0, siteLo: siteLo, newOnly: true}
						for sn := range sites {
							li.sites = append(li.sites, sn)
						}
						sort.Ints(li.sites)
						lheaps[hn] = li
						oldVals := true // everything written to the new objects is old
						for _, r := range recs {
							if newAfter(r.idx, siteLo) && (r.val == nil || !isOld(r.val)) {
								oldVals = false
							}
						}
						if isOld(s.s0) && (oldSyms[s.v.name] || oldVals) {
							oldSyms[hn] = true
						}
						if nonNegSyms[s.v.name] {
							nonNegSyms[hn] = true
						}
						info.newOnly = append(info.newOnly, hn)
						sv, nxt := s, nx
						hnk := cur
						laws = append(laws, func(sub func(*Term) *Term) []*Term {
							return newOnlyLaw(info, hn, hnk, sv, sub(nxt), li.sites)
						})
					}
					for ri, r := range refs {
						es := Select(s.v, r).sort
						ns := &lstate{name: fmt.Sprintf("φ!%s!%s@%d", info.id, s.comp, ri), what: s.what + fmt.Sprintf("@%d", ri),
							s0: Select(s.s0, r), next: Select(nx, r), ref: r, uf: true, comp: s.comp}
						ns.v = Select(s.v, r)
						// closed forms for promoted scalars
						ns.cur = App(ns.name, es, cvk...)
						if isOld(ns.s0) && oldSyms[s.v.name] {
							oldSyms[ns.name] = true
						}
						if nonNegSyms[s.v.name] || nonNeg(ns.s0) && nonNegNext(ns) {
							nonNegSyms[ns.name] = true
						}
						extra = append(extra, ns)
						cur = Store(cur, r, ns.cur)
					}
					m[s.v] = cur
					s.done = true
					continue
				}
			}
		}
		s.uf = true
		s.cur = App(s.name, s.v.sort, cvk...)
		if oldSyms[s.v.name] {
			oldSyms[s.name] = true
		}
		if nonNegSyms[s.v.name] {
			nonNegSyms[s.name] = true
		}
		m[s.v] = s.cur
	}
	// promoted scalars may turn out invariant or linear
	for changed := true; changed; {
		changed = false
		for _, s := range extra {
			if s.done {
				continue
			}
			nx := Subst(s.next, m)
			var cl *Term
			if nx == s.cur {
				cl = s.s0
			} else if s.s0.sort == "Int" {
				if d, ok := Sub(nx, s.cur).intVal(); ok {
					cl = Add(s.s0, Mul(BigInt(d), k))
				}
			}
			if cl != nil {
				old := s.cur
				s.done = true
				s.uf = false
				for _, v := range sortedVars(m) {
					m[v] = replaceTerm(m[v], old, cl)
				}
				s.cur = cl
				changed = true
			}
		}
	}
	for _, s := range extra {
		if !s.done {
			info.states = append(info.states, s)
		}
	}
	all := append(append([]*lstate{}, states...), extra...)
	for _, s := range all {
		s := s
		if s.done || !s.uf {
			continue
		}
		laws = append(laws, func(sub func(*Term) *Term) []*Term { return stateLaw(x, info, s, sub(s.next), sub) })
	}
	return m, func(sub func(*Term) *Term) []*Term {
		var out []*Term
		for _, l := range laws {
			out = append(out, l(sub)...)
		}
		return out
	}
}

// solveSingleKey: a loop over a map that only acts on one key acts at most once, at that key's position
func (f *frame) solveSingleKey(info *LoopInfo, l *natLoop, C *Term, states []*lstate, m map[*Term]*Term) {
	var it *VIter
	for _, ins := range l.head.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if nx.IsString {
				return
			}
			it, _ = f.env[nx.Iter].(*VIter)
		}
	}
	if it == nil || it.mt == nil || len(states) == 0 {
		return
	}
	key := it.key(info.k)
	live := func(t *Term) *Term { // in an iteration that is completed
		for _, c := range append(conjuncts(C), Lt(info.k, it.n)) {
			if c.op == "not" {
				t = replaceTerm(t, c.args[0], tFalse)
			} else {
				t = replaceTerm(t, c, tTrue)
			}
		}
		return t
	}
	lv := map[*Term]bool{info.k: true}
	for _, s := range states {
		lv[s.v] = true
	}
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "=" {
			for i, a := range t.args {
				if a == key && !hasAny(t.args[1-i], lv) {
					cands = append(cands, t)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, s := range states {
		if s.next != s.v {
			walk(s.next)
		}
	}
	dbg("single key loop %s: %d candidates\n", info.id, len(cands))
	for _, c := range cands {
		ok := true
		for _, s := range states {
			if s.next != s.v && replaceTerm(live(s.next), c, tFalse) != s.v {
				ok = false
				dbg("single key loop %s: no: %s %s -> %s\n", info.id, c, s.name, replaceTerm(live(s.next), c, tFalse))
				break
			}
		}
		if !ok {
			continue
		}
		k := c.args[0]
		if k == key {
			k = c.args[1]
		}
		p := App("pos!"+it.id, "Int", append(append([]*Term{}, it.cv...), k)...)
		at := map[*Term]*Term{info.k: p}
		for _, s := range states {
			at[s.v] = s.s0
		}
		for _, s := range states {
			if s.done {
				continue
			}
			cl := s.s0
			if s.next != s.v {
				cl = Ite(And(Le(Int(0), p), Lt(p, info.k)), Subst(live(s.next), at), s.s0)
			}
			m[s.v] = cl
			s.done = true
		}
		dbg("single key loop %s: %s\n", info.id, k)
		return
	}
}

func nonNegNext(s *lstate) bool { return false }

// refKnown: the reference's identity is syntactically known (old symbol, allocation or field of such)
func refKnown(r *Term) bool {
	return isOld(r) || isNew(r)
}

func collectSites(r *Term, m map[int]bool) {
	switch r.op {
	case "new":
		var n int
		fmt.Sscanf(r.name, "%d", &n)
		m[n] = true
	case "fld":
		collectSites(r.args[0], m)
	case "ite":
		collectSites(r.args[1], m)
		collectSites(r.args[2], m)
	}
}

func replaceTerm(t, a, b *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == a {
			return b
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		args := make([]*Term, len(t.args))
		for i, c := range t.args {
			args[i] = rec(c)
			if args[i] != c {
				ch = true
			}
		}
		r := t
		if ch {
			if t.op == "forall" {
				r = Forall(t.bind, args[0])
			} else if t.op == "exists" {
				r = Exists(t.bind, args[0])
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// newOnlyLaw: objects allocated in iteration j keep the contents they had at the end of iteration j
func newOnlyLaw(info *LoopInfo, hn string, hnk *Term, s *lstate, next *Term, sites []int) []*Term {
	var out []*Term
	j := Var("jn!"+info.id+hn, "Int")
	kq := Var("kn!"+info.id+hn, "Int")
	nj := Subst(next, map[*Term]*Term{info.k: j})
	hk := Subst(hnk, map[*Term]*Term{info.k: kq})
	for _, site := range sites {
		arity, fls := siteShape(next, site)
		if arity < 0 {
			continue
		}
		if li := lheaps[hn]; li != nil {
			if li.shapes == nil {
				li.shapes = map[int]siteSh{}
			}
			li.shapes[site] = siteSh{arity, fls}
			li.next, li.cv, li.k = next, info.cv, info.k
		}
		for _, fl := range fls {
			args := append([]*Term{}, info.cv...)
			args = append(args, j)
			var bound []*Term
			for a := len(args); a < arity; a++ {
				v := Var(fmt.Sprintf("m%d!%s%s", a, info.id, hn), "Int")
				args = append(args, v)
				bound = append(bound, v)
			}
			r := New(site, args)
			for _, n := range fl {
				r = Fld(n, r)
			}
			body := Implies(And(Le(Int(0), j), Lt(j, kq)), Eq(mk("select", "", elemSort(hk), hk, r), Select(nj, r)))
			out = append(out, Forall(append([]*Term{kq, j}, bound...), body, []*Term{mk("select", "", elemSort(hk), hk, r)}))
		}
	}
	// other references are untouched: handled by Select on the loop heap for known references; state it for the rest
	return out
}

func elemSort(t *Term) string { _, e := arrParts(t.sort); return e }

// siteShape finds the number of counters and the field paths under which objects of a site are stored in t
func siteShape(t *Term, site int) (int, [][]string) {
	ar := -1
	paths := map[string][]string{}
	seen := map[*Term]bool{}
	var walkRef func(r *Term, path []string)
	walkRef = func(r *Term, path []string) {
		switch r.op {
		case "new":
			if r.name == fmt.Sprint(site) {
				if len(r.args) > ar {
					ar = len(r.args)
				}
				paths[strings.Join(path, "|")] = append([]string{}, path...)
			}
		case "fld":
			walkRef(r.args[0], append([]string{r.name}, path...))
		case "ite":
			walkRef(r.args[1], path)
			walkRef(r.args[2], path)
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "store" {
			walkRef(t.args[1], nil)
			walk(t.args[0])
			return
		}
		if t.op == "app" {
			if li, ok := lheaps[t.name]; ok {
				for sn, sh := range li.shapes {
					if sn == site {
						if sh.arity > ar {
							ar = sh.arity
						}
						for _, p := range sh.paths {
							paths[strings.Join(p, "|")] = p
						}
					}
				}
				walk(li.base)
				return
			}
		}
		if t.op == "ite" {
			walk(t.args[1])
			walk(t.args[2])
		}
	}
	walk(t)
	var out [][]string
	var ks []string
	for k := range paths {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, paths[k])
	}
	return ar, out
}

// closedForm: the elements of an array state written once per iteration, over the state's arguments and the index
type closedForm struct {
	params []*Term
	elem   *Term
}

// hitLaws: what is known of the iteration that stored an entry
var hitLaws = map[string]*hitLaw{}

type hitLaw struct {
	params     []*Term
	cond, elem *Term
	info       *LoopInfo
}

// hitFacts: the laws of the hit functions applied in t
func hitFacts(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && len(t.fv) == 0 {
			if l, ok := hitLaws[t.name]; ok && len(l.params) == len(t.args) {
				m := map[*Term]*Term{}
				for i, p := range l.params {
					m[p] = t.args[i]
				}
				m[l.info.k] = t
				var cs []*Term
				for _, c := range append(append([]*Term{l.elem}, conjuncts(l.info.C)...), l.info.facts...) {
					if c = Subst(c, m); len(c.fv) == 0 && termSize(c) < 3000 {
						cs = append(cs, c)
					}
				}
				out = append(out, Implies(Subst(l.cond, m), And(cs...)))
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

var closedForms = map[string]*closedForm{}

// resolveElems replaces reads of such arrays by what was written
func resolveElems(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.args) == 0 || t.op == "forall" || t.op == "exists" {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = resolveElems(a, memo)
		ch = ch || args[i] != a
	}
	r := t
	if t.op == "select" && args[0].op == "app" {
		if cf, ok := closedForms[args[0].name]; ok && len(args[0].args)+1 == len(cf.params) {
			m := map[*Term]*Term{}
			for i, a := range args[0].args {
				m[cf.params[i]] = a
			}
			m[cf.params[len(cf.params)-1]] = args[1]
			if v := Subst(cf.elem, m); closedUnder(v, t, args[1]) {
				memo[t] = v
				return v
			}
		}
	}
	if ch {
		r = rebuild(t, args)
	}
	if t.op == "select" && resolveDepth < 6 {
		if v := newElem(args[0], args[1]); v != nil {
			resolveDepth++
			r = resolveElems(v, map[*Term]*Term{})
			resolveDepth--
			memo[t] = r
			return r
		}
	}
	if t.op == "select" {
		r = selectAll(args[0], args[1])
	}
	memo[t] = r
	return r
}

// closedUnder: v has no variables but those of the terms it was read from
func closedUnder(v *Term, from ...*Term) bool {
	for x := range v.fv {
		ok := false
		for _, f := range from {
			ok = ok || f.fv[x]
		}
		if !ok {
			return false
		}
	}
	return true
}

var resolveDepth int

// newElem reads an object of a loop's iteration j, found by a hit function, from the contents at the end of j
func newElem(h, idx *Term) *Term {
	for h.op == "store" && distinctTerms(h.args[1], idx) {
		h = h.args[0]
	}
	if h.op != "app" {
		return nil
	}
	li, ok := lheaps[h.name]
	if !ok || !li.newOnly || li.next == nil || len(h.args) != len(li.cv)+1 {
		return nil
	}
	r := idx
	for r.op == "fld" {
		r = r.args[0]
	}
	if r.op != "new" || len(r.args) != len(h.args) {
		return nil
	}
	site := 0
	fmt.Sscan(r.name, &site)
	if sh, ok := li.shapes[site]; !ok || sh.arity != len(r.args) {
		return nil
	}
	m := map[*Term]*Term{}
	for i, c := range li.cv {
		if r.args[i] != h.args[i] {
			return nil
		}
		m[c] = h.args[i]
	}
	j := r.args[len(r.args)-1]
	if j == h.args[len(h.args)-1] || j.op != "app" || !strings.HasPrefix(j.name, "hit!") {
		return nil
	}
	m[li.k] = j
	if v := selectAll(Subst(li.next, m), idx); closedUnder(v, h, idx) {
		return v
	}
	return nil
}

// selectAll reads through every store
func selectAll(a, i *Term) *Term {
	if i.op == "ite" {
		return Ite(i.args[0], selectAll(a, i.args[1]), selectAll(a, i.args[2]))
	}
	if a.op == "store" {
		return Ite(Eq(a.args[1], i), a.args[2], selectAll(a.args[0], i))
	}
	return Select(a, i)
}

// isOldElem: old when reads of such arrays are resolved
func isOldElem(t *Term) bool {
	return isOld(t) || isOld(resolveElems(t, map[*Term]*Term{}))
}

// stateLaw: closed characterisations of a state given by recursion
func stateLaw(x *Exec, info *LoopInfo, s *lstate, next *Term, sub func(*Term) *Term) []*Term {
	cur := App(s.name, s.s0.sort, append(append([]*Term{}, info.cv...), info.k)...)
	kq := Var("kq!"+s.name, "Int")
	atK := Subst(cur, map[*Term]*Term{info.k: kq})
	j := Var("jq!"+s.name, "Int")
	toJ := map[*Term]*Term{info.k: j}
	inRange := And(Le(Int(0), kq), Le(kq, info.n))
	var out []*Term
	if strings.HasPrefix(s.s0.sort, "(Array ") {
		is, es := arrParts(s.s0.sort)
		recs, ok := collectStores(next, cur, tTrue)
		if !ok {
			return nil
		}
		for _, r := range recs {
			if r.val == nil {
				return nil
			}
		}
		i := Var("iq!"+s.name, is)
		sel := mk("select", "", es, atK, i)
		base := Select(s.s0, i)
		// unconditional store at a linear index: closed form
		if len(recs) == 1 && recs[0].cond == tTrue && is == "Int" {
			d := Sub(Subst(recs[0].idx, map[*Term]*Term{info.k: Add(info.k, Int(1))}), recs[0].idx)
			if d == Int(1) {
				i0 := Subst(recs[0].idx, map[*Term]*Term{info.k: Int(0)})
				v := Subst(recs[0].val, map[*Term]*Term{info.k: Sub(i, i0)})
				closedForms[s.name] = &closedForm{append(append([]*Term{}, info.cv...), kq, i), Ite(And(Le(i0, i), Lt(i, Add(i0, kq))), v, base)}
				out = append(out, Forall([]*Term{kq, i}, Implies(Le(Int(0), kq), Eq(sel,
					Ite(And(Le(i0, i), Lt(i, Add(i0, kq))), v, base))), []*Term{sel}))
				return out
			}
		}
		// stores at a counter that steps exactly when there is a store (an append under a condition): the
		// entries between the counter's values are the stored ones, each by the iteration hit(i)
		if len(recs) == 1 && is == "Int" {
			r := recs[0]
			for _, t := range info.states {
				if t.done || t.s0.sort != "Int" {
					continue
				}
				tc := App(t.name, "Int", append(append([]*Term{}, info.cv...), info.k)...)
				if r.idx != tc {
					continue
				}
				step, ok := stepCond(sub(t.next), tc)
				if !ok || step != r.cond {
					continue
				}
				at := func(q *Term) *Term { return Subst(tc, map[*Term]*Term{info.k: q}) }
				hit := func(i *Term) *Term {
					return App("hit!"+t.name, "Int", append(append([]*Term{}, info.cv...), i)...)
				}
				h := hit(i)
				hm := map[*Term]*Term{info.k: h}
				out = append(out, Forall([]*Term{kq, i}, Implies(inRange, Ite(And(Le(t.s0, i), Lt(i, at(kq))),
					And(Le(Int(0), h), Lt(h, kq), Subst(step, hm), Eq(at(h), i), Eq(sel, Subst(r.val, hm))), Eq(sel, base))), []*Term{sel}))
				closedForms[s.name] = &closedForm{append(append([]*Term{}, info.cv...), kq, i), Ite(And(Le(t.s0, i), Lt(i, at(kq))), Subst(r.val, hm), base)}
				out = append(out, Forall([]*Term{i}, Implies(And(Le(t.s0, i), Lt(i, at(info.n))),
					And(Le(Int(0), h), Lt(h, info.n), Subst(step, hm), Eq(at(h), i))), []*Term{h}))
				hitLaws[h.name] = &hitLaw{append(append([]*Term{}, info.cv...), i), And(info.guard, Le(t.s0, i), Lt(i, at(info.n))),
					And(Le(Int(0), h), Lt(h, info.n), Subst(step, hm), Eq(at(h), i)), info}
				cj := Subst(step, toJ)
				aj := at(j)
				hj := And(Le(t.s0, aj), Lt(aj, at(info.n)), Eq(hit(aj), j), Eq(mk("select", "", es, Subst(atK, map[*Term]*Term{kq: info.n}), aj), Subst(r.val, toJ)))
				out = append(out, autoForall(j, And(Le(Int(0), j), Lt(j, info.n)), Implies(cj, hj)))
				out = append(out, Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, info.n), cj), hj), []*Term{aj}))
				out = append(out, Forall([]*Term{kq}, Implies(inRange, And(Le(t.s0, at(kq)), Le(at(kq), at(info.n)))), []*Term{at(kq)}))
				return out
			}
		}
		// last write: witness
		w := App("w!"+s.name, "Int", append(append([]*Term{}, info.cv...), kq, i)...)
		wrote := func(jj *Term) *Term {
			var os []*Term
			for _, r := range recs {
				os = append(os, And(Subst(r.cond, map[*Term]*Term{info.k: jj}), Eq(Subst(r.idx, map[*Term]*Term{info.k: jj}), i)))
			}
			return Or(os...)
		}
		valAt := func(jj *Term) *Term {
			var v *Term = base
			for _, r := range recs {
				v = Ite(And(Subst(r.cond, map[*Term]*Term{info.k: jj}), Eq(Subst(r.idx, map[*Term]*Term{info.k: jj}), i)), Subst(r.val, map[*Term]*Term{info.k: jj}), v)
			}
			return v
		}
		out = append(out, Forall([]*Term{kq, i}, Implies(inRange, Or(
			And(Eq(w, Int(-1)), Eq(sel, base)),
			And(Le(Int(0), w), Lt(w, kq), wrote(w), Eq(sel, valAt(w))))), []*Term{sel}))
		// every writing iteration is at or before the witness
		for _, r := range recs {
			rc := Subst(r.cond, toJ)
			ri := Subst(r.idx, toJ)
			wj := App("w!"+s.name, "Int", append(append([]*Term{}, info.cv...), kq, ri)...)
			selj := mk("select", "", es, atK, ri)
			body := Implies(And(inRange, Le(Int(0), j), Lt(j, kq), rc), Le(j, wj))
			out = append(out, Forall([]*Term{kq, j}, body, []*Term{selj}))
			// instance at the loop end, triggered by the index term alone
			en := map[*Term]*Term{kq: info.n}
			tn := Subst(body, en)
			var pats [][]*Term
			if patOK(ri) {
				pats = append(pats, []*Term{ri})
			}
			pats = append(pats, []*Term{Subst(selj, en)})
			seln := Subst(selj, en)
			out = append(out, Forall([]*Term{j}, And(tn, Eq(seln, seln)), pats...))
			// value version: the written entry is set
			if es == "Bool" && len(recs) == 1 && recs[0].val == tTrue {
				out = append(out, Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, info.n), rc), mk("select", "", es, Subst(atK, en), ri)), pats...))
			}
		}
		return out
	}
	// last match: next = ite(c, v, cur) (v not depending on cur)
	if next.op == "ite" {
		c, v, ok := lastMatch(next, cur)
		if ok {
			w := App("w!"+s.name, "Int", append(append([]*Term{}, info.cv...), kq)...)
			out = append(out, Forall([]*Term{kq}, Implies(inRange, Or(
				And(Eq(w, Int(-1)), Eq(atK, s.s0)),
				And(Le(Int(0), w), Lt(w, kq), Subst(c, map[*Term]*Term{info.k: w}), Eq(atK, Subst(v, map[*Term]*Term{info.k: w}))))), []*Term{atK}))
			cj := Subst(c, toJ)
			out = append(out, Forall([]*Term{kq, j}, Implies(And(inRange, Le(Int(0), j), Lt(j, kq), cj), Le(j, w)), []*Term{atK, markJ(cj, j)}))
			en := map[*Term]*Term{kq: info.n}
			out = append(out, autoForall(j, And(Le(Int(0), j), Lt(j, info.n)), Implies(cj, Le(j, Subst(w, en)))))
		}
	}
	if s.s0.sort == "Bool" && !s.done {
		// monotone flags: next = cur or c ; next = cur and c
		if next.op == "or" || next.op == "and" {
			var rest []*Term
			has := false
			for _, a := range next.args {
				if a == cur {
					has = true
				} else {
					rest = append(rest, a)
				}
			}
			if has {
				var c *Term
				if next.op == "or" {
					c = Or(rest...)
				} else {
					c = And(rest...)
				}
				if !mentions(c, cur) {
					w := App("w!"+s.name, "Int", append(append([]*Term{}, info.cv...), kq)...)
					cw := Subst(c, map[*Term]*Term{info.k: w})
					cj := Subst(c, toJ)
					inw := And(Le(Int(0), w), Lt(w, kq))
					if next.op == "or" {
						out = append(out, Forall([]*Term{kq}, Implies(And(inRange, atK, Not(s.s0)), And(inw, cw)), []*Term{atK}))
						out = append(out, Forall([]*Term{kq}, Implies(And(inRange, Not(atK)), And(Not(s.s0), autoForall(j, And(Le(Int(0), j), Lt(j, kq)), Not(cj)))), []*Term{atK}))
					} else {
						out = append(out, Forall([]*Term{kq}, Implies(And(inRange, Not(atK), s.s0), And(inw, Not(cw))), []*Term{atK}))
						out = append(out, Forall([]*Term{kq}, Implies(And(inRange, atK), And(s.s0, autoForall(j, And(Le(Int(0), j), Lt(j, kq)), cj))), []*Term{atK}))
					}
				}
			}
		}
	}
	return out
}

// stepCond: the condition under which next is cur+1, next being cur otherwise
func stepCond(next, cur *Term) (*Term, bool) {
	switch {
	case next == cur:
		return tFalse, true
	case next == Add(cur, Int(1)):
		return tTrue, true
	case next.op == "ite":
		a, ok := stepCond(next.args[1], cur)
		b, ok2 := stepCond(next.args[2], cur)
		if ok && ok2 {
			c := next.args[0]
			if mentions(c, cur) {
				return nil, false
			}
			return Or(And(c, a), And(Not(c), b)), true
		}
	}
	return nil, false
}

func markJ(c, j *Term) *Term {
	// some pattern-able subterm mentioning j
	var found *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t] || !t.fv[j] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if found == nil && patOK(t) {
			found = t
		}
	}
	walk(c)
	if found == nil {
		return tTrue
	}
	return found
}

func mentions(t, a *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, c := range t.args {
			if rec(c) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// lastMatch decomposes next = ite-tree whose leaves are cur or values not mentioning cur
func lastMatch(next, cur *Term) (c, v *Term, ok bool) {
	if next == cur {
		return tFalse, nil, true
	}
	if next.op == "ite" && mentions(next, cur) {
		if mentions(next.args[0], cur) {
			return nil, nil, false
		}
		c1, v1, ok1 := lastMatch(next.args[1], cur)
		c2, v2, ok2 := lastMatch(next.args[2], cur)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		c = Or(And(next.args[0], c1), And(Not(next.args[0]), c2))
		switch {
		case v1 == nil:
			v = v2
		case v2 == nil:
			v = v1
		default:
			v = Ite(next.args[0], v1, v2)
		}
		return c, v, true
	}
	if mentions(next, cur) {
		return nil, nil, false
	}
	return tTrue, next, true
}

// autoForall builds a forall with inferred triggers
func autoForall(j, rng, body *Term) *Term {
	if !body.fv[j] {
		// body does not depend on j: (exists j in range) => body
		return Forall([]*Term{j}, Implies(rng, body))
	}
	pats := inferPats(j, body)
	var ps [][]*Term
	for _, p := range pats {
		ps = append(ps, []*Term{p})
	}
	return Forall([]*Term{j}, Implies(rng, body), ps...)
}

// inferPats: minimal pattern-able subterms with j as a direct argument
func inferPats(j, body *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	got := map[*Term]bool{}
	var walk func(t *Term, under map[*Term]bool)
	walk = func(t *Term, under map[*Term]bool) {
		if seen[t] || !t.fv[j] {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			// terms under inner binders are usable only if they do not mention the inner variables
		}
		for _, a := range t.args {
			walk(a, under)
		}
		if patOK(t) && len(t.fv) >= 1 {
			direct := false
			for _, a := range t.args {
				if a == j {
					direct = true
				}
			}
			inner := false
			for v := range t.fv {
				if v != j && strings.Contains(v.name, "!") && boundIn(body, v) {
					inner = true
				}
			}
			if direct && !inner && !got[t] {
				got[t] = true
				out = append(out, t)
			}
		}
	}
	walk(body, nil)
	if len(out) > 6 {
		// prefer selects / short ones
		sort.SliceStable(out, func(a, b int) bool { return weight(out[a]) < weight(out[b]) })
		out = out[:6]
	}
	return out
}

func weight(t *Term) int {
	n := 1
	for _, a := range t.args {
		n += weight(a)
		if n > 50 {
			return n
		}
	}
	return n
}

func boundIn(body, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, b := range t.bind {
			if b == v {
				return true
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(body)
}

func (f *frame) nextInstr(i *ssa.Next, cond *Term, st *State) *Term {
	x := f.x
	it, ok := f.val(i.Iter, st).(*VIter)
	if !ok {
		unsup("iterator")
	}
	k := f.curK[i.Block()]
	if k == nil {
		unsup("range iterator outside its loop header")
	}
	if i.IsString {
		// k is the byte position
		s := it.str
		okT := Lt(k, SLen(s))
		if k.op == "int" && s.op != "str" {
			okT = mk("unknown-iter", "", "Bool", s) // not unrollable
			f.setv(i, &VTuple{f: []Value{okT, k, Int(0)}})
			return cond
		}
		if s.op == "str" && k.op == "int" {
			// literal string: iteration index k -> k-th rune
			var n int
			fmt.Sscanf(k.name, "%d", &n)
			c := 0
			for p, r := range s.name {
				if c == n {
					f.setv(i, &VTuple{f: []Value{tTrue, Int(int64(p)), Int(int64(r))}})
					return cond
				}
				c++
			}
			f.setv(i, &VTuple{f: []Value{tFalse, Int(0), Int(0)}})
			return cond
		}
		rn := App("utf8rune", "Int", s, k)
		wd := App("utf8width", "Int", s, k)
		b := SAt(s, k)
		x.addFact(Implies(And(Le(Int(0), k), okT), And(
			Implies(Lt(b, Int(128)), And(Eq(rn, b), Eq(wd, Int(1)))),
			Implies(Le(Int(128), b), And(Le(Int(128), rn), Le(rn, Int(0x10ffff)))),
			Le(Int(1), wd), Le(wd, Int(4)), Le(Add(k, wd), SLen(s)), Le(Int(0), b), Le(b, Int(255)))))
		f.strNext = Add(k, wd)
		f.setv(i, &VTuple{f: []Value{okT, k, rn}})
		return cond
	}
	n := it.n
	if n.op != "int" && k.op == "int" {
		// a map known to be empty
		lits := map[*Term]bool{}
		guardLits(cond, lits)
		for _, g := range x.guards {
			guardLits(g, lits)
		}
		if lits[Eq(n, Int(0))] {
			n = Int(0)
		}
	}
	okT := Lt(k, n)
	key := it.key(k)
	var ls []*Term
	for _, v := range it.vals {
		ls = append(ls, Select(v, key))
	}
	val := fromLeaves(it.mt.Elem(), ls)
	fixNN(val)
	if _, isp := it.mt.Elem().Underlying().(*types.Pointer); isp && x.eng.nonNilElems && isInput(ls[0]) {
		x.assumeAt(And(cond, okT), Not(Eq(ls[0], tNull)))
	}
	kv, _ := takeLeaves(it.mt.Key(), []*Term{key})
	f.setv(i, &VTuple{f: []Value{okT, kv, val}})
	return cond
}

// isInput: the term is read from the initial heap
func isInput(t *Term) bool {
	switch t.op {
	case "select":
		return isInput(t.args[0])
	case "app":
		return strings.HasPrefix(t.name, "H|") || strings.HasPrefix(t.name, "in!") || strings.HasPrefix(t.name, "unbox!")
	case "isel":
		return isInput(t.args[0])
	case "ite":
		return isInput(t.args[1]) && isInput(t.args[2])
	}
	return false
}

// noTypedNil: the interface-valued (or array of interface) term holds no typed nil pointer, given that inputs hold none
func noTypedNil(t *Term) bool {
	switch t.op {
	case "nili":
		return true
	case "icon":
		for _, a := range t.args {
			if a.sort == "Ref" && !isNew(a) {
				return false
			}
		}
		return true
	case "ite":
		return noTypedNil(t.args[1]) && noTypedNil(t.args[2])
	case "select":
		return noTypedNil(t.args[0])
	case "store":
		return noTypedNil(t.args[0]) && noTypedNil(t.args[2])
	case "const":
		return noTypedNil(t.args[0])
	case "app":
		return isInput(t) || strings.HasPrefix(t.name, "spec!") && t.sort == "Iface"
	}
	return isInput(t)
}

func debugOn() bool { return os.Getenv("GOVC_DEBUG") != "" }

func addF(r *Recorder, f *Term) {
	if f != tTrue {
		r.facts = append(r.facts, f)
	}
}

func whyNotOld(t *Term) string {
	if isOld(t) {
		return ""
	}
	switch t.op {
	case "select", "fld", "isel", "const":
		return "." + t.op + whyNotOld(t.args[0])
	case "ite":
		if !isOld(t.args[1]) {
			return ".then" + whyNotOld(t.args[1])
		}
		return ".else" + whyNotOld(t.args[2])
	case "store":
		if !isOld(t.args[0]) {
			return ".base" + whyNotOld(t.args[0])
		}
		return ".val" + whyNotOld(t.args[2])
	}
	return " " + t.str(5)
}

func sortedVars(m map[*Term]*Term) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b := range m {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}
