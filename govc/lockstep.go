package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

// Induction lemmas for obligations that the loop summaries alone do not settle.
//
// For one loop, or two loops run in lockstep, candidate relations between their states at the same iteration
// count are proposed, and the largest inductive subset is kept: each must hold initially, and each must hold
// after an iteration when all hold before it. Base and step are discharged by the solvers from the
// obligation's own hypotheses; only what they accept becomes a hypothesis.

type lemma struct {
	hyps map[*Term]bool
	l    [2]*LoopInfo
	out  []*Term
}

func heads(ts []*Term) map[string]bool {
	names := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" || t.op == "sym" {
			names[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return names
}

// inductLoops: the loops an obligation may speak about: their context is fixed in it
func (e *Engine) inductLoops(o *Obl) []*LoopInfo {
	if o.x == nil {
		return nil
	}
	hs := heads(append(append([]*Term{}, o.hyps...), o.goal))
	ctx := map[*Term]bool{}
	for _, l := range o.loops {
		ctx[l.k] = true
	}
	var out []*LoopInfo
	var walk func(ls []*LoopInfo)
	walk = func(ls []*LoopInfo) {
	next:
		for _, l := range ls {
			walk(l.inner)
			for _, v := range l.cv {
				if !ctx[v] {
					continue next
				}
			}
			if hs[l.n.name] {
				out = append(out, l)
			}
		}
	}
	walk(o.x.rec.loops)
	return out
}

// induct returns the lemmas found for the obligation
func (e *Engine) induct(o *Obl) []*Term {
	loops := e.inductLoops(o)
	if len(loops) == 0 || len(loops) > 12 {
		return nil
	}
	hyps := map[*Term]bool{}
	for _, h := range o.hyps {
		hyps[h] = true
	}
	own := map[*LoopInfo]bool{}
	for _, l := range o.loops {
		own[l] = true
	}
	var out []*Term
	try := func(a, b *LoopInfo) {
	cached:
		for _, lm := range o.x.lemmas {
			if lm.l != [2]*LoopInfo{a, b} {
				continue
			}
			for h := range lm.hyps {
				if !hyps[h] {
					continue cached
				}
			}
			out = append(out, lm.out...)
			return
		}
		ls := e.inductPair(append(append([]*Term{}, o.hyps...), out...), a, b, own[a], 0)
		h2 := map[*Term]bool{}
		for h := range hyps {
			h2[h] = true
		}
		o.x.lemmas = append(o.x.lemmas, &lemma{h2, [2]*LoopInfo{a, b}, ls})
		out = append(out, ls...)
	}
	for _, l := range loops {
		try(l, l)
	}
	for i, a := range loops {
		for _, b := range loops[i+1:] {
			if (a.fn == b.fn || a.spec != b.spec) && !own[a] && !own[b] {
				try(a, b)
			}
		}
	}
	return out
}

// instance of an inner loop at one iteration of the outer one
func (l *LoopInfo) instance(m map[*Term]*Term) *LoopInfo {
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return subst(t, m, memo)
	}
	c := *l
	c.n, c.guard, c.C = sub(l.n), sub(l.guard), sub(l.C)
	c.facts = nil
	for _, f := range l.facts {
		c.facts = append(c.facts, sub(f))
	}
	c.states = nil
	for _, s := range l.states {
		t := *s
		t.s0, t.next, t.cur = sub(s.s0), sub(s.next), sub(s.cur)
		c.states = append(c.states, &t)
	}
	c.inner = nil
	for _, i := range l.inner {
		c.inner = append(c.inner, i.instance(m))
	}
	return &c
}

type cand struct {
	what string
	p    func(k *Term) *Term
	dead bool
}

// inductPair: own: the lemma is used inside an iteration of a (=b), so it speaks about the iterations up to it
func (e *Engine) inductPair(hyps0 []*Term, a, b *LoopInfo, own bool, depth int) []*Term {
	termMu.Lock()
	k := Var("ki!"+a.id+"!"+b.id, "Int")
	at := func(l *LoopInfo, t, kk *Term) *Term { return Subst(t, map[*Term]*Term{l.k: kk}) }
	G := And(a.guard, b.guard)
	var cs []*cand
	add := func(what string, p func(k *Term) *Term) {
		if q := p(k); q == tTrue || q == tFalse {
			return
		}
		cs = append(cs, &cand{what: what, p: p})
	}
	eqs := func(la *LoopInfo, s *lstate, lb *LoopInfo, t *lstate) {
		ps, pt := probes(la, s), probes(lb, t)
		for _, p := range ps {
			for _, q := range pt {
				p, q := p, q
				if p.sort == q.sort {
					add(s.name+"="+t.name, func(k *Term) *Term { return Eq(at(la, p, k), at(lb, q, k)) })
					continue
				}
				for _, w := range wraps(p.sort, q.sort) {
					w := w
					add(s.name+"=icon "+t.name, func(k *Term) *Term { return Eq(at(la, p, k), w(at(lb, q, k))) })
				}
				for _, w := range wraps(q.sort, p.sort) {
					w := w
					add("icon "+s.name+"="+t.name, func(k *Term) *Term { return Eq(w(at(la, p, k)), at(lb, q, k)) })
				}
			}
		}
	}
	if a == b {
		for i, s := range a.states {
			s := s
			for _, p := range probes(a, s) {
				p := p
				p0 := at(a, p, Int(0))
				if p == s.cur {
					p0 = s.s0
				}
				add(s.name+" constant", func(k *Term) *Term { return Eq(at(a, p, k), p0) })
				if p.sort == "Int" {
					add(s.name+" counts", func(k *Term) *Term { return Eq(at(a, p, k), Add(p0, k)) })
				}
			}
			for _, t := range a.states[i+1:] {
				eqs(a, s, a, t)
			}
		}
	} else {
		for _, s := range a.states {
			for _, t := range b.states {
				eqs(a, s, b, t)
			}
		}
	}
	if debugOn() {
		fmt.Fprintf(os.Stderr, "induct %s(%s) %s(%s): %d candidates\n", a.id, a.fn, b.id, b.fn, len(cs))
		for _, s := range a.states {
			fmt.Fprintf(os.Stderr, "  state %s : %s\n", s.name, s.s0.sort)
		}
	}
	if len(cs) == 0 || len(cs) > 150 {
		termMu.Unlock()
		return nil
	}
	bound := func(l *LoopInfo) *Term {
		if own {
			return l.k
		}
		return l.n
	}
	base := append(append([]*Term{}, hyps0...), G)
	step := append([]*Term{}, base...)
	for _, l := range []*LoopInfo{a, b} {
		for _, s := range l.states {
			if s.cur.op == "app" {
				base = append(base, Eq(s.at(l, Int(0)), s.s0))
			}
		}
		if a == b {
			break
		}
	}
	step = append(step, Le(Int(0), k))
	for _, l := range []*LoopInfo{a, b} {
		step = append(step, Lt(k, bound(l)))
		for _, c := range conjuncts(l.C) {
			step = append(step, at(l, c, k))
		}
		for _, f := range l.facts {
			step = append(step, at(l, f, k))
			if !own {
				step = append(step, at(l, f, Add(k, Int(1))))
			}
		}
		for _, s := range l.states {
			if s.cur.op == "app" {
				step = append(step, Eq(s.at(l, Add(k, Int(1))), at(l, s.next, k)))
			}
		}
		if a == b {
			break
		}
	}
	zeros, nexts := make([]*Term, len(cs)), make([]*Term, len(cs))
	for i, c := range cs {
		zeros[i], nexts[i] = c.p(Int(0)), c.p(Add(k, Int(1)))
	}
	termMu.Unlock()
	skip := map[*Term]bool{}
	for _, h := range hyps0 {
		skip[h] = true
	}
	for _, h := range append(append([]*Term{}, base[len(hyps0):]...), step[len(hyps0):]...) {
		delete(skip, h)
	}
	check := func(hyps []*Term, goals []*Term) bool {
		var wg sync.WaitGroup
		changed := false
		var mu sync.Mutex
		for i, c := range cs {
			if c.dead {
				continue
			}
			wg.Add(1)
			go func(i int, c *cand) {
				defer wg.Done()
				// most relations follow from the transition of the loops alone
				ok, _, d, _, _ := valid(groundOnly(hyps, skip), goals[i], 1)
				if !ok {
					var d2 float64
					ok, _, d2, _, _ = valid(hyps, goals[i], 2)
					d += d2
				}
				mu.Lock()
				e.inductSecs += d
				if !ok {
					if debugOn() && a != b {
						hs, g := groundOnly(hyps, skip), goals[i]
						fmt.Fprintf(os.Stderr, "  dead %s: %v\n", c.what, g)
						for _, h := range hs {
							fmt.Fprintf(os.Stderr, "      hyp %v\n", h)
						}
					}
					c.dead, changed = true, true
				}
				mu.Unlock()
			}(i, c)
		}
		wg.Wait()
		return changed
	}
	check(base, zeros)
	for {
		hyps := append([]*Term{}, step...)
		n := 0
		termMu.Lock()
		for _, c := range cs {
			if !c.dead {
				hyps = append(hyps, c.p(k))
				n++
			}
		}
		termMu.Unlock()
		if n == 0 {
			return nil
		}
		if depth < 2 && (len(a.inner) > 0 || len(b.inner) > 0) {
			termMu.Lock()
			var ia, ib []*LoopInfo
			for _, l := range a.inner {
				ia = append(ia, l.instance(map[*Term]*Term{a.k: k}))
			}
			if a != b {
				for _, l := range b.inner {
					ib = append(ib, l.instance(map[*Term]*Term{b.k: k}))
				}
			}
			termMu.Unlock()
			for i, p := range append(append([]*LoopInfo{}, ia...), ib...) {
				hyps = append(hyps, e.inductPair(hyps, p, p, false, depth+1)...)
				if i < len(ia) {
					for _, q := range ib {
						if p.fn == q.fn || p.spec != q.spec {
							hyps = append(hyps, e.inductPair(hyps, p, q, false, depth+1)...)
						}
					}
				}
			}
		}
		if !check(hyps, nexts) {
			break
		}
	}
	termMu.Lock()
	var out []*Term
	j := Var("ji!"+a.id+"!"+b.id, "Int")
	end := []*Term{bound(a)}
	rng := And(Le(Int(0), j), Le(j, bound(a)))
	if a != b {
		end = append(end, b.n)
		rng = And(rng, Le(j, b.n))
	}
	var kept []string
	for _, c := range cs {
		if c.dead {
			continue
		}
		kept = append(kept, c.what)
		out = append(out, Implies(G, autoForall(j, rng, c.p(j))))
		for _, n := range end {
			out = append(out, Implies(And(G, Subst(rng, map[*Term]*Term{j: n})), c.p(n)))
		}
	}
	sort.Strings(kept)
	termMu.Unlock()
	if debugOn() {
		fmt.Fprintf(os.Stderr, "  kept %v\n", kept)
	}
	if a != b {
		// what the longer loop does where the shorter one ends
		termMu.Lock()
		for _, pq := range [][2]*LoopInfo{{a, b}, {b, a}} {
			p, q := pq[0], pq[1]
			for d := int64(0); d < 2; d++ {
				i := Add(p.n, Int(d))
				var fs []*Term
				fs = append(fs, at(q, q.C, i))
				for _, f := range q.facts {
					fs = append(fs, at(q, f, i))
				}
				for _, s := range q.states {
					if s.cur.op == "app" {
						fs = append(fs, Eq(s.at(q, Add(i, Int(1))), at(q, s.next, i)))
					}
				}
				out = append(out, Implies(And(G, Lt(i, q.n)), And(fs...)))
			}
		}
		termMu.Unlock()
		// relations between the numbers of iterations
		h := append(append([]*Term{}, base...), out...)
		for _, g := range []*Term{Eq(a.n, b.n), Le(a.n, b.n), Le(b.n, a.n)} {
			ok, _, d, _, _ := valid(h, g, 3)
			e.inductSecs += d
			if ok {
				if debugOn() {
					fmt.Fprintf(os.Stderr, "  counts: %v\n", g)
				}
				out = append(out, Implies(G, g))
				break
			}
		}
	}
	e.lemmaCount += len(out)
	return out
}

// groundOnly: the hypotheses without quantifiers, and without those of the obligation
func groundOnly(hs []*Term, skip map[*Term]bool) []*Term {
	var out []*Term
	for _, h := range hs {
		if !skip[h] && !hasQuant(h, map[*Term]bool{}) {
			out = append(out, h)
		}
	}
	return out
}

func hasQuant(t *Term, seen map[*Term]bool) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if hasQuant(a, seen) {
			return true
		}
	}
	return false
}

// probes: the terms of a state that candidates speak about: the state itself and, for a heap, the entries it updates
func probes(l *LoopInfo, s *lstate) []*Term {
	out := []*Term{s.cur}
	if recs, ok := collectStores(s.next, s.cur, tTrue); ok && s.next != s.cur {
		seen := map[*Term]bool{}
		for _, r := range recs {
			if r.idx != nil && !r.idx.fv[l.k] && !seen[r.idx] && len(out) < 4 {
				seen[r.idx] = true
				out = append(out, Select(s.cur, r.idx))
			}
		}
	}
	return out
}

// wraps: constructors of interface values (sort to) from a value of sort from
func wraps(to, from string) []func(*Term) *Term {
	if to != "Iface" || from == "Iface" {
		return nil
	}
	var out []func(*Term) *Term
	for _, kk := range iconOrder {
		ic := icons[kk]
		if len(ic.sorts) == 1 && ic.sorts[0] == from {
			n := ic.name
			out = append(out, func(t *Term) *Term { return ICon(n, t) })
		}
	}
	if len(out) > 8 {
		return nil
	}
	return out
}
