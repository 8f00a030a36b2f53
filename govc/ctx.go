package main

import "sort"

// Contextual simplification of an obligation: literals known to hold (conjuncts of the goal's guard) are
// replaced by true in the conclusion and in the hypotheses, and are kept as hypotheses themselves.

func guardLits(g *Term, out map[*Term]bool) { guardLitsD(g, out, 0) }

func guardLitsD(g *Term, out map[*Term]bool, d int) {
	switch {
	case g.op == "and":
		for _, a := range g.args {
			guardLitsD(a, out, d)
		}
		return
	case g.op == "not" && g.args[0].op == "or":
		for _, a := range g.args[0].args {
			guardLitsD(Not(a), out, d)
		}
	case g.op == "or" && d < 2 && len(g.args) <= 8:
		// literals common to all disjuncts
		var common map[*Term]bool
		for _, a := range g.args {
			s := map[*Term]bool{}
			guardLitsD(a, s, d+1)
			if common == nil {
				common = s
				continue
			}
			for k := range common {
				if !s[k] {
					delete(common, k)
				}
			}
		}
		for k := range common {
			out[k] = true
		}
	}
	if g != tTrue {
		out[g] = true
	}
}

func rewriteLits(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = rewriteLits(a, m, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	switch t.op {
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			ok := true
			for _, x := range p {
				y := rewriteLits(x, m, memo)
				if y != x {
					same = false
				}
				if len(y.args) == 0 {
					ok = false
				}
				q = append(q, y)
			}
			if ok {
				pats = append(pats, q)
			}
		}
		if !same {
			if t.op == "forall" {
				r = Forall(t.bind, args[0], pats...)
			} else {
				r = Exists(t.bind, args[0])
			}
		}
	default:
		if !same {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func ctxSimplify(hyps []*Term, goal *Term) ([]*Term, *Term) {
	var lits []*Term
	known := map[*Term]bool{}
	seq := 0
	resolved := 0
	extra := map[*Term]bool{}
	for round := 0; round < 16; round++ {
		changed := false
		s := map[*Term]bool{}
		for l := range known {
			s[l] = true
		}
		for l := range extra {
			s[l] = true
		}
		extra = map[*Term]bool{}
		guards, core := peelGoal(goal, &seq)
		for _, g := range guards {
			guardLits(g, s)
		}
		goal = core
		// top-level literal hypotheses
		for _, h := range hyps {
			if h.op == "forall" || h.op == "=>" || h.op == "or" {
				continue
			}
			for _, c := range conjuncts(h) {
				if c.op != "forall" && c.op != "or" && c.op != "=>" && len(c.fv) == 0 && !(c.op == "=" && c.args[0].sort == "Bool") {
					s[c] = true
				}
			}
		}
		for _, l := range unitPropagate(s) {
			if known[l] || l == tTrue {
				continue
			}
			if l == tFalse {
				return nil, tTrue
			}
			known[l] = true
			lits = append(lits, l)
			changed = true
		}
		if changed {
			m := map[*Term]*Term{}
			for l := range known {
				if l.op == "not" {
					m[l.args[0]] = tFalse
				}
				m[l] = tTrue
			}
			memo := map[*Term]*Term{}
			for _, l := range sortedTerms(known) {
				r := rewriteAtom(l, m, memo)
				if r != l && !known[r] {
					guardLits(r, extra)
				}
			}
			goal = rewriteLits(goal, m, memo)
			if goal == tTrue {
				return nil, tTrue
			}
			var nh []*Term
			for _, h := range hyps {
				h = rewriteLits(h, m, memo)
				if h == tTrue {
					continue
				}
				if h == tFalse {
					return nil, tTrue
				}
				nh = append(nh, h)
			}
			hyps = nh
			continue
		}
		if resolved > 3 {
			break
		}
		resolved++
		if g := resolveElems(goal, map[*Term]*Term{}); g == goal || termSize(g) >= 5000 {
			break
		} else {
			m := map[*Term]*Term{}
			for l := range known {
				if l.op == "not" {
					m[l.args[0]] = tFalse
				}
				m[l] = tTrue
			}
			memo := map[*Term]*Term{}
			goal = rewriteLits(g, m, memo)
			if goal == tTrue {
				return nil, tTrue
			}
			for _, h := range hitFacts(goal) {
				if h = rewriteLits(h, m, memo); h.op == "=>" {
					hyps = append(hyps, h)
				} else {
					guardLits(h, extra)
				}
			}
		}
	}
	return append(lits, hyps...), goal
}

// peelGoal separates what may be assumed in a goal from what is left to show; bound variables become constants
func peelGoal(g *Term, seq *int) ([]*Term, *Term) {
	var guards []*Term
	for {
		switch g.op {
		case "=>":
			guards = append(guards, g.args[0])
			g = g.args[1]
			continue
		case "or":
			// the disjuncts other than the last and most complex one are false where it matters
			main := 0
			for i, d := range g.args {
				if termSize(d) >= termSize(g.args[main]) {
					main = i
				}
			}
			keep := []*Term{}
			n := 0
			for i, d := range g.args {
				if i == main || d.op == "forall" || d.op == "exists" {
					keep = append(keep, d)
				} else {
					guards = append(guards, Not(d))
					n++
				}
			}
			if n > 0 {
				g = Or(keep...)
				continue
			}
		case "forall":
			m := map[*Term]*Term{}
			for _, v := range g.bind {
				*seq++
				m[v] = App("sk!"+itoaI(*seq)+"!"+v.name, v.sort)
			}
			g = Subst(g.args[0], m)
			continue
		}
		return guards, g
	}
}

// rewriteAtom simplifies the terms inside a literal by the other literals
func rewriteAtom(l *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	a := l
	if l.op == "not" {
		a = l.args[0]
	}
	switch a.op {
	case "=", "<=", "select", "app", "is":
	default:
		return l
	}
	args := make([]*Term, len(a.args))
	same := true
	for i, x := range a.args {
		args[i] = rewriteLits(x, m, memo)
		same = same && args[i] == x
	}
	if same {
		return l
	}
	r := rebuild(a, args)
	if l.op == "not" {
		return Not(r)
	}
	return r
}

// unitPropagate closes a set of literals under simplifying its disjunctions by the other literals
func unitPropagate(s map[*Term]bool) []*Term {
	for round := 0; round < 8; round++ {
		changed := false
		for _, l := range sortedTerms(s) {
			if l.op != "or" && !(l.op == "not" && l.args[0].op == "and") {
				continue
			}
			r := propSimp(l, s, 0)
			if r == l {
				continue
			}
			delete(s, l)
			before := len(s)
			guardLits(r, s)
			if len(s) != before || r == tTrue {
				changed = true
			}
			s[l] = true // still known, and still of use where it occurs as a whole
		}
		if !changed {
			break
		}
	}
	return sortedTerms(s)
}

func propSimp(t *Term, s map[*Term]bool, d int) *Term {
	if d > 0 {
		if s[t] {
			return tTrue
		}
		if s[Not(t)] {
			return tFalse
		}
	}
	if d > 6 {
		return t
	}
	switch t.op {
	case "and", "or", "not":
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = propSimp(a, s, d+1)
			if args[i] != a {
				same = false
			}
		}
		if same {
			return t
		}
		switch t.op {
		case "and":
			return And(args...)
		case "or":
			return Or(args...)
		}
		return Not(args[0])
	}
	return t
}

func sortedTerms(s map[*Term]bool) []*Term {
	var out []*Term
	for t := range s {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// termSize: number of distinct subterms, up to a limit
func termSize(t *Term) int {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(seen) > 5000 {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return len(seen)
}
