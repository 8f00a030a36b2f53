package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type oblResult struct {
	obl    *Obl
	status string // proved, failed, trivial
	solver string
	secs   float64
	out    string
	query  string
}

type solver struct {
	name string
	mode string
	argv func(file string, secs int) []string
}

// slack multiplies the time limits of the solvers (a second attempt at what failed: the machine may be slow or busy)
var slack = 1

// hardStop: no solver is started after it, so that the check always answers
var hardStop time.Time

var solvers = []solver{
	{"z3-4.8.12", "u", func(f string, s int) []string { return []string{"z3", "-T:" + itoaI(s), f} }},
	{"z3-new", "u", func(f string, s int) []string { return []string{"z3-new", "-T:" + itoaI(s), f} }},
	{"cvc5", "s", func(f string, s int) []string {
		return []string{"cvc5", "--strings-exp", "--tlimit=" + itoaI(s*1000), f}
	}},
	{"cvc5-u", "u", func(f string, s int) []string {
		return []string{"cvc5", "--tlimit=" + itoaI(s*1000), f}
	}},
	{"z3-str", "s", func(f string, s int) []string { return []string{"z3-new", "-T:" + itoaI(s), f} }},
}

func itoaI(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

var solverSem = make(chan bool, 8)
var scratchDir string
var solverSecs float64
var solverMu sync.Mutex
var querySeq int

func runSolver(ctx context.Context, s solver, text string, secs int) (string, string, float64) {
	solverSem <- true
	defer func() { <-solverSem }()
	if ctx.Err() != nil || !hardStop.IsZero() && time.Now().After(hardStop) {
		return "cancelled", "", 0
	}
	solverMu.Lock()
	querySeq++
	f := filepath.Join(scratchDir, "q"+itoaI(querySeq)+".smt2")
	solverMu.Unlock()
	if s.mode == "u" && strings.HasPrefix(s.name, "cvc5") {
		text = "(set-logic ALL)\n" + text
	}
	os.WriteFile(f, []byte(text), 0644)
	defer os.Remove(f)
	t0 := time.Now()
	secs *= slack
	c2, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	a := s.argv(f, secs)
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	out, _ := cmd.CombinedOutput()
	d := time.Since(t0).Seconds()
	if os.Getenv("GOVC_TRACE") != "" && d > 1 {
		fmt.Fprintf(os.Stderr, "%s %s %.1fs (limit %d) %s\n%s\n", time.Now().Format("04:05"), s.name, d, secs, strings.SplitN(string(out), "\n", 2)[0], "")
	}
	solverMu.Lock()
	solverSecs += d
	solverMu.Unlock()
	o := strings.TrimSpace(string(out))
	first := o
	for _, l := range strings.Split(o, "\n") {
		if l == "sat" || l == "unsat" || l == "unknown" || strings.HasPrefix(l, "(error") {
			first = l
			break
		}
	}
	return first, o, d
}

// check validity of hyps => goal with a portfolio
func valid(hyps []*Term, goal *Term, secs int) (bool, string, float64, string, string) {
	if goal == tTrue {
		return true, "simplifier", 0, "", ""
	}
	termMu.Lock()
	hyps, goal = ctxSimplify(hyps, goal)
	termMu.Unlock()
	return validSimp(hyps, goal, secs)
}

// validSimp: valid, for a simplified obligation
func validSimp(hyps []*Term, goal *Term, secs int) (bool, string, float64, string, string) {
	if goal == tTrue {
		return true, "simplifier", 0, "", ""
	}
	termMu.Lock()
	qu := smtQuery("u", hyps, goal, nil, false)
	termMu.Unlock()
	// stage 1: quick z3
	first := 2
	if secs < 2 {
		first = secs
	}
	st, out, d := runSolver(context.Background(), solvers[0], qu, first)
	if st == "unsat" {
		return true, solvers[0].name, d, out, qu
	}
	if secs <= 2 {
		return false, solvers[0].name, d, out, qu
	}
	// stage 2: without the large quantified hypotheses
	if lh := lightHyps(hyps); len(lh) < len(hyps) {
		termMu.Lock()
		ql := smtQuery("u", lh, goal, nil, false)
		termMu.Unlock()
		for _, sv := range []int{0, 1} {
			st, out, d2 := runSolver(context.Background(), solvers[sv], ql, 2)
			d += d2
			if st == "unsat" {
				return true, solvers[sv].name, d, out, ql
			}
		}
	}
	termMu.Lock()
	qs := smtQuery("s", hyps, goal, nil, false)
	termMu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct {
		st, out, name string
		d             float64
	}
	ch := make(chan r, len(solvers))
	for _, s := range solvers {
		s := s
		t := qu
		if s.mode == "s" {
			t = qs
		}
		go func() {
			st, out, d := runSolver(ctx, s, t, secs)
			ch <- r{st, out, s.name, d}
		}()
	}
	var all []string
	tot := d
	for range solvers {
		x := <-ch
		tot += x.d
		if x.st == "unsat" {
			return true, x.name, tot, x.out, qu
		}
		o := x.out
		if len(o) > 400 {
			o = o[:400]
		}
		all = append(all, x.name+": "+o)
	}
	return false, "portfolio", tot, strings.Join(all, "\n"), qu
}

// lightHyps drops the hypotheses that are quantified and large
func lightHyps(hyps []*Term) []*Term {
	var out []*Term
	for _, h := range hyps {
		if !hasQuant(h, map[*Term]bool{}) || termSize(h) < 80 {
			out = append(out, h)
		}
	}
	return out
}

var termMu sync.Mutex

// slice keeps only hypotheses connected to the goal through shared uninterpreted symbols (cheap relevance filter)
func slice(hyps []*Term, goal *Term) []*Term { return hyps }

func (e *Engine) discharge(obls []*Obl, secs int) []oblResult {
	res := make([]oblResult, len(obls))
	pass := func(secs int, sel func(i int) bool) {
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		// in order, so that the queries do not depend on the schedule
		type sq struct {
			hyps []*Term
			goal *Term
		}
		simp := make([]sq, len(obls))
		for i, o := range obls {
			if !sel(i) {
				continue
			}
			termMu.Lock()
			h, g := ctxSimplify(append(o.hyps[:len(o.hyps):len(o.hyps)], o.lem...), o.goal)
			termMu.Unlock()
			simp[i] = sq{h, g}
		}
		for i, o := range obls {
			if !sel(i) {
				continue
			}
			wg.Add(1)
			go func(i int, o *Obl) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				r := &res[i]
				r.obl = o
				ok, s, d, out, qy := validSimp(simp[i].hyps, simp[i].goal, secs)
				r.solver, r.out, r.query = s, out, qy
				r.secs += d
				if ok {
					r.status = "proved"
				} else {
					r.status = "failed"
				}
			}(i, o)
		}
		wg.Wait()
	}
	failed := func(i int) bool { return res[i].status == "failed" }
	short := secs
	if short > 3 {
		short = 3
	}
	pass(short, func(int) bool { return true })
	n := 0
	for i := range res {
		if failed(i) {
			n++
		}
	}
	if n == 0 || short == secs {
		return res
	}
	if n <= 40 {
		for i, o := range obls {
			if failed(i) {
				o.lem = e.induct(o)
			}
		}
	}
	pass(secs, failed)
	return res
}

// vacuous returns the labels of clauses whose every instance is stated under an unsatisfiable condition
func (e *Engine) vacuous(xs []*Exec) []string {
	by := map[string][]*Obl{}
	var labs []string
	for _, x := range xs {
		for _, o := range x.covers {
			if by[o.label] == nil {
				labs = append(labs, o.label)
			}
			by[o.label] = append(by[o.label], o)
		}
	}
	bad := make([]bool, len(labs))
	var wg sync.WaitGroup
	for i, l := range labs {
		wg.Add(1)
		go func(i int, os []*Obl) {
			defer wg.Done()
			for _, o := range os {
				if o.goal == tTrue {
					continue
				}
				termMu.Lock()
				qy := smtQuery("u", o.hyps, o.goal, nil, false)
				termMu.Unlock()
				st, _, _ := runSolver(context.Background(), solvers[0], qy, 1)
				if st != "unsat" {
					return
				}
			}
			bad[i] = true
		}(i, by[l])
	}
	wg.Wait()
	var out []string
	for i, l := range labs {
		if bad[i] {
			out = append(out, l)
		}
	}
	return out
}
