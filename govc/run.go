package main

// The check of one property: prove every contract from the current source, then execute the contracts on
// concrete inputs (replay of failed obligations, stand-in where the verifier does not reach).

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Harness  string `json:"harness"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit"`
}

type hResult struct {
	h        *Harness
	status   string // proved, failed, bounded
	reason   string
	results  []oblResult
	externs  []string
	inlined  []string
	lemmas   int
	secs     float64
	runs     *vStat
	contract string
}

func specKeys(spec, prop string) []string {
	re := regexp.MustCompile(`func verify_` + prop + `_`)
	var keys []string
	for _, k := range pkgDirs {
		fs, _ := filepath.Glob(filepath.Join(spec, k, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if re.Match(b) {
				keys = append(keys, k)
				break
			}
		}
	}
	return keys
}

func runProperty(repo, spec, evid, known, prop, tier string, seed int64) int {
	t0 := time.Now()
	keys := specKeys(spec, prop)
	if len(keys) == 0 {
		fmt.Fprintf(os.Stderr, "govc: no contracts for %s\n", prop)
		return 2
	}
	loadKeys := keys
	if keys[0] != "root" {
		loadKeys = append([]string{"root"}, keys...)
	}
	secs, ms, runs, retry, budget := 10, 2500, 40000, 40, 420*time.Second
	if tier == "thorough" {
		secs, ms, runs, retry, budget = 60, 60000, 2000000, 120, 3000*time.Second
	}
	hardStop = time.Now().Add(budget * 12 / 7)
	conc := os.Getenv("GOVC_CONCRETE_ONLY") // development only: milliseconds per contract, no proofs
	if conc != "" {
		fmt.Sscan(conc, &ms)
	}
	e := newEngine(repo, spec)
	if err := e.load(loadKeys); err != nil {
		fmt.Printf("govc: the code under verification does not load: %v\n", err)
		return 2
	}
	e.findHarnesses()
	var hs, finds []*Harness
	for _, h := range e.harnesses {
		if h.prop != prop {
			continue
		}
		if h.finding != "" {
			finds = append(finds, h)
		} else {
			hs = append(hs, h)
		}
	}
	declared := declaredHarnesses(spec, keys, prop)
	// concrete execution
	cch := make(chan map[string]*concreteRun, 1)
	func() {
		out := map[string]*concreteRun{}
		for _, k := range keys {
			var sub []*Harness
			for _, h := range append(append([]*Harness{}, hs...), finds...) {
				if h.pkg == k && h.fn != nil {
					sub = append(sub, h)
				}
			}
			if len(sub) > 0 {
				out[k] = e.concrete(k, sub, seed, ms, runs, 4)
			}
		}
		cch <- out
	}()
	crs := <-cch
	violated := func() bool { // an executed input is already known to break a clause
		for _, cr := range crs {
			for _, h := range hs {
				if s := cr.stats[h.name]; s != nil && len(s.Fails) > 0 {
					return true
				}
			}
		}
		return false
	}
	var res []*hResult
	for _, h := range hs {
		r := &hResult{h: h}
		res = append(res, r)
		if h.bounded != "" {
			r.status, r.reason = "bounded", h.bounded
			continue
		}
		if conc != "" {
			r.status, r.reason = "bounded", "executed only"
			continue
		}
		if time.Since(t0) > budget {
			r.status, r.reason = "bounded", "time budget of the check used up before this contract"
			continue
		}
		if violated() {
			r.status, r.reason = "bounded", "not attempted: an executed input already breaks the property"
			continue
		}
		ht := time.Now()
		xs, msg := e.vcgenAll(h)
		if msg != "" {
			r.status, r.reason = "bounded", "outside the verifier's reach: "+msg
			r.secs = time.Since(ht).Seconds()
			continue
		}
		var obls []*Obl
		ext, inl := map[string]bool{}, map[string]bool{}
		for _, x := range xs {
			for _, o := range x.rec.obls {
				o.x = x
			}
			obls = append(obls, x.rec.obls...)
			for k := range x.externs {
				ext[shortName(k)] = true
			}
			for k := range x.inlined {
				inl[shortName(k)] = true
			}
		}
		r.results = e.discharge(obls, secs)
		if nf := failedOf(r.results); len(nf) > 0 && time.Since(t0) < budget*5/7 && !violated() {
			slack = 3
			var again []*Obl
			for _, i := range nf {
				again = append(again, r.results[i].obl)
				r.results[i].obl.x.lemmas = nil
			}
			for j, q := range e.discharge(again, secs) {
				q.secs += r.results[nf[j]].secs
				r.results[nf[j]] = q
			}
			slack = 1
		}
		r.status = "proved"
		for i := range r.results {
			q := &r.results[i]
			if q.status == "failed" && time.Since(t0) < budget && !violated() {
				ok, s, d, out, _ := valid(append(q.obl.hyps[:len(q.obl.hyps):len(q.obl.hyps)], q.obl.lem...), q.obl.goal, retry)
				q.secs += d
				if ok {
					q.status, q.solver = "proved", s
				} else {
					q.out = out
					retry = secs // one long retry is enough once something is known to fail
				}
			}
			if q.status != "proved" {
				r.status = "failed"
			}
		}
		if r.status == "proved" {
			if v := e.vacuous(xs); len(v) > 0 {
				r.status, r.reason = "bounded", "clauses that cannot be reached: "+strings.Join(v, "; ")
			}
		}
		r.externs, r.inlined = sortedKeys(ext), sortedKeys(inl)
		r.secs = time.Since(ht).Seconds()
	}
	// an obligation failed and no executed input did: look longer for an input
	if !violated() {
		for _, k := range keys {
			var sub []*Harness
			for _, r := range res {
				if r.status == "failed" && r.h.pkg == k {
					sub = append(sub, r.h)
				}
			}
			if len(sub) > 0 && crs[k] != nil && crs[k].err == "" {
				more := e.concrete(k, sub, seed+7, 30000/len(sub), 20*runs, 4)
				for n, s := range more.stats {
					if len(s.Fails) > 0 {
						crs[k].stats[n] = s
					}
				}
			}
		}
	}
	concErr := ""
	for _, k := range keys {
		cr := crs[k]
		if cr == nil {
			continue
		}
		if cr.err != "" {
			concErr = cr.err
		}
		for _, r := range res {
			if s, ok := cr.stats[r.h.name]; ok {
				r.runs = s
			}
		}
	}
	// verdict
	var replay []map[string]interface{}
	failing, noinput := 0, 0
	for _, r := range res {
		if r.runs != nil && len(r.runs.Fails) > 0 {
			failing++
			for _, f := range r.runs.Fails {
				replay = append(replay, map[string]interface{}{"contract": r.h.name, "obligation": f.Label, "kind": f.Kind, "seed": f.Seed,
					"arguments": f.Args, "detail": f.Detail, "targets": r.h.targets, "how": "the contract executed on these arguments against the code in /repo"})
			}
		}
		if r.status == "failed" {
			noinput++
			for _, q := range r.results {
				if q.status != "proved" {
					replay = append(replay, map[string]interface{}{"contract": r.h.name, "obligation": q.obl.label, "kind": q.obl.kind, "at": q.obl.pos,
						"status": q.status, "verifier_output": q.out, "targets": r.h.targets})
				}
			}
		}
	}
	kf := loadFindings(known)
	viol := 0
	for _, h := range finds {
		bad := false
		if cr := crs[h.pkg]; cr != nil {
			if s := cr.stats[h.name]; s != nil && len(s.Fails) > 0 {
				bad = true
				listed := false
				for _, f := range kf {
					if f.Status == "known" && f.Property == prop && f.Harness == h.name {
						listed = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
					}
				}
				if !listed {
					failing++
					replay = append(replay, map[string]interface{}{"contract": h.name, "obligation": s.Fails[0].Label, "arguments": s.Fails[0].Args, "detail": s.Fails[0].Detail})
				}
			}
		}
		_ = bad
	}
	if failing > 0 || noinput > 0 {
		viol = 1
	}
	writeEvidence(evid, prop, tier, seed, e, res, declared, crs, concErr, time.Since(t0).Seconds(), viol)
	for _, r := range res {
		np := 0
		for _, q := range r.results {
			if q.status == "proved" {
				np++
			}
		}
		cx := "-"
		if r.runs != nil {
			cx = fmt.Sprintf("%d runs, %d skipped, %d clauses, %d failures", r.runs.Runs, r.runs.Skipped, r.runs.Checks, len(r.runs.Fails))
		}
		fmt.Printf("%-8s %-40s %d/%d obligations %.1fs; executed: %s %s\n", r.status, r.h.name, np, len(r.results), r.secs, cx, r.reason)
	}
	for _, p := range e.pruned {
		if strings.Contains(p, prop) || !strings.HasPrefix(p, "verify_") {
			fmt.Println("not applicable to this source (dropped):", p)
		}
	}
	if concErr != "" {
		fmt.Println("contract execution:", concErr)
	}
	if viol == 0 {
		ndec := 0
		for _, r := range res {
			if r.status == "proved" || r.runs != nil {
				ndec++
			}
		}
		if ndec == 0 {
			fmt.Println("govc: nothing could be checked")
			return 2
		}
		return 0
	}
	rp := filepath.Join(evid, "replay-"+prop+".json")
	writeJSON(rp, map[string]interface{}{"property": prop, "violations": replay})
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
	if failing == 0 {
		line += " no-failing-input-found"
	}
	for i, v := range replay {
		if i < 12 {
			fmt.Printf("  %v: %v %v\n", v["contract"], v["obligation"], v["at"])
		}
	}
	fmt.Println(line)
	return 1
}

func declaredHarnesses(spec string, keys []string, prop string) []string {
	re := regexp.MustCompile(`(?m)^func (verify_` + prop + `_\w+)`)
	var out []string
	for _, k := range keys {
		fs, _ := filepath.Glob(filepath.Join(spec, k, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				out = append(out, m[1])
			}
		}
	}
	return out
}

func loadFindings(p string) []finding {
	var fs []finding
	if b, err := os.ReadFile(p); err == nil {
		if err := json.Unmarshal(b, &fs); err != nil {
			fatal("%s: %v", p, err)
		}
	}
	return fs
}

func writeEvidence(dir, prop, tier string, seed int64, e *Engine, res []*hResult, declared []string, crs map[string]*concreteRun, concErr string, wall float64, viol int) {
	obl, dis := 0, 0
	by := map[string]int{}
	solver := 0.0
	ext := map[string]bool{}
	fns := map[string]bool{}
	var contracts []map[string]interface{}
	evals, nontriv := 0, 0
	var samples []interface{}
	allBounded, anyBounded := true, false
	for _, r := range res {
		c := map[string]interface{}{"contract": r.h.name, "on": r.h.targets, "status": r.status}
		if r.reason != "" {
			c["bounded_because"] = r.reason
		}
		if r.status == "bounded" {
			anyBounded = true
		}
		if r.status != "bounded" {
			allBounded = false
			n, p := 0, 0
			for _, q := range r.results {
				n++
				solver += q.secs
				if q.status == "proved" {
					p++
					by[q.solver]++
				}
			}
			obl += n
			dis += p
			c["obligations"], c["discharged"] = n, p
			c["functions_proved_through"] = r.inlined
			for _, f := range r.inlined {
				fns[f] = true
			}
			for _, x := range r.externs {
				ext[x] = true
			}
			var ls []string
			for _, q := range r.results {
				if q.obl.kind == "ensures" || q.obl.kind == "frame" {
					ls = append(ls, q.obl.label+": "+q.status)
				}
			}
			c["postconditions"] = ls
			c["checker_s"] = r.secs
		}
		if r.runs != nil {
			c["executed_inputs"], c["executed_inputs_skipped_by_precondition"], c["executed_clauses"] = r.runs.Runs, r.runs.Skipped, r.runs.Checks
			evals += r.runs.Runs
			nontriv += r.runs.Runs - r.runs.Skipped
			if len(samples) < 6 {
				samples = append(samples, fmt.Sprintf("%s on the input generated from seed %d", r.h.name, seed*1000003))
			}
			for _, f := range r.runs.Fails {
				if len(samples) < 12 {
					samples = append(samples, map[string]interface{}{"contract": r.h.name, "failed": f.Label, "args": f.Args})
				}
			}
		}
		contracts = append(contracts, c)
	}
	var dropped []string
	for _, d := range declared {
		ok := false
		for _, r := range res {
			if r.h.name == d {
				ok = true
			}
		}
		for _, h := range e.harnesses {
			if h.name == d {
				ok = true
			}
		}
		if !ok {
			dropped = append(dropped, d)
		}
	}
	trusted := []string{
		"govc (/verif/govc): translation of Go SSA (golang.org/x/tools/go/ssa of /repo's current source) to first-order obligations, loop summaries proved by induction",
		"the SMT solvers z3 4.8.12, z3-new, cvc5 1.1.2 (any one 'unsat' discharges an obligation)",
	}
	exts := sortedKeys(ext)
	assumptions := []string{
		"partial correctness: termination is not proved (a hang on an executed input is reported)",
		"machine integers are treated as mathematical integers, big decimals as reals",
		"inputs: elements of pointer slices and maps are not nil, interface values do not hold typed nil pointers, distinct inputs may alias",
		"memory is never exhausted; no data races (single-threaded code)",
	}
	for _, x := range exts {
		assumptions = append(assumptions, "assumed contract of "+x)
	}
	lvl := "proof"
	if allBounded {
		lvl = "exploration"
	} else if anyBounded {
		lvl = "other" // part proved, part executed only: see contracts[].status
	}
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis, "checker_cmd": "/verif/check.sh " + prop + " " + tier,
		"trusted_base": trusted, "discharged_by": by, "solver_s": solver, "induction_lemmas": e.lemmaCount, "obligations_true_by_rewriting": e.trivial,
		"functions_under_contract": sortedKeys(fns), "contracts": contracts,
		"evaluations": evals, "distinct_nontrivial": nontriv,
		"rule":    "contracts executed against the compiled code on generated inputs (seeded); non-trivial: every precondition of the contract held",
		"samples": samples,
	}
	if len(dropped) > 0 {
		cov["contracts_not_applicable_to_this_source"] = dropped
	}
	if concErr != "" {
		cov["execution_error"] = concErr
	}
	writeJSON(filepath.Join(dir, prop+".json"), map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": viol,
	})
}

func envSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func failedOf(rs []oblResult) []int {
	var out []int
	for i := range rs {
		if rs[i].status == "failed" {
			out = append(out, i)
		}
	}
	return out
}
