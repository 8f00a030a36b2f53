package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	spec := flag.String("spec", "/verif/spec", "")
	only := flag.String("only", "", "harness name filter")
	pk := flag.String("pkgs", "root", "")
	secs := flag.Int("secs", 10, "")
	verbose := flag.Bool("v", false, "")
	dump := flag.Bool("dump", false, "")
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	evid := flag.String("evidence", "/verif/evidence", "")
	known := flag.String("known", "/verif/known-findings.json", "")
	flag.Parse()
	if pf := os.Getenv("GOVC_PROFILE"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		time.AfterFunc(30*time.Second, func() { pprof.StopCPUProfile(); f.Close() })
	}
	scratchDir, _ = os.MkdirTemp("", "govc")
	defer os.RemoveAll(scratchDir)
	if *prop != "" {
		rc := runProperty(*repo, *spec, *evid, *known, *prop, *tier, envSeed())
		os.RemoveAll(scratchDir)
		os.Exit(rc)
	}
	e := newEngine(*repo, *spec)
	if err := e.load(strings.Split(*pk, ",")); err != nil {
		fatal("load: %v", err)
	}
	for _, p := range e.pruned {
		fmt.Println("pruned:", p)
	}
	e.findHarnesses()
	for _, h := range e.harnesses {
		if *only != "" && !strings.Contains(h.name, *only) {
			continue
		}
		fmt.Printf("== %s\n", h.name)
		if h.bounded != "" {
			fmt.Println("   bounded:", h.bounded)
			continue
		}
		xs, msg := e.vcgenAll(h)
		if msg != "" {
			fmt.Println("   UNSUPPORTED:", msg)
			continue
		}
		var obls []*Obl
		ext := map[string]bool{}
		for _, x := range xs {
			for _, o := range x.rec.obls {
				o.x = x
			}
			obls = append(obls, x.rec.obls...)
			for k := range x.externs {
				ext[k] = true
			}
		}
		rs := e.discharge(obls, *secs)
		np, tot := 0, 0.0
		for _, r := range rs {
			tot += r.secs
			if r.status == "proved" && !*verbose {
				np++
				continue
			}
			fmt.Printf("   %-8s %-9s %-40s %s %.2fs %s\n", r.status, r.obl.kind, r.obl.label, r.obl.pos, r.secs, r.solver)
			if r.status != "proved" && *dump {
				f := filepath.Join("/tmp", "fail-"+h.name+"-"+strings.ReplaceAll(r.obl.label, "/", "_")+".smt2")
				os.WriteFile(f, []byte(r.query), 0644)
				fmt.Println("      ", f, strings.ReplaceAll(r.out, "\n", "\n      "))
			}
		}
		for _, v := range e.vacuous(xs) {
			fmt.Println("   VACUOUS:", v)
		}
		var ex []string
		for k := range ext {
			ex = append(ex, k)
		}
		sort.Strings(ex)
		fmt.Printf("   %d/%d proved, %.1fs\n", np, len(rs), tot)
		fmt.Println("   externs:", strings.Join(ex, ", "))
	}
}
