package main

// Execution of the contracts against the real code on concrete inputs: replays and bounded stand-ins.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type vReport struct {
	Harness string `json:"harness"`
	Kind    string `json:"kind"`
	Label   string `json:"label"`
	Detail  string `json:"detail"`
	Seed    int64  `json:"seed"`
	Args    string `json:"args"`
}

type vStat struct {
	Harness string    `json:"harness"`
	Runs    int       `json:"runs"`
	Skipped int       `json:"skipped"`
	Checks  int       `json:"checks"`
	Fails   []vReport `json:"fails"`
}

type concreteRun struct {
	stats map[string]*vStat
	err   string
	secs  float64
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "VERIF_") || strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

func mainTest(key string, hs []*Harness) string {
	name := key
	if key == "root" {
		name = "sadl"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport \"testing\"\n\nfunc TestVerifRun(t *testing.T) {\n\tvRunAll([]vHarness{\n", name)
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t{%q, func(g *vGen, show func(args ...interface{})) {\n", h.name)
		var as []string
		for i := range h.params {
			as = append(as, fmt.Sprintf("a%d", i))
		}
		l := strings.Join(as, ", ")
		if h.hasGen && len(as) > 0 {
			fmt.Fprintf(&sb, "\t\t\t%s := gen_%s(g)\n", l, strings.TrimPrefix(h.name, "verify_"))
		} else {
			for i, p := range h.params {
				fmt.Fprintf(&sb, "\t\t\ta%d := vGenArg[%s](g)\n", i, p)
			}
		}
		fmt.Fprintf(&sb, "\t\t\tshow(%s)\n\t\t\t%s(%s)\n\t\t}},\n", l, h.name, l)
	}
	sb.WriteString("\t})\n}\n")
	return sb.String()
}

// importsOf: main test file must import what parameter types mention
func withImports(src string, hs []*Harness, e *Engine) string {
	need := map[string]string{}
	for _, h := range hs {
		for _, f := range e.specFileImports(h) {
			need[f[0]] = f[1]
		}
	}
	var body = src[strings.Index(src, "func TestVerifRun"):]
	var imps []string
	for n, p := range need {
		if strings.Contains(body, n+".") {
			imps = append(imps, fmt.Sprintf("\t%s %q\n", n, p))
		}
	}
	sort.Strings(imps)
	return strings.Replace(src, "import \"testing\"\n", "import (\n\t\"testing\"\n"+strings.Join(imps, "")+")\n", 1)
}

func (e *Engine) specFileImports(h *Harness) [][2]string {
	var out [][2]string
	for _, p := range e.pkgs {
		for _, f := range p.Syntax {
			if f.Pos() <= h.decl.Pos() && h.decl.Pos() < f.End() {
				for _, im := range f.Imports {
					path, _ := strconv.Unquote(im.Path.Value)
					n := path[strings.LastIndex(path, "/")+1:]
					if im.Name != nil {
						n = im.Name.Name
					}
					out = append(out, [2]string{n, path})
				}
			}
		}
	}
	return out
}

// mine collects literals of the packages under test, as a dictionary for input generation
func (e *Engine) mine(keys []string) string {
	strs := map[string]bool{}
	ints := map[int64]bool{}
	for _, k := range keys {
		fs, _ := filepath.Glob(filepath.Join(dirOf(e.repo, k), "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if b := filepath.Base(f); k == "root" && (b == "parser.go" || b == "unparser.go") {
				continue
			}
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch l := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					if l.Tag != nil {
						l.Tag = nil
					}
				case *ast.BasicLit:
					if l.Kind == token.STRING {
						if s, err := strconv.Unquote(l.Value); err == nil && len(s) <= 40 {
							strs[s] = true
						}
					} else if l.Kind == token.INT {
						if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
							ints[v] = true
						}
					}
				}
				return true
			})
		}
	}
	var d struct {
		Strs []string
		Ints []int64
	}
	for s := range strs {
		d.Strs = append(d.Strs, s)
	}
	for s := range ints {
		d.Ints = append(d.Ints, s)
	}
	sort.Strings(d.Strs)
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	p := filepath.Join(scratchDir, "dict.json")
	b, _ := json.Marshal(d)
	os.WriteFile(p, b, 0644)
	return p
}

// concrete runs the harnesses of one package
func (e *Engine) concrete(key string, hs []*Harness, seed int64, ms, runs, procs int) *concreteRun {
	t0 := time.Now()
	cr := &concreteRun{stats: map[string]*vStat{}}
	defer func() { cr.secs = time.Since(t0).Seconds() }()
	dir := filepath.Join(scratchDir, "run-"+key)
	os.MkdirAll(dir, 0755)
	repl := map[string]string{}
	n := 0
	for p, b := range e.overlay {
		if strings.HasSuffix(p, "/parser.go") || strings.HasSuffix(p, "/unparser.go") {
			repl[p] = ""
			continue
		}
		n++
		f := filepath.Join(dir, fmt.Sprintf("o%d.go", n))
		os.WriteFile(f, b, 0644)
		repl[p] = f
	}
	tests, _ := filepath.Glob(filepath.Join(dirOf(e.repo, key), "*_test.go"))
	for _, t := range tests {
		repl[t] = ""
	}
	mf := filepath.Join(dir, "main_test.go")
	os.WriteFile(mf, []byte(withImports(mainTest(key, hs), hs, e)), 0644)
	repl[filepath.Join(dirOf(e.repo, key), specPrefix+"main_test.go")] = mf
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, b, 0644)
	bin := filepath.Join(dir, "t.bin")
	pat := "./" + key
	if key == "root" {
		pat = "."
	}
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, pat)
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		cr.err = "building the contract runner: " + string(out)
		return cr
	}
	dict := e.mine([]string{"root", key})
	var mu sync.Mutex
	var wg sync.WaitGroup
	if procs > len(hs) {
		procs = len(hs)
	}
	for p := 0; p < procs; p++ {
		var names []string
		for i := p; i < len(hs); i += procs {
			names = append(names, hs[i].name)
		}
		wg.Add(1)
		go func(p int, names []string) {
			defer wg.Done()
			var skip []string
			for len(skip) <= len(names) {
				cwd := filepath.Join(dir, fmt.Sprintf("cwd%d-%d", p, len(skip)))
				os.MkdirAll(cwd, 0755)
				outf, progf := filepath.Join(cwd, "out.json"), filepath.Join(cwd, "prog")
				stats, crash := runBin(bin, cwd, outf, progf, time.Duration(len(names)*(ms+3000)+60000)*time.Millisecond,
					"VERIF_DICT="+dict, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_MS=%d", ms), fmt.Sprintf("VERIF_RUNS=%d", runs),
					"VERIF_ONLY="+strings.Join(names, ","), "VERIF_SKIP="+strings.Join(skip, ","))
				mu.Lock()
				for _, s := range stats {
					cr.stats[s.Harness] = s
				}
				mu.Unlock()
				if crash == nil {
					break
				}
				mu.Lock()
				if crash.Harness == "" {
					cr.err = "contract runner: " + crash.Detail
					mu.Unlock()
					break
				}
				if len(names) > 0 {
					st := &vStat{Harness: crash.Harness, Runs: 1}
					if crash.Kind != "generator" {
						st.Fails = []vReport{*crash}
					}
					cr.stats[crash.Harness] = st
				}
				mu.Unlock()
				for _, s := range stats {
					skip = append(skip, s.Harness)
				}
				skip = append(skip, crash.Harness)
			}
		}(p, names)
	}
	wg.Wait()
	// show the arguments of the first failures
	var show []string
	for n, s := range cr.stats {
		if len(s.Fails) > 0 {
			show = append(show, n)
		}
	}
	sort.Strings(show)
	for i, n := range show {
		if i >= 4 {
			break
		}
		s := cr.stats[n]
		cwd := filepath.Join(dir, fmt.Sprintf("show%d", i))
		os.MkdirAll(cwd, 0755)
		stats, _ := runBin(bin, cwd, filepath.Join(cwd, "out.json"), filepath.Join(cwd, "prog"), 40*time.Second,
			"VERIF_DICT="+dict, "VERIF_SHOW=1", "VERIF_ONLY="+n, fmt.Sprintf("VERIF_ONESEED=%d", s.Fails[0].Seed))
		for _, t := range stats {
			if len(t.Fails) > 0 {
				s.Fails[0].Args = t.Fails[0].Args
				if s.Fails[0].Detail == "" {
					s.Fails[0].Detail = t.Fails[0].Detail
				}
			}
		}
		if a, err := os.ReadFile(filepath.Join(cwd, "args.txt")); err == nil && s.Fails[0].Args == "" {
			s.Fails[0].Args = string(a)
		}
	}
	return cr
}

func runBin(bin, cwd, outf, progf string, limit time.Duration, env ...string) ([]*vStat, *vReport) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestVerifRun", "-test.timeout", "0")
	cmd.Dir = cwd
	cmd.Env = append(goEnv(), append(env, "VERIF_OUT="+outf, "VERIF_PROG="+progf, "VERIF_CWD="+cwd, "GOMAXPROCS=2", "HOME="+cwd, "TMPDIR="+cwd)...)
	var buf bytes.Buffer
	cmd.Stdout = nil
	cmd.Stderr = &buf
	err := cmd.Run()
	var stats []*vStat
	if b, e2 := os.ReadFile(outf); e2 == nil {
		for _, l := range bytes.Split(b, []byte("\n")) {
			var s vStat
			if len(l) > 0 && json.Unmarshal(l, &s) == nil {
				stats = append(stats, &s)
			}
		}
	}
	pb, _ := os.ReadFile(progf)
	f := strings.Fields(string(pb))
	if len(f) >= 1 && f[0] == "done" {
		return stats, nil
	}
	det := buf.String()
	if len(det) > 3000 {
		det = det[:3000]
	}
	rep := &vReport{Kind: "crash", Label: "no-crash", Detail: fmt.Sprintf("%v\n%s", err, det)}
	if strings.Contains(buf.String(), "VERIF-HANG") {
		rep.Kind, rep.Label = "hang", "terminates"
		rep.Detail = "no result within 20 s"
	}
	if len(f) >= 3 && f[2] != "b" {
		rep.Kind = "generator" // the input generator, not the code, failed
	}
	if len(f) >= 2 {
		rep.Harness = f[0]
		rep.Seed, _ = strconv.ParseInt(f[1], 10, 64)
	}
	return stats, rep
}
