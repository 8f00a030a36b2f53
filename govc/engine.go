package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Harness struct {
	name             string
	prop             string
	pkg              string // directory key: root, golang, ...
	fn               *ssa.Function
	decl             *ast.FuncDecl
	targets          []string
	inline           []string
	contract         string
	modular          bool
	bounded          string
	finding          string
	fuel, assumeFuel int
	hasFuel          bool
	params           []string // parameter types as source text
	hasGen           bool
	genDecl          *ast.FuncDecl
}

type Engine struct {
	inductSecs       float64
	lemmaCount       int
	repo, spec       string
	nonNilElems      bool
	trivial          int
	nEnsures         int
	prog             *ssa.Program
	fset             *token.FileSet
	pkgs             []*packages.Package
	fuel, assumeFuel int
	specFuel         map[*ssa.Function][2]int
	footprints       map[*ssa.Function]*footprint
	contractOf       map[*ssa.Function]*ssa.Function
	modular          map[*ssa.Function]bool
	usedContracts    map[string]bool
	opaqueFns        map[string]bool
	opaqueSpec       map[*ssa.Function]bool
	hiddenSpec       map[*ssa.Function]bool // uninterpreted where it is assumed, inlined in goals
	recMemo          map[*ssa.Function]int
	bytesBuffer      types.Type
	harnesses        []*Harness
	overlay          map[string][]byte // path -> content of spec files (after pruning)
	pruned           []string
	constMemo        map[*ssa.Global]Value
	constDone        map[*ssa.Global]bool
	assignedGlob     map[*ssa.Global]bool
	loadErr          string
}

const modPath = "github.com/boynton/sadl"

var pkgDirs = []string{"root", "golang", "graphql", "httptrace", "java", "openapi"}

func dirOf(repo, key string) string {
	if key == "root" {
		return repo
	}
	return filepath.Join(repo, key)
}

func pkgPath(key string) string {
	if key == "root" {
		return modPath
	}
	return modPath + "/" + key
}

const specPrefix = "zz_verif_"

// buildOverlay collects the specification files
func (e *Engine) buildOverlay(keys []string) {
	e.overlay = map[string][]byte{}
	for _, f := range []string{"parser.go", "unparser.go"} {
		p := filepath.Join(e.repo, f)
		if _, err := os.Stat(p); err == nil {
			e.overlay[p] = []byte("//go:build ignore\n\npackage sadl\n")
		}
	}
	rt, err := os.ReadFile(filepath.Join(e.spec, "rt.go.tmpl"))
	if err != nil {
		fatal("%v", err)
	}
	for _, k := range keys {
		name := k
		if k == "root" {
			name = "sadl"
		}
		fs, _ := filepath.Glob(filepath.Join(e.spec, k, "*.go"))
		if len(fs) == 0 {
			continue
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				fatal("%v", err)
			}
			e.overlay[filepath.Join(dirOf(e.repo, k), specPrefix+filepath.Base(f))] = b
		}
		e.overlay[filepath.Join(dirOf(e.repo, k), specPrefix+"rt.go")] = []byte(strings.ReplaceAll(string(rt), "package PKG", "package "+name))
	}
}

func (e *Engine) load(keys []string) error {
	e.buildOverlay(keys)
	var pats []string
	for _, k := range keys {
		if k == "root" {
			pats = append(pats, ".")
		} else {
			pats = append(pats, "./"+k)
		}
	}
	for round := 0; ; round++ {
		if round > 25 {
			return fmt.Errorf("specifications do not type-check after pruning")
		}
		e.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.LoadSyntax | packages.NeedModule, Dir: e.repo, Fset: e.fset, Overlay: e.overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local"),
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return err
		}
		e.pkgs = pkgs
		pruned := false
		var hard []string
		for _, p := range pkgs {
			for _, er := range p.Errors {
				if e.prune(p, er) {
					pruned = true
				} else {
					hard = append(hard, er.Error())
				}
			}
		}
		if pruned {
			continue
		}
		if len(hard) > 0 {
			return fmt.Errorf("%s", strings.Join(hard, "; "))
		}
		break
	}
	mode := ssa.InstantiateGenerics | ssa.BareInits
	prog, _ := ssautil.Packages(e.pkgs, mode)
	prog.Build()
	e.prog = prog
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "bytes" {
			if o := p.Pkg.Scope().Lookup("Buffer"); o != nil {
				e.bytesBuffer = o.Type()
			}
		}
	}
	e.scanGlobals()
	return nil
}

// prune removes the specification declaration in which a type error occurs
func (e *Engine) prune(p *packages.Package, er packages.Error) bool {
	i := strings.Index(er.Pos, ":")
	if i < 0 {
		return false
	}
	file := er.Pos[:i]
	if !strings.HasPrefix(filepath.Base(file), specPrefix) || filepath.Base(file) == specPrefix+"rt.go" {
		return false
	}
	var line int
	fmt.Sscanf(er.Pos[i+1:], "%d", &line)
	src, ok := e.overlay[file]
	if !ok {
		return false
	}
	for _, f := range p.Syntax {
		if e.fset.Position(f.Pos()).Filename != file {
			continue
		}
		for _, d := range f.Decls {
			a, b := e.fset.Position(d.Pos()), e.fset.Position(d.End())
			if line >= a.Line && line <= b.Line {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
					// unused import after pruning: drop that line
					ls := strings.Split(string(src), "\n")
					ls[line-1] = "//"
					e.overlay[file] = []byte(strings.Join(ls, "\n"))
					return true
				}
				what := fmt.Sprintf("%s:%d", filepath.Base(file), a.Line)
				if fd, ok := d.(*ast.FuncDecl); ok {
					what = fd.Name.Name
				}
				e.pruned = append(e.pruned, what+": "+er.Msg)
				ls := strings.Split(string(src), "\n")
				for k := a.Line - 1; k < b.Line && k < len(ls); k++ {
					ls[k] = "//"
				}
				e.overlay[file] = []byte(strings.Join(ls, "\n"))
				return true
			}
		}
	}
	return false
}

func (e *Engine) scanGlobals() {
	e.assignedGlob = map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(e.prog) {
		if fn.Pkg == nil || fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		if !e.ours(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						e.assignedGlob[g] = true
					}
				}
			}
		}
	}
}

// constGlobal: value of a package variable with a constant initialiser that is never reassigned
func (e *Engine) constGlobal(g *ssa.Global) Value {
	if e.constDone[g] {
		return e.constMemo[g]
	}
	e.constDone[g] = true
	if e.assignedGlob[g] || g.Pkg == nil {
		return nil
	}
	for _, p := range e.pkgs {
		if p.Types != g.Pkg.Pkg {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if n.Name == g.Name() && i < len(vs.Values) {
							v := constExpr(p, vs.Values[i])
							e.constMemo[g] = v
							return v
						}
					}
				}
			}
		}
	}
	return nil
}

func constExpr(p *packages.Package, ex ast.Expr) Value {
	tv := p.TypesInfo.Types[ex]
	if tv.Value != nil {
		defer func() { recover() }()
		return (&Exec{}).constValue(ssa.NewConst(tv.Value, tv.Type))
	}
	cl, ok := ex.(*ast.CompositeLit)
	if !ok {
		return nil
	}
	sl, ok := tv.Type.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	ls := leafSorts(sl.Elem())
	if len(ls) != 1 {
		return nil
	}
	arr := zeroLeaf(arrSort("Int", ls[0]))
	for i, el := range cl.Elts {
		v := constExpr(p, el)
		t, ok := v.(*Term)
		if !ok {
			return nil
		}
		arr = Store(arr, Int(int64(i)), t)
	}
	return &VSlice{elem: sl.Elem(), arr: []*Term{arr}, off: Int(0), ln: Int(int64(len(cl.Elts))), nn: tTrue}
}

func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(e.repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) fnFile(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pos().IsValid() {
			return filepath.Base(e.fset.Position(f.Pos()).Filename)
		}
		if o := f.Origin(); o != nil && o.Pos().IsValid() {
			return filepath.Base(e.fset.Position(o.Pos()).Filename)
		}
	}
	return ""
}

func (e *Engine) isSpecFile(fn *ssa.Function) bool {
	return strings.HasPrefix(e.fnFile(fn), specPrefix)
}
func (e *Engine) isSpecPkgFn(fn *ssa.Function) bool { return e.isSpecFile(fn) }

func (e *Engine) ours(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		}
		return len(f.Blocks) > 0
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

// recursive: the (specification) function can call itself
func (e *Engine) hasFuel(fn *ssa.Function) bool {
	_, ok := e.specFuel[fn]
	return ok
}

func (e *Engine) recursive(fn *ssa.Function) bool {
	if r, ok := e.recMemo[fn]; ok {
		return r == 1
	}
	seen := map[*ssa.Function]bool{}
	var found bool
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || found {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok {
						if g == fn {
							found = true
							return
						}
						if e.isSpecFile(g) {
							walk(g)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	r := 0
	if found {
		r = 1
	}
	e.recMemo[fn] = r
	return found
}

func (e *Engine) findHarnesses() {
	byName := map[string]*ssa.Function{}
	for _, p := range e.pkgs {
		sp := e.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for fn := range ssautil.AllFunctions(e.prog) {
			if fn.Pkg == sp {
				byName[fn.String()] = fn
			}
		}
		key := "root"
		if p.PkgPath != modPath {
			key = strings.TrimPrefix(p.PkgPath, modPath+"/")
		}
		gens := map[string]*ast.FuncDecl{}
		var hs []*Harness
		for _, f := range p.Syntax {
			fname := e.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fname), specPrefix) {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if fd.Doc != nil && fd.Recv == nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//govc:hidden") {
							e.hiddenSpec[sp.Func(fd.Name.Name)] = true
						}
						if strings.HasPrefix(c.Text, "//govc:opaque") {
							e.opaqueSpec[sp.Func(fd.Name.Name)] = true
						}
						if strings.HasPrefix(c.Text, "//govc:fuel") && !strings.HasPrefix(fd.Name.Name, "verify_") {
							var n [2]int
							if k, _ := fmt.Sscanf(c.Text, "//govc:fuel %d %d", &n[0], &n[1]); k < 2 {
								n[1] = n[0]
							}
							e.specFuel[sp.Func(fd.Name.Name)] = n
						}
						if strings.HasPrefix(c.Text, "//govc:unfold") {
							e.recMemo[sp.Func(fd.Name.Name)] = 0
						}
					}
				}
				if strings.HasPrefix(fd.Name.Name, "gen_") {
					gens[strings.TrimPrefix(fd.Name.Name, "gen_")] = fd
				}
				if !strings.HasPrefix(fd.Name.Name, "verify_") {
					continue
				}
				parts := strings.SplitN(fd.Name.Name, "_", 3)
				h := &Harness{name: fd.Name.Name, prop: parts[1], pkg: key, decl: fd, fn: sp.Func(fd.Name.Name)}
				src := e.overlay[fname]
				if src == nil {
					src, _ = os.ReadFile(fname)
				}
				for _, fl := range fd.Type.Params.List {
					a, b := e.fset.Position(fl.Type.Pos()).Offset, e.fset.Position(fl.Type.End()).Offset
					n := len(fl.Names)
					if n == 0 {
						n = 1
					}
					for i := 0; i < n; i++ {
						h.params = append(h.params, string(src[a:b]))
					}
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						t = strings.TrimSpace(t)
						if !strings.HasPrefix(t, "govc:") {
							continue
						}
						w := strings.SplitN(strings.TrimPrefix(t, "govc:"), " ", 2)
						arg := ""
						if len(w) > 1 {
							arg = strings.TrimSpace(w[1])
						}
						switch w[0] {
						case "target":
							h.targets = append(h.targets, strings.Fields(arg)...)
						case "contract":
							h.contract = arg
							h.targets = append(h.targets, arg)
						case "inline":
							h.inline = append(h.inline, strings.Fields(arg)...)
						case "modular":
							h.modular = true
						case "bounded":
							h.bounded = arg
							if arg == "" {
								h.bounded = "not attempted"
							}
						case "finding":
							h.finding = arg
							h.bounded = "known finding " + arg
						case "fuel":
							h.assumeFuel = -1
							h.hasFuel = true
							fmt.Sscanf(arg, "%d %d", &h.fuel, &h.assumeFuel)
						}
					}
				}
				hs = append(hs, h)
			}
		}
		for _, h := range hs {
			key := strings.TrimPrefix(h.name, "verify_")
			if g, ok := gens[key]; ok {
				h.hasGen = true
				h.genDecl = g
			}
		}
		e.harnesses = append(e.harnesses, hs...)
	}
	sort.Slice(e.harnesses, func(i, j int) bool { return e.harnesses[i].name < e.harnesses[j].name })
	for _, h := range e.harnesses {
		if h.contract == "" {
			continue
		}
		for n, fn := range byName {
			if shortName(n) == h.contract || n == h.contract {
				e.contractOf[fn] = h.fn
				if h.modular {
					e.modular[fn] = true
				}
			}
		}
	}
}

// shortName drops the module path: "(*github.com/boynton/sadl.Model).FindType" -> "(*sadl.Model).FindType"
func shortName(n string) string {
	n = strings.ReplaceAll(n, modPath+"/", "")
	return strings.ReplaceAll(n, modPath, "sadl")
}

func newEngine(repo, spec string) *Engine {
	e := &Engine{repo: repo, spec: spec, nonNilElems: true, fuel: 2, assumeFuel: -1, specFuel: map[*ssa.Function][2]int{}, footprints: map[*ssa.Function]*footprint{}, contractOf: map[*ssa.Function]*ssa.Function{},
		modular: map[*ssa.Function]bool{}, usedContracts: map[string]bool{}, recMemo: map[*ssa.Function]int{}, opaqueSpec: map[*ssa.Function]bool{}, hiddenSpec: map[*ssa.Function]bool{},
		constMemo: map[*ssa.Global]Value{}, constDone: map[*ssa.Global]bool{}}
	e.opaqueFns = map[string]bool{
		modPath + ".Pretty": true, modPath + ".ToString": true, modPath + ".Debug": true,
	}
	return e
}

type proveResult struct {
	h       *Harness
	obls    []*Obl
	results []oblResult
	unsup   string
	externs map[string]bool
	inlined map[string]bool
	lemmas  int
	ensured map[string]bool
}

// all cases of one harness
func (e *Engine) vcgenAll(h *Harness) ([]*Exec, string) {
	var out []*Exec
	var path []int
	for {
		x, err := e.vcgen(h, path)
		if err != "" {
			return nil, err
		}
		for _, o := range x.rec.obls {
			o.label += x.caseLab
		}
		out = append(out, x)
		// next combination
		path = append([]int{}, x.casePath...)
		i := len(path) - 1
		for i >= 0 && path[i]+1 >= x.caseN[i] {
			i--
		}
		if i < 0 {
			return out, ""
		}
		path[i]++
		path = path[:i+1]
	}
}

var execTags = map[string]string{}

// execTag: a short name for a run, stable from process to process, different for different runs
func execTag(id string) string {
	for n := 0; ; n++ {
		f := fnv.New32a()
		fmt.Fprint(f, id, n)
		t := fmt.Sprintf("%04x.", f.Sum32()&0xffff)
		if o, ok := execTags[t]; !ok || o == id {
			execTags[t] = id
			return t
		}
	}
}

// symbolic execution of one harness
func (e *Engine) vcgen(h *Harness, path []int) (x *Exec, err string) {
	x = &Exec{eng: e, litMemo: map[*Term]map[*Term]bool{}, rec: &Recorder{}, externs: map[string]bool{}, inlined: map[string]bool{}, ufuel: map[*Term]int{},
		target: map[*ssa.Function]bool{}, opaque: map[string]bool{}, ensured: map[string]bool{}, subst: map[*Term]*Term{}, casePath: append([]int{}, path...)}
	x.tag = execTag(h.fn.String() + fmt.Sprint(path))
	x.h0 = &State{comps: map[string]*Term{}}
	// the contract under proof is not used as an assumption except at recursive calls
	for fn, hf := range e.contractOf {
		if hf == h.fn {
			x.target[fn] = true
		}
	}
	for fn := range e.contractOf {
		for _, n := range h.inline {
			if shortName(fn.String()) == n {
				x.target[fn] = true
			}
		}
	}
	fuel := e.fuel
	if h.hasFuel {
		e.fuel = h.fuel
		e.assumeFuel = h.assumeFuel
	}
	defer func() {
		e.fuel, e.assumeFuel = fuel, -1
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = u.msg
				if len(x.stack) > 0 {
					err += " (in " + shortName(x.stack[len(x.stack)-1].String()) + ")"
				}
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			err = fmt.Sprintf("internal: %v", r)
		}
	}()
	var args []Value
	for i, p := range h.fn.Params {
		args = append(args, x.inputValue(fmt.Sprintf("in!%s%d_%s", x.tag, i, p.Name()), p.Type()))
	}
	old := &State{comps: map[string]*Term{}}
	_, st, c := x.callFn(h.fn, args, nil, &State{comps: map[string]*Term{}}, tTrue)
	if h.contract != "" && st != nil {
		// callers assume that a function under contract changes nothing that existed before the call
		x.frameObl("changes nothing that existed before the call", old, st, c, h.fn.Pos())
	}
	return x, ""
}

func (x *Exec) inputValue(name string, t types.Type) Value {
	var ls []*Term
	roles := leafRoles(t)
	for i, s := range leafSorts(t) {
		if roles[i] == "#off" {
			ls = append(ls, Int(0))
			continue
		}
		n := fmt.Sprintf("%s.%d", name, i)
		oldSyms[n] = true
		if roles[i] == "#len" {
			nonNegSyms[n] = true
		}
		ls = append(ls, Sym(n, s))
	}
	v := fromLeaves(t, ls)
	fixNN(v)
	return v
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(2)
}

func writeJSON(path string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, append(b, '\n'), 0644)
}
