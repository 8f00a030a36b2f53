package golang

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/boynton/sadl"
)

// C18: generated Go types mirror the model.

// specNative: the Go type of a type reference
func specNative(model *sadl.Model, runtime bool, ts *sadl.TypeSpec, name string) string {
	switch name {
	case "Bool":
		return "bool"
	case "String", "UUID":
		return "string"
	case "Bytes":
		return "[]byte"
	case "Any":
		return "interface{}"
	case "Array":
		if ts.Items == "" {
			return "[]interface{}"
		}
		return "[]" + specNative(model, runtime, &model.FindType(ts.Items).TypeSpec, ts.Items)
	case "Map":
		if ts.Items == "" || ts.Keys == "" {
			return "map[string]interface{}"
		}
		return "map[" + specNative(model, runtime, &model.FindType(ts.Keys).TypeSpec, ts.Keys) + "]" + specNative(model, runtime, &model.FindType(ts.Items).TypeSpec, ts.Items)
	}
	if r := specNumber(name); r != "" {
		return r
	}
	return specPointer(model, runtime, name)
}

func specNumber(name string) string {
	switch name {
	case "Int8":
		return "int8"
	case "Int16":
		return "int16"
	case "Int32":
		return "int32"
	case "Int64":
		return "int64"
	case "Float32":
		return "float32"
	case "Float64":
		return "float64"
	}
	return ""
}

func specPointer(model *sadl.Model, runtime bool, name string) string {
	switch name {
	case "Decimal", "Timestamp", "UnitValue":
		if runtime {
			return "*sadl." + name
		}
		return "*" + name
	}
	if model.FindType(name).Type == "Struct" {
		return "*" + name
	}
	return name
}

// specPlain: the Go type of a reference that is neither Array nor Map
func specPlain(model *sadl.Model, runtime bool, name string) string {
	switch name {
	case "Bool":
		return "bool"
	case "String", "UUID":
		return "string"
	case "Bytes":
		return "[]byte"
	case "Any":
		return "interface{}"
	}
	if r := specNumber(name); r != "" {
		return r
	}
	return specPointer(model, runtime, name)
}

func specField(f *ast.Field, name, typ, tag string) bool {
	if len(f.Names) != 1 || f.Names[0].Name != name || types.ExprString(f.Type) != typ || f.Tag == nil {
		return false
	}
	t, err := strconv.Unquote(f.Tag.Value)
	return err == nil && reflect.StructTag(t).Get("json") == tag
}

func specTag(f *sadl.StructFieldDef) string {
	if f.Required {
		return f.Name
	}
	return f.Name + ",omitempty"
}

func specStruct(model *sadl.Model, runtime bool, e ast.Expr, fields []*sadl.StructFieldDef) bool {
	st, ok := e.(*ast.StructType)
	if !ok || len(st.Fields.List) != len(fields) {
		return false
	}
	for i, f := range fields {
		if !specField(st.Fields.List[i], sadl.Capitalize(f.Name), specNative(model, runtime, &f.TypeSpec, f.Type), specTag(f)) {
			return false
		}
	}
	return true
}

// specUsed: the packages a file refers to
func specUsed(file *ast.File) map[string]bool {
	used := map[string]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil {
				used[id.Name] = true
			}
		}
		return true
	})
	return used
}

func specGenerate(model *sadl.Model, conf *sadl.Data) (string, error) {
	dir, err := ioutil.TempDir("", "verif")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	if err := Export(model, dir, conf); err != nil {
		return "", err
	}
	var out []string
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			b, _ := ioutil.ReadFile(p)
			out = append(out, string(b))
		}
		return nil
	})
	return strings.Join(out, "\n"), nil
}

//govc:target golang.Export (*golang.Generator).CreateModel (*golang.Generator).EmitStructType (*golang.Generator).EmitUnionType (*golang.Generator).EmitEnumType (*golang.Generator).EmitType (*golang.Generator).WriteGoFile
//govc:bounded the generated source is read back with a Go parser
func verify_C18_model(model *sadl.Model, runtime bool) {
	conf := sadl.NewData()
	if runtime {
		conf.Put("runtime", true)
	}
	text, err := specGenerate(model, conf)
	vEnsures("no error", err == nil)
	file, err := parser.ParseFile(token.NewFileSet(), "x.go", text, 0)
	vEnsures("well-formed Go", err == nil)
	imports := map[string]int{}
	for _, i := range file.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		imports[p[strings.LastIndex(p, "/")+1:]]++
	}
	used := specUsed(file)
	for p, n := range imports {
		vEnsures("each import once", n == 1)
		vEnsures("every import is needed", used[p])
	}
	for p := range used {
		vEnsures("every needed import is listed", imports[p] == 1)
	}
	decls := map[string]ast.Expr{}
	consts := map[string][]string{}
	names := map[string][]string{}
	funcs := map[string]bool{}
	ndecl := 0
	for _, d := range file.Decls {
		if f, ok := d.(*ast.FuncDecl); ok {
			recv := ""
			if f.Recv != nil {
				recv = types.ExprString(f.Recv.List[0].Type) + "."
			}
			funcs[recv+f.Name.Name] = true
		}
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		last := ""
		for _, s := range gd.Specs {
			switch v := s.(type) {
			case *ast.TypeSpec:
				decls[v.Name.Name] = v.Type
				ndecl++
			case *ast.ValueSpec:
				if gd.Tok == token.CONST {
					if v.Type != nil {
						last = types.ExprString(v.Type)
					}
					if last != "" && v.Names[0].Name != "_" {
						consts[last] = append(consts[last], v.Names[0].Name)
					}
				} else if len(v.Values) == 1 {
					if cl, ok := v.Values[0].(*ast.CompositeLit); ok {
						for _, e := range cl.Elts {
							kv, ok := e.(*ast.KeyValueExpr)
							if ok {
								lit, _ := kv.Value.(*ast.BasicLit)
								if lit != nil {
									s, _ := strconv.Unquote(lit.Value)
									names[v.Names[0].Name] = append(names[v.Names[0].Name], types.ExprString(kv.Key)+"="+s)
								}
							}
						}
					}
				}
			}
		}
	}
	vEnsures("each type is declared once", ndecl == len(decls))
	for _, td := range model.Types {
		e, ok := decls[td.Name]
		vEnsures("every type is declared", ok)
		switch td.Type {
		case "Struct":
			vEnsures("the fields of a struct", specStruct(model, runtime, e, td.Fields))
		case "Union":
			st, ok := e.(*ast.StructType)
			vEnsures("a union is a struct of its variants", ok && len(st.Fields.List) == len(td.Variants)+1)
			for i, v := range td.Variants {
				vEnsures("a union variant", specField(st.Fields.List[i+1], sadl.Capitalize(v.Name), specNative(model, runtime, &v.TypeSpec, v.Type), v.Name+",omitempty"))
			}
		case "Enum":
			vEnsures("an enum is an integer", types.ExprString(e) == "int")
			var syms, vals []string
			for _, el := range td.Elements {
				syms = append(syms, el.Symbol)
				v := el.Annotations["x_enumValue"]
				if v == "" {
					v = el.Symbol
				}
				vals = append(vals, el.Symbol+"="+v)
			}
			vEnsures("enum symbols in order", strings.Join(consts[td.Name], ",") == strings.Join(syms, ","))
			vEnsures("enum names", strings.Join(names["names"+td.Name], ",") == strings.Join(vals, ","))
		case "Decimal", "Timestamp":
			vEnsures("a named decimal or timestamp", types.ExprString(e) == td.Type && decls[td.Type] != nil)
		default:
			vEnsures("a named type has its native type", types.ExprString(e) == specNative(model, runtime, &td.TypeSpec, td.Type))
		}
	}
	for _, h := range model.Http {
		var in, out []*sadl.StructFieldDef
		for _, p := range h.Inputs {
			in = append(in, &p.StructFieldDef)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				out = append(out, &p.StructFieldDef)
			}
		}
		vEnsures("the request type", specStruct(model, runtime, decls[sadl.Capitalize(h.Name)+"Request"], in))
		vEnsures("the response type", specStruct(model, runtime, decls[sadl.Capitalize(h.Name)+"Response"], out))
		for _, x := range h.Exceptions {
			vEnsures("exceptions are errors", funcs["*"+x.Type+".Error"])
		}
	}
	for _, e := range decls {
		ast.Inspect(e, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.InterfaceType:
				return false
			case *ast.Field:
				ast.Inspect(v.Type, func(n ast.Node) bool {
					return specKnown(n, decls)
				})
				return false
			}
			return specKnown(n, decls)
		})
	}
}

// specKnown: type names are declared in the file or predeclared
func specKnown(n ast.Node, decls map[string]ast.Expr) bool {
	switch v := n.(type) {
	case *ast.SelectorExpr:
		return false
	case *ast.Ident:
		_, ok := decls[v.Name]
		vEnsures("every type name is declared", ok || types.Universe.Lookup(v.Name) != nil)
	}
	return true
}

//govc:target (*golang.Generator).nativeTypeName
func verify_C18_native(model *sadl.Model, runtime bool, ts *sadl.TypeSpec, name string) {
	vRequires(model != nil && ts != nil && model.FindType(name) != nil)
	vRequires(name != "Array" && name != "Map")
	gen := &Generator{Model: model, runtime: runtime}
	r := gen.nativeTypeName(ts, name)
	vEnsures("the type of a reference that is neither Array nor Map", r == specPlain(model, runtime, name))
	lib := runtime && (name == "Decimal" || name == "Timestamp" || name == "UnitValue")
	vEnsures("the runtime library is imported when needed", vExists(len(gen.imports), func(i int) bool { return gen.imports[i] == "github.com/boynton/sadl" }) == lib)
	vEnsures("the decimal type is generated when needed", gen.createDecimal == (!runtime && name == "Decimal"))
	vEnsures("the timestamp type is generated when needed", gen.createTimestamp == (!runtime && name == "Timestamp"))
}

//govc:target (*golang.Generator).nativeTypeName
func verify_C18_array(model *sadl.Model, runtime bool, ts *sadl.TypeSpec) {
	vRequires(model != nil && ts != nil && model.FindType(ts.Items) != nil)
	vRequires(ts.Items != "Array" && ts.Items != "Map")
	gen := &Generator{Model: model, runtime: runtime}
	vEnsures("a slice of the item type", gen.nativeTypeName(ts, "Array") == "[]"+specPlain(model, runtime, ts.Items))
}

//govc:target (*golang.Generator).nativeTypeName
func verify_C18_map(model *sadl.Model, runtime bool, ts *sadl.TypeSpec) {
	vRequires(model != nil && ts != nil && model.FindType(ts.Items) != nil && model.FindType(ts.Keys) != nil)
	vRequires(ts.Items != "Array" && ts.Items != "Map" && ts.Keys != "Array" && ts.Keys != "Map")
	gen := &Generator{Model: model, runtime: runtime}
	vEnsures("a map of the key and item types", gen.nativeTypeName(ts, "Map") == "map["+specPlain(model, runtime, ts.Keys)+"]"+specPlain(model, runtime, ts.Items))
}

//govc:target golang.adjoin (*golang.Generator).addImport
func verify_C18_imports(lst []string, val string) {
	vRequires(vForall(len(lst), func(i int) bool { return vForall(i, func(j int) bool { return lst[i] != lst[j] }) }))
	gen := &Generator{imports: lst}
	gen.addImport(val)
	r := gen.imports
	vEnsures("the import is listed", vExists(len(r), func(i int) bool { return r[i] == val }))
	vEnsures("earlier imports stay", len(r) >= len(lst) && vForall(len(lst), func(i int) bool { return r[i] == lst[i] }))
	vEnsures("nothing else is added", vForall(len(r), func(i int) bool { return i < len(lst) || r[i] == val }))
	vEnsures("each import is listed once", vForall(len(r), func(i int) bool { return vForall(i, func(j int) bool { return r[i] != r[j] }) }))
}

var specBase = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any"}

func genGoModel(g *vGen, runtime bool) *sadl.Model {
	names := []string{"Foo", "Bar", "Baz", "Kind", "Items", "Num", "Oops"}
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	k := 1 + g.n(6)
	ref := func() string {
		switch {
		case g.chance(50):
			return names[g.n(k)]
		case runtime && g.chance(10):
			return "UnitValue"
		case g.chance(5):
			return g.pick("Array", "Map")
		}
		return specBase[g.n(len(specBase))]
	}
	spec := func() sadl.TypeSpec {
		switch g.n(8) {
		case 0:
			return sadl.TypeSpec{Type: "Array", Items: ref()}
		case 1:
			return sadl.TypeSpec{Type: "Map", Keys: g.pick("String", "String", names[0], "Int32"), Items: ref()}
		}
		return sadl.TypeSpec{Type: ref()}
	}
	s := &sadl.Schema{Name: "test"}
	sym := 0
	for i := 0; i < k; i++ {
		td := &sadl.TypeDef{Name: names[i]}
		switch g.n(7) {
		case 0:
			td.Type = "Enum"
			for n := 1 + g.few(4); n > 0; n-- {
				el := &sadl.EnumElementDef{Symbol: "S" + strconv.Itoa(sym*7%11) + "x" + strconv.Itoa(sym)}
				if g.chance(20) {
					el.Annotations = map[string]string{"x_enumValue": g.pick("one", "two")}
				}
				sym++
				td.Elements = append(td.Elements, el)
			}
		case 1:
			td.TypeSpec = sadl.TypeSpec{Type: "Array", Items: ref()}
		case 2:
			td.TypeSpec = sadl.TypeSpec{Type: "Map", Keys: "String", Items: ref()}
		case 3:
			td.Type = specBase[g.n(len(specBase))]
		case 4:
			td.Type = "Union"
			for n, m := 0, 1+g.n(3); n < m; n++ {
				v := &sadl.UnionVariantDef{Name: "v" + strconv.Itoa(n)}
				v.TypeSpec = spec()
				td.Variants = append(td.Variants, v)
			}
		default:
			td.Type = "Struct"
			for n, m := 0, g.few(5); n < m; n++ {
				f := &sadl.StructFieldDef{Name: g.pick("f", "g", "fooBar") + strconv.Itoa(n), Required: g.chance(50)}
				f.TypeSpec = spec()
				td.Fields = append(td.Fields, f)
			}
		}
		s.Types = append(s.Types, td)
	}
	for i := 0; i < g.n(3); i++ {
		h := &sadl.HttpDef{Name: g.pick("get", "put") + strconv.Itoa(i), Method: "GET", Path: "/x"}
		ps := func() []*sadl.HttpParamSpec {
			var r []*sadl.HttpParamSpec
			for n, m := 0, g.n(4); n < m; n++ {
				p := &sadl.HttpParamSpec{}
				p.Name = "p" + strconv.Itoa(n)
				p.TypeSpec = spec()
				p.Required = g.chance(50)
				r = append(r, p)
			}
			return r
		}
		h.Inputs = ps()
		if g.chance(90) {
			h.Expected = &sadl.HttpExpectedSpec{Status: 200, Outputs: ps()}
		}
		for _, td := range s.Types {
			if (td.Type == "Struct" || td.Type == "Union") && g.chance(30) {
				h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: td.Name, Status: 400})
			}
		}
		s.Http = append(s.Http, h)
	}
	m, _ := sadl.NewModel(s)
	return m
}

func gen_C18_model(g *vGen) (*sadl.Model, bool) {
	rt := g.chance(50)
	return genGoModel(g, rt), rt
}
func gen_C18_native(g *vGen) (*sadl.Model, bool, *sadl.TypeSpec, string) {
	m := genGoModel(g, true)
	n := g.pick(append([]string{m.Types[g.n(len(m.Types))].Name, "UnitValue"}, specBase...)...)
	return m, g.chance(50), &sadl.TypeSpec{Type: n}, n
}
func gen_C18_array(g *vGen) (*sadl.Model, bool, *sadl.TypeSpec) {
	m, rt, _, n := gen_C18_native(g)
	return m, rt, &sadl.TypeSpec{Type: "Array", Items: n}
}
func gen_C18_map(g *vGen) (*sadl.Model, bool, *sadl.TypeSpec) {
	m, rt, _, n := gen_C18_native(g)
	return m, rt, &sadl.TypeSpec{Type: "Map", Keys: g.pick("String", "Int32", m.Types[0].Name), Items: n}
}
func gen_C18_imports(g *vGen) ([]string, string) {
	all := []string{"fmt", "encoding/json", "math/big", "time", "strings", "strconv"}
	g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	l := all[:g.n(len(all))]
	if len(l) > 0 && g.chance(30) {
		return l, g.near(l[g.n(len(l))])
	}
	return l, all[g.n(len(all))]
}
