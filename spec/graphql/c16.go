package graphql

import (
	"strconv"
	"strings"

	"github.com/boynton/sadl"
	gql_ast "github.com/graphql-go/graphql/language/ast"
	gql_parser "github.com/graphql-go/graphql/language/parser"
)

// C16: GraphQL export maps every type and field faithfully.

// specScalar: the GraphQL scalar of a base type under the configuration, "" if there is none
func specScalar(conf *sadl.Data, name string) string {
	switch name {
	case "Bool":
		return "Boolean"
	case "String":
		return "String"
	case "Int8", "Int16", "Int32":
		return "Int"
	case "Float32", "Float64":
		return "Float"
	case "UUID", "Timestamp", "Int64", "Decimal":
		if c := conf.GetString("custom-scalars", name); c != "" {
			return c
		}
		if name == "UUID" || name == "Timestamp" {
			return "String"
		}
		return "Float"
	}
	return ""
}

// specNamed: the GraphQL type of a type that is not an array
func specNamed(model *sadl.Model, conf *sadl.Data, name string) string {
	if s := specScalar(conf, name); s != "" {
		return s
	}
	if td := model.FindType(name); td != nil {
		if s := specScalar(conf, td.Type); s != "" {
			return s
		}
	}
	return name
}

// specRef: the text of a type reference
func specRef(model *sadl.Model, conf *sadl.Data, typ, items string) string {
	if typ == "Array" {
		return "[" + specRef(model, conf, items, "") + "!]"
	}
	if td := specArrayType(model, typ); td != nil {
		return "[" + specRef(model, conf, td.Items, "") + "!]"
	}
	return specNamed(model, conf, typ)
}

func specArrayType(model *sadl.Model, name string) *sadl.TypeDef {
	for _, td := range model.Types {
		if td.Name == name && td.Type == "Array" {
			return td
		}
	}
	return nil
}

func specRefText(t gql_ast.Type) string {
	switch tt := t.(type) {
	case *gql_ast.Named:
		return tt.Name.Value
	case *gql_ast.List:
		return "[" + specRefText(tt.Type) + "]"
	case *gql_ast.NonNull:
		return specRefText(tt.Type) + "!"
	}
	return "?"
}

func specDeclared(t string) bool {
	return t == "Enum" || t == "Struct" || t == "Union"
}

// specFieldOK: field types that have a GraphQL equivalent
func specFieldOK(model *sadl.Model, typ, items string, d int) bool {
	if d > 10 {
		return false
	}
	if typ == "Array" {
		return specFieldOK(model, items, "", d+1)
	}
	if td := specArrayType(model, typ); td != nil {
		return specFieldOK(model, td.Items, "", d+1)
	}
	td := model.FindType(typ)
	return td != nil && (specScalar(nil2data(), td.Type) != "" || specDeclared(td.Type) && typ != td.Type)
}

func nil2data() *sadl.Data { return sadl.NewData() }

func specModelOK(model *sadl.Model) bool {
	for _, td := range model.Types {
		if td.Type != "Array" && !specDeclared(td.Type) && specScalar(nil2data(), td.Type) == "" {
			return false
		}
		for _, f := range td.Fields {
			if !specFieldOK(model, f.Type, f.Items, 0) {
				return false
			}
		}
	}
	return true
}

//govc:target graphql.FromSadl (*graphql.GraphqlWriter).EmitStructDef (*graphql.GraphqlWriter).EmitEnumDef (*graphql.GraphqlWriter).EmitUnionDef (*graphql.GraphqlWriter).typeRef
//govc:bounded the text is read back with a GraphQL parser
func verify_C16_export(model *sadl.Model, scalars map[string]string) {
	conf := sadl.NewData()
	cs := map[string]interface{}{}
	for k, v := range scalars {
		cs[k] = v
	}
	conf.Put("custom-scalars", cs)
	text, err := FromSadl(model, conf)
	vEnsures("exactly the types without equivalent are an error", (err != nil) == !specModelOK(model))
	if err != nil {
		return
	}
	doc, err := gql_parser.Parse(gql_parser.ParseParams{Source: text, Options: gql_parser.ParseOptions{NoLocation: true}})
	vEnsures("well-formed", err == nil)
	var want []*sadl.TypeDef
	used := map[string]bool{}
	for _, td := range model.Types {
		if specDeclared(td.Type) {
			want = append(want, td)
		}
		for _, f := range td.Fields {
			specUse(model, f.Type, f.Items, used)
		}
	}
	n := 0
	declared := map[string]int{}
	for _, def := range doc.Definitions {
		if sd, ok := def.(*gql_ast.ScalarDefinition); ok {
			declared[sd.Name.Value]++
			continue
		}
		vEnsures("nothing but the types", n < len(want))
		td := want[n]
		n++
		switch d := def.(type) {
		case *gql_ast.ObjectDefinition:
			vEnsures("a struct", td.Type == "Struct" && d.Name.Value == td.Name && len(d.Fields) == len(td.Fields))
			for i, f := range d.Fields {
				w := specRef(model, conf, td.Fields[i].Type, td.Fields[i].Items)
				if td.Fields[i].Required {
					w += "!"
				}
				vEnsures("field name", f.Name.Value == td.Fields[i].Name)
				vEnsures("field type", specRefText(f.Type) == w)
			}
		case *gql_ast.EnumDefinition:
			vEnsures("an enum", td.Type == "Enum" && d.Name.Value == td.Name && len(d.Values) == len(td.Elements))
			for i, v := range d.Values {
				vEnsures("enum symbol", v.Name.Value == td.Elements[i].Symbol)
			}
		case *gql_ast.UnionDefinition:
			vEnsures("a union", td.Type == "Union" && d.Name.Value == td.Name && len(d.Types) == len(td.Variants))
			for i, v := range d.Types {
				vEnsures("union variant", v.Name.Value == td.Variants[i].Type)
			}
		default:
			vEnsures("no other definitions", false)
		}
	}
	vEnsures("every type is declared", n == len(want))
	wantScalars := map[string]bool{}
	for base := range used {
		if c := scalars[base]; c != "" {
			wantScalars[c] = true
		}
	}
	vEnsures("used custom scalars are declared once", len(declared) == len(wantScalars))
	for c := range wantScalars {
		vEnsures("custom scalar declared", declared[c] == 1)
	}
}

// specUse: the base types with configurable scalars a field uses
func specUse(model *sadl.Model, typ, items string, used map[string]bool) {
	if typ == "Array" {
		specUse(model, items, "", used)
		return
	}
	if td := specArrayType(model, typ); td != nil {
		specUse(model, td.Items, "", used)
		return
	}
	if td := model.FindType(typ); td != nil {
		typ = td.Type
	}
	if typ == "UUID" || typ == "Timestamp" || typ == "Int64" || typ == "Decimal" {
		used[typ] = true
	}
}

//govc:target (*graphql.GraphqlWriter).scalarType (*graphql.GraphqlWriter).customScalar
func verify_C16_scalar(v interface{}, name string) {
	w := &GraphqlWriter{config: sadl.AsData(v), customScalars: make(map[string]bool, 0)}
	r := w.scalarType(name)
	vEnsures("the scalar of the base type", r == specScalar(w.config, name))
	custom := w.config.GetString("custom-scalars", name)
	configurable := name == "UUID" || name == "Timestamp" || name == "Int64" || name == "Decimal"
	_, declared := w.customScalars[custom]
	vEnsures("a custom scalar is declared", declared == (configurable && custom != ""))
}

// specTypeText: the GraphQL text of a type, "" if there is none; arrays are the named array types
func specTypeText(model *sadl.Model, conf *sadl.Data, arrays map[string]*sadl.TypeDef, typ, items string) string {
	if td, ok := arrays[typ]; ok {
		typ, items = td.Type, td.Items
	}
	if s := specScalar(conf, typ); s != "" {
		return s
	}
	if typ == "Array" {
		i := specTypeText(model, conf, arrays, items, "")
		if i == "" {
			return ""
		}
		return "[" + i + "!]"
	}
	td := model.FindType(typ)
	if td == nil || td.Name == td.Type {
		return ""
	}
	if s := specScalar(conf, td.Type); s != "" {
		return s
	}
	return typ
}

//govc:contract (*graphql.GraphqlWriter).typeRef
//govc:modular
//govc:fuel 2 0
func verify_C16_ref(w *GraphqlWriter, ts *sadl.TypeSpec) {
	vRequires(w != nil && ts != nil && w.model != nil && w.config != nil && w.customScalars != nil)
	vModifies(w.customScalars)
	s := w.typeRef(ts)
	vEnsures("the GraphQL type", s == specTypeText(w.model, w.config, w.arrays, ts.Type, ts.Items))
}

// specStructText: the declaration of a struct
func specStructText(model *sadl.Model, conf *sadl.Data, arrays map[string]*sadl.TypeDef, td *sadl.TypeDef) string {
	s := "type " + td.Name + " {\n"
	for _, f := range td.Fields {
		if f.Comment != "" {
			s += "  # " + strings.Replace(f.Comment, "\n", "\n  # ", -1) + "\n"
		}
		required := ""
		if f.Required {
			required = "!"
		}
		s += "  " + f.Name + ": " + specTypeText(model, conf, arrays, f.Type, f.Items) + required + "\n"
	}
	return s + "}\n\n"
}

// specExpressible: every field of the struct has a GraphQL type
func specExpressible(model *sadl.Model, conf *sadl.Data, arrays map[string]*sadl.TypeDef, td *sadl.TypeDef) bool {
	return vForall(len(td.Fields), func(i int) bool {
		return specTypeText(model, conf, arrays, td.Fields[i].Type, td.Fields[i].Items) != ""
	})
}

//govc:target (*graphql.GraphqlWriter).EmitStructDef
//govc:fuel 0 0
func verify_C16_struct(model *sadl.Model, conf *sadl.Data, arrays map[string]*sadl.TypeDef, td *sadl.TypeDef) {
	vRequires(td != nil && model != nil && conf != nil)
	w := &GraphqlWriter{model: model, config: conf, arrays: arrays, customScalars: make(map[string]bool, 0)}
	w.Begin()
	err := w.EmitStructDef(td)
	vEnsures("an error exactly for what GraphQL cannot express", (err == nil) == specExpressible(model, conf, arrays, td))
	vEnsures("exactly the fields in order", err != nil || w.End() == specStructText(model, conf, arrays, td))
}

var specPlainTypes = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID"}

func genGqlModel(g *vGen) *sadl.Model {
	s := &sadl.Schema{Name: "test"}
	names := []string{"Foo", "Bar", "Baz", "Kind", "Items", "Num"}
	var ok []string
	ref := func() string {
		if len(ok) > 0 && g.chance(50) {
			return ok[g.n(len(ok))]
		}
		return specPlainTypes[g.n(len(specPlainTypes))]
	}
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := 1 + g.n(5); i > 0; i-- {
		td := &sadl.TypeDef{Name: names[i], Comment: g.pick("", "c")}
		switch g.n(6) {
		case 0:
			td.Type = "Enum"
			for k, n := 0, 1+g.few(4); k < n; k++ {
				td.Elements = append(td.Elements, &sadl.EnumElementDef{Symbol: "S" + strconv.Itoa(k), Comment: g.pick("", "x")})
			}
			g.r.Shuffle(len(td.Elements), func(i, j int) { td.Elements[i], td.Elements[j] = td.Elements[j], td.Elements[i] })
		case 1:
			td.Type = "Array"
			td.Items = ref()
		case 2:
			td.Type = specPlainTypes[g.n(len(specPlainTypes))]
		case 3:
			td.Type = "Union"
			for k, n := 0, 1+g.n(3); k < n; k++ {
				v := &sadl.UnionVariantDef{Name: "v" + strconv.Itoa(k)}
				v.Type = ref()
				td.Variants = append(td.Variants, v)
			}
		default:
			td.Type = "Struct"
			for k, n := 0, 1+g.few(5); k < n; k++ {
				f := &sadl.StructFieldDef{Name: "f" + strconv.Itoa(k), Required: g.chance(50), Comment: g.pick("", "a comment", "two\nlines")}
				if g.chance(30) {
					f.Type = "Array"
					f.Items = ref()
				} else {
					f.Type = ref()
				}
				if g.chance(1) {
					f.Type, f.Items = g.pick("Map", "Any", "Nope", "Enum", "Array"), g.pick("Bytes", "Any")
				}
				td.Fields = append(td.Fields, f)
			}
			g.r.Shuffle(len(td.Fields), func(i, j int) { td.Fields[i], td.Fields[j] = td.Fields[j], td.Fields[i] })
		}
		if g.chance(2) {
			td.TypeSpec = sadl.TypeSpec{Type: g.pick("Bytes", "Any", "Map", "UnitValue")}
		}
		ok = append(ok, td.Name)
		s.Types = append(s.Types, td)
	}
	g.r.Shuffle(len(s.Types), func(i, j int) { s.Types[i], s.Types[j] = s.Types[j], s.Types[i] })
	m, _ := sadl.NewModel(s)
	return m
}

func gen_C16_export(g *vGen) (*sadl.Model, map[string]string) {
	sc := map[string]string{}
	for i := g.n(4); i > 0; i-- {
		sc[g.pick("UUID", "Timestamp", "Int64", "Decimal", "String")] = g.pick("UUID", "Timestamp", "Long", "BigDecimal", "")
	}
	return genGqlModel(g), sc
}
func gen_C16_scalar(g *vGen) (interface{}, string) {
	cs := map[string]interface{}{}
	for i := g.n(4); i > 0; i-- {
		cs[g.pick("UUID", "Timestamp", "Int64", "Decimal", "String", "Foo")] = g.pick("UUID", "Long", "")
	}
	return map[string]interface{}{"custom-scalars": cs}, g.pick(append(specPlainTypes, "Foo", "")...)
}
func genGqlArrays(m *sadl.Model) map[string]*sadl.TypeDef {
	arrays := map[string]*sadl.TypeDef{}
	for _, td := range m.Types {
		if td.Type == "Array" {
			arrays[td.Name] = td
		}
	}
	return arrays
}
func gen_C16_ref(g *vGen) (*GraphqlWriter, *sadl.TypeSpec) {
	v, n := gen_C16_scalar(g)
	m := genGqlModel(g)
	if g.chance(50) {
		n = m.Types[g.n(len(m.Types))].Name
	}
	ts := &sadl.TypeSpec{Type: n}
	if g.chance(40) {
		ts = &sadl.TypeSpec{Type: "Array", Items: n}
	}
	if g.chance(5) {
		ts.Type = g.pick("Map", "Any", "Nope", "Enum", "Bytes")
	}
	return &GraphqlWriter{model: m, config: sadl.AsData(v), arrays: genGqlArrays(m), customScalars: map[string]bool{}}, ts
}
func gen_C16_struct(g *vGen) (*sadl.Model, *sadl.Data, map[string]*sadl.TypeDef, *sadl.TypeDef) {
	v, _ := gen_C16_scalar(g)
	m := genGqlModel(g)
	td := m.Types[g.n(len(m.Types))]
	for i := 0; i < 5 && td.Type != "Struct"; i++ {
		td = m.Types[g.n(len(m.Types))]
	}
	return m, sadl.AsData(v), genGqlArrays(m), td
}

// specEnumText: the declaration of an enum
func specEnumText(td *sadl.TypeDef) string {
	s := "enum " + td.Name + " {\n"
	for _, e := range td.Elements {
		s += "  " + e.Symbol + "\n"
	}
	return s + "}\n\n"
}

// specUnionText: the declaration of a union
func specUnionText(td *sadl.TypeDef) string {
	s := "union " + td.Name + " =\n"
	for i, v := range td.Variants {
		if i == 0 {
			s += "    " + v.Type + "\n"
		} else {
			s += "  | " + v.Type + "\n"
		}
	}
	return s + "\n"
}

//govc:target (*graphql.GraphqlWriter).EmitEnumDef
func verify_C16_enum(td *sadl.TypeDef) {
	vRequires(td != nil)
	w := &GraphqlWriter{}
	w.Begin()
	vEnsures("an enum is no error", w.EmitEnumDef(td) == nil)
	vEnsures("exactly the symbols in order", w.End() == specEnumText(td))
}

//govc:target (*graphql.GraphqlWriter).EmitUnionDef
func verify_C16_union(td *sadl.TypeDef) {
	vRequires(td != nil)
	w := &GraphqlWriter{}
	w.Begin()
	vEnsures("a union is no error", w.EmitUnionDef(td) == nil)
	vEnsures("exactly the variants in order", w.End() == specUnionText(td))
}
func gen_C16_enum(g *vGen) *sadl.TypeDef {
	td := &sadl.TypeDef{Name: g.Name()}
	for i := g.few(5); i > 0; i-- {
		td.Elements = append(td.Elements, &sadl.EnumElementDef{Symbol: g.Name()})
		v := &sadl.UnionVariantDef{}
		v.Type = g.Name()
		td.Variants = append(td.Variants, v)
	}
	return td
}
func gen_C16_union(g *vGen) *sadl.TypeDef { return gen_C16_enum(g) }
