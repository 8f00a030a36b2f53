package graphql

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/boynton/sadl"
	gql_ast "github.com/graphql-go/graphql/language/ast"
)

// C17: GraphQL import converts every definition faithfully.

func specTypeName(n string) string {
	switch n {
	case "Int":
		return "Int32"
	case "Float":
		return "Float64"
	case "Boolean":
		return "Bool"
	}
	return n
}

//govc:target graphql.convertTypeName
func verify_C17_name(n string) {
	vEnsures("the SADL type of a GraphQL type", convertTypeName(n) == specTypeName(n))
}

//govc:target graphql.gqlEnum graphql.commentValue
func verify_C17_enum(schema *sadl.Schema, def *gql_ast.EnumDefinition) {
	vRequires(schema != nil && def != nil && def.Name != nil && vForall(len(def.Values), func(i int) bool { return def.Values[i] != nil && def.Values[i].Name != nil }))
	n, old := len(schema.Types), schema.Types
	err := gqlEnum(schema, def)
	vEnsures("one more type", err == nil && len(schema.Types) == n+1)
	td := schema.Types[n]
	vEnsures("name and kind", td.Name == def.Name.Value && td.Type == "Enum")
	vEnsures("description", td.Comment == specDescription(def.Description))
	vEnsures("exactly the symbols in order", len(td.Elements) == len(def.Values) && vForall(len(def.Values), func(i int) bool { return td.Elements[i].Symbol == def.Values[i].Name.Value }))
	vEnsures("their descriptions", vForall(len(def.Values), func(i int) bool { return td.Elements[i].Comment == specDescription(def.Values[i].Description) }))
	vEnsures("nothing else changes", vForall(n, func(i int) bool { return schema.Types[i] == old[i] }))
}

//govc:target graphql.gqlUnion
func verify_C17_union(schema *sadl.Schema, def *gql_ast.UnionDefinition) {
	vRequires(schema != nil && def != nil && def.Name != nil && vForall(len(def.Types), func(i int) bool { return def.Types[i] != nil && def.Types[i].Name != nil }))
	n, old := len(schema.Types), schema.Types
	err := gqlUnion(schema, def)
	vEnsures("one more type", err == nil && len(schema.Types) == n+1)
	td := schema.Types[n]
	vEnsures("name and kind", td.Name == def.Name.Value && td.Type == "Union")
	vEnsures("description", td.Comment == specDescription(def.Description))
	vEnsures("nothing else changes", vForall(n, func(i int) bool { return schema.Types[i] == old[i] }))
	vEnsures("exactly the variants in order", len(td.Variants) == len(def.Types) && vForall(len(def.Types), func(i int) bool {
		return td.Variants[i].Name == def.Types[i].Name.Value && td.Variants[i].Type == def.Types[i].Name.Value
	}))
}

// specDescription: a description as a SADL comment (no line breaks)
func specDescription(d *gql_ast.StringValue) string {
	if d == nil {
		return ""
	}
	return strings.Replace(d.Value, "\n", " ", -1)
}

// specBare: the type without its non-null mark
func specBare(t gql_ast.Type) gql_ast.Type {
	if n, ok := t.(*gql_ast.NonNull); ok {
		return n.Type
	}
	return t
}

// specNamedGql: a type name
func specNamedGql(t gql_ast.Type) bool {
	n, ok := t.(*gql_ast.Named)
	return ok && n.Name != nil
}

func specNameOf(t gql_ast.Type) string {
	if n, ok := t.(*gql_ast.Named); ok {
		return specTypeName(n.Name.Value)
	}
	return ""
}

// specItem: the item type of a list, without marks
func specItem(t gql_ast.Type) gql_ast.Type {
	if l, ok := specBare(t).(*gql_ast.List); ok {
		return specBare(l.Type)
	}
	return nil
}

func specList(t gql_ast.Type) bool {
	_, ok := specBare(t).(*gql_ast.List)
	return ok
}

// specGqlOK: a field as the GraphQL parser builds it
func specGqlOK(f *gql_ast.FieldDefinition) bool {
	if f == nil || f.Name == nil || f.Type == nil {
		return false
	}
	if specList(f.Type) {
		_, named := specItem(f.Type).(*gql_ast.Named)
		return !named || specNamedGql(specItem(f.Type))
	}
	return specNamedGql(specBare(f.Type))
}

//govc:target graphql.gqlStruct
func verify_C17_struct(schema *sadl.Schema, def *gql_ast.ObjectDefinition) {
	vRequires(schema != nil && def != nil && def.Name != nil && vForall(len(def.Fields), func(i int) bool { return specGqlOK(def.Fields[i]) }))
	n, old := len(schema.Types), schema.Types
	err := gqlStruct(schema, def)
	vEnsures("an error exactly for nested lists", (err == nil) == vForall(len(def.Fields), func(i int) bool {
		return !specList(def.Fields[i].Type) || specNamedGql(specItem(def.Fields[i].Type))
	}))
	if err != nil {
		return
	}
	vEnsures("one more type", len(schema.Types) == n+1)
	td := schema.Types[n]
	vEnsures("nothing else changes", vForall(n, func(i int) bool { return schema.Types[i] == old[i] }))
	vEnsures("name and kind", td.Name == def.Name.Value && td.Type == "Struct" && td.Comment == specDescription(def.Description))
	vEnsures("as many fields", len(td.Fields) == len(def.Fields))
	vEnsures("names in order", vForall(len(def.Fields), func(i int) bool { return td.Fields[i].Name == def.Fields[i].Name.Value }))
	vEnsures("descriptions", vForall(len(def.Fields), func(i int) bool { return td.Fields[i].Comment == specDescription(def.Fields[i].Description) }))
	vEnsures("required exactly when not null", vForall(len(def.Fields), func(i int) bool {
		_, nn := def.Fields[i].Type.(*gql_ast.NonNull)
		return td.Fields[i].Required == nn
	}))
	vEnsures("named types", vForall(len(def.Fields), func(i int) bool {
		return specList(def.Fields[i].Type) || td.Fields[i].Type == specNameOf(specBare(def.Fields[i].Type)) && td.Fields[i].Items == ""
	}))
	vEnsures("lists", vForall(len(def.Fields), func(i int) bool {
		return !specList(def.Fields[i].Type) || td.Fields[i].Type == "Array" && td.Fields[i].Items == specNameOf(specItem(def.Fields[i].Type))
	}))
}

func genGqlText(g *vGen) *gql_ast.StringValue {
	if g.chance(40) {
		return nil
	}
	return &gql_ast.StringValue{Value: g.pick("", "text", "two\nlines", "\n")}
}

func genGqlOld(g *vGen) *sadl.Schema {
	s := &sadl.Schema{}
	for i := g.n(3); i > 0; i-- {
		s.Types = append(s.Types, &sadl.TypeDef{Name: g.Name()})
	}
	return s
}

func gen_C17_enum(g *vGen) (*sadl.Schema, *gql_ast.EnumDefinition) {
	d := &gql_ast.EnumDefinition{Name: &gql_ast.Name{Value: g.Name()}, Description: genGqlText(g)}
	for i := g.few(5); i > 0; i-- {
		d.Values = append(d.Values, &gql_ast.EnumValueDefinition{Name: &gql_ast.Name{Value: g.Name()}, Description: genGqlText(g)})
	}
	return genGqlOld(g), d
}

func gen_C17_union(g *vGen) (*sadl.Schema, *gql_ast.UnionDefinition) {
	d := &gql_ast.UnionDefinition{Name: &gql_ast.Name{Value: g.Name()}, Description: genGqlText(g)}
	for i := g.few(5); i > 0; i-- {
		d.Types = append(d.Types, &gql_ast.Named{Name: &gql_ast.Name{Value: g.Name()}})
	}
	return genGqlOld(g), d
}

func gen_C17_struct(g *vGen) (*sadl.Schema, *gql_ast.ObjectDefinition) {
	d := &gql_ast.ObjectDefinition{Name: &gql_ast.Name{Value: g.Name()}, Description: genGqlText(g)}
	for i := g.few(5); i > 0; i-- {
		var t gql_ast.Type = &gql_ast.Named{Name: &gql_ast.Name{Value: g.pick("Int", "Float", "Boolean", "ID", "String", g.Name())}}
		wrap := func() {
			if g.chance(50) {
				t = &gql_ast.NonNull{Type: t}
			}
		}
		for g.chance(50) {
			wrap()
			t = &gql_ast.List{Type: t}
			if g.chance(93) {
				break
			}
		}
		wrap()
		d.Fields = append(d.Fields, &gql_ast.FieldDefinition{Name: &gql_ast.Name{Value: g.Name()}, Description: genGqlText(g), Type: t})
	}
	return genGqlOld(g), d
}

type specField struct {
	Name, Comment, Type string
	List, NonNull, Item bool // a list; not null; items not null
	Nested              bool
	Args                bool
}

type specDef struct {
	Kind    string // type enum union schema scalar interface input directive
	Name    string
	Comment string
	Fields  []specField
	Syms    []string
	SymCom  []string
}

func specComment(ind, c string) string {
	if c == "" {
		return ""
	}
	return ind + `"""` + c + `"""` + "\n"
}

func specText(defs []specDef) string {
	s := ""
	for _, d := range defs {
		if d.Kind != "schema" && d.Kind != "directive" {
			s += specComment("", d.Comment)
		}
		switch d.Kind {
		case "type", "interface", "input":
			s += d.Kind + " " + d.Name + " {\n"
			for _, f := range d.Fields {
				s += specComment("  ", f.Comment) + "  " + f.Name
				if f.Args && d.Kind == "type" {
					s += "(a: Int, b: String!)"
				}
				t := f.Type
				if f.List {
					if f.Item {
						t += "!"
					}
					t = "[" + t + "]"
					if f.Nested {
						t = "[" + t + "]"
					}
				}
				if f.NonNull {
					t += "!"
				}
				s += ": " + t + "\n"
			}
			s += "}\n"
		case "enum":
			s += "enum " + d.Name + " {\n"
			for i, y := range d.Syms {
				s += specComment("  ", d.SymCom[i]) + "  " + y + "\n"
			}
			s += "}\n"
		case "union":
			s += "union " + d.Name + " = " + strings.Join(d.Syms, " | ") + "\n"
		case "schema":
			s += "schema {\n"
			for i, y := range d.Syms {
				s += "  " + []string{"query", "mutation", "subscription"}[i%3] + ": " + y + "\n"
			}
			s += "}\n"
		case "scalar":
			s += "scalar " + d.Name + "\n"
		case "directive":
			s += "directive @" + d.Name + " on FIELD\n"
		}
		s += "\n"
	}
	return s
}

// specWanted: the definitions that become types, and whether everything is supported
func specWanted(defs []specDef) ([]specDef, bool) {
	var want []specDef
	ok := true
	ignore := map[string]bool{}
	for _, d := range defs {
		switch d.Kind {
		case "schema":
			for _, y := range d.Syms {
				ignore[y] = true
			}
		case "type":
			if ignore[d.Name] {
				continue
			}
			for _, f := range d.Fields {
				if f.List && f.Nested {
					ok = false
				}
			}
			want = append(want, d)
		case "enum", "union":
			want = append(want, d)
		case "scalar":
			ok = ok && (d.Name == "Timestamp" || d.Name == "UUID")
		case "directive":
			ok = false
		}
	}
	names := map[string]bool{"ID": true}
	for _, d := range want {
		ok = ok && !names[d.Name]
		names[d.Name] = true
	}
	return want, ok
}

func specOneLine(c string) string { return strings.ReplaceAll(c, "\n", " ") }

//govc:target graphql.Import graphql.gqlSchema graphql.gqlStruct graphql.gqlEnum graphql.gqlUnion
//govc:bounded whole-document import
func verify_C17_import(defs []specDef) {
	dir, err := os.MkdirTemp("", "c17")
	vAssume(err == nil)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "x.graphql")
	vAssume(os.WriteFile(path, []byte(specText(defs)), 0600) == nil)
	m, err := Import([]string{path}, sadl.NewData())
	want, ok := specWanted(defs)
	if err != nil {
		vEnsures("only unsupported definitions are an error", !ok)
		return
	}
	vEnsures("unsupported definitions are an error", ok)
	vEnsures("one type per definition and ID", len(m.Types) == len(want)+1 && m.Types[0].Name == "ID" && m.Types[0].Type == "String")
	for i, d := range want {
		td := m.Types[i+1]
		vEnsures("name", td.Name == d.Name)
		vEnsures("description", td.Comment == specOneLine(d.Comment))
		switch d.Kind {
		case "type":
			vEnsures("struct", td.Type == "Struct" && len(td.Fields) == len(d.Fields))
			for k, f := range d.Fields {
				g := td.Fields[k]
				vEnsures("field name", g.Name == f.Name)
				vEnsures("field description", g.Comment == specOneLine(f.Comment))
				vEnsures("required exactly when non-null", g.Required == f.NonNull)
				if f.List {
					vEnsures("list field", g.Type == "Array" && g.Items == specTypeName(f.Type))
				} else {
					vEnsures("field type", g.Type == specTypeName(f.Type) && g.Items == "")
				}
			}
		case "enum":
			vEnsures("enum", td.Type == "Enum" && len(td.Elements) == len(d.Syms))
			for k, y := range d.Syms {
				vEnsures("enum symbol", td.Elements[k].Symbol == y && td.Elements[k].Comment == specOneLine(d.SymCom[k]))
			}
		case "union":
			vEnsures("union", td.Type == "Union" && len(td.Variants) == len(d.Syms))
			for k, y := range d.Syms {
				vEnsures("union variant", td.Variants[k].Name == y && td.Variants[k].Type == y)
			}
		}
	}
}

func gen_C17_import(g *vGen) []specDef {
	var defs []specDef
	names := []string{"Foo", "Bar", "Baz", "Kind", "Query", "Mutation", "Item", "Zed"}
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	com := func() string { return g.pick("", "", "a comment", "two\nlines", "x") }
	used := 0
	for i := 1 + g.few(5); i > 0 && used < len(names); i-- {
		d := specDef{Name: names[used], Comment: com()}
		used++
		if g.chance(2) {
			d.Name = g.pick("ID", "Foo")
		}
		switch g.n(8) {
		case 0, 1, 2, 3:
			d.Kind = "type"
		case 4:
			d.Kind = "enum"
		case 5:
			d.Kind = "union"
		case 6:
			d.Kind = g.pick("schema", "interface", "input")
		default:
			d.Kind = g.pick("type", "type", "scalar")
			if d.Kind == "scalar" {
				d.Name = g.pick("UUID", "Timestamp", "UUID", "Timestamp", "Date")
			}
		}
		if g.chance(1) {
			d.Kind = "directive"
		}
		for k, n := 0, 1+g.few(4); k < n; k++ {
			d.Fields = append(d.Fields, specField{Name: "f" + strconv.Itoa(k), Comment: com(), Type: g.pick("Int", "Float", "String", "Boolean", "ID", "Foo", "Bar", "Timestamp"), List: g.chance(40), NonNull: g.chance(50), Item: g.chance(50), Nested: g.chance(2), Args: g.chance(10)})
			d.SymCom = append(d.SymCom, com())
			if d.Kind == "union" || d.Kind == "schema" {
				d.Syms = append(d.Syms, names[(used+k*3)%len(names)])
			} else {
				d.Syms = append(d.Syms, "S"+strconv.Itoa((k*7)%31+k*100))
			}
		}
		if d.Kind == "schema" && len(d.Syms) > 3 {
			d.Syms = d.Syms[:3]
		}
		defs = append(defs, d)
	}
	return defs
}
