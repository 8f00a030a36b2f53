package openapi

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"github.com/ghodss/yaml"
)

// C14: OpenAPI import converts every schema faithfully.

func specAllTexts(e []interface{}) bool {
	return vForall(len(e), func(i int) bool {
		_, ok := e[i].(string)
		return ok
	})
}

func specAllSymbols(e []interface{}) bool {
	return vForall(len(e), func(i int) bool {
		s, ok := e[i].(string)
		return ok && sadl.IsSymbol(s)
	})
}

const specRefPrefix = "#/components/schemas/"

// specRefName: the type a reference names, "" if there is no reference
func specRefName(s *Schema) string {
	if s == nil || s.Ref == "" {
		return ""
	}
	if len(s.Ref) >= len(specRefPrefix) && s.Ref[:len(specRefPrefix)] == specRefPrefix {
		return s.Ref[len(specRefPrefix):]
	}
	return s.Ref
}

// specImportable: no value of a string enum anywhere in the schema is anything but a text
func specImportable(s *Schema) bool {
	switch s.Type {
	case "string":
		return s.Enum == nil || specAllTexts(s.Enum)
	case "array":
		return s.Items == nil || s.Items.Ref != "" || specImportable(s.Items)
	case "", "object":
		return vForallKey(s.Properties, func(k string, p *Schema) bool { return specRefName(p) != "" || specImportable(p) })
	}
	return true
}

func specMinSize(n *int64, min uint64) bool {
	if !(min > 0) {
		return n == nil
	}
	return n != nil && *n == int64(min)
}

func specMaxSize(n *int64, max *uint64) bool {
	if max == nil {
		return n == nil
	}
	return n != nil && *n == int64(*max)
}

func specDecimalIs(d *sadl.Decimal, f *float64) bool {
	if f == nil {
		return d == nil
	}
	return d != nil && d.AsBigFloat().Cmp(sadl.NewDecimal(*f).AsBigFloat()) == 0
}

func specPlain(ts sadl.TypeSpec) bool {
	return ts.Pattern == "" && ts.MinSize == nil && ts.MaxSize == nil && ts.Min == nil && ts.Max == nil && len(ts.Values) == 0
}

func specNoParts(ts sadl.TypeSpec) bool {
	return ts.Items == "" && len(ts.Fields) == 0 && len(ts.Elements) == 0
}

func specIntType(format string) string {
	switch format {
	case "int8":
		return "Int8"
	case "int16":
		return "Int16"
	case "int32":
		return "Int32"
	}
	return "Int64"
}

// specBaseOf: the SADL base type of a schema without reference
func specBaseOf(s *Schema) string {
	switch s.Type {
	case "boolean":
		return "Bool"
	case "string":
		if s.Enum != nil && specAllSymbols(s.Enum) {
			return "Enum"
		}
		if s.Format == "uuid" {
			return "UUID"
		}
		if s.Format == "date-time" {
			return "Timestamp"
		}
		return "String"
	case "array":
		return "Array"
	case "number":
		return "Decimal"
	case "integer":
		return specIntType(s.Format)
	}
	return "Struct"
}

// specField: the field of a property
func specField(s *Schema, f *sadl.StructFieldDef) bool {
	p, ok := s.Properties[f.Name]
	if !ok || f.Comment != p.Description || f.Required != containsString(s.Required, f.Name) {
		return false
	}
	if specRefName(p) != "" {
		return specOnlyRef(specRefName(p), f.TypeSpec)
	}
	return specFrom(p, f.TypeSpec)
}

func specOnlyRef(name string, ts sadl.TypeSpec) bool {
	return ts.Type == name && specPlain(ts) && specNoParts(ts)
}

// specFrom: the type specification of a schema, at any depth
func specFrom(s *Schema, ts sadl.TypeSpec) bool {
	if ts.Type != specBaseOf(s) {
		return false
	}
	switch ts.Type {
	case "Bool":
		return specPlain(ts) && specNoParts(ts)
	case "Enum":
		return specPlain(ts) && ts.Items == "" && len(ts.Fields) == 0 && specSymbols(s.Enum, ts.Elements)
	case "UUID", "Timestamp":
		return specNoParts(ts) && ts.Pattern == ""
	case "String":
		return specNoParts(ts) && ts.Pattern == s.Pattern && specMinSize(ts.MinSize, s.MinLength) && specMaxSize(ts.MaxSize, s.MaxLength) && specTexts(s.Enum, ts.Values) && ts.Min == nil && ts.Max == nil
	case "Array":
		if len(ts.Fields) != 0 || len(ts.Elements) != 0 || !specMinSize(ts.MinSize, s.MinItems) || !specMaxSize(ts.MaxSize, s.MaxItems) {
			return false
		}
		if s.Items == nil {
			return ts.Items == ""
		}
		if s.Items.Ref != "" {
			return ts.Items == specRefName(s.Items)
		}
		return ts.Items == specBaseOf(s.Items)
	case "Struct":
		return specPlain(ts) && ts.Items == "" && len(ts.Elements) == 0 && specFields(s, ts.Fields)
	}
	return specNoParts(ts) && specDecimalIs(ts.Min, s.Min) && specDecimalIs(ts.Max, s.Max) && ts.Pattern == "" && ts.MinSize == nil && ts.MaxSize == nil && len(ts.Values) == 0
}

// specFields: exactly one field for each property
func specFields(s *Schema, fields []*sadl.StructFieldDef) bool {
	return len(fields) == len(s.Properties) &&
		vForall(len(fields), func(i int) bool {
			return vForall(len(fields), func(j int) bool { return i == j || fields[i].Name != fields[j].Name })
		}) &&
		vForall(len(fields), func(i int) bool { return specField(s, fields[i]) })
}

//govc:fuel 1
// specSupported: only schema types the importer knows, at any depth, and no examples
func specSupported(s *Schema) bool {
	return specKnownType(s.Type) && s.Example == nil &&
		(s.Items == nil || s.Items.Ref != "" || specSupported(s.Items)) &&
		vForallKey(s.Properties, func(k string, p *Schema) bool { return specRefName(p) != "" || specSupported(p) })
}

//govc:target (*openapi.Model).ToSadl openapi.convertOasType openapi.oasTypeRef openapi.validSadlName
//govc:bounded whole-document import
func verify_C14_document(doc *Model) {
	schemas := doc.Components.Schemas
	m, err := doc.ToSadl("x")
	want := 0
	ok := true
	for n, s := range schemas {
		if n == "Decimal" || n == "Timestamp" && s.Type == "string" {
			continue
		}
		want++
		t := s
		if r := specRefName(s); r != "" {
			t = schemas[r]
		}
		ok = ok && t != nil && specImportable(t) && !specReserved(n)
	}
	if err != nil {
		vEnsures("only ill-formed schemas are an error", !ok)
		return
	}
	vEnsures("enum values that are not strings are an error", ok)
	vEnsures("one type per schema", len(m.Types) == want)
	for n, s := range schemas {
		if n == "Decimal" || n == "Timestamp" && s.Type == "string" {
			continue
		}
		td := m.FindType(n)
		vEnsures("found under its name", td != nil && td.Name == n)
		if r := specRefName(s); r != "" {
			vEnsures("an alias has the definition of the schema it names", schemas[r].Ref != "" || specFrom(schemas[r], td.TypeSpec))
		} else {
			vEnsures("description", td.Comment == s.Description)
			vEnsures("type of the schema", specFrom(s, td.TypeSpec))
		}
	}
}

// specSchemaOK: a schema of the document, or the one it is an alias of, is known and importable
func specSchemaOK(doc *Model, s *Schema) bool {
	r := specRefName(s)
	if r == "" {
		return specImportable(s)
	}
	t, ok := doc.Components.Schemas[r]
	return ok && specImportable(t)
}

func specDropped(name string, s *Schema) bool {
	return name == "Decimal" || name == "Timestamp" && s.Type == "string"
}

// specHasSchema: a definition is the one of a schema of the document
func specHasSchema(doc *Model, td *sadl.TypeDef) bool {
	s, ok := doc.Components.Schemas[td.Name]
	return ok && !specDropped(td.Name, s)
}

func specDefComment(doc *Model, td *sadl.TypeDef) bool {
	s := doc.Components.Schemas[td.Name]
	if specRefName(s) != "" {
		return td.Comment == ""
	}
	return td.Comment == s.Description
}

//govc:target (*openapi.Model).ToSadl openapi.oasTypeRef openapi.validSadlName
//govc:fuel 0 0
func verify_C14_schemas(doc *Model, name string) {
	vRequires(doc != nil && doc.Info != nil && doc.Components != nil)
	vRequires(len(doc.Paths) == 0)
	vRequires(vForallKey(doc.Components.Schemas, func(k string, s *Schema) bool { return s != nil && specSupported(s) && !specIsBase(k) }))
	m, err := doc.ToSadl(name)
	vEnsures("what cannot be imported is an error", err != nil || vForallKey(doc.Components.Schemas, func(k string, s *Schema) bool { return specDropped(k, s) || specSchemaOK(doc, s) }))
	vEnsures("names", err != nil || vForall(len(m.Types), func(i int) bool { return specHasSchema(doc, m.Types[i]) }))
	vEnsures("comments", err != nil || vForall(len(m.Types), func(i int) bool { return specDefComment(doc, m.Types[i]) }))
}

func specReserved(n string) bool {
	return specIsBase(n)
}

//govc:target openapi.convertOasType openapi.oasTypeRef openapi.containsString
//govc:contract openapi.convertOasType
//govc:modular
//govc:fuel 3 0
func verify_C14_convert(name string, s *Schema) {
	vRequires(s != nil)
	vRequires(specSupported(s))
	vCases(s.Type, "boolean", "string", "array", "number", "integer", "object", "")
	ts, err := convertOasType(name, s)
	vEnsures("an error exactly for enum values that are not strings", (err == nil) == specImportable(s))
	vEnsures("base type", err != nil || ts.Type == specBaseOf(s))
	vEnsures("type of the schema", err != nil || specFrom(s, ts))
}

func specKnownType(t string) bool {
	switch t {
	case "boolean", "string", "array", "number", "integer", "object", "":
		return true
	}
	return false
}

//govc:target openapi.oasTypeRef openapi.containsString openapi.validSadlName
func verify_C14_helpers(s *Schema, name string, list []string) {
	vEnsures("referenced type", oasTypeRef(s) == specRefName(s))
	vEnsures("membership", containsString(list, name) == vExists(len(list), func(i int) bool { return list[i] == name }))
	if s != nil {
		n := validSadlName(name, s)
		vEnsures("the name is kept unless it is a predefined type", n == name || n == "" && (name == "Decimal" || name == "Timestamp"))
	}
}

func genOasSchema(g *vGen, d int) *Schema {
	s := &Schema{Description: g.pick("", "a", "some text")}
	k := g.n(14)
	if d > 2 && k > 10 {
		k = g.n(10)
	}
	u := func() uint64 { return uint64(g.n(4)) * uint64(1+g.n(3)) }
	up := func() *uint64 {
		if g.chance(50) {
			return nil
		}
		n := u()
		return &n
	}
	fp := func() *float64 {
		if g.chance(50) {
			return nil
		}
		n := []float64{0, 1, -1, 2.5, 1e10, -0.125, 100}[g.n(7)]
		return &n
	}
	switch {
	case k < 1:
		s.Type = "boolean"
	case k < 5:
		s.Type = "string"
		s.Format = g.pick("", "", "", "uuid", "date-time", "byte", "x")
		s.MinLength, s.MaxLength = u(), up()
		s.Pattern = g.pick("", "^[a-z]*$", "x")
		if g.chance(50) {
			s.Enum = make([]interface{}, 0)
			sym := g.chance(60)
			for i := g.few(4); i > 0; i-- {
				if sym {
					s.Enum = append(s.Enum, g.pick("A", "B", "red", "x_1", "Z9"))
				} else {
					s.Enum = append(s.Enum, g.pick("A", "B b", "1", "", "_x", "red", "é"))
				}
			}
			if g.chance(4) {
				s.Enum = append(s.Enum, g.Any(1))
			}
			if g.chance(3) {
				s.Enum = append(s.Enum, "Q")
			}
		}
	case k < 7:
		s.Type = "integer"
		s.Format = g.pick("", "int8", "int16", "int32", "int64", "x")
		s.Min, s.Max = fp(), fp()
	case k < 8:
		s.Type = "number"
		s.Format = g.pick("", "float", "double")
		s.Min, s.Max = fp(), fp()
	case k < 9:
		s.Ref = g.pick("#/components/schemas/Foo", "#/components/schemas/Bar", "Foo", "#/components/schemas/B2")
	case k < 11:
		s.Type = "array"
		s.MinItems, s.MaxItems = u(), up()
		if g.chance(90) {
			s.Items = genOasSchema(g, d+1)
		}
	default:
		s.Type = g.pick("object", "object", "")
		if g.chance(90) {
			s.Properties = map[string]*Schema{}
			for i := g.few(4); i > 0; i-- {
				n := g.pick("a", "b", "c", "name", "Id", "x-y", "Name", "names", "A")
				s.Properties[n] = genOasSchema(g, d+1)
				if g.chance(50) {
					s.Required = append(s.Required, n)
				}
			}
			if g.chance(10) {
				s.Required = append(s.Required, "nope")
			}
			g.r.Shuffle(len(s.Required), func(i, j int) { s.Required[i], s.Required[j] = s.Required[j], s.Required[i] })
		}
	}
	return s
}

func genOasDoc(g *vGen) *Model {
	doc := &Model{OpenAPI: "3.0.0", Info: &Info{Title: g.pick("", "test", "my api"), Version: "1"}, Components: &Components{Schemas: map[string]*Schema{}}, Paths: map[string]*PathItem{}}
	for i := g.few(5); i > 0; i-- {
		n := g.pick("Foo", "Bar", "B2", "Item", "Timestamp", "Decimal", "Qux", "Color")
		if g.chance(2) {
			n = g.pick("String", "Any", "Bool")
		}
		s := genOasSchema(g, 0)
		if g.chance(90) {
			for s.Ref != "" {
				s = genOasSchema(g, 0)
			}
		}
		doc.Components.Schemas[n] = s
	}
	return doc
}

func gen_C14_document(g *vGen) *Model { return genOasDoc(g) }
func gen_C14_schemas(g *vGen) (*Model, string) {
	doc := genOasDoc(g)
	doc.Paths = nil
	return doc, g.pick("x", "api")
}
func gen_C14_convert(g *vGen) (string, *Schema) {
	s := genOasSchema(g, 0)
	for s.Ref != "" {
		s = genOasSchema(g, 0)
	}
	return g.Name(), s
}
func gen_C14_helpers(g *vGen) (*Schema, string, []string) {
	var l []string
	for i := g.few(5); i > 0; i-- {
		l = append(l, g.pick("a", "b", "c", "Decimal", "Timestamp"))
	}
	s := genOasSchema(g, 2)
	if g.chance(40) {
		s.Ref = g.pick("#/components/schemas/"+g.Name(), "#/components/schemas", g.Name())
	}
	w := g.pick("a", "b", "c", "Decimal", "Timestamp")
	if len(l) > 0 && g.chance(40) {
		w = g.near(l[g.n(len(l))])
	}
	return s, w, l
}

// specFile: a document file
type specFile struct {
	Doc  *Model
	Raw  string // in place of the document
	Name string
	Gone bool
}

func specWellFormed(d *Model) bool {
	if d == nil || d.OpenAPI == "" || d.Info == nil || d.Info.Title == "" || d.Info.Version == "" || d.Info.License != nil && d.Info.License.Name == "" || d.Paths == nil {
		return false
	}
	for k := range d.Paths {
		if k == "" || k[0] != '/' {
			return false
		}
	}
	return true
}

//govc:target openapi.Import openapi.Load openapi.IsValidFile openapi.Validate openapi.ValidateInfo openapi.ValidatePaths
//govc:bounded the file system and the JSON and YAML libraries are outside the verifier's reach
func verify_C14_file(f specFile) {
	dir, err := os.MkdirTemp("", "c14")
	vAssume(err == nil)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, f.Name)
	if f.Gone {
		m, err := Import([]string{path}, nil)
		vEnsures("a missing file is an error", err != nil && m == nil && !IsValidFile(path))
		return
	}
	ext := filepath.Ext(f.Name)
	raw := []byte(f.Raw)
	if f.Doc != nil {
		raw, err = json.Marshal(f.Doc)
		vAssume(err == nil)
		if ext == ".yaml" {
			raw, err = yaml.JSONToYAML(raw)
			vAssume(err == nil)
		}
	}
	vAssume(os.WriteFile(path, raw, 0600) == nil)
	var doc *Model
	if ext == ".yaml" {
		raw, err = yaml.YAMLToJSON(raw)
	}
	if err == nil {
		err = json.Unmarshal(raw, &doc)
	}
	ok := err == nil && specWellFormed(doc)
	vEnsures("a malformed document is an error", IsValidFile(path) == ok)
	m, err := Import([]string{path}, nil)
	if !ok {
		vEnsures("a malformed document is not imported", err != nil && m == nil)
		return
	}
	base := strings.TrimSuffix(f.Name, ext)
	name, comment := strings.Replace(base, ".", "_", -1), doc.Info.Description
	if sadl.IsSymbol(doc.Info.Title) {
		name = doc.Info.Title
	} else {
		comment = doc.Info.Title + " - " + comment
	}
	want, werr := doc.ToSadl("x")
	vEnsures("an error exactly where the content is one", (err != nil) == (werr != nil))
	if err != nil {
		return
	}
	vEnsures("name, comment and version", m.Name == name && m.Comment == comment && m.Version == doc.Info.Version)
	vEnsures("the types of the content", len(m.Types) == len(want.Types))
	if doc.Components != nil {
		for n, s := range doc.Components.Schemas {
			if n == "Decimal" || n == "Timestamp" && s.Type == "string" || specRefName(s) != "" {
				continue
			}
			td := m.FindType(n)
			vEnsures("every type as in the content", td != nil && td.Comment == s.Description && specFrom(s, td.TypeSpec))
		}
	}
	vEnsures("the actions of the content", len(m.Http) == len(want.Http))
	_, err = Import([]string{path, path}, nil)
	vEnsures("several documents are an error", err != nil)
}

func gen_C14_file(g *vGen) specFile {
	f := specFile{Doc: genOasDoc(g), Name: g.pick("api", "my.api", "a-b", "my.api.v2", "") + g.pick(".json", ".yaml", ".json", "")}
	f.Gone = g.chance(3)
	if g.chance(10) {
		f.Doc.Components = nil
	}
	f.Doc.Info.Description = g.pick("", "about", "more\nlines")
	switch g.n(20) {
	case 0:
		f.Doc.Info.Version = ""
	case 1:
		f.Doc.OpenAPI = ""
	case 2:
		f.Doc.Paths = nil
	case 3:
		f.Doc.Info = nil
	case 4:
		f.Doc.Info.License = &License{Name: g.pick("", "MIT"), URL: "u"}
	case 5:
		f.Doc.Paths[g.pick("a", "", "/")] = &PathItem{}
	case 6:
		f.Doc, f.Raw = nil, g.pick("", "{", "[]", "null", "{}", "a: b: c", "- 1", "{\"openapi\": 3}", "{\"openapi\": \"3.0.0\", \"info\": {\"title\": \"t\", \"version\": \"1\"}, \"paths\": {}}", "# x\nopenapi: \"3.0.0\"\ninfo: {title: t, version: \"1\"}\npaths: {}\n")
	}
	return f
}
