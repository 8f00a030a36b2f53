package openapi

import (
	"github.com/boynton/sadl"
)

// C12: OpenAPI export represents every type faithfully.

// specBase: the OpenAPI type, format and description of a base type without fields or items
func specBase(t string) (string, string, string) {
	switch t {
	case "Bool":
		return "boolean", "", ""
	case "Int8", "Int16":
		return "integer", "int32", t
	case "Int32":
		return "integer", "int32", ""
	case "Int64":
		return "integer", "int64", ""
	case "Float32":
		return "number", "float", ""
	case "Float64":
		return "number", "double", ""
	case "Decimal":
		return "number", "", t
	case "Bytes":
		return "string", "byte", ""
	case "String":
		return "string", "", ""
	case "Timestamp":
		return "string", "date-time", ""
	case "UnitValue", "UUID":
		return "string", "", t
	case "Enum":
		return "string", "", ""
	case "Array":
		return "array", "", ""
	case "Map", "Struct":
		return "object", "", ""
	}
	return "", "", ""
}

func specNumeric(t string) bool {
	switch t {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return true
	}
	return false
}

func specIsBase(t string) bool {
	typ, _, _ := specBase(t)
	return typ != "" || t == "Union" || t == "Any" || t == ""
}

// specBare: the schema of a type given by its name only
func specBare(name string, s *Schema) bool {
	if s == nil {
		return false
	}
	typ, format, desc := specBase(name)
	ref := ""
	if !specIsBase(name) {
		ref = "#/components/schemas/" + name
	}
	return s.Ref == ref && s.Type == typ && s.Format == format && s.Description == desc && s.Pattern == "" &&
		s.MinLength == 0 && s.MaxLength == nil && s.MinItems == 0 && s.MaxItems == nil && s.MinProps == 0 && s.MaxProps == nil &&
		s.Min == nil && s.Max == nil && len(s.Enum) == 0 && len(s.Required) == 0 && len(s.OneOf) == 0
}

func specTexts(e []interface{}, want []string) bool {
	return len(e) == len(want) && vForall(len(want), func(i int) bool {
		s, ok := e[i].(string)
		return ok && s == want[i]
	})
}

func specSymbols(e []interface{}, want []*sadl.EnumElementDef) bool {
	return len(e) == len(want) && vForall(len(want), func(i int) bool {
		s, ok := e[i].(string)
		return ok && s == want[i].Symbol
	})
}

func specBound(f *float64, d *sadl.Decimal) bool {
	if d == nil {
		return f == nil
	}
	return f != nil && *f == d.AsFloat64()
}

func specLimits(min uint64, max *uint64, lo, hi *int64) bool {
	if lo == nil && min != 0 || lo != nil && min != uint64(*lo) {
		return false
	}
	if hi == nil {
		return max == nil
	}
	return max != nil && *max == uint64(*hi)
}

func specNoLimits(min uint64, max *uint64) bool { return min == 0 && max == nil }

// specRequired: the names of the required fields, in order
func specRequired(fields []*sadl.StructFieldDef) []string {
	var req []string
	for _, f := range fields {
		if f.Required {
			req = append(req, f.Name)
		}
	}
	return req
}

func specSameNames(a, b []string) bool {
	return len(a) == len(b) && vForall(len(a), func(i int) bool { return a[i] == b[i] })
}

// specKind: the type, format, bounds, limits, pattern and values of a schema
func specKind(ts *sadl.TypeSpec, s *Schema) bool {
	typ, _, _ := specBase(ts.Type)
	if s.Type != typ || s.Ref != "" && specIsBase(ts.Type) {
		return false
	}
	if ts.Type == "String" {
		if s.Pattern != ts.Pattern || !specLimits(s.MinLength, s.MaxLength, ts.MinSize, ts.MaxSize) || !specTexts(s.Enum, ts.Values) {
			return false
		}
	} else if s.Pattern != "" || !specNoLimits(s.MinLength, s.MaxLength) {
		return false
	}
	if ts.Type == "Enum" {
		if !specSymbols(s.Enum, ts.Elements) {
			return false
		}
	} else if ts.Type != "String" && len(s.Enum) != 0 {
		return false
	}
	if specNumeric(ts.Type) {
		if !specBound(s.Min, ts.Min) || !specBound(s.Max, ts.Max) {
			return false
		}
	} else if s.Min != nil || s.Max != nil {
		return false
	}
	if ts.Type == "Array" {
		if !specLimits(s.MinItems, s.MaxItems, ts.MinSize, ts.MaxSize) || !specBare(ts.Items, s.Items) {
			return false
		}
	} else if !specNoLimits(s.MinItems, s.MaxItems) || s.Items != nil {
		return false
	}
	if ts.Type == "Map" {
		a, ok := s.AdditionalProperties.(*Schema)
		if !ok || !specLimits(s.MinProps, s.MaxProps, ts.MinSize, ts.MaxSize) || !specBare(ts.Items, a) {
			return false
		}
	} else if !specNoLimits(s.MinProps, s.MaxProps) || s.AdditionalProperties != nil {
		return false
	}
	if ts.Type == "Struct" {
		return specSameNames(s.Required, specRequired(ts.Fields))
	}
	if ts.Type == "Union" {
		return len(s.OneOf) == len(ts.Variants) && len(s.Required) == 0 && len(s.Properties) == 0
	}
	return len(s.Required) == 0 && len(s.Properties) == 0 && len(s.OneOf) == 0
}

// specInline: the schema of a type specification where it is used, at any depth
func specInline(ts *sadl.TypeSpec, s *Schema) bool {
	if s == nil {
		return false
	}
	if !specIsBase(ts.Type) {
		return specBare(ts.Type, s)
	}
	_, format, desc := specBase(ts.Type)
	return s.Format == format && s.Description == desc && specKind(ts, s) && specParts(ts, s)
}

// specParts: every field and variant has the schema of its own type, and there is nothing else
func specParts(ts *sadl.TypeSpec, s *Schema) bool {
	if ts.Type == "Struct" {
		return vForall(len(ts.Fields), func(i int) bool { return specInline(&ts.Fields[i].TypeSpec, s.Properties[ts.Fields[i].Name]) }) &&
			vForallKey(s.Properties, func(k string, p *Schema) bool {
				return vExists(len(ts.Fields), func(i int) bool { return ts.Fields[i].Name == k })
			})
	}
	if ts.Type == "Union" {
		return vForall(len(ts.Variants), func(i int) bool { return specInline(&ts.Variants[i].TypeSpec, s.OneOf[i]) })
	}
	return true
}

func specExportable(t string) bool {
	return specIsBase(t) && t != "Bytes" && t != "Any" && t != "UnitValue" && t != ""
}

func specFieldsDiffer(ts *sadl.TypeSpec) bool {
	return vForall(len(ts.Fields), func(i int) bool {
		return vForall(len(ts.Fields), func(j int) bool { return i == j || ts.Fields[i].Name != ts.Fields[j].Name })
	})
}

// specUnconstrained: nothing but a type name
func specUnconstrained(ts *sadl.TypeSpec) bool {
	return len(ts.Fields) == 0 && len(ts.Variants) == 0 && len(ts.Elements) == 0 && len(ts.Values) == 0 && ts.Pattern == "" &&
		ts.Min == nil && ts.Max == nil && ts.MinSize == nil && ts.MaxSize == nil
}

//govc:fuel 1
// specNamed: no two fields of a struct have the same name, at any depth
func specNamed(ts *sadl.TypeSpec) bool {
	return specFieldsDiffer(ts) &&
		vForall(len(ts.Fields), func(i int) bool { return ts.Fields[i] != nil && specNamed(&ts.Fields[i].TypeSpec) }) &&
		vForall(len(ts.Variants), func(i int) bool { return ts.Variants[i] != nil && specNamed(&ts.Variants[i].TypeSpec) })
}

//govc:fuel 1 0
// specTypeDef: the schema of a type definition
func specTypeDef(td *sadl.TypeDef, s *Schema) bool {
	if s == nil {
		return false
	}
	_, format, desc := specBase(td.Type)
	if td.Type == "UUID" {
		format = "uuid"
	}
	if !specNumeric(td.Type) || td.Comment != "" {
		desc = td.Comment
	}
	return s.Format == format && s.Description == desc && specKind(&td.TypeSpec, s) && specParts(&td.TypeSpec, s)
}

//govc:target (*openapi.Generator).ExportToOAS3 (*openapi.Generator).exportTypeDef (*openapi.Generator).oasSchema
//govc:fuel 2 0
func verify_C12_model(model *sadl.Model) {
	vRequires(model != nil)
	vSplit(len(model.Http) == 0)
	vSplit(len(model.Examples) == 0)
	vRequires(len(model.Http) == 0 && len(model.Examples) == 0)
	vRequires(vForall(len(model.Types), func(i int) bool { return specNamed(&model.Types[i].TypeSpec) }))
	vRequires(vForall(len(model.Types), func(i int) bool {
		return vForall(len(model.Types), func(j int) bool { return i == j || model.Types[i].Name != model.Types[j].Name })
	}))
	oas, err := NewGenerator(model, nil).ExportToOAS3()
	all := vForall(len(model.Types), func(i int) bool { return specExportable(model.Types[i].Type) })
	if err != nil {
		vEnsures("only types that cannot be exported are an error", !all)
		return
	}
	vEnsures("every type can be exported", all)
	vEnsures("nothing but the types", vForallKey(oas.Components.Schemas, func(k string, s *Schema) bool {
		return vExists(len(model.Types), func(i int) bool { return model.Types[i].Name == k })
	}))
	vEnsures("every type under its name, faithfully", vForall(len(model.Types), func(i int) bool {
		return specTypeDef(model.Types[i], oas.Components.Schemas[model.Types[i].Name])
	}))
	vEnsures("title, description and version", oas.Info.Title == model.Name && oas.Info.Description == model.Comment && (oas.Info.Version == model.Version || model.Version == "" && oas.Info.Version == "dev"))
}

//govc:target (*openapi.Generator).exportTypeDef (*openapi.Generator).exportStructTypeDef (*openapi.Generator).exportArrayTypeDef (*openapi.Generator).exportMapTypeDef (*openapi.Generator).exportEnumTypeDef (*openapi.Generator).exportUnionTypeDef (*openapi.Generator).exportStringTypeDef
//govc:contract (*openapi.Generator).exportTypeDef
//govc:modular
//govc:fuel 2 0
func verify_C12_typedef(gen *Generator, td *sadl.TypeDef) {
	vRequires(td != nil)
	vRequires(specNamed(&td.TypeSpec))
	vCases(td.Type, "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UnitValue", "UUID", "Enum", "Union", "Any", "", "Array", "Map", "Struct")
	if td.Type == "String" || td.Type == "UUID" || td.Type == "Timestamp" {
		vInline("(*openapi.Generator).oasSchema")
	}
	s, err := gen.exportTypeDef(td)
	vEnsures("exported unless the type cannot be", (err == nil) == specExportable(td.Type))
	vEnsures("schema of the type", err != nil || specTypeDef(td, s))
}

//govc:target (*openapi.Generator).oasSchema
//govc:contract (*openapi.Generator).oasSchema
//govc:modular
//govc:fuel 2 0
func verify_C12_inline(gen *Generator, ts *sadl.TypeSpec, name string) {
	vRequires(ts != nil)
	vRequires(specNamed(ts))
	vRequires(name == "" || ts.Type != "Struct")
	vCases(ts.Type, "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UnitValue", "UUID", "Enum", "Union", "Any", "", "Array", "Map", "Struct")
	s, err := gen.oasSchema(ts, name)
	vEnsures("always exported", err == nil)
	vEnsures("schema of the type", specInline(ts, s))
	vEnsures("schema of a type without constraints", !specUnconstrained(ts) || specBare(ts.Type, s))
}

//govc:target openapi.oasNumericEquivalent
func verify_C12_numeric(t string) {
	typ, format, desc := oasNumericEquivalent(t)
	a, b, c := specBase(t)
	vEnsures("type, format and note of a number", !specNumeric(t) || typ == a && format == b && desc == c)
}

func genOasModel(g *vGen) *sadl.Model {
	m := sadl.VerifGenModel(g.r)
	for _, td := range m.Types {
		if !specExportable(td.Type) && g.chance(97) {
			td.TypeSpec = sadl.TypeSpec{Type: g.pick("String", "Bool", "Int16", "UUID", "Timestamp", "Enum")}
		}
	}
	for i := len(m.Examples) - 1; i >= 0; i-- {
		if m.FindType(m.Examples[i].Target) == nil {
			m.Examples = append(m.Examples[:i], m.Examples[i+1:]...)
		}
	}
	used := map[string]bool{}
	for i := len(m.Http) - 1; i >= 0; i-- {
		p := m.Http[i].Method + " " + specPathOf(m.Http[i].Path)
		if used[p] && g.chance(97) {
			m.Http = append(m.Http[:i], m.Http[i+1:]...)
		}
		used[p] = true
	}
	return m
}

func specPathOf(p string) string {
	for i := 0; i < len(p); i++ {
		if p[i] == '?' {
			return p[:i]
		}
	}
	return p
}

func gen_C12_model(g *vGen) *sadl.Model {
	m := genOasModel(g)
	m.Http, m.Examples = nil, nil
	return m
}
func gen_C12_typedef(g *vGen) (*Generator, *sadl.TypeDef) {
	m, td := genOasType(g)
	return NewGenerator(m, nil), td
}
func genOasType(g *vGen) (*sadl.Model, *sadl.TypeDef) {
	m := genOasModel(g)
	for len(m.Types) == 0 {
		m = genOasModel(g)
	}
	return m, m.Types[g.n(len(m.Types))]
}
func gen_C12_inline(g *vGen) (*Generator, *sadl.TypeSpec, string) {
	m, td := genOasType(g)
	gen := NewGenerator(m, nil)
	if td.Type == "Struct" && len(td.Fields) > 0 && g.chance(50) {
		return gen, &td.Fields[g.n(len(td.Fields))].TypeSpec, ""
	}
	if td.Type != "Struct" && g.chance(30) {
		return gen, &td.TypeSpec, td.Name
	}
	return gen, &td.TypeSpec, ""
}
func gen_C12_numeric(g *vGen) string {
	return g.pick("Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "")
}
