# The planted bugs: edits (file, old, new), demonstration, what each needs to show.
SEEDS=[]
def seed(id,prop,edits,demo,needs,breaks,pkg='.'):
    SEEDS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,pkg=pkg))
H='package sadl\nimport "testing"\n'

seed('C01-late-dup','C01',[('model.go','''	for _, hd := range schema.Http {
		if _, ok := model.httpIndex[hd.Name]; ok {
			return nil, fmt.Errorf("Duplicate http action: %q", hd.Name)
		}
''','''	for _, hd := range schema.Http {
		if prev, ok := model.httpIndex[hd.Name]; ok && prev.Method == hd.Method {
			return nil, fmt.Errorf("Duplicate http action: %q", hd.Name)
		}
''')],H+'''
func TestDemo(t *testing.T) {
	s := &Schema{Http: []*HttpDef{{Name: "x", Method: "GET"}, {Name: "x", Method: "PUT"}}}
	if _, err := NewModel(s); err == nil {
		t.Fatal("two actions named x accepted")
	}
}
''','two actions of the same name with different methods','a schema with duplicate action names is accepted and one action becomes unreachable by name')

seed('C01-base-shadow','C01',[('model.go','''		if _, ok := model.typeIndex[td.Name]; ok {
			return nil, fmt.Errorf("Duplicate type: %s", td.Name)
		}
''','''		if prev, ok := model.typeIndex[td.Name]; ok && prev.Type != td.Type {
			return nil, fmt.Errorf("Duplicate type: %s", td.Name)
		}
''')],H+'''
func TestDemo(t *testing.T) {
	s := &Schema{Types: []*TypeDef{{Name: "A", TypeSpec: TypeSpec{Type: "Int32"}}, {Name: "A", TypeSpec: TypeSpec{Type: "Int32", Comment: "other"}}}}
	_ = s
	if _, err := NewModel(s); err == nil {
		t.Fatal("two types named A accepted")
	}
}
'''.replace(', Comment: "other"',', Pattern: "x"'),'two types of the same name and the same base type','duplicate type names are accepted and the later definition hides the earlier')

seed('C02-int16-max','C02',[('model.go','maxval = DecimalValue(td.Max, math.MaxInt16)','maxval = DecimalValue(td.Max, math.MaxUint16)')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	d, _ := ParseDecimal("40000")
	if m.Validate("", "Int16", d) == nil {
		t.Fatal("40000 accepted as Int16")
	}
	d, _ = ParseDecimal("32767")
	if m.Validate("", "Int16", d) != nil {
		t.Fatal("32767 rejected as Int16")
	}
}
''','an Int16 without a declared maximum and a value between 32768 and 65535','the natural upper bound of Int16 is not enforced')

seed('C02-excl-min','C02',[('model.go','if nval.Cmp(nmin) < 0 {','if nval.Cmp(nmin) < 0 || (nmin.Sign() > 0 && nval.Cmp(nmin) <= 0) {')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	lo, _ := ParseDecimal("5")
	d, _ := ParseDecimal("5")
	if err := m.ValidateAgainstTypeSpec("x", &TypeSpec{Type: "Float64", Min: lo}, d); err != nil {
		t.Fatal(err)
	}
}
''','a value exactly equal to a positive declared minimum','the minimum is exclusive for positive minimums')

seed('C03-values-skip-size','C03',[('model.go','''	if td.Values != nil {
		for _, match := range td.Values {
			if s == match {
				return nil
			}
		}
''','''	if td.Values != nil {
		for _, match := range td.Values {
			if strings.HasPrefix(match, s) {
				return nil
			}
		}
''')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	if m.ValidateAgainstTypeSpec("x", &TypeSpec{Type: "String", Values: []string{"red", "green"}}, "gr") == nil {
		t.Fatal("a prefix of an allowed value was accepted")
	}
	if m.ValidateAgainstTypeSpec("x", &TypeSpec{Type: "String", Values: []string{"red", "green"}}, "green") != nil {
		t.Fatal("an allowed value was rejected")
	}
}
''','a proper prefix of an allowed value','a string that is not among the allowed values is accepted')

seed('C03-enum-last','C03',[('model.go','''		for _, el := range td.Elements {
			if el.Symbol == s {
				return nil
			}
		}
''','''		for i, el := range td.Elements {
			if el.Symbol == s && (i < 8 || len(td.Elements) > 9) {
				return nil
			}
		}
''')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	ts := &TypeSpec{Type: "Enum"}
	for _, s := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "I"} {
		ts.Elements = append(ts.Elements, &EnumElementDef{Symbol: s})
	}
	if err := m.ValidateAgainstTypeSpec("x", ts, "I"); err != nil {
		t.Fatal(err)
	}
}
''','an enum with exactly nine symbols and a value naming the ninth','a declared symbol is rejected')

seed('C04-array-max','C04',[('model.go','''			if len(a) > int(*td.MaxSize) {
				return fmt.Errorf("%s: Array is too large''','''			if len(a) > int(uint8(*td.MaxSize)) && *td.MaxSize < 256 {
				return fmt.Errorf("%s: Array is too large''')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	n := int64(300)
	var a []interface{}
	for i := 0; i < 301; i++ {
		a = append(a, true)
	}
	if m.ValidateAgainstTypeSpec("x", &TypeSpec{Type: "Array", Items: "Bool", MaxSize: &n}, a) == nil {
		t.Fatal("301 items accepted with maxsize 300")
	}
}
''','an array type whose maximum size is 256 or more and a larger array','maxsize is not enforced for large limits')

seed('C04-struct-early','C04',[('model.go','''				err := model.ValidateAgainstTypeSpec(context+"."+field.Name, &field.TypeSpec, v)
				if err != nil {
					return err
				}
			} else {''','''				err := model.ValidateAgainstTypeSpec(context+"."+field.Name, &field.TypeSpec, v)
				if err != nil || !field.Required && v == nil {
					return err
				}
			} else {''')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	ts := &TypeSpec{Type: "Struct", Fields: []*StructFieldDef{
		{Name: "a", TypeSpec: TypeSpec{Type: "Any"}},
		{Name: "b", Required: true, TypeSpec: TypeSpec{Type: "Bool"}},
	}}
	if m.ValidateAgainstTypeSpec("x", ts, map[string]interface{}{"a": nil}) == nil {
		t.Fatal("missing required field b accepted")
	}
}
''','an optional field of type Any holding null before a missing or invalid field','fields after a null optional field are not checked')

seed('C04-map-key','C04',[('model.go','''			for k, item := range a {
				err := model.ValidateAgainstTypeSpec(fmt.Sprintf("%s[%q]", context, k), &tdi.TypeSpec, item)
				if err != nil {
					return err
				}
			}
''','''			for k, item := range a {
				err := model.ValidateAgainstTypeSpec(fmt.Sprintf("%s[%q]", context, k), &tdi.TypeSpec, item)
				if err != nil && k != "" {
					return err
				}
			}
''')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	if m.ValidateAgainstTypeSpec("x", &TypeSpec{Type: "Map", Keys: "String", Items: "Bool"}, map[string]interface{}{"": 1.5}) == nil {
		t.Fatal("a number accepted as Bool item")
	}
}
''','a map value whose offending item is stored under the empty key','an item that does not conform is accepted')

seed('C05-unit-cross','C05',[('model.go','if !model.EquivalentTypesByName(ts1.Value, ts2.Value) {','if !model.EquivalentTypesByName(ts1.Value, ts2.Value) && !model.EquivalentTypesByName(ts1.Value, ts1.Unit) {')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	a := &TypeSpec{Type: "UnitValue", Value: "String", Unit: "String"}
	b := &TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}
	if m.EquivalentTypes(a, b) || m.EquivalentTypes(b, a) {
		t.Fatal("different value types judged equivalent")
	}
}
''','two UnitValue types, the first with equivalent value and unit types','UnitValue types with different value types are conflated')

seed('C06-shared','C06',[('model.go','tname := Capitalize(fdef.Name)','tname := Capitalize(strings.TrimSuffix(fdef.Name, "_"))')],H+'''
func TestDemo(t *testing.T) {
	mk := func(n string, syms ...string) *StructFieldDef {
		f := &StructFieldDef{Name: n, TypeSpec: TypeSpec{Type: "Enum"}}
		for _, s := range syms {
			f.Elements = append(f.Elements, &EnumElementDef{Symbol: s})
		}
		return f
	}
	m, err := NewModel(&Schema{Types: []*TypeDef{{Name: "S", TypeSpec: TypeSpec{Type: "Struct", Fields: []*StructFieldDef{mk("kind", "A"), mk("kind_", "B")}}}}})
	if err != nil {
		t.Fatal(err)
	}
	if err := m.ConvertInlineEnums(); err != nil {
		t.Fatal(err)
	}
}
''','two fields of one struct whose names differ only in a trailing underscore','a model whose enums need different names is refused (or their names merged)')

seed('C07-prefix','C07',[('model.go','''		for _, fd := range ts.Fields {
			if fd.Name == fname {
				field = fd
				break
			}
		}
		if field == nil {''','''		for _, fd := range ts.Fields {
			if strings.EqualFold(fd.Name, fname) {
				field = fd
				break
			}
		}
		if field == nil {''')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{Types: []*TypeDef{{Name: "S", TypeSpec: TypeSpec{Type: "Struct", Fields: []*StructFieldDef{
		{Name: "ID", TypeSpec: TypeSpec{Type: "Bool"}}, {Name: "id", TypeSpec: TypeSpec{Type: "Int32"}}}}}}})
	ts, err := m.FindExampleType(&ExampleDef{Target: "S.id"})
	if err != nil || ts.Type != "Int32" {
		t.Fatal("wrong type for S.id", err)
	}
}
''','a path component that equals an earlier field name up to case','the wrong field type is found')

def hp(pkg,*imps):
    return 'package %s\nimport (\n\t"testing"\n%s)\n'%(pkg,''.join('\t"%s"\n'%i for i in imps))
SADL='github.com/boynton/sadl'

seed('C08-last-key','C08',[('data.go','''				if v, ok := m[key]; !ok {
					return nil
				} else {
					if i < len(keys)-1 {
						if mm, ok := v.(map[string]interface{}); ok {
							m = mm
						} else {
							return nil
						}''','''				if v, ok := m[key]; !ok {
					return nil
				} else {
					if i < len(keys)-1 {
						if mm, ok := v.(map[string]interface{}); ok {
							m = mm
						} else if i < len(keys)-2 {
							return nil
						} else {
							return v
						}''')],H+'''
func TestDemo(t *testing.T) {
	d := AsData(map[string]interface{}{"a": map[string]interface{}{"b": "x"}})
	if v := d.Get("a", "b", "c"); v != nil {
		t.Fatal("a.b.c should not exist", v)
	}
	if v := d.Get("a", "b"); v != "x" {
		t.Fatal(v)
	}
}
''','a key path that goes one step beyond a value that is not an object','a lookup past a leaf returns the leaf')

seed('C08-config-null','C08',[('generator.go','''func (gen *Generator) GetConfigInt(k string, defaultValue int) int {
	if !gen.Config.Has(k) {
		return defaultValue
	}
	return gen.Config.GetInt(k)''','''func (gen *Generator) GetConfigInt(k string, defaultValue int) int {
	if n := gen.Config.GetInt(k); n != 0 {
		return n
	}
	return defaultValue''')],H+'''
func TestDemo(t *testing.T) {
	c := NewData()
	c.Put("n", 0)
	g := &Generator{Config: c}
	if v := g.GetConfigInt("n", 7); v != 0 {
		t.Fatal("configured 0, got", v)
	}
	if v := g.GetConfigInt("m", 7); v != 7 {
		t.Fatal(v)
	}
}
''','an integer option configured as zero with a non-zero default','an explicitly configured zero is ignored')

seed('C09-overwrite-empty','C09',[('generator.go','''	if !gen.Config.GetBool("force-overwrite") && gen.FileExists(path) {''','''	if info, err := os.Stat(path); err == nil && info.Size() > 0 && !gen.Config.GetBool("force-overwrite") {''')],hp('sadl','os','path/filepath')+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	p := filepath.Join(dir, "f")
	os.WriteFile(p, nil, 0644)
	g := &Generator{Config: NewData()}
	g.WriteFile(p, "new")
	b, _ := os.ReadFile(p)
	if string(b) != "" {
		t.Fatal("an existing (empty) file was overwritten")
	}
	q := filepath.Join(dir, "g")
	g.WriteFile(q, "new")
	if b, _ := os.ReadFile(q); string(b) != "new" {
		t.Fatal("not written")
	}
}
''','an existing file that is empty, without force-overwrite','an existing file is changed although overwriting was not requested')

seed('C09-begin-keeps','C09',[('generator.go','''	gen.buf.Reset()
	gen.writer = bufio.NewWriter(&gen.buf)
''','''	if gen.writer == nil {
		gen.buf.Reset()
	}
	gen.writer = bufio.NewWriter(&gen.buf)
''')],H+'''
func TestDemo(t *testing.T) {
	g := &Generator{Config: NewData()}
	g.Begin()
	g.Emit("one")
	if s := g.End(); s != "one" {
		t.Fatal(s)
	}
	g.Begin()
	g.Emit("two")
	if s := g.End(); s != "two" {
		t.Fatalf("second text is %q", s)
	}
}
''','two begin/end rounds on one generator','the text of an earlier round leaks into the next one')

seed('C10-long-word','C10',[('misc.go','''		if col == 0 {
			buf.WriteString(tab)
			buf.WriteString(prefix)
			buf.WriteString(tok)
''','''		if col == 0 {
			if lines < 2 {
				buf.WriteString(tab)
			}
			buf.WriteString(prefix)
			buf.WriteString(tok)
''')],hp('sadl','strings')+'''
func TestDemo(t *testing.T) {
	s := FormatComment("    ", "// ", "some words that need several lines to be shown", 20, false)
	for _, l := range strings.Split(strings.TrimSuffix(s, "\\n"), "\\n") {
		if !strings.HasPrefix(l, "    // ") {
			t.Fatalf("line %q", l)
		}
	}
}
''','an indented comment that wraps','continuation lines lose their indentation')

seed('C10-drop-blank','C10',[('misc.go','''		for _, line := range lines {
			result = result + tab + prefix + line + "\\n"
		}''','''		for i, line := range lines {
			if line == "" && i == len(lines)-1 {
				continue
			}
			result = result + tab + prefix + line + "\\n"
		}''')],H+'''
func TestDemo(t *testing.T) {
	if s := FormatComment("", "// ", "a\\n\\nb\\n", 20, false); s != "// a\\n// \\n// b\\n// \\n" {
		t.Fatalf("%q", s)
	}
}
''','a multi-line comment whose last line is empty','a line of the comment is dropped')

seed('C11-unit-last-blank','C11',[('unitvalue.go','n := strings.Index(repr, " ")','n := strings.LastIndex(repr, " ")')],H+'''
func TestDemo(t *testing.T) {
	u, err := ParseUnitValue("12.5 square meters")
	if err != nil || u.Unit != "square meters" {
		t.Fatal(u, err)
	}
}
''','a unit that contains a blank','the text is split at the last blank: such a unit value is rejected')

seed('C11-uuid-hyphen','C11',[('uuid.go','''	if text[8] != '-' || text[13] != '-' || text[18] != '-' || text[23] != '-' {
		return ""
	}''','''	if text[8] != '-' || text[13] != '-' || text[18] != '-' && text[23] != '-' {
		return ""
	}''')],H+'''
func TestDemo(t *testing.T) {
	if ParseUUID("1ce437b0-1dd2-11b2-8198x003ee1be7bf9") != "" || ParseUUID("1ce437b0-1dd2-11b2a8198-003ee1be7bf9") != "" {
		t.Fatal("accepted a text without the third or fourth hyphen")
	}
	if ParseUUID("1ce437b0-1dd2-11b2-8198-003ee1be7bf9") == "" {
		t.Fatal("rejected a UUID")
	}
}
''','a text with exactly one of the last two hyphens replaced','texts that are not UUIDs are accepted')

seed('C12-required-order','C12',[('openapi/export_openapi.go',"""	var required []string
	properties := make(map[string]*Schema, 0)
	for _, fd := range td.Fields {
		if fd.Required {
			required = append(required, fd.Name)
		}
""","""	var required []string
	properties := make(map[string]*Schema, 0)
	for _, fd := range td.Fields {
		if _, dup := properties[sadl.Uncapitalize(fd.Name)]; fd.Required && !dup {
			required = append(required, fd.Name)
		}
""")],hp('openapi',SADL)+"""
func TestDemo(t *testing.T) {
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{
		{Name: "Bar", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			{Name: "id", Required: true, TypeSpec: sadl.TypeSpec{Type: "String"}}, {Name: "Id", Required: true, TypeSpec: sadl.TypeSpec{Type: "String"}}}}}}})
	if err != nil {
		t.Fatal(err)
	}
	o, err := NewGenerator(m, sadl.NewData()).ExportToOAS3()
	if err != nil {
		t.Fatal(err)
	}
	r := o.Components.Schemas["Bar"].Required
	if len(r) != 2 {
		t.Fatal(r)
	}
}
""",'two required fields whose names differ only in the case of the first letter','the second is exported as optional',pkg='openapi')

seed('C12-max-for-min','C12',[('openapi/export_openapi.go','''		if td.Max != nil {
			v := td.Max.AsFloat64()
			sch.Max = &v
		}''','''		if td.Max != nil && td.Min == nil {
			v := td.Max.AsFloat64()
			sch.Max = &v
		}''')],hp('openapi',SADL)+'''
func TestDemo(t *testing.T) {
	one, ten := sadl.NewDecimal(1), sadl.NewDecimal(10)
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{
		{Name: "Bar", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "n", TypeSpec: sadl.TypeSpec{Type: "Int32", Min: one, Max: ten}}}}}}})
	if err != nil {
		t.Fatal(err)
	}
	o, err := NewGenerator(m, sadl.NewData()).ExportToOAS3()
	if err != nil {
		t.Fatal(err)
	}
	p := o.Components.Schemas["Bar"].Properties["n"]
	if p.Max == nil || *p.Max != 10 {
		t.Fatal("the maximum is lost")
	}
}
''','a numeric field with both a minimum and a maximum','the maximum is lost',pkg='openapi')

seed('C13-dup-post','C13',[('openapi/export_openapi.go','''			if pi.Post != nil {
				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)''','''			if pi.Post != nil && pi.Post.OperationId == hdef.Name {
				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)''')],hp('openapi',SADL)+'''
func TestDemo(t *testing.T) {
	m, err := sadl.NewModel(&sadl.Schema{Http: []*sadl.HttpDef{
		{Name: "a", Method: "POST", Path: "/x?q={q}", Expected: &sadl.HttpExpectedSpec{Status: 200}},
		{Name: "b", Method: "POST", Path: "/x", Expected: &sadl.HttpExpectedSpec{Status: 200}}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := NewGenerator(m, sadl.NewData()).ExportToOAS3(); err == nil {
		t.Fatal("two POST actions on /x: one is silently lost")
	}
}
''','two POST actions with the same path up to the query','one of the actions is silently lost',pkg='openapi')

seed('C13-header-name','C13',[('openapi/export_openapi.go','''				param.In = "header"
				param.Name = in.Header
''','''				param.In = "header"
				param.Name = strings.TrimPrefix(in.Header, "X-")
''')],hp('openapi',SADL)+'''
func TestDemo(t *testing.T) {
	in := &sadl.HttpParamSpec{Header: "X-Token"}
	in.Name, in.Type = "token", "String"
	m, err := sadl.NewModel(&sadl.Schema{Http: []*sadl.HttpDef{
		{Name: "a", Method: "GET", Path: "/x", Inputs: []*sadl.HttpParamSpec{in}, Expected: &sadl.HttpExpectedSpec{Status: 200}}}})
	if err != nil {
		t.Fatal(err)
	}
	o, err := NewGenerator(m, sadl.NewData()).ExportToOAS3()
	if err != nil {
		t.Fatal(err)
	}
	if n := o.Paths["/x"].Get.Parameters[0].Name; n != "X-Token" {
		t.Fatal(n)
	}
}
''','a header input whose wire name starts with X-','the exported header has another wire name',pkg='openapi')

seed('C14-required-prefix','C14',[('openapi/import_openapi.go','''func containsString(lst []string, val string) bool {
	for _, s := range lst {
		if s == val {''','''func containsString(lst []string, val string) bool {
	for _, s := range lst {
		if strings.EqualFold(s, val) {''')],hp('openapi')+'''
func TestDemo(t *testing.T) {
	s := &Schema{Type: "object", Required: []string{"Name"}, Properties: map[string]*Schema{"name": {Type: "string"}, "Name": {Type: "string"}}}
	ts, err := convertOasType("X", s)
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range ts.Fields {
		if f.Required != (f.Name == "Name") {
			t.Fatal(f.Name, f.Required)
		}
	}
}
''','two properties whose names differ only in case','an optional property becomes required',pkg='openapi')

seed('C14-maxlength-zero','C14',[('openapi/import_openapi.go','''				if oasSchema.MaxLength != nil {
					tmpMax''','''				if oasSchema.MaxLength != nil && *oasSchema.MaxLength > oasSchema.MinLength {
					tmpMax''')],hp('openapi')+'''
func TestDemo(t *testing.T) {
	n := uint64(8)
	ts, err := convertOasType("X", &Schema{Type: "string", MinLength: 8, MaxLength: &n})
	if err != nil {
		t.Fatal(err)
	}
	if ts.MaxSize == nil || *ts.MaxSize != 8 {
		t.Fatal("the maximum length is lost")
	}
}
''','a string whose minimum and maximum length are equal','the maximum length is lost',pkg='openapi')

seed('C15-expected-largest','C15',[('openapi/import_openapi.go','''		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
			if expectedStatus == "default"''','''		if strings.HasPrefix(status, "2") {
			if expectedStatus == "default"''')],hp('openapi')+'''
func TestDemo(t *testing.T) {
	op := &Operation{OperationId: "x", Responses: map[string]*Response{"302": {Description: "moved"}, "default": {Description: "oops"}}}
	h, err := convertOasPath("/x", op, "GET")
	if err != nil {
		t.Fatal(err)
	}
	if h.Expected == nil || h.Expected.Status != 302 {
		t.Fatal(h.Expected)
	}
}
''','an operation whose only success response is a redirect, with a default response','the default response is taken for the expected result',pkg='openapi')

seed('C15-query-name','C15',[('openapi/import_openapi.go','queries = append(queries, param.Name+"={"+name+"}")','queries = append(queries, name+"={"+name+"}")')],hp('openapi')+'''
func TestDemo(t *testing.T) {
	op := &Operation{OperationId: "x", Parameters: []*Parameter{{Name: "page-size", In: "query", Schema: &Schema{Type: "string"}}}, Responses: map[string]*Response{"200": {Description: "ok"}}}
	h, err := convertOasPath("/x", op, "GET")
	if err != nil {
		t.Fatal(err)
	}
	if h.Path != "/x?page-size={pagesize}" {
		t.Fatal(h.Path)
	}
}
''','a query parameter whose name is not an identifier','the query template carries another wire name',pkg='openapi')

seed('C16-union-alias','C16',[('graphql/export_graphql.go','''		vtype := uv.Type
		w.Emit("%s\\n", vtype)''','''		vtype := w.typeRef(&uv.TypeSpec)
		if i > 0 && uv.Type == td.Variants[i-1].Type {
			continue
		}
		w.Emit("%s\\n", vtype)'''),('graphql/export_graphql.go','''	w.Emit("enum %s {\\n", td.Name)
	for _, ed := range td.Elements {
''','''	w.Emit("enum %s {\\n", td.Name)
	for i, ed := range td.Elements {
		if i > 0 && strings.EqualFold(ed.Symbol, td.Elements[i-1].Symbol) {
			continue
		}
''')],hp('graphql','strings',SADL)+'''
func TestDemo(t *testing.T) {
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{{Name: "E", TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "km"}, {Symbol: "KM"}}}}}})
	if err != nil {
		t.Fatal(err)
	}
	s, err := FromSadl(m, sadl.NewData())
	if err != nil || !strings.Contains(s, "  km\\n  KM\\n") {
		t.Fatal(s, err)
	}
}
''','an enum with two adjacent symbols that differ only in case','a symbol is dropped',pkg='graphql')

seed('C16-float32','C16',[('graphql/export_graphql.go','''	case "Float64", "Float32":
		return "Float"
	case "Int64", "Decimal":
		return w.customScalar(name, "Float")''','''	case "Float64":
		return "Float"
	case "Int64", "Decimal", "Float32":
		return w.customScalar("Decimal", "Float")''')],hp('graphql','strings',SADL)+'''
func TestDemo(t *testing.T) {
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{{Name: "S", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "n", TypeSpec: sadl.TypeSpec{Type: "Int64"}}}}}}})
	if err != nil {
		t.Fatal(err)
	}
	c := sadl.AsData(map[string]interface{}{"custom-scalars": map[string]interface{}{"Int64": "Long", "Decimal": "BigDecimal"}})
	s, err := FromSadl(m, c)
	if err != nil || !strings.Contains(s, "  n: Long\\n") || !strings.Contains(s, "scalar Long\\n") {
		t.Fatal(s, err)
	}
}
''','a custom scalar configured for Int64','the scalar configured for another type is used',pkg='graphql')

seed('C17-list-nonnull','C17',[('graphql/import_graphql.go','''		case *gql_ast.List:
			fd.Type = "Array"
			switch it := t.Type.(type) {
			case *gql_ast.Named:
				fd.Items = convertTypeName(it.Name.Value)
			case *gql_ast.NonNull:
				switch it := it.Type.(type) {''','''		case *gql_ast.List:
			fd.Type = "Array"
			switch it := t.Type.(type) {
			case *gql_ast.Named:
				fd.Items = convertTypeName(it.Name.Value)
			case *gql_ast.NonNull:
				fd.Required = true
				switch it := it.Type.(type) {''')],hp('graphql',SADL,'github.com/graphql-go/graphql/language/parser')+'''
func TestDemo(t *testing.T) {
	doc, err := parser.Parse(parser.ParseParams{Source: "type A {\\n  x: [Int!]\\n  y: [Int!]!\\n}\\n"})
	if err != nil {
		t.Fatal(err)
	}
	s, err := gqlSchema(doc, sadl.NewData())
	if err != nil {
		t.Fatal(err)
	}
	f := s.Types[1].Fields
	if f[0].Required || !f[1].Required || f[0].Items != "Int32" {
		t.Fatal("wrong fields")
	}
}
''','an optional list of non-null items','the field becomes required',pkg='graphql')

seed('C17-enum-comment','C17',[('graphql/import_graphql.go','''		if symdef.Description != nil {
			el.Comment = commentValue(symdef.Description.Value)
		}
		td.Elements = append(td.Elements, el)''','''		if symdef.Description != nil {
			td.Comment = commentValue(symdef.Description.Value)
		}
		td.Elements = append(td.Elements, el)''')],hp('graphql',SADL,'github.com/graphql-go/graphql/language/parser')+'''
func TestDemo(t *testing.T) {
	doc, err := parser.Parse(parser.ParseParams{Source: "\\"the enum\\"\\nenum E {\\n  \\"first\\"\\n  A\\n  B\\n}\\n"})
	if err != nil {
		t.Fatal(err)
	}
	s, err := gqlSchema(doc, sadl.NewData())
	if err != nil {
		t.Fatal(err)
	}
	if s.Types[1].Comment != "the enum" {
		t.Fatal(s.Types[1].Comment)
	}
}
''','a documented enum with a documented symbol','the description of the enum is replaced by that of a symbol',pkg='graphql')

seed('C18-omitempty-ref','C18',[('golang/golang_model.go','''		if !fd.Required {
			anno = anno + ",omitempty"
		}''','''		if !fd.Required || ftype[0] == '*' {
			anno = anno + ",omitempty"
		}''')],hp('golang','strings',SADL)+'''
func TestDemo(t *testing.T) {
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{
		{Name: "In", TypeSpec: sadl.TypeSpec{Type: "Struct"}},
		{Name: "S", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "x", Required: true, TypeSpec: sadl.TypeSpec{Type: "In"}}}}}}})
	if err != nil {
		t.Fatal(err)
	}
	gen := &Generator{Model: m}
	gen.Begin()
	gen.EmitType(m.FindType("S"), nil)
	if s := gen.End(); !strings.Contains(s, "X *In `json:\\"x\\"`") {
		t.Fatal(s)
	}
}
''','a required field whose type is a struct','the JSON tag says omitempty for a required field',pkg='golang')

seed('C18-adjoin-last','C18',[('golang/export_golang.go','''	for _, s := range lst {
		if val == s {
			return lst
		}
	}
	return append(lst, val)''','''	for _, s := range lst {
		if strings.HasPrefix(s, val) {
			return lst
		}
	}
	return append(lst, val)''')],hp('golang')+'''
func TestDemo(t *testing.T) {
	l := adjoin([]string{"net/http"}, "net")
	if len(l) != 2 || l[1] != "net" {
		t.Fatal(l)
	}
}
''','an import that is a prefix of one already listed','a needed import is left out',pkg='golang')

seed('C19-import-simple','C19',[('java/export_java.go','''func (gen *Generator) AddImport(fullReference string) {
''','''func (gen *Generator) AddImport(fullReference string) {
	if len(gen.imports) > 0 && strings.HasSuffix(gen.imports[0], fullReference[strings.LastIndex(fullReference, "."):]) {
		return
	}
''')],hp('java')+'''
func TestDemo(t *testing.T) {
	g := &Generator{}
	g.AddImport("lombok.Data")
	g.AddImport("java.util.List")
	g.AddImport("com.acme.Data")
	if len(g.imports) != 3 {
		t.Fatal(g.imports)
	}
}
''','two imports with the same simple name, the first one listed first','a needed import is left out',pkg='java')

seed('C20-replace-once','C20',[('httptrace/export_http_examples.go',"""path = strings.Replace(path, "{" + in.Name + "}", sex, -1)""","""path = strings.Replace(path, "{" + in.Name + "}", sex, 1)""")],hp('httptrace','strings',SADL)+"""
func TestDemo(t *testing.T) {
	in := &sadl.HttpParamSpec{Path: true}
	in.Name, in.Type = "id", "String"
	m, err := sadl.NewModel(&sadl.Schema{Http: []*sadl.HttpDef{{Name: "a", Method: "GET", Path: "/x/{id}?self={id}", Inputs: []*sadl.HttpParamSpec{in}}},
		Examples: []*sadl.ExampleDef{{Target: "ARequest", Name: "e", Example: map[string]interface{}{"id": "7"}}}})
	if err != nil {
		t.Fatal(err)
	}
	s, err := generateHttpTrace(m, m.Http[0])
	if err != nil || !strings.Contains(s, "GET /x/7?self=7 HTTP/1.1") {
		t.Fatal(s, err)
	}
}
""",'a placeholder that occurs twice in the path','only the first occurrence is replaced',pkg='httptrace')

seed('C20-length-runes','C20',[('httptrace/export_http_examples.go','fmt.Sprintf("Content-Length: %d\\n", len(bodyExample))','fmt.Sprintf("Content-Length: %d\\n", len([]rune(bodyExample)))')],hp('httptrace','strings',SADL)+'''
func TestDemo(t *testing.T) {
	out := &sadl.HttpParamSpec{}
	out.Name, out.Type = "body", "String"
	m, err := sadl.NewModel(&sadl.Schema{Http: []*sadl.HttpDef{{Name: "a", Method: "GET", Path: "/x", Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{out}}}},
		Examples: []*sadl.ExampleDef{{Target: "ARequest", Name: "e", Example: map[string]interface{}{}}, {Target: "AResponse", Name: "e", Example: map[string]interface{}{"body": "\\u00e9\\u00e9"}}}})
	if err != nil {
		t.Fatal(err)
	}
	s, err := generateHttpTrace(m, m.Http[0])
	if err != nil || !strings.Contains(s, "Content-Length: 7\\n") {
		t.Fatal(s, err)
	}
}
''','a response body with characters outside ASCII','Content-Length counts characters, not bytes',pkg='httptrace')

seed('C19-size-both','C19',[('java/export_java.go',"""					if smin != "" {
						smax = ", " + smax
					}
""","""					if smin != "" {
						smin, smax = "", "min="+smax[4:]+", "+smax
					}
""")],hp('java',SADL)+"""
func TestDemo(t *testing.T) {
	m, _ := sadl.NewModel(&sadl.Schema{})
	g := &Generator{Model: m}
	lo, hi := int64(2), int64(5)
	_, an, _ := g.TypeName(&sadl.TypeSpec{Type: "String", MinSize: &lo, MaxSize: &hi}, "String", false)
	if len(an) != 1 || an[0] != "@Size(min=2, max=5)" {
		t.Fatal(an)
	}
}
""",'a string with both a minimum and a maximum size','the stated minimum size is the maximum',pkg='java')

seed('C19-map-items','C19',[('java/export_java.go','items, _, _ := gen.TypeName(&itd.TypeSpec, ts.Items, false)','items, _, _ := gen.TypeName(&itd.TypeSpec, ts.Items, itd.Type == "Enum" || itd.Type == "Int16")')],hp('java',SADL)+"""
func TestDemo(t *testing.T) {
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{{Name: "K", TypeSpec: sadl.TypeSpec{Type: "Int16"}}}})
	if err != nil {
		t.Fatal(err)
	}
	g := &Generator{Model: m}
	n, _, _ := g.TypeName(&sadl.TypeSpec{Type: "Map", Keys: "String", Items: "K"}, "Map", false)
	if n != "Map<String,Short>" {
		t.Fatal(n)
	}
}
""",'a map whose items are a named 16-bit integer','the item type is a primitive, which Java does not allow',pkg='java')

seed('C21-symbol-bytes','C21',[('model.go','''	for _, ch := range s[1:] {
		if !IsSymbolChar(rune(ch), false) { //FIXME''','''	for i := range s[1:] {
		if !IsSymbolChar(rune(s[i]), false) { //FIXME''')],H+"""
func TestDemo(t *testing.T) {
	if IsSymbol("ab-") || !IsSymbol("ab1_") {
		t.Fatal("wrong")
	}
}
""",'a text whose only wrong character is the last one','the last character is not checked')

seed('C21-annotation-empty','C21',[('misc.go',"""			if s == "" {
				s = "true"
			}""","""			if s == "" && len(annos) == 1 {
				s = "true"
			}""")],H+"""
func TestDemo(t *testing.T) {
	if s := GetAnnotation(map[string]string{"a": "", "b": "x"}, "a"); s != "true" {
		t.Fatalf("%q", s)
	}
}
""",'an annotation without a value next to another annotation','a present annotation is reported as absent')

seed('C05-map-keys','C05',[('model.go','if !model.EquivalentTypesByName(ts1.Keys, ts2.Keys) {','if ts1.Type == "Map" && ts1.MaxSize == nil && !model.EquivalentTypesByName(ts1.Keys, ts2.Keys) {')],H+'''
func TestDemo(t *testing.T) {
	m, _ := NewModel(&Schema{})
	n := int64(3)
	a := &TypeSpec{Type: "Map", Keys: "String", Items: "Int32", MaxSize: &n}
	b := &TypeSpec{Type: "Map", Keys: "UUID", Items: "Int32", MaxSize: &n}
	if m.EquivalentTypes(a, b) {
		t.Fatal("maps with different keys are equivalent")
	}
}
''','two maps with a maximum size that differ in their key type only','maps with different key types are judged equivalent')

seed('C06-prefix-case','C06',[('model.go','if !strings.HasPrefix(tname, td.Name) {','if !strings.HasPrefix(strings.ToLower(tname), strings.ToLower(td.Name)) {')],H+'''
func TestDemo(t *testing.T) {
	f := &StructFieldDef{Name: "identity"}
	f.Type = "Enum"
	f.Elements = []*EnumElementDef{{Symbol: "A"}}
	m, _ := NewModel(&Schema{Types: []*TypeDef{{Name: "ID", TypeSpec: TypeSpec{Type: "Struct", Fields: []*StructFieldDef{f}}}}})
	if err := m.ConvertInlineEnums(); err != nil {
		t.Fatal(err)
	}
	if f.Type != "IDIdentity" {
		t.Fatal(f.Type)
	}
}
''','a struct whose name is a prefix of the field name except for case','the enum is not named from the struct and the field')

seed('C06-not-listed','C06',[('model.go','''	for _, td := range tds {
		model.Types = append(model.Types, td)
		model.typeIndex''','''	for i, td := range tds {
		if i == 0 || tds[i-1].Name[:1] <= td.Name[:1] {
			model.Types = append(model.Types, td)
		}
		model.typeIndex''')],H+'''
func TestDemo(t *testing.T) {
	enum := func(n string) *StructFieldDef {
		f := &StructFieldDef{Name: n}
		f.Type = "Enum"
		f.Elements = []*EnumElementDef{{Symbol: "A"}}
		return f
	}
	m, _ := NewModel(&Schema{Types: []*TypeDef{
		{Name: "Zoo", TypeSpec: TypeSpec{Type: "Struct", Fields: []*StructFieldDef{enum("kind")}}},
		{Name: "Bar", TypeSpec: TypeSpec{Type: "Struct", Fields: []*StructFieldDef{enum("kind")}}},
	}})
	if err := m.ConvertInlineEnums(); err != nil {
		t.Fatal(err)
	}
	if len(m.Types) != 4 {
		t.Fatal(len(m.Types))
	}
}
''','inline enums in two structs that are not in alphabetical order','the new enum is found by name but is missing from the list of types, so exporters never declare it')

seed('C07-request-inside','C07',[('model.go','httpName := Uncapitalize(theType[:len(theType)-len("Request")])','httpName := Uncapitalize(strings.Replace(theType, "Request", "", 1))')],H+'''
func TestDemo(t *testing.T) {
	in := &HttpParamSpec{}
	in.Name = "x"
	in.Type = "String"
	m, _ := NewModel(&Schema{Http: []*HttpDef{{Name: "listRequests", Method: "GET", Inputs: []*HttpParamSpec{in}}}})
	ts, err := m.FindExampleType(&ExampleDef{Target: "ListRequestsRequest.x"})
	if err != nil || ts == nil || ts.Type != "String" {
		t.Fatal(ts, err)
	}
}
''','an action whose name contains the word Request','the target of an example for such an action is reported as undefined')

seed('C16-required-sticky','C16',[('graphql/export_graphql.go','''	for _, fd := range td.Fields {
		required := ""
		if fd.Required {
			required = "!"
		}
''','''	required := ""
	for _, fd := range td.Fields {
		if fd.Required {
			required = "!"
		} else if fd.Type != "Array" {
			required = ""
		}
''')],hp('graphql','strings',SADL)+'''
func TestDemo(t *testing.T) {
	a := &sadl.StructFieldDef{Name: "a", Required: true}
	a.Type = "String"
	b := &sadl.StructFieldDef{Name: "b"}
	b.Type, b.Items = "Array", "String"
	m, _ := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{{Name: "T", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{a, b}}}}})
	s, err := FromSadl(m, sadl.NewData())
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(s, "b: [String!]!") {
		t.Fatal(s)
	}
}
''','an optional list field after a required field','an optional list is exported as required',pkg='graphql')

seed('C17-field-order','C17',[('graphql/import_graphql.go','''		td.Fields = append(td.Fields, fd)
	}
	schema.Types''','''		if n := len(td.Fields); n > 0 && fd.Required && fd.Type == "Array" && !td.Fields[n-1].Required {
			td.Fields = append(td.Fields[:n-1], fd, td.Fields[n-1])
		} else {
			td.Fields = append(td.Fields, fd)
		}
	}
	schema.Types''')],'package graphql\nimport (\n"testing"\n"github.com/boynton/sadl"\ngql_ast "github.com/graphql-go/graphql/language/ast"\n)\n'+'''
func TestDemo(t *testing.T) {
	named := &gql_ast.Named{Name: &gql_ast.Name{Value: "Int"}}
	d := &gql_ast.ObjectDefinition{Name: &gql_ast.Name{Value: "T"}, Fields: []*gql_ast.FieldDefinition{
		{Name: &gql_ast.Name{Value: "a"}, Type: named},
		{Name: &gql_ast.Name{Value: "b"}, Type: &gql_ast.NonNull{Type: &gql_ast.List{Type: named}}},
	}}
	s := &sadl.Schema{}
	if err := gqlStruct(s, d); err != nil {
		t.Fatal(err)
	}
	if s.Types[0].Fields[0].Name != "a" || s.Types[0].Fields[1].Name != "b" {
		t.Fatal("order")
	}
}
''','a required list field right after an optional field','object fields do not keep their order',pkg='graphql')

seed('C08-yaml-upper','C08',[('data.go','if ext == ".yaml" {','if ext == ".yaml" && len(raw) > 0 && raw[0] != \'#\' {')],'package sadl\nimport (\n"os"\n"testing"\n)\n'+'''
func TestDemo(t *testing.T) {
	p := t.TempDir() + "/c.yaml"
	os.WriteFile(p, []byte("# configuration\\na: {b: x}\\n"), 0600)
	d, err := DataFromFile(p)
	if err != nil || d.GetString("a", "b") != "x" {
		t.Fatal(err)
	}
}
''','a YAML configuration file that starts with a comment','a valid configuration file is rejected')


seed('C21-uncap-rune','C21',[('misc.go',"""func Uncapitalize(s string) string {
	if s == "" {
		return s
	}""","""func Uncapitalize(s string) string {
	if s == "" || s[0] >= 0xE0 {
		return s
	}""")],H+"""
func TestDemo(t *testing.T) {
	if s := Uncapitalize("\\u1e9eABC"); s != "\\u00dfABC" {
		t.Fatal(s)
	}
}
""",'a text that starts with an upper case character of three bytes','the first character is not lower-cased')

seed('C14-file-dots','C14',[('openapi/import_openapi.go','name = strings.Replace(name, ".", "_", -1)','name = strings.Replace(name, ".", "_", 1)')],'package openapi\nimport (\n"os"\n"testing"\n)\n'+"""
func TestDemo(t *testing.T) {
	p := t.TempDir() + "/my.api.v2.json"
	os.WriteFile(p, []byte(`{"openapi":"3.0.0","info":{"title":"my api","version":"1"},"paths":{}}`), 0600)
	m, err := Import([]string{p}, nil)
	if err != nil || m.Name != "my_api_v2" {
		t.Fatal(m, err)
	}
}
""",'a document file whose name has several dots and whose title is not a symbol','the name of the model is not a symbol',pkg='openapi')

seed('C14-no-paths','C14',[('openapi/model.go','if v3.Paths == nil {','if v3.Paths == nil && v3.Components == nil {')],'package openapi\nimport (\n"os"\n"testing"\n)\n'+"""
func TestDemo(t *testing.T) {
	p := t.TempDir() + "/a.json"
	os.WriteFile(p, []byte(`{"openapi":"3.0.0","info":{"title":"a","version":"1"},"components":{"schemas":{}}}`), 0600)
	if IsValidFile(p) {
		t.Fatal("accepted")
	}
}
""",'a document without paths that has components','an incomplete document is accepted',pkg='openapi')
