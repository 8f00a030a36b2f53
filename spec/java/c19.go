package java

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/boynton/sadl"
)

// C19: generated Java types mirror the model.

// specScalar: the type a reference stands for, with its constraints: named scalars stand for their base type
func specScalar(model *sadl.Model, ts *sadl.TypeSpec, name string) (*sadl.TypeSpec, string) {
	if specBaseName(name) {
		return ts, name
	}
	td := model.FindType(name)
	if td != nil && specBaseName(td.Type) {
		return &td.TypeSpec, td.Type
	}
	return ts, name
}

func specBaseName(n string) bool {
	switch n {
	case "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any":
		return true
	}
	return false
}

// specBox: the names of Java's own boxed types
func specBox(n string) bool {
	switch n {
	case "Boolean", "Byte", "Short", "Integer", "Long", "Float", "Double":
		return true
	}
	return false
}

func specPrimitive(n string) bool {
	switch n {
	case "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64":
		return true
	}
	return false
}

// specJava: the Java type of a base or class name
func specJava(base string, required, instants bool) string {
	switch base {
	case "Bool":
		if required {
			return "boolean"
		}
		return "Boolean"
	case "Int8":
		if required {
			return "byte"
		}
		return "Byte"
	case "Int16":
		if required {
			return "short"
		}
		return "Short"
	case "Int32":
		if required {
			return "int"
		}
		return "Integer"
	case "Int64":
		if required {
			return "long"
		}
		return "Long"
	case "Float32":
		if required {
			return "float"
		}
		return "Float"
	case "Float64":
		if required {
			return "double"
		}
		return "Double"
	case "Decimal":
		return "BigDecimal"
	case "Any":
		return "Object"
	case "Bytes":
		return "byte[]"
	case "Timestamp":
		if instants {
			return "Instant"
		}
	}
	return base
}

func specSize(ts *sadl.TypeSpec) string {
	if ts.MinSize == nil && ts.MaxSize == nil {
		return ""
	}
	if ts.MinSize == nil {
		return fmt.Sprintf("@Size(max=%d)", *ts.MaxSize)
	}
	if ts.MaxSize == nil {
		return fmt.Sprintf("@Size(min=%d)", *ts.MinSize)
	}
	return fmt.Sprintf("@Size(min=%d, max=%d)", *ts.MinSize, *ts.MaxSize)
}

// specType: the Java type of any reference
func specType(model *sadl.Model, ts *sadl.TypeSpec, name string, required, instants bool) string {
	if name != "Array" && name != "Map" {
		if td := model.FindType(name); td != nil && (td.Type == "Array" || td.Type == "Map") {
			ts, name = &td.TypeSpec, td.Type
		}
	}
	item := func(n string) string {
		return specType(model, &model.FindType(n).TypeSpec, n, false, instants)
	}
	switch name {
	case "Array":
		if ts.Items == "" {
			return "List<Object>"
		}
		return "List<" + item(ts.Items) + ">"
	case "Map":
		if ts.Items == "" || ts.Keys == "" {
			return "Map<String,Object>"
		}
		return "Map<" + item(ts.Keys) + "," + item(ts.Items) + ">"
	}
	_, base := specScalar(model, ts, name)
	return specJava(base, required, instants)
}

// specAnnos: the constraint annotations of a reference
func specAnnos(model *sadl.Model, ts *sadl.TypeSpec, name string, required bool) []string {
	var r []string
	td := model.FindType(name)
	if name != "Array" && name != "Map" && td != nil && (td.Type == "Array" || td.Type == "Map") {
		return nil
	}
	ts, base := specScalar(model, ts, name)
	if required && !specPrimitive(base) {
		r = append(r, "@NotNull")
	}
	switch {
	case base == "String":
		if ts.Pattern != "" {
			r = append(r, "@Pattern(regexp="+strconv.Quote(ts.Pattern)+")")
		}
		if s := specSize(ts); s != "" {
			r = append(r, s)
		}
	case base == "Decimal":
		if ts.Min != nil {
			r = append(r, "@DecimalMin(\""+ts.Min.String()+"\")")
		}
		if ts.Max != nil {
			r = append(r, "@DecimalMax(\""+ts.Max.String()+"\")")
		}
	case specPrimitive(base) && base != "Bool":
		if ts.Min != nil {
			r = append(r, "@Min("+ts.Min.String()+")")
		}
		if ts.Max != nil {
			r = append(r, "@Max("+ts.Max.String()+")")
		}
	}
	return r
}

func specSameAnnos(got, want []string) bool {
	var g []string
	for _, a := range got {
		if !strings.HasPrefix(a, "@Json") {
			g = append(g, a)
		}
	}
	w := append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	return strings.Join(g, "\n") == strings.Join(w, "\n")
}

//govc:target (*java.Generator).TypeName
//govc:bounded nested item types of any depth
func verify_C19_typename(model *sadl.Model, f *sadl.StructFieldDef, instants bool) {
	gen := &Generator{Model: model, UseInstants: instants}
	t, an, anon := gen.TypeName(&f.TypeSpec, f.Type, f.Required)
	if f.Type == "Struct" {
		vEnsures("an inline struct is anonymous", anon != nil && len(anon.Fields) == len(f.Fields))
		return
	}
	vEnsures("only inline structs are anonymous", anon == nil)
	vEnsures("the Java type", t == specType(model, &f.TypeSpec, f.Type, f.Required, instants))
	vEnsures("the constraints", specSameAnnos(an, specAnnos(model, &f.TypeSpec, f.Type, f.Required)))
}

func specHas(l []string, s string) bool {
	return vExists(len(l), func(i int) bool { return l[i] == s })
}

//govc:target (*java.Generator).TypeName java.primitiveType
func verify_C19_base(model *sadl.Model, ts *sadl.TypeSpec, name string, required, instants bool) {
	vRequires(model != nil && ts != nil)
	vRequires(specBaseName(name) && model.FindType("Boolean") == nil)
	vCases(name, "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any")
	vSplit(required)
	gen := &Generator{Model: model, UseInstants: instants}
	t, an, anon := gen.TypeName(ts, name, required)
	vEnsures("the Java type of a base type", t == specJava(name, required, instants) && anon == nil)
	vEnsures("required references are not null", specHas(an, "@NotNull") == (required && !specPrimitive(name)))
	vEnsures("imported", !specHas(an, "@NotNull") || specHas(gen.imports, "javax.validation.constraints.NotNull"))
}

//govc:target (*java.Generator).TypeName
func verify_C19_string(model *sadl.Model, ts *sadl.TypeSpec, required bool) {
	vRequires(model != nil && ts != nil)
	gen := &Generator{Model: model}
	t, an, _ := gen.TypeName(ts, "String", required)
	vEnsures("text", t == "String")
	pat := fmt.Sprintf("@Pattern(regexp=%q)", ts.Pattern)
	size := specSize(ts)
	n := 0
	if required {
		n++
		vEnsures("not null", specHas(an, "@NotNull"))
	}
	if ts.Pattern != "" {
		n++
		vEnsures("the pattern is stated and imported", specHas(an, pat) && specHas(gen.imports, "javax.validation.constraints.Pattern"))
	}
	if size != "" {
		n++
		vEnsures("the size limits are stated and imported", specHas(an, size) && specHas(gen.imports, "javax.validation.constraints.Size"))
	}
	vEnsures("no other constraint", len(an) == n)
}

//govc:target (*java.Generator).TypeName
func verify_C19_bounds(model *sadl.Model, ts *sadl.TypeSpec, name string, required bool) {
	vRequires(model != nil && ts != nil)
	vRequires(specPrimitive(name) && name != "Bool" || name == "Decimal")
	vCases(name, "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal")
	vSplit(required)
	gen := &Generator{Model: model}
	_, an, _ := gen.TypeName(ts, name, required)
	n := 0
	if required && name == "Decimal" {
		n++
	}
	if ts.Min != nil {
		n++
		if name == "Decimal" {
			vEnsures("a decimal minimum is stated and imported", specHas(an, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String())) && specHas(gen.imports, "javax.validation.constraints.DecimalMin"))
		} else {
			vEnsures("a minimum is stated and imported", specHas(an, fmt.Sprintf("@Min(%s)", ts.Min.String())) && specHas(gen.imports, "javax.validation.constraints.Min"))
		}
	}
	if ts.Max != nil {
		n++
		if name == "Decimal" {
			vEnsures("a decimal maximum is stated and imported", specHas(an, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String())) && specHas(gen.imports, "javax.validation.constraints.DecimalMax"))
		} else {
			vEnsures("a maximum is stated and imported", specHas(an, fmt.Sprintf("@Max(%s)", ts.Max.String())) && specHas(gen.imports, "javax.validation.constraints.Max"))
		}
	}
	vEnsures("no other constraint", len(an) == n)
}

//govc:target (*java.Generator).TypeName
func verify_C19_named(model *sadl.Model, ts *sadl.TypeSpec, name string, required, instants bool) {
	vRequires(model != nil && ts != nil)
	td := model.FindType(name)
	vRequires(td != nil && !specBaseName(name) && !specBox(name) && name != "Array" && name != "Map" && name != "Struct")
	vRequires(td.Type != "Array" && td.Type != "Map" && model.FindType("Boolean") == nil)
	vCases(td.Type, "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any")
	vSplit(required)
	gen := &Generator{Model: model, UseInstants: instants}
	t, an, anon := gen.TypeName(ts, name, required)
	_, base := specScalar(model, ts, name)
	vEnsures("a named scalar is its base type, any other type its class", t == specJava(base, required, instants) && anon == nil)
	vEnsures("required references are not null", specHas(an, "@NotNull") == (required && !specPrimitive(base)))
}

//govc:target (*java.Generator).TypeName
func verify_C19_list(model *sadl.Model, ts *sadl.TypeSpec, required, instants bool) {
	vRequires(model != nil && ts != nil)
	td := model.FindType(ts.Items)
	vRequires(td != nil && !specBox(ts.Items) && ts.Items != "Array" && ts.Items != "Map" && ts.Items != "Struct" && td.Type != "Array" && td.Type != "Map" && model.FindType("Boolean") == nil)
	vCases(ts.Items, "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any")
	vCases(td.Type, "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any")
	gen := &Generator{Model: model, UseInstants: instants}
	t, an, anon := gen.TypeName(ts, "Array", required)
	_, base := specScalar(model, &td.TypeSpec, ts.Items)
	vEnsures("a list of the boxed item type", t == "List<"+specJava(base, false, instants)+">" && anon == nil)
	vEnsures("required lists are not null", specHas(an, "@NotNull") == required)
	vEnsures("lists are imported", specHas(gen.imports, "java.util.List"))
}

//govc:target (*java.Generator).AddImport
func verify_C19_imports(lst []string, val string) {
	vRequires(vForall(len(lst), func(i int) bool { return vForall(i, func(j int) bool { return lst[i] != lst[j] }) }))
	gen := &Generator{imports: lst}
	gen.AddImport(val)
	r := gen.imports
	vEnsures("the import is listed", specHas(r, val))
	vEnsures("earlier imports stay", len(r) >= len(lst) && vForall(len(lst), func(i int) bool { return r[i] == lst[i] }))
	vEnsures("nothing else is added", vForall(len(r), func(i int) bool { return i < len(lst) || r[i] == val }))
	vEnsures("each import is listed once", vForall(len(r), func(i int) bool { return vForall(i, func(j int) bool { return r[i] != r[j] }) }))
}

//govc:target java.reverseStrings
func verify_C19_reverse(l []string) {
	r := reverseStrings(l)
	vEnsures("reversed", len(r) == len(l) && vForall(len(l), func(i int) bool { return r[len(l)-1-i] == l[i] }))
}

//govc:target java.defaultPackage java.javaPackageToPath
//govc:bounded splitting and joining texts is the library's
func verify_C19_packages(parts []string) {
	rev := ""
	for i := len(parts) - 1; i >= 0; i-- {
		rev += parts[i]
		if i > 0 {
			rev += "."
		}
	}
	vEnsures("the package is the reversed domain", defaultPackage(strings.Join(parts, ".")) == rev)
	vEnsures("the directory of a package", javaPackageToPath(strings.Join(parts, ".")) == strings.Join(parts, "/"))
}

var specImportOf = map[string]string{
	"NotNull": "javax.validation.constraints", "Pattern": "javax.validation.constraints", "Size": "javax.validation.constraints",
	"Min": "javax.validation.constraints", "Max": "javax.validation.constraints", "DecimalMin": "javax.validation.constraints", "DecimalMax": "javax.validation.constraints",
	"JsonInclude": "com.fasterxml.jackson.annotation", "JsonIgnoreProperties": "com.fasterxml.jackson.annotation", "JsonIgnore": "com.fasterxml.jackson.annotation",
	"JsonCreator": "com.fasterxml.jackson.annotation", "JsonProperty": "com.fasterxml.jackson.annotation", "JsonValue": "com.fasterxml.jackson.annotation",
	"JsonDeserialize": "com.fasterxml.jackson.databind.annotation", "JsonSerialize": "com.fasterxml.jackson.databind.annotation", "JsonPOJOBuilder": "com.fasterxml.jackson.databind.annotation",
	"Data": "lombok", "AllArgsConstructor": "lombok", "Builder": "lombok", "NoArgsConstructor": "lombok",
}

var specLibTypes = map[string]string{"List": "java.util.List", "Map": "java.util.Map", "UUID": "java.util.UUID", "BigDecimal": "java.math.BigDecimal", "Instant": "java.time.Instant"}

var (
	specAnnoRe   = regexp.MustCompile(`(?m)(?:^\s*|[(,] ?)@(\w+)`)
	specWordRe   = regexp.MustCompile(`\b(List|Map|UUID|BigDecimal|Instant)\b`)
	specImportRe = regexp.MustCompile(`(?m)^import ([\w.]+);$`)
	specEnumRe   = regexp.MustCompile(`^    (\w+)\("([^"]*)"\)[,;]`)
)

// specFields: the declared fields at an indentation, with the annotations before each
func specFields(lines []string, indent string) (decl []string, annos [][]string) {
	re := regexp.MustCompile(`^` + indent + `(?:private final|public final|public) ([\w<>,\[\]]+) (\w+);$`)
	var an []string
	for _, l := range lines {
		if m := re.FindStringSubmatch(l); m != nil {
			decl = append(decl, m[1]+" "+m[2])
			annos = append(annos, an)
			an = nil
			continue
		}
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "@") {
			an = append(an, t)
		} else if t != "" && !strings.HasPrefix(t, "//") {
			an = nil
		}
	}
	return
}

func specImports(text string) {
	seen := map[string]bool{}
	for _, m := range specImportRe.FindAllStringSubmatch(text, -1) {
		vEnsures("each import once", !seen[m[1]])
		seen[m[1]] = true
	}
	code := specImportRe.ReplaceAllString(text, "")
	for _, m := range specAnnoRe.FindAllStringSubmatch(code, -1) {
		if p, ok := specImportOf[m[1]]; ok {
			vEnsures("annotations are imported", seen[p+"."+m[1]])
		}
	}
	for _, m := range specWordRe.FindAllStringSubmatch(code, -1) {
		vEnsures("library types are imported", seen[specLibTypes[m[1]]])
	}
}

func specClassFields(model *sadl.Model, lines []string, indent, class string, fields []*sadl.StructFieldDef, opt *specOpts, exception bool) {
	decl, annos := specFields(lines, indent)
	vEnsures("exactly the model's fields", len(decl) == len(fields))
	var args []string
	for i, f := range fields {
		t := specType(model, &f.TypeSpec, f.Type, f.Required, opt.instants)
		if f.Type == "Struct" {
			t = sadl.Capitalize(f.Name)
		}
		vEnsures("field type and name", decl[i] == t+" "+f.Name)
		vEnsures("field constraints", specSameAnnos(annos[i], specAnnos(model, &f.TypeSpec, f.Type, f.Required)))
		args = append(args, decl[i])
	}
	if opt.immutable && (!opt.lombok || exception || indent != "    ") {
		all := strings.Join(lines, "\n")
		vEnsures("the constructor takes the fields in order", strings.Contains(all, indent+"public "+class+"("+strings.Join(args, ", ")+") {"))
		for i, f := range fields {
			vEnsures("a getter for each field", strings.Contains(all, indent+"public "+strings.TrimSuffix(decl[i], f.Name)+"get"+sadl.Capitalize(f.Name)+"() {"))
		}
	}
	for _, f := range fields {
		if f.Type != "Struct" {
			continue
		}
		n := sadl.Capitalize(f.Name)
		from, to := -1, len(lines)
		for i, l := range lines {
			if strings.HasPrefix(l, indent+"public static class "+n+" ") {
				from = i + 1
			} else if from >= 0 && strings.HasPrefix(l, indent+"public static class ") && !strings.Contains(l, "Builder ") {
				to = i
				break
			}
		}
		vEnsures("an inline struct is a nested class", from >= 0)
		specClassFields(model, lines[from:to], indent+"    ", n, f.Fields, opt, false)
	}
}

type specOpts struct {
	immutable, lombok, instants, getters, service bool
	domain, pkg                                   string
}

//govc:target java.Export java.NewGenerator (*java.Generator).CreateModel (*java.Generator).CreateStructPojo (*java.Generator).CreateEnumPojo (*java.Generator).CreateUnionPojo (*java.Generator).WriteJavaFile
//govc:bounded the generated classes are read back as text
func verify_C19_classes(model *sadl.Model, opt *specOpts) {
	dir, err := ioutil.TempDir("", "verif")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	conf := sadl.NewData()
	conf.Put("immutable", opt.immutable)
	conf.Put("lombok", opt.lombok)
	conf.Put("instants", opt.instants)
	if opt.service {
		conf.Put("service-exception", true)
	}
	if opt.domain != "" {
		conf.Put("domain", opt.domain)
	}
	if opt.pkg != "" {
		conf.Put("package", opt.pkg)
	}
	err = Export(model, dir, conf)
	vEnsures("no error", err == nil)
	pkg := opt.pkg
	if pkg == "" {
		for _, c := range strings.Split(opt.domain, ".") {
			if pkg != "" {
				c += "."
			}
			pkg = c + pkg
		}
	}
	pkg += ".model"
	read := func(class string) string {
		b, err := ioutil.ReadFile(filepath.Join(dir, "src/main/java", strings.Replace(pkg, ".", "/", -1), class+".java"))
		vEnsures("a file for each class in the directory of its package", err == nil)
		text := string(b)
		vEnsures("the package", strings.Contains(text, "package "+pkg+";\n"))
		specImports(text)
		return text
	}
	exc := map[string]bool{}
	for _, h := range model.Http {
		for _, e := range h.Exceptions {
			exc[e.Type] = !opt.service
		}
	}
	for _, td := range model.Types {
		switch td.Type {
		case "Struct":
			text := read(td.Name)
			lines := strings.Split(text, "\n")
			specClassFields(model, lines, "    ", td.Name, td.Fields, opt, exc[td.Name])
			vEnsures("exceptions can be thrown", strings.Contains(text, "public class "+td.Name+" extends RuntimeException {") == exc[td.Name])
			if exc[td.Name] {
				for _, p := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
					own := false
					for _, f := range td.Fields {
						own = own || f.Name == p
					}
					vEnsures("exceptions hide what they inherit", strings.Contains(text, "\""+p+"\"") == !own)
				}
			}
		case "Enum":
			var got, want []string
			for _, l := range strings.Split(read(td.Name), "\n") {
				if m := specEnumRe.FindStringSubmatch(l); m != nil {
					got = append(got, m[1]+"="+m[2])
				}
			}
			for _, el := range td.Elements {
				v := el.Annotations["x_enumValue"]
				if v == "" {
					v = el.Symbol
				}
				want = append(want, el.Symbol+"="+v)
			}
			vEnsures("the enum's symbols in order", strings.Join(got, " ") == strings.Join(want, " "))
		case "Union":
			decl, annos := specFields(strings.Split(read(td.Name), "\n"), "    ")
			vEnsures("exactly the union's variants", len(decl) == len(td.Variants)+1)
			for i, v := range td.Variants {
				vEnsures("variant type and name", decl[i+1] == specType(model, &v.TypeSpec, v.Type, false, opt.instants)+" "+v.Name)
				vEnsures("variant constraints", specSameAnnos(annos[i+1], specAnnos(model, &v.TypeSpec, v.Type, false)))
			}
		}
	}
	for _, h := range model.Http {
		var in, out []*sadl.StructFieldDef
		for _, p := range h.Inputs {
			in = append(in, &p.StructFieldDef)
		}
		for _, p := range h.Expected.Outputs {
			out = append(out, &p.StructFieldDef)
		}
		n := sadl.Capitalize(h.Name)
		specClassFields(model, strings.Split(read(n+"Request"), "\n"), "    ", n+"Request", in, opt, false)
		specClassFields(model, strings.Split(read(n+"Response"), "\n"), "    ", n+"Response", out, opt, false)
	}
}

var specBases = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any"}

func genConstraints(g *vGen, ts *sadl.TypeSpec) {
	num := func() *sadl.Decimal {
		if g.chance(50) {
			return nil
		}
		return sadl.NewDecimal(float64(g.n(400)-100) / 2)
	}
	size := func() *int64 {
		if g.chance(50) {
			return nil
		}
		n := int64(g.n(20))
		return &n
	}
	if g.chance(50) {
		return
	}
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		ts.Min, ts.Max = num(), num()
	case "String":
		ts.Pattern = g.pick("", "^a*$", "\\d+")
		ts.MinSize, ts.MaxSize = size(), size()
	}
}

func genJavaModel(g *vGen) (*sadl.Model, func() sadl.TypeSpec) {
	names := []string{"Foo", "Bar", "Baz", "Kind", "Items", "Num", "Oops"}
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	k := 1 + g.n(6)
	// arrays and maps only refer to types before them, so that they are not recursive
	ref := func(k int) string {
		if k > 0 && g.chance(50) {
			return names[g.n(k)]
		}
		if g.chance(4) {
			return g.pick("Array", "Map")
		}
		return specBases[g.n(len(specBases))]
	}
	spec := func() sadl.TypeSpec {
		switch g.n(8) {
		case 0:
			return sadl.TypeSpec{Type: "Array", Items: ref(k)}
		case 1:
			return sadl.TypeSpec{Type: "Map", Keys: g.pick("String", "String", names[0], "Int32"), Items: ref(k)}
		}
		ts := sadl.TypeSpec{Type: ref(k)}
		genConstraints(g, &ts)
		return ts
	}
	s := &sadl.Schema{Name: g.pick("test", "")}
	fields := func(depth int) []*sadl.StructFieldDef { return nil }
	fields = func(depth int) []*sadl.StructFieldDef {
		var r []*sadl.StructFieldDef
		for n, m := 0, g.n(5); n < m; n++ {
			f := &sadl.StructFieldDef{Name: g.pick("f", "g", "fooBar") + strconv.Itoa(depth) + strconv.Itoa(n), Required: g.chance(50), Comment: g.pick("", "a comment")}
			if depth == 0 && g.chance(10) {
				f.Name = g.pick("message", "cause", "other")
				for _, o := range r {
					if o.Name == f.Name {
						f.Name += strconv.Itoa(n)
					}
				}
			}
			f.TypeSpec = spec()
			if depth < 2 && g.chance(8) {
				f.TypeSpec = sadl.TypeSpec{Type: "Struct", Fields: fields(depth + 1)}
			}
			r = append(r, f)
		}
		return r
	}
	for i := 0; i < k; i++ {
		td := &sadl.TypeDef{Name: names[i], Comment: g.pick("", "c")}
		switch g.n(7) {
		case 0:
			td.Type = "Enum"
			for n, m := 0, 1+g.few(4); n < m; n++ {
				el := &sadl.EnumElementDef{Symbol: "S" + strconv.Itoa(n*7%11) + "x" + strconv.Itoa(n), Comment: g.pick("", "x")}
				if g.chance(20) {
					el.Annotations = map[string]string{"x_enumValue": g.pick("one", "two")}
				}
				td.Elements = append(td.Elements, el)
			}
		case 1:
			td.TypeSpec = sadl.TypeSpec{Type: "Array", Items: ref(i)}
		case 2:
			td.TypeSpec = sadl.TypeSpec{Type: "Map", Keys: "String", Items: ref(i)}
		case 3:
			td.Type = specBases[g.n(len(specBases))]
			genConstraints(g, &td.TypeSpec)
		case 4:
			td.Type = "Union"
			for n, m := 0, 1+g.n(3); n < m; n++ {
				v := &sadl.UnionVariantDef{Name: "v" + strconv.Itoa(n)}
				v.TypeSpec = spec()
				td.Variants = append(td.Variants, v)
			}
		default:
			td.Type = "Struct"
			td.Fields = fields(0)
		}
		s.Types = append(s.Types, td)
	}
	m, _ := sadl.NewModel(s)
	return m, spec
}

func gen_C19_classes(g *vGen) (*sadl.Model, *specOpts) {
	m, spec := genJavaModel(g)
	s := &sadl.Schema{Name: m.Name, Types: m.Types}
	for i := 0; i < g.n(3); i++ {
		h := &sadl.HttpDef{Name: g.pick("get", "put") + strconv.Itoa(i), Method: "GET", Path: "/x"}
		ps := func() []*sadl.HttpParamSpec {
			var r []*sadl.HttpParamSpec
			for n, m := 0, g.n(4); n < m; n++ {
				p := &sadl.HttpParamSpec{}
				p.Name = "p" + strconv.Itoa(n)
				p.TypeSpec = spec()
				p.Required = g.chance(50)
				r = append(r, p)
			}
			return r
		}
		h.Inputs = ps()
		h.Expected = &sadl.HttpExpectedSpec{Status: 200, Outputs: ps()}
		for _, td := range s.Types {
			if td.Type == "Struct" && g.chance(40) {
				h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: td.Name, Status: 400})
			}
		}
		s.Http = append(s.Http, h)
	}
	if len(s.Http) > 0 {
		s.Name = "test"
	}
	m, _ = sadl.NewModel(s)
	o := &specOpts{immutable: g.chance(60), lombok: g.chance(30), instants: g.chance(50), service: g.chance(20), domain: g.pick("example.com", "a.b.c", "x")}
	if g.chance(30) {
		o.pkg = g.pick("org.thing", "p", "a.b.c.d")
	}
	return m, o
}
func gen_C19_typename(g *vGen) (*sadl.Model, *sadl.StructFieldDef, bool) {
	m, spec := genJavaModel(g)
	f := &sadl.StructFieldDef{Name: "f", Required: g.chance(50)}
	f.TypeSpec = spec()
	return m, f, g.chance(50)
}
func gen_C19_base(g *vGen) (*sadl.Model, *sadl.TypeSpec, string, bool, bool) {
	m, _ := genJavaModel(g)
	ts := &sadl.TypeSpec{Type: specBases[g.n(len(specBases))]}
	genConstraints(g, ts)
	return m, ts, ts.Type, g.chance(50), g.chance(50)
}
func gen_C19_string(g *vGen) (*sadl.Model, *sadl.TypeSpec, bool) {
	m, _ := genJavaModel(g)
	ts := &sadl.TypeSpec{Type: "String"}
	genConstraints(g, ts)
	return m, ts, g.chance(50)
}
func gen_C19_bounds(g *vGen) (*sadl.Model, *sadl.TypeSpec, string, bool) {
	m, ts, n, r, _ := gen_C19_base(g)
	return m, ts, n, r
}
func gen_C19_named(g *vGen) (*sadl.Model, *sadl.TypeSpec, string, bool, bool) {
	m, _ := genJavaModel(g)
	n := m.Types[g.n(len(m.Types))].Name
	return m, &sadl.TypeSpec{Type: n}, n, g.chance(50), g.chance(50)
}
func gen_C19_list(g *vGen) (*sadl.Model, *sadl.TypeSpec, bool, bool) {
	m, _ := genJavaModel(g)
	n := specBases[g.n(len(specBases))]
	if g.chance(50) {
		n = m.Types[g.n(len(m.Types))].Name
	}
	return m, &sadl.TypeSpec{Type: "Array", Items: n}, g.chance(50), g.chance(50)
}
func gen_C19_imports(g *vGen) ([]string, string) {
	all := []string{"java.util.List", "java.util.Map", "java.util.UUID", "lombok.Data", "a.B", "c.D"}
	g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	l := all[:g.n(len(all))]
	if len(l) > 0 && g.chance(40) {
		w := l[g.n(len(l))]
		if i := strings.LastIndex(w, "."); i >= 0 && g.chance(50) {
			return l, g.pick(w[:i]+".Other", "com.acme"+w[i:])
		}
		return l, g.near(w)
	}
	return l, all[g.n(len(all))]
}
func gen_C19_reverse(g *vGen) []string {
	var r []string
	for i := g.few(6); i > 0; i-- {
		r = append(r, g.pick("a", "b", "com", ""))
	}
	return r
}
func gen_C19_packages(g *vGen) []string {
	r := []string{"x"}
	for i := g.few(6); i > 0; i-- {
		r = append(r, g.pick("a", "b", "com", "org"))
	}
	return r
}
