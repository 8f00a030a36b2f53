package sadl

import (
	"math/rand"
	"strconv"
)

// Input generation for executing the contracts (not part of any proof).

var vScalars = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any"}
var vNums = []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"}

func genDecimal(g *vGen) *Decimal {
	switch g.n(6) {
	case 0:
		d, _ := ParseDecimal(strconv.FormatInt(g.Int(), 10))
		return d
	case 1:
		d, _ := ParseDecimal(g.pick("0.5", "-0.25", "127.5", "9223372036854775808", "-9223372036854775809", "1e3", "0.1", "123456789.125", "-129", "128", "2147483648", "32768", "1000000000000"))
		return d
	case 2:
		d, _ := ParseDecimal(strconv.FormatInt(g.Int(), 10) + "." + strconv.Itoa(g.n(1000)))
		return d
	default:
		return NewDecimal(float64(g.n(12) - 3))
	}
}

func genSize(g *vGen) *int64 {
	if g.chance(60) {
		return nil
	}
	n := int64(g.n(5))
	if g.chance(6) {
		if n = g.Int(); n < 0 || n > 5000 {
			n = int64(250 + g.n(60))
		}
	}
	return &n
}

func genAnn(g *vGen) map[string]string {
	if g.chance(70) {
		return nil
	}
	m := map[string]string{}
	for i := g.n(3); i > 0; i-- {
		m[g.pick("x_a", "x_deprecated", "x_b", "x_foo", "x_value", "x_tag")] = g.pick("", "true", "v1", "Other")
	}
	return m
}

func genComment(g *vGen) string {
	if g.chance(60) {
		return ""
	}
	return g.pick("a comment", "two\nlines", "a longer comment that goes on for quite a while so that it has to be wrapped over several lines", "é", "x")
}

type genOpts struct {
	inlineEnum bool
	noUnion    bool
}

// spec: a type specification; names are the types it may refer to
func genSpec(g *vGen, names []string, depth int) TypeSpec {
	ref := func() string {
		if len(names) > 0 && g.chance(55) {
			return names[g.n(len(names))]
		}
		return vScalars[g.n(len(vScalars))]
	}
	var ts TypeSpec
	k := g.n(20)
	switch {
	case k < 5:
		ts.Type = vScalars[g.n(len(vScalars))]
	case k < 6:
		ts.Type = vNums[g.n(len(vNums))]
		if g.chance(60) {
			ts.Min = genDecimal(g)
		}
		if g.chance(60) {
			ts.Max = genDecimal(g)
		}
	case k < 8:
		ts.Type = "String"
		ts.MinSize, ts.MaxSize = genSize(g), genSize(g)
		if g.chance(30) {
			ts.Pattern = g.pick("^[a-z]*$", "[0-9]+", "^x", "(", "^.*$", "a|b")
		}
		if g.chance(30) {
			ts.Values = make([]string, 0)
			for i := g.n(4); i > 0; i-- {
				ts.Values = append(ts.Values, g.Name())
			}
		}
		if g.chance(15) {
			ts.Reference = ref()
		}
	case k < 10 && depth < 2:
		ts.Type = "Struct"
		used := map[string]bool{}
		for i := g.few(4); i > 0; i-- {
			fd := &StructFieldDef{Name: g.Name(), Comment: genComment(g), Annotations: genAnn(g), Required: g.chance(50)}
			if used[fd.Name] {
				continue
			}
			used[fd.Name] = true
			if g.chance(40) && len(names) > 0 {
				fd.Type = names[g.n(len(names))]
			} else {
				fd.TypeSpec = genSpec(g, names, depth+1)
			}
			if g.chance(10) {
				fd.Default = g.Any(2)
			}
			ts.Fields = append(ts.Fields, fd)
		}
	case k < 12:
		ts.Type = "Array"
		ts.Items = ref()
		ts.MinSize, ts.MaxSize = genSize(g), genSize(g)
	case k < 13:
		ts.Type = "Map"
		ts.Keys = g.pick("String", "String", "UUID", ref())
		ts.Items = ref()
		ts.MinSize, ts.MaxSize = genSize(g), genSize(g)
	case k < 15:
		ts.Type = "Enum"
		used := map[string]bool{}
		for i := 1 + g.few(4); i > 0; i-- {
			s := g.pick("A", "B", "C", "red", "GREEN", "blue_ish", "x1")
			if g.chance(15) {
				s += strconv.Itoa(g.n(100))
			}
			if used[s] {
				continue
			}
			used[s] = true
			ts.Elements = append(ts.Elements, &EnumElementDef{Symbol: s, Comment: genComment(g), Annotations: genAnn(g)})
		}
	case k < 16 && depth < 2:
		ts.Type = "Union"
		used := map[string]bool{}
		for i := 1 + g.n(3); i > 0; i-- {
			n := g.Name()
			if used[n] {
				continue
			}
			used[n] = true
			v := &UnionVariantDef{Name: n, Comment: genComment(g), Annotations: genAnn(g)}
			v.Type = ref()
			if g.chance(40) {
				v.Name = v.Type
			}
			ts.Variants = append(ts.Variants, v)
		}
	case k < 17:
		ts.Type = "UnitValue"
		ts.Value = g.pick("Decimal", "Int32", "Float64")
		ts.Unit = "String"
		for _, n := range names {
			if g.chance(20) {
				ts.Unit = n
			}
		}
	case k < 18 && len(names) > 0:
		ts.Type = names[g.n(len(names))]
	case k < 19:
		ts.Type = g.pick("UUID", "Timestamp", "Bytes", "Any", "Bool")
		if g.chance(10) {
			ts.Reference = ref()
		}
		if ts.Type == "Bytes" {
			ts.MinSize, ts.MaxSize = genSize(g), genSize(g)
		}
	default:
		ts.Type = "Int32"
	}
	return ts
}

func genParam(g *vGen, name string, names []string) *HttpParamSpec {
	p := &HttpParamSpec{}
	p.Name = name
	p.Comment = genComment(g)
	p.Annotations = genAnn(g)
	if len(names) > 0 && g.chance(40) {
		p.Type = names[g.n(len(names))]
	} else if g.chance(50) {
		p.Type = vScalars[g.n(len(vScalars))]
	} else {
		p.TypeSpec = genSpec(g, names, 2)
	}
	return p
}

func genHttp(g *vGen, name string, names []string, i int) *HttpDef {
	h := &HttpDef{Name: name, Comment: genComment(g), Annotations: genAnn(g), Method: g.pick("GET", "GET", "PUT", "POST", "DELETE", "PATCH", "HEAD")}
	if g.chance(30) {
		h.Resource = g.Name()
	}
	used := map[string]bool{}
	h.Path = "/" + g.pick("foo", "bar", "items", "a-b", "p"+strconv.Itoa(i))
	q := ""
	body := false
	for k := g.n(5); k > 0; k-- {
		p := genParam(g, g.pick("id", "name", "kind", "limit", "skip", "body", "etag", "flag"), names)
		if used[p.Name] {
			continue
		}
		used[p.Name] = true
		switch g.n(4) {
		case 0:
			p.Path = true
			p.Required = true
			h.Path += "/{" + p.Name + "}"
		case 1:
			p.Query = g.pick(p.Name, "q", "max-items", "Q")
			if q == "" {
				q = "?"
			} else {
				q += "&"
			}
			q += p.Query + "={" + p.Name + "}"
			if g.chance(20) {
				p.Default = g.pick("d", "10")
			}
			p.Required = g.chance(30)
		case 2:
			p.Header = g.pick("If-None-Match", "X-"+p.Name, "etag")
			p.Required = g.chance(30)
		default:
			if body {
				continue
			}
			body = true
			p.Required = g.chance(50)
		}
		h.Inputs = append(h.Inputs, p)
	}
	h.Path += q
	if g.chance(92) {
		h.Expected = &HttpExpectedSpec{Status: []int32{200, 200, 201, 204, 304}[g.n(5)], Comment: genComment(g)}
		used = map[string]bool{}
		body = false
		for k := g.n(3); k > 0; k-- {
			p := genParam(g, g.pick("result", "item", "etag", "body", "modified"), names)
			if used[p.Name] {
				continue
			}
			used[p.Name] = true
			if g.chance(50) || body {
				p.Header = g.pick("ETag", "X-"+p.Name, "Location")
			} else {
				body = true
			}
			h.Expected.Outputs = append(h.Expected.Outputs, p)
		}
	}
	st := map[int32]bool{}
	for k := g.n(3); k > 0; k-- {
		s := []int32{304, 400, 404, 409, 500}[g.n(5)]
		if st[s] {
			continue
		}
		st[s] = true
		e := &HttpExceptionSpec{Status: s, Comment: genComment(g), Type: "Any"}
		if len(names) > 0 {
			e.Type = names[g.n(len(names))]
		}
		h.Exceptions = append(h.Exceptions, e)
	}
	return h
}

func genSchema(g *vGen) *Schema {
	s := &Schema{Sadl: "1.0", Name: g.pick("", "test", "crudl", "Foo", "my-api"), Namespace: g.pick("", "a.b", "com.example.x"), Version: g.pick("", "1", "2.1"), Comment: genComment(g), Annotations: genAnn(g)}
	if g.chance(20) {
		s.Base = g.pick("/", "/v1", "/a/b")
	}
	var names, all []string
	used := map[string]bool{}
	for i := g.few(6); i > 0; i-- {
		n := g.pick("Foo", "Bar", "Baz", "Quux", "Item", "Kind", "Pet", "Color", "Foo2", "ItemList", "FooKind")
		if g.chance(8) {
			n = Capitalize(g.near(n))
		}
		if !used[n] {
			used[n] = true
			all = append(all, n)
		}
	}
	for _, n := range all {
		td := &TypeDef{Name: n, Comment: genComment(g), Annotations: genAnn(g)}
		rs := names
		td.TypeSpec = genSpec(g, rs, 0)
		// references through containers may be recursive
		if td.Type == "Array" || td.Type == "Map" {
			if g.chance(15) {
				td.Items = all[g.n(len(all))]
			}
		}
		names = append(names, n)
		s.Types = append(s.Types, td)
	}
	g.r.Shuffle(len(s.Types), func(i, j int) { s.Types[i], s.Types[j] = s.Types[j], s.Types[i] })
	usedH := map[string]bool{}
	for i := g.n(4); i > 0; i-- {
		n := g.pick("getFoo", "putFoo", "listItems", "deleteBar", "createX", "a")
		if usedH[n] {
			continue
		}
		usedH[n] = true
		s.Http = append(s.Http, genHttp(g, n, names, i))
	}
	for i := g.n(3); i > 0; i-- {
		n := g.pick("opA", "opB", "opC")
		if usedH[n] {
			continue
		}
		usedH[n] = true
		op := &OperationDef{Name: n, Comment: genComment(g)}
		for k := g.n(3); k > 0; k-- {
			in := &OperationInput{}
			in.Name = g.pick("x", "y", "z")
			in.TypeSpec = genSpec(g, names, 2)
			op.Inputs = append(op.Inputs, in)
		}
		s.Operations = append(s.Operations, op)
	}
	for i := g.n(3); i > 0; i-- {
		ex := &ExampleDef{Name: g.pick("", "ex1", "ex2"), Example: g.Any(1), Comment: genComment(g)}
		if len(names) > 0 && g.chance(70) {
			ex.Target = names[g.n(len(names))]
		} else {
			ex.Target = g.pick("Foo", "GetFooRequest", "GetFooResponse", "Nope", "Foo.name")
		}
		s.Examples = append(s.Examples, ex)
	}
	return s
}

func genModel(g *vGen) *Model {
	for {
		m, err := NewModel(genSchema(g))
		if err == nil {
			return m
		}
	}
}

func genNames(m *Model) []string {
	var ns []string
	for _, t := range m.Types {
		ns = append(ns, t.Name)
	}
	return ns
}

// a specification to validate against: one of the model's own or a new one
func genSpecOf(g *vGen, m *Model) *TypeSpec {
	if len(m.Types) > 0 && g.chance(70) {
		return &m.Types[g.n(len(m.Types))].TypeSpec
	}
	ts := genSpec(g, genNames(m), 0)
	return &ts
}

// the number of parts of the value being generated
var genNodes int

// a value that conforms to the specification most of the time
func genValue(g *vGen, m *Model, ts *TypeSpec, d int) interface{} {
	if d == 0 {
		genNodes = 0
	}
	genNodes++
	if genNodes > 8000 {
		return nil
	}
	if g.chance(4) || d > 6 {
		return g.Any(d)
	}
	size := func() int {
		n := g.few(4)
		if ts.MaxSize != nil && (d == 0 && *ts.MaxSize < 5001 || *ts.MaxSize < 9) && g.chance(5) {
			return int(*ts.MaxSize) + 1
		}
		if ts.MinSize != nil && n < int(*ts.MinSize) && (d == 0 || *ts.MinSize < 9) && g.chance(80) {
			n = int(*ts.MinSize)
		}
		if ts.MaxSize != nil && n > int(*ts.MaxSize) && g.chance(80) {
			n = int(*ts.MaxSize)
		}
		return n
	}
	str := func(s string) interface{} {
		if g.chance(40) {
			return &s
		}
		return s
	}
	switch ts.Type {
	case "Bool":
		b := g.chance(50)
		if g.chance(30) {
			return &b
		}
		return b
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		if ts.Min != nil && g.chance(30) {
			return ts.Min
		}
		if ts.Max != nil && g.chance(30) {
			return ts.Max
		}
		return genDecimal(g)
	case "String":
		if len(ts.Values) > 0 && g.chance(85) {
			return str(ts.Values[g.n(len(ts.Values))])
		}
		if len(ts.Values) > 0 && g.chance(60) {
			return str(g.near(ts.Values[g.n(len(ts.Values))]))
		}
		n := size()
		b := ""
		for len(b) < n {
			b += g.pick("a", "b", "x", "1", "é")
		}
		return str(b)
	case "Enum":
		if len(ts.Elements) > 0 && g.chance(85) {
			return str(ts.Elements[g.n(len(ts.Elements))].Symbol)
		}
		if len(ts.Elements) > 0 && g.chance(50) {
			return str(g.near(ts.Elements[g.n(len(ts.Elements))].Symbol))
		}
		return str(g.Name())
	case "UUID":
		return str(genUUIDText(g))
	case "Timestamp":
		if g.chance(20) {
			t, _ := ParseTimestamp("2019-02-03T22:48:19.043Z")
			return &t
		}
		return str(g.pick("2019-02-03T22:48:19.043Z", "2019-02-03T22:48:19Z", "2019-02-03", "x", "2019-02-03T22:48:19.043+02:00"))
	case "UnitValue":
		v := genDecimal(g).String()
		u := g.pick("USD", "EUR", "a", "", "A", "B")
		if t := m.FindType(ts.Unit); t != nil && len(t.Elements) > 0 {
			u = t.Elements[g.n(len(t.Elements))].Symbol
		}
		return str(v + g.pick(" ", " ", " ", "", "  ") + u)
	case "Struct":
		r := map[string]interface{}{}
		for _, f := range ts.Fields {
			if f.Required && g.chance(95) || g.chance(60) {
				r[f.Name] = genValue(g, m, &f.TypeSpec, d+1)
			}
		}
		if g.chance(6) {
			r[g.Name()] = g.Any(d)
		}
		return r
	case "Array":
		r := make([]interface{}, 0)
		t := m.FindType(ts.Items)
		for i := size(); i > 0; i-- {
			if t != nil {
				r = append(r, genValue(g, m, &t.TypeSpec, d+1))
			} else {
				r = append(r, g.Any(d+1))
			}
		}
		return r
	case "Map":
		r := map[string]interface{}{}
		t := m.FindType(ts.Items)
		n := size()
		for i := n; i > 0; i-- {
			k := g.pick("a", "b", "c", "d", "e", "f", "")
			if n > 6 {
				k += strconv.Itoa(i)
			}
			if t != nil {
				r[k] = genValue(g, m, &t.TypeSpec, d+1)
			} else {
				r[k] = g.Any(d + 1)
			}
		}
		return r
	case "Union":
		r := map[string]interface{}{}
		if len(ts.Variants) > 0 {
			v := ts.Variants[g.n(len(ts.Variants))]
			r[v.Name] = genValue(g, m, &v.TypeSpec, d+1)
		}
		if g.chance(10) {
			r[g.Name()] = g.Any(d)
		}
		return r
	case "Any", "Bytes":
		return g.Any(d)
	}
	if t := m.FindType(ts.Type); t != nil {
		return genValue(g, m, &t.TypeSpec, d+1)
	}
	return g.Any(d)
}

func genUUIDText(g *vGen) string {
	b := []byte("1ce437b0-1dd2-11b2-bc26-003ee1be85f9")
	for i := range b {
		if b[i] != '-' {
			b[i] = "0123456789abcdefABCDEF"[g.n(22)]
		}
	}
	switch g.n(8) {
	case 0:
		b[g.n(len(b))] = "gG-/ 0:"[g.n(7)]
	case 1:
		return string(b[:g.n(len(b))])
	case 2:
		return string(b) + "0"
	}
	return string(b)
}

var _ = vHook(func(g *vGen) *Decimal {
	return genDecimal(g)
})
var _ = vHook(func(g *vGen) *Schema { return genSchema(g) })
var _ = vHook(func(g *vGen) *Model { return genModel(g) })
var _ = vHook(func(g *vGen) *TypeSpec {
	ts := genSpec(g, []string{"Foo", "Bar", "Baz"}, 0)
	return &ts
})
var _ = vHook(func(g *vGen) *HttpDef { return genHttp(g, g.pick("getFoo", "putFoo", "a"), []string{"Foo", "Bar"}, 1) })

// VerifGenModel serves the contracts of the other packages.
func VerifGenModel(r *rand.Rand) *Model { return genModel(&vGen{r: r}) }

func VerifGenValue(r *rand.Rand, m *Model, ts *TypeSpec) interface{} {
	return genValue(&vGen{r: r}, m, ts, 0)
}
