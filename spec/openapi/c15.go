package openapi

import (
	"strconv"
	"strings"

	"github.com/boynton/sadl"
)

// C15: OpenAPI import converts every operation faithfully.

func specSuccess(status string) bool {
	return len(status) > 0 && (status[0] == '2' || status[0] == '3')
}

// specIdent: the letters, underscores and (after the first of those) digits of a text
func specIdent(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if letter || r != "" && c >= '0' && c <= '9' {
			r += string(rune(c))
		}
	}
	return r
}

// specParamType: the type of a parameter
func specParamType(p *Parameter, in *sadl.HttpParamSpec) bool {
	if r := specRefName(p.Schema); r != "" {
		return in.Type == r
	}
	if p.Schema == nil {
		return in.Type == ""
	}
	if len(in.Values) != len(p.Schema.Enum) || !specTexts(p.Schema.Enum, in.Values) {
		return false
	}
	switch p.Schema.Type {
	case "boolean":
		return in.Type == "Bool"
	case "number":
		return in.Type == "Decimal" && specDecimalIs(in.Min, p.Schema.Min) && specDecimalIs(in.Max, p.Schema.Max)
	case "integer":
		want := specIntType(p.Schema.Format)
		if p.Schema.Format == "" {
			want = "Int32"
		}
		return in.Type == want && specDecimalIs(in.Min, p.Schema.Min) && specDecimalIs(in.Max, p.Schema.Max)
	case "string":
		switch p.Schema.Format {
		case "uuid":
			return in.Type == "UUID"
		case "date-time":
			return in.Type == "Timestamp"
		}
		return in.Type == "String" && in.Pattern == p.Schema.Pattern && specMinSize(in.MinSize, p.Schema.MinLength) && specMaxSize(in.MaxSize, p.Schema.MaxLength)
	case "array":
		want := "Any"
		if p.Schema.Items != nil && p.Schema.Items.Type == "string" {
			want = "String"
		}
		return in.Type == "Array" && in.Items == want
	}
	return false
}

func specInput(p *Parameter, in *sadl.HttpParamSpec) bool {
	return specInputOf(p, in) && specParamType(p, in)
}

func specBodyIs(op *Operation, body *MediaType, b *sadl.HttpParamSpec) bool {
	return specIsBody(b) && b.Name == "body" && b.Comment == op.RequestBody.Description && b.Required == op.RequestBody.Required && specTypeOf(body.Schema, &b.TypeSpec)
}

func specInputOf(p *Parameter, in *sadl.HttpParamSpec) bool {
	q, h := "", ""
	if p.In == "query" {
		q = p.Name
	} else if p.In == "header" {
		h = p.Name
	}
	return in.Name == makeIdentifier(p.Name) && in.Comment == p.Description && in.Required == p.Required && in.Path == (p.In == "path") && in.Query == q && in.Header == h
}

func specBodyInput(op *Operation, method string) *MediaType {
	if op.RequestBody == nil || method != "POST" && method != "PUT" {
		return nil
	}
	m := op.RequestBody.Content["application/json"]
	if m == nil || m.Schema == nil {
		return nil
	}
	return m
}

func specTypeOf(s *Schema, ts *sadl.TypeSpec) bool {
	if r := specRefName(s); r != "" {
		return ts.Type == r
	}
	return specFrom(s, *ts)
}

func specExpectedKey(op *Operation) string {
	k := ""
	for s := range op.Responses {
		if specSuccess(s) && (k == "" || s < k) {
			k = s
		}
	}
	if k == "" {
		return "default"
	}
	return k
}

func specOutputs(r *Response, e *sadl.HttpExpectedSpec) bool {
	n := 0
	for h, d := range r.Headers {
		if d.Schema == nil {
			continue
		}
		n++
		name := h
		if strings.HasPrefix(h, "x-") || strings.HasPrefix(h, "X-") {
			name = h[2:]
		}
		found := 0
		for _, o := range e.Outputs {
			if o.Header == h {
				found++
				if o.Name != makeIdentifier(name) || o.Comment != d.Description || !specTypeOf(d.Schema, &o.TypeSpec) {
					return false
				}
			}
		}
		if found != 1 {
			return false
		}
	}
	if m := r.Content["application/json"]; m != nil && m.Schema != nil {
		n++
		found := 0
		for _, o := range e.Outputs {
			if o.Header == "" {
				found++
				if o.Name != "body" || !specTypeOf(m.Schema, &o.TypeSpec) {
					return false
				}
			}
		}
		if found != 1 {
			return false
		}
	}
	return len(e.Outputs) == n
}

func specExceptions(op *Operation, key string, exs []*sadl.HttpExceptionSpec) bool {
	n := 0
	for s, r := range op.Responses {
		if s == key {
			continue
		}
		n++
		code := 0
		if s != "default" {
			code, _ = strconv.Atoi(s)
		}
		typ := ""
		if m := r.Content["application/json"]; m != nil {
			typ = specRefName(m.Schema)
		}
		found := 0
		for _, e := range exs {
			if int(e.Status) == code {
				found++
				if e.Comment != r.Description || e.Type != typ {
					return false
				}
			}
		}
		if found != 1 {
			return false
		}
	}
	return len(exs) == n
}

// specTagsOf: the first non-empty tag is the resource, the later ones are joined
func specTagsOf(tags []string, h *sadl.HttpDef) bool {
	rez, rest := "", ""
	for _, t := range tags {
		switch {
		case rez == "":
			rez = t
		case rest == "":
			rest = t
		default:
			rest = rest + "," + t
		}
	}
	return h.Resource == rez && h.Annotations["x_tags"] == rest
}

func specOpErr(op *Operation, method string) bool {
	for _, p := range op.Parameters {
		if p.In == "cookie" || p.Schema != nil && specRefName(p.Schema) == "" && !specAllTexts(p.Schema.Enum) {
			return true
		}
	}
	if m := specBodyInput(op, method); m != nil && m.Schema.Ref == "" && !specImportable(m.Schema) {
		return true
	}
	r := op.Responses[specExpectedKey(op)]
	if r == nil {
		return true
	}
	for _, h := range r.Headers {
		if h.Schema != nil && h.Schema.Ref == "" && !specImportable(h.Schema) {
			return true
		}
	}
	m := r.Content["application/json"]
	return m != nil && m.Schema != nil && m.Schema.Ref == "" && !specImportable(m.Schema)
}

func specQueryPath(tmpl string, op *Operation) string {
	p := tmpl
	for _, q := range op.Parameters {
		if q.In == "path" {
			p = strings.Replace(p, "{"+q.Name+"}", "{"+makeIdentifier(q.Name)+"}", -1)
		}
	}
	var queries []string
	for _, q := range op.Parameters {
		if q.In == "query" {
			queries = append(queries, q.Name+"={"+makeIdentifier(q.Name)+"}")
		}
	}
	if len(queries) > 0 {
		return p + "?" + strings.Join(queries, "&")
	}
	return p
}

//govc:target (*openapi.Model).ToSadl openapi.convertOasPath openapi.getPathOperation openapi.makeIdentifier
//govc:bounded whole-document import
func verify_C15_document(doc *Model) {
	m, err := doc.ToSadl("x")
	bad := false
	n := 0
	for _, pi := range doc.Paths {
		for _, method := range []string{"GET", "PUT", "POST", "DELETE", "HEAD"} {
			if op := specOp(pi, method); op != nil {
				n++
				bad = bad || specOpErr(op, method)
			}
		}
	}
	if err != nil {
		vEnsures("only what cannot be imported is an error", bad)
		return
	}
	vEnsures("what cannot be imported is an error", !bad)
	vEnsures("one action per operation", len(m.Http) == n)
	for tmpl, pi := range doc.Paths {
		for _, method := range []string{"GET", "PUT", "POST", "DELETE", "HEAD"} {
			op := specOp(pi, method)
			if op == nil {
				continue
			}
			h := m.FindHttp(op.OperationId)
			vEnsures("found by its id", h != nil && h.Name == op.OperationId)
			vEnsures("method and summary", h.Method == method && h.Comment == op.Summary)
			vEnsures("tags", specTagsOf(op.Tags, h))
			vEnsures("path with the query template", h.Path == specQueryPath(tmpl, op))
			np := len(op.Parameters)
			vEnsures("one input per parameter, in order", len(h.Inputs) >= np && vForall(np, func(i int) bool { return specInput(op.Parameters[i], h.Inputs[i]) }))
			body := specBodyInput(op, method)
			if body == nil {
				vEnsures("no other inputs", len(h.Inputs) == np)
			} else {
				b := h.Inputs[len(h.Inputs)-1]
				vEnsures("the request body", len(h.Inputs) == np+1 && specBodyIs(op, body, b))
			}
			key := specExpectedKey(op)
			code := 200
			if c, err := strconv.Atoi(key); err == nil {
				code = c
			}
			r := op.Responses[key]
			vEnsures("expected status and comment", h.Expected != nil && int(h.Expected.Status) == code && h.Expected.Comment == r.Description)
			vEnsures("expected headers and body", specOutputs(r, h.Expected))
			vEnsures("every other response is an exception", specExceptions(op, key, h.Exceptions))
		}
	}
}

//govc:target openapi.getPathOperation
func verify_C15_operation(pi *PathItem, method string) {
	vRequires(pi != nil)
	op := getPathOperation(pi, method)
	supported := method == "GET" || method == "PUT" || method == "POST" || method == "DELETE" || method == "HEAD"
	vEnsures("the operation of the method", !supported || op == specOp(pi, method))
}

//govc:target openapi.makeIdentifier
//govc:bounded regular expressions are a library
func verify_C15_identifier(s string) {
	vEnsures("letters, underscores and digits, not starting with a digit", makeIdentifier(s) == specIdent(s))
}

func genOasParamSchema(g *vGen) *Schema {
	s := genOasSchema(g, 3)
	if s.Type == "" && s.Ref == "" || s.Type == "object" {
		s = &Schema{Type: "string"}
	}
	if s.Type == "string" && g.chance(60) {
		s.Enum = nil
	}
	return s
}

func genOasOp(g *vGen, id string, path *string) *Operation {
	op := &Operation{OperationId: id, Summary: g.pick("", "does it", "x"), Responses: map[string]*Response{}}
	for i := g.n(4); i > 0; i-- {
		op.Tags = append(op.Tags, g.pick("a", "b", "c", "x y"))
	}
	used := map[string]bool{}
	for i := g.few(5); i > 0; i-- {
		p := &Parameter{Name: g.pick("id", "name", "limit", "X-Foo", "id2", "pet-id", "q_1", "a.b"), In: g.pick("query", "query", "header"), Description: g.pick("", "d1", "d2"), Required: g.chance(50)}
		if used[p.Name] {
			continue
		}
		used[p.Name] = true
		if *path != "" && strings.Contains(*path, "{"+p.Name+"}") {
			p.In = "path"
		}
		if g.chance(1) {
			p.In = "cookie"
		}
		if g.chance(95) {
			p.Schema = genOasParamSchema(g)
		}
		op.Parameters = append(op.Parameters, p)
	}
	if g.chance(40) {
		op.RequestBody = &RequestBody{Description: g.pick("", "the body"), Required: g.chance(50), Content: Content{}}
		for i := g.n(3); i > 0; i-- {
			op.RequestBody.Content[g.pick("application/json", "application/json", "text/plain")] = &MediaType{Schema: genOasSchema(g, 2)}
		}
	}
	mk := func(exc bool) *Response {
		r := &Response{Description: g.pick("", "ok", "fine", "bad"), Content: Content{}}
		for i := g.n(3); i > 0; i-- {
			s := genOasSchema(g, 2)
			if exc {
				s = &Schema{Ref: g.pick("#/components/schemas/Foo", "Bar")}
			}
			r.Content[g.pick("application/json", "text/plain")] = &MediaType{Schema: s}
		}
		if g.chance(30) {
			r.Headers = map[string]*Header{}
			for i := g.n(3); i > 0; i-- {
				r.Headers[g.pick("ETag", "X-Total", "x-count-2", "Location")] = &Header{Description: g.pick("", "h"), Schema: genOasSchema(g, 2)}
			}
		}
		return r
	}
	for i := 1 + g.n(2); i > 0; i-- {
		op.Responses[g.pick("200", "201", "204", "304", "default", "200")] = mk(false)
	}
	for i := g.n(3); i > 0; i-- {
		s := g.pick("400", "404", "500", "default", "201")
		op.Responses[s] = mk(true)
	}
	// responses that are not expected refer to their type
	k := specExpectedKey(op)
	for s := range op.Responses {
		if s != k {
			op.Responses[s] = mk(true)
		}
	}
	return op
}

func gen_C15_document(g *vGen) *Model {
	doc := &Model{OpenAPI: "3.0.0", Info: &Info{Title: "test", Version: "1"}, Components: &Components{Schemas: map[string]*Schema{}}, Paths: map[string]*PathItem{}}
	ids := []string{"opA", "opB", "opC", "opD", "opE", "opF"}
	for i := 1 + g.n(2); i > 0; i-- {
		tmpl := g.pick("/foo", "/foo/{id}", "/a/{pet-id}/b", "/x/{id2}", "/y/{id}/{name}", "/")
		pi := &PathItem{}
		doc.Paths[tmpl] = pi
		for k := 1 + g.n(2); k > 0 && len(ids) > 0; k-- {
			op := genOasOp(g, ids[0], &tmpl)
			ids = ids[1:]
			switch g.n(5) {
			case 0:
				pi.Get = op
			case 1:
				pi.Put = op
			case 2:
				pi.Post = op
			case 3:
				pi.Delete = op
			default:
				pi.Head = op
			}
		}
	}
	return doc
}
func gen_C15_operation(g *vGen) (*PathItem, string) {
	return &PathItem{Get: &Operation{}, Put: &Operation{}, Post: &Operation{}, Delete: &Operation{}, Head: &Operation{}}, g.pick("GET", "PUT", "POST", "DELETE", "HEAD", "PATCH")
}
func gen_C15_identifier(g *vGen) string {
	s := ""
	for i := g.few(6); i > 0; i-- {
		s += g.pick("a", "B", "_", "1", "23", "-", ".", "é", " ", "Z9", "{")
	}
	return s
}

// specSchemaReq: the schemas the importer knows, without examples
func specSchemaReq(s *Schema) bool {
	return s != nil && (specRefName(s) != "" || specSupported(s))
}

func specParamReq(p *Parameter) bool {
	return p != nil && (p.Schema == nil || specRefName(p.Schema) != "" || specSupported(p.Schema) && p.Schema.Type != "object" && p.Schema.Type != "")
}

func specContentReq(c Content) bool {
	return vForallKey(c, func(k string, m *MediaType) bool { return m != nil && (m.Schema == nil || specSchemaReq(m.Schema)) })
}

func specResponseReq(key string, r *Response) bool {
	return r != nil && specContentReq(r.Content) && vForallKey(r.Headers, func(k string, h *Header) bool { return h != nil && (h.Schema == nil || specSchemaReq(h.Schema)) })
}

// specOpReq: what the importer supports in an operation
func specOpReq(op *Operation) bool {
	return op != nil && vForall(len(op.Parameters), func(i int) bool { return specParamReq(op.Parameters[i]) }) &&
		(op.RequestBody == nil || specContentReq(op.RequestBody.Content)) &&
		vForallKey(op.Responses, func(k string, r *Response) bool { return specResponseReq(k, r) })
}

//govc:target openapi.convertOasPath openapi.makeIdentifier
//govc:fuel 2 1
func verify_C15_inputs(path string, op *Operation, method string) {
	vRequires(specOpReq(op))
	vRequires(method != "PATCH")
	vMayPanic()
	h, err := convertOasPath(path, op, method)
	vEnsures("id, method and summary", err != nil || h.Name == op.OperationId && h.Method == method && h.Comment == op.Summary)
	vEnsures("tags", err != nil || specTagsOf(op.Tags, h))
	vEnsures("path with the query template", err != nil || h.Path == specQueryPath(path, op))
	np := len(op.Parameters)
	body := specBodyInput(op, method)
	vEnsures("inputs in order", err != nil || vForall(np, func(i int) bool { return specInputOf(op.Parameters[i], h.Inputs[i]) }))
	vEnsures("no other inputs", err != nil || body != nil || len(h.Inputs) == np)
	vEnsures("one more input for the request body", err != nil || body == nil || len(h.Inputs) == np+1)
}
func gen_C15_inputs(g *vGen) (string, *Operation, string) {
	path := g.pick("/foo", "/foo/{id}", "/a/{pet-id}/b", "/x/{id2}", "/y/{id}/{name}", "/")
	return path, genOasOp(g, "op", &path), g.pick("GET", "PUT", "POST", "DELETE", "HEAD")
}
