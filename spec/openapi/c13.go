package openapi

import (
	"strconv"
	"strings"

	"github.com/boynton/sadl"
)

// C13: OpenAPI export represents every HTTP action faithfully.

func specMethod(m string) bool {
	switch m {
	case "GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS":
		return true
	}
	return false
}

func specOp(pi *PathItem, m string) *Operation {
	switch m {
	case "GET":
		return pi.Get
	case "PUT":
		return pi.Put
	case "POST":
		return pi.Post
	case "DELETE":
		return pi.Delete
	case "HEAD":
		return pi.Head
	case "PATCH":
		return pi.Patch
	case "OPTIONS":
		return pi.Options
	}
	return nil
}

func specCountOps(pi *PathItem) int {
	n := 0
	for _, m := range []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} {
		if specOp(pi, m) != nil {
			n++
		}
	}
	if pi.Connect != nil || pi.Trace != nil {
		n += 100
	}
	return n
}

func specTags(h *sadl.HttpDef, tags []string) bool {
	var want []string
	if h.Resource != "" {
		want = append(want, h.Resource)
	}
	if v, ok := h.Annotations["x_tags"]; ok {
		want = append(want, strings.Split(v, ",")...)
	}
	return len(tags) == len(want) && vForall(len(want), func(i int) bool { return tags[i] == want[i] })
}

func specIsBody(in *sadl.HttpParamSpec) bool {
	return !in.Path && in.Query == "" && in.Header == ""
}

func specParam(in *sadl.HttpParamSpec, p *Parameter) bool {
	where, name, required := "header", in.Header, in.Required
	if in.Path {
		where, name, required = "path", in.Name, true
	} else if in.Query != "" {
		where, name = "query", in.Query
	}
	return p.In == where && p.Name == name && p.Required == required && p.Description == in.Comment && specInline(&in.TypeSpec, p.Schema)
}

// specParams: the first n inputs that are not the body are exactly the parameters, in order
func specParams(ins []*sadl.HttpParamSpec, n int, ps []*Parameter) bool {
	if n == 0 {
		return len(ps) == 0
	}
	if specIsBody(ins[n-1]) {
		return specParams(ins, n-1, ps)
	}
	return len(ps) > 0 && specParam(ins[n-1], ps[len(ps)-1]) && specParams(ins, n-1, ps[:len(ps)-1])
}

func specBody(ins []*sadl.HttpParamSpec, b *RequestBody) bool {
	for i := len(ins) - 1; i >= 0; i-- {
		if specIsBody(ins[i]) {
			return b != nil && b.Description == ins[i].Comment && b.Required && len(b.Content) == 1 && b.Content["application/json"] != nil && specInline(&ins[i].TypeSpec, b.Content["application/json"].Schema)
		}
	}
	return b == nil
}

func specExpected(e *sadl.HttpExpectedSpec, r *Response) bool {
	if r == nil || r.Description != e.Comment && (e.Comment != "" || r.Description != "Expected response") {
		return false
	}
	headers, bodies := 0, 0
	for i, o := range e.Outputs {
		if o.Header != "" {
			last := true
			for _, p := range e.Outputs[i+1:] {
				if p.Header == o.Header {
					last = false
				}
			}
			if !last {
				continue
			}
			headers++
			h := r.Headers[o.Header]
			if h == nil || h.Description != o.Comment || !specInline(&o.TypeSpec, h.Schema) {
				return false
			}
		} else {
			bodies = 1
			m := r.Content["application/json"]
			if m == nil || !specInline(&o.TypeSpec, m.Schema) {
				return false
			}
		}
	}
	return len(r.Headers) == headers && len(r.Content) == bodies
}

func specException(e *sadl.HttpExceptionSpec, r *Response) bool {
	if r == nil || r.Description != e.Comment && (e.Comment != "" || r.Description != "Exceptional response") {
		return false
	}
	m := r.Content["application/json"]
	return len(r.Headers) == 0 && len(r.Content) == 1 && m != nil && m.Schema != nil && m.Schema.Ref == "#/components/schemas/"+e.Type
}

func specStatus(n int32) string {
	if n == 0 {
		return "default"
	}
	return strconv.Itoa(int(n))
}

func specResponses(h *sadl.HttpDef, rs map[string]*Response) bool {
	exp := h.Expected
	if exp == nil {
		exp = &sadl.HttpExpectedSpec{Status: 200}
	}
	keys := map[string]bool{strconv.Itoa(int(exp.Status)): true}
	for _, e := range h.Exceptions {
		k := specStatus(e.Status)
		if keys[k] {
			return true // two responses with the same status: not covered by the property
		}
		keys[k] = true
		if !specException(e, rs[k]) {
			return false
		}
	}
	return len(rs) == len(keys) && specExpected(exp, rs[strconv.Itoa(int(exp.Status))])
}

//govc:target (*openapi.Generator).ExportToOAS3 (*openapi.Generator).FindOperation
//govc:bounded whole-model export
func verify_C13_paths(model *sadl.Model) {
	oas, err := NewGenerator(model, nil).ExportToOAS3()
	path := func(h *sadl.HttpDef) string { return specPathOf(model.Base + h.Path) }
	ok := vForall(len(model.Http), func(i int) bool {
		return specMethod(model.Http[i].Method) && vForall(i, func(j int) bool {
			return model.Http[i].Method != model.Http[j].Method || path(model.Http[i]) != path(model.Http[j])
		})
	})
	if err != nil {
		vEnsures("only a duplicate or unknown method is an error", !ok)
		return
	}
	vEnsures("a duplicate is an error", ok)
	total := 0
	for _, pi := range oas.Paths {
		total += specCountOps(pi)
	}
	vEnsures("one operation per action and nothing else", total == len(model.Http))
	for _, h := range model.Http {
		pi := oas.Paths[path(h)]
		vEnsures("the path", pi != nil)
		op := specOp(pi, h.Method)
		vEnsures("the method", op != nil)
		vEnsures("name and comment", op.OperationId == h.Name && op.Summary == h.Comment)
		vEnsures("tags", specTags(h, op.Tags))
		vEnsures("parameters in order", specParams(h.Inputs, len(h.Inputs), op.Parameters))
		vEnsures("request body", specBody(h.Inputs, op.RequestBody))
		vEnsures("responses", specResponses(h, op.Responses))
		vEnsures("found by its name", NewGenerator(model, nil).FindOperation(oas, h.Name) == op)
	}
}

func gen_C13_paths(g *vGen) *sadl.Model {
	for {
		m := genOasModel(g)
		all := len(m.Http) > 0
		for _, td := range m.Types {
			all = all && specExportable(td.Type)
		}
		if !all {
			continue
		}
		for _, h := range m.Http {
			if g.chance(30) {
				h.Path = g.pick("/foo", "/foo/", "/foo?x={x}", "", "?a={a}?b", "/foo/{id}")
			}
			if g.chance(20) {
				h.Annotations = map[string]string{"x_tags": g.pick("a", "a,b", "", "b, c", ",")}
			}
			if g.chance(15) {
				h.Method = g.pick("OPTIONS", "HEAD", "PATCH", "OPTIONS", "DELETE")
			}
			if g.chance(2) {
				h.Method = g.pick("TRACE", "CONNECT", "get", "")
			}
			for _, in := range h.Inputs {
				if in.Path && g.chance(30) {
					in.Required = false
				}
				if g.chance(5) { // wire names are independent of the kind of input
					in.Path, in.Query, in.Header = g.chance(30), g.pick("", "q"), g.pick("", "H")
				}
			}
			if g.chance(10) && len(h.Exceptions) > 0 {
				h.Exceptions[g.n(len(h.Exceptions))].Status = 0
			}
		}
		used := map[string]bool{}
		for i := len(m.Http) - 1; i >= 0; i-- {
			p := m.Http[i].Method + " " + specPathOf(m.Http[i].Path)
			if used[p] && g.chance(97) {
				m.Http = append(m.Http[:i], m.Http[i+1:]...)
			}
			used[p] = true
		}
		if g.chance(15) { // two actions under one path, most of them with the same method
			h := *m.Http[g.n(len(m.Http))]
			h.Name += "2"
			h.Path = specPathOf(h.Path) + g.pick("", "?z={z}")
			h.Inputs = nil
			if g.chance(40) {
				h.Method = g.pick("GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS")
			} else if g.chance(50) {
				h.Method = g.pick("PUT", "DELETE", "OPTIONS", "HEAD", "PATCH")
				o := h
				o.Name += "b"
				m.Http = append(m.Http, &o)
			}
			m.Http = append(m.Http, &h)
		}
		return m
	}
}

// The next three: proved for a model with one action, each part of an action with the others left out, and lists of any length.

//govc:target (*openapi.Generator).ExportToOAS3
func verify_C13_single(h *sadl.HttpDef, base string) {
	vRequires(h != nil)
	vRequires(len(h.Inputs) == 0 && len(h.Exceptions) == 0 && h.Expected == nil)
	m := &sadl.Model{Schema: sadl.Schema{Base: base, Http: []*sadl.HttpDef{h}}}
	oas, err := NewGenerator(m, nil).ExportToOAS3()
	vEnsures("an error exactly for another method", (err == nil) == specMethod(h.Method))
	if err != nil {
		return
	}
	p := specPathOf(base + h.Path)
	pi := oas.Paths[p]
	vEnsures("the path and no other", pi != nil && vForallKey(oas.Paths, func(k string, v *PathItem) bool { return k == p }))
	op := specOp(pi, h.Method)
	vEnsures("the method", op != nil)
	vEnsures("name and comment", op.OperationId == h.Name && op.Summary == h.Comment)
	vEnsures("tags", specTags(h, op.Tags))
}

func gen_C13_single(g *vGen) (*sadl.HttpDef, string) {
	m := gen_C13_paths(g)
	h := m.Http[0]
	h.Inputs, h.Exceptions, h.Expected = nil, nil, nil
	return h, m.Base
}

//govc:target (*openapi.Generator).ExportToOAS3
//govc:fuel 1 0
func verify_C13_inputs(h *sadl.HttpDef) {
	vRequires(h != nil && h.Method == "POST")
	vRequires(vForall(len(h.Inputs), func(i int) bool {
		return h.Inputs[i] != nil && specNamed(&h.Inputs[i].TypeSpec) && !specIsBody(h.Inputs[i])
	}))
	vRequires(len(h.Annotations) == 0 && len(h.Exceptions) == 0 && h.Expected == nil)
	m := &sadl.Model{Schema: sadl.Schema{Http: []*sadl.HttpDef{h}}}
	oas, err := NewGenerator(m, nil).ExportToOAS3()
	vEnsures("exported", err == nil)
	op := oas.Paths[specPathOf(h.Path)].Post
	vEnsures("one parameter per input", len(op.Parameters) == len(h.Inputs))
	vEnsures("parameters in order", vForall(len(h.Inputs), func(i int) bool { return specParam(h.Inputs[i], op.Parameters[i]) }))
	vEnsures("no request body", op.RequestBody == nil)
}

func gen_C13_inputs(g *vGen) *sadl.HttpDef {
	m := gen_C13_paths(g)
	h := m.Http[0]
	h.Method, h.Annotations, h.Exceptions, h.Expected = "POST", nil, nil, nil
	for i := len(h.Inputs) - 1; i >= 0; i-- {
		if specIsBody(h.Inputs[i]) {
			h.Inputs = append(h.Inputs[:i], h.Inputs[i+1:]...)
		}
	}
	return h
}

//govc:target (*openapi.Generator).ExportToOAS3
//govc:fuel 1 0
func verify_C13_exceptions(h *sadl.HttpDef) {
	vRequires(h != nil && h.Method == "POST")
	vRequires(vForall(len(h.Exceptions), func(i int) bool { return h.Exceptions[i] != nil }))
	vRequires(len(h.Annotations) == 0 && len(h.Inputs) == 0 && h.Expected == nil)
	vRequires(vForall(len(h.Exceptions), func(i int) bool {
		return specStatus(h.Exceptions[i].Status) != "200" && vForall(len(h.Exceptions), func(j int) bool {
			return i == j || specStatus(h.Exceptions[i].Status) != specStatus(h.Exceptions[j].Status)
		})
	}))
	m := &sadl.Model{Schema: sadl.Schema{Http: []*sadl.HttpDef{h}}}
	oas, err := NewGenerator(m, nil).ExportToOAS3()
	vEnsures("exported", err == nil)
	op := oas.Paths[specPathOf(h.Path)].Post
	vEnsures("every exception under its status", vForall(len(h.Exceptions), func(i int) bool {
		return specException(h.Exceptions[i], op.Responses[specStatus(h.Exceptions[i].Status)])
	}))
	vEnsures("nothing else", vForallKey(op.Responses, func(k string, r *Response) bool {
		return k == "200" || vExists(len(h.Exceptions), func(i int) bool { return specStatus(h.Exceptions[i].Status) == k })
	}))
}

func gen_C13_exceptions(g *vGen) *sadl.HttpDef {
	m := gen_C13_paths(g)
	h := m.Http[0]
	h.Method, h.Annotations, h.Inputs, h.Expected = "POST", nil, nil, nil
	return h
}
