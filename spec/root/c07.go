package sadl

import "strings"

// C07: example targets.

// specFieldOf: the first field of the name; nil: no such field
func specFieldOf(fs []*StructFieldDef, name string) *TypeSpec {
	for _, f := range fs {
		if f.Name == name {
			return &f.TypeSpec
		}
	}
	return nil
}

// specWalk follows the path components as field names; nil: no such field
func specWalk(ts *TypeSpec, path []string) *TypeSpec {
	for _, name := range path {
		if ts.Type != "Struct" {
			return nil
		}
		ts = specFieldOf(ts.Fields, name)
		if ts == nil {
			return nil
		}
	}
	return ts
}

func specParam(ps []*HttpParamSpec, name string) *TypeSpec {
	for _, p := range ps {
		if p.Name == name {
			return &p.TypeSpec
		}
	}
	return nil
}

// specTarget: the type a target path denotes; open: a whole Request or Response, which has no single type
func specTarget(model *Model, path []string) (ts *TypeSpec, open bool) {
	root := path[0]
	if t := model.FindType(root); t != nil {
		return specWalk(&t.TypeSpec, path[1:]), false
	}
	var ps []*HttpParamSpec
	var h *HttpDef
	if strings.HasSuffix(root, "Request") {
		h = model.FindHttp(Uncapitalize(root[:len(root)-len("Request")]))
		if h != nil {
			ps = h.Inputs
		}
	} else if strings.HasSuffix(root, "Response") {
		h = model.FindHttp(Uncapitalize(root[:len(root)-len("Response")]))
		if h != nil && h.Expected != nil {
			ps = h.Expected.Outputs
		}
	}
	if h == nil {
		return nil, false
	}
	if len(path) == 1 {
		return nil, true
	}
	p := specParam(ps, path[1])
	if p == nil {
		return nil, false
	}
	return specWalk(p, path[2:]), false
}

//govc:target (*sadl.Model).FindExampleType
func verify_C07_find(model *Model, ex *ExampleDef) {
	vRequires(model != nil && ex != nil)
	ts, err := model.FindExampleType(ex)
	want, open := specTarget(model, strings.Split(ex.Target, "."))
	vEnsures("the type named by the path", want == nil || err == nil && ts == want)
	vEnsures("a whole request or response has no type", !open || err == nil && ts == nil)
	vEnsures("anything else is an error", want != nil || open || err != nil)
	vEnsures("no type with an error", err == nil || ts == nil)
}

func gen_C07_find(g *vGen) (*Model, *ExampleDef) {
	m := genModel(g)
	if len(m.Http) > 0 && g.chance(15) { // action names that contain the suffixes
		h := *m.Http[g.n(len(m.Http))]
		h.Name = g.pick("listRequests", "requestItem", "RequestResponse", "putRequest", "responseOfRequest", "request", "aResponseB")
		if fresh, err := NewModel(&Schema{Types: m.Types, Http: append(append([]*HttpDef{}, m.Http...), &h)}); err == nil {
			m = fresh
		}
	}
	root := g.pick("Foo", "Bar", "GetFooRequest", "GetFooResponse", "PutFooRequest", "ListItemsResponse", "DeleteBarRequest", "Nope", "ARequest", "", "String")
	var ts *TypeSpec
	if len(m.Types) > 0 && g.chance(60) {
		t := m.Types[g.n(len(m.Types))]
		root, ts = t.Name, &t.TypeSpec
	} else if len(m.Http) > 0 && g.chance(80) {
		h := m.Http[g.n(len(m.Http))]
		root = Capitalize(h.Name)
		ps := h.Inputs
		if g.chance(50) {
			root += "Request"
		} else {
			root += "Response"
			ps = nil
			if h.Expected != nil {
				ps = h.Expected.Outputs
			}
		}
		if len(ps) > 0 && g.chance(85) {
			p := ps[g.n(len(ps))]
			root += "." + p.Name
			ts = &p.TypeSpec
		}
	}
	for i := 0; i < 4 && ts != nil && len(ts.Fields) > 0 && g.chance(80); i++ {
		f := ts.Fields[g.n(len(ts.Fields))]
		root += "." + f.Name
		ts = &f.TypeSpec
	}
	if g.chance(15) {
		root += "." + g.Name()
	}
	return m, &ExampleDef{Target: root}
}
