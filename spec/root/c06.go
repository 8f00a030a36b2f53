package sadl

import "strings"

// C06: inline enum conversion preserves the model's meaning.

func specInlineName(td *TypeDef, f *StructFieldDef) string {
	n := Capitalize(f.Name)
	if strings.HasPrefix(n, td.Name) {
		return n
	}
	return td.Name + n
}

func specSameSpec(a, b *TypeSpec) bool {
	return a.Type == b.Type && a.Pattern == b.Pattern && a.Reference == b.Reference && a.MinSize == b.MinSize && a.MaxSize == b.MaxSize &&
		a.Min == b.Min && a.Max == b.Max && a.Items == b.Items && a.Keys == b.Keys && a.Unit == b.Unit && a.Value == b.Value &&
		len(a.Values) == len(b.Values) && len(a.Elements) == len(b.Elements) && len(a.Variants) == len(b.Variants) && len(a.Fields) == len(b.Fields)
}

func specSameElements(a, b *TypeSpec) bool {
	return len(a.Elements) == len(b.Elements) && vForall(len(a.Elements), func(i int) bool { return specSymIn(a.Elements[i].Symbol, b.Elements) })
}

type specField struct {
	td   *TypeDef
	fd   *StructFieldDef
	spec TypeSpec
	rest string // everything about the field but its type
	dump string
}

func specFieldRest(f *StructFieldDef) string {
	g := *f
	g.TypeSpec = TypeSpec{}
	return vDumpAll([]interface{}{g})
}

//govc:target (*sadl.Model).ConvertInlineEnums
//govc:bounded nested mutation of the type list while it is searched: no loop summary
func verify_C06_convert(model *Model) {
	vRequires(model != nil)
	n := len(model.Types)
	var old []specField
	var specs []TypeSpec
	need := map[string]*TypeSpec{}
	conflict := false
	for _, td := range model.Types {
		specs = append(specs, td.TypeSpec)
		for _, f := range td.Fields {
			old = append(old, specField{td, f, f.TypeSpec, specFieldRest(f), vDumpAll([]interface{}{f.TypeSpec})})
			if td.Type == "Struct" && f.Type == "Enum" {
				nm := specInlineName(td, f)
				ts := f.TypeSpec
				if t := model.FindType(nm); t != nil && !model.EquivalentTypes(&t.TypeSpec, &ts) {
					conflict = true
				}
				if p := need[nm]; p != nil && !model.EquivalentTypes(p, &ts) {
					conflict = true
				}
				if need[nm] == nil {
					need[nm] = &ts
				}
			}
		}
	}
	tds := append([]*TypeDef(nil), model.Types...)
	err := model.ConvertInlineEnums()
	vEnsures("a conflict of definitions is an error", !conflict || err != nil)
	vEnsures("without a conflict it succeeds", conflict || err == nil)
	if err != nil {
		return
	}
	vEnsures("no type is removed", len(model.Types) >= n)
	for i, td := range tds {
		vEnsures("the existing types keep their place", model.Types[i] == td)
		vEnsures("the existing types keep their kind", td.Type == specs[i].Type && len(td.Fields) == len(specs[i].Fields) && len(td.Elements) == len(specs[i].Elements))
	}
	for _, o := range old {
		if o.td.Type == "Struct" && o.spec.Type == "Enum" {
			nm := specInlineName(o.td, o.fd)
			vEnsures("an inline enum becomes a reference named from struct and field", o.fd.Type == nm && len(o.fd.Elements) == 0)
			t := model.FindType(nm)
			vEnsures("the reference resolves to an enum", t != nil && t.Type == "Enum" && t.Name == nm)
			vEnsures("the enum is one of the model's types", vExists(len(model.Types), func(i int) bool { return model.Types[i] == t }))
			vEnsures("with the same elements", specSameElements(&t.TypeSpec, &o.spec) && specSameElements(&o.spec, &t.TypeSpec))
		} else {
			vEnsures("every other field is untouched", specSameSpec(&o.fd.TypeSpec, &o.spec) && o.dump == vDumpAll([]interface{}{o.fd.TypeSpec}))
		}
		vEnsures("name, presence, comment and annotations of a field stay", o.rest == specFieldRest(o.fd))
	}
	for i, t := range model.Types {
		vEnsures("every type is found under its name", model.FindType(t.Name) == t)
		if i >= n {
			vEnsures("only the needed enums are added", t.Type == "Enum" && need[t.Name] != nil)
			vEnsures("with exactly the elements of the field", len(t.Elements) == len(need[t.Name].Elements) && vForall(len(t.Elements), func(k int) bool {
				a, b := t.Elements[k], need[t.Name].Elements[k]
				return a.Symbol == b.Symbol && a.Comment == b.Comment && len(a.Annotations) == len(b.Annotations) &&
					vForallKey(a.Annotations, func(key, v string) bool { return b.Annotations[key] == v })
			}))
		}
		for j := 0; j < i; j++ {
			vEnsures("names remain unique", model.Types[j].Name != t.Name)
		}
	}
}

func gen_C06_convert(g *vGen) *Model {
	s := genSchema(g)
	for _, t := range s.Types {
		if t.Type == "Struct" || g.chance(20) {
			t.Type = "Struct"
			for k := g.n(4); k > 0; k-- {
				f := &StructFieldDef{Name: g.pick("kind", "color", "Bar", "itemKind", "fooKind", "foo", "kind"), Required: g.chance(50)}
				if g.chance(8) {
					f.Name = g.near(f.Name)
				}
				f.Type = "Enum"
				for _, sy := range []string{"A", "B"} {
					f.Elements = append(f.Elements, &EnumElementDef{Symbol: sy, Comment: genComment(g), Annotations: genAnn(g)})
				}
				if g.chance(20) {
					f.Elements[0], f.Elements[1] = f.Elements[1], f.Elements[0]
				}
				if g.chance(8) {
					f.Elements = append(f.Elements, &EnumElementDef{Symbol: g.pick("C", "D")})
				}
				dup := false
				for _, x := range t.Fields {
					if x.Name == f.Name {
						dup = true
					}
				}
				if !dup {
					t.Fields = append(t.Fields, f)
				}
			}
		}
	}
	if g.chance(30) {
		s.Types = append(s.Types, &TypeDef{Name: "FooColor", TypeSpec: TypeSpec{Type: "Enum", Elements: []*EnumElementDef{{Symbol: "B"}, {Symbol: "A"}}}})
	}
	m, err := NewModel(s)
	if err != nil {
		return genModel(g)
	}
	return m
}
