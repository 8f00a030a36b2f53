package sadl

// C01: model construction indexes exactly the declared types and actions.

func specIsBase(name string) bool {
	switch name {
	case "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp",
		"UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any":
		return true
	}
	return false
}

func specDupType(s *Schema) bool {
	return vExists(len(s.Types), func(i int) bool {
		return vExists(i, func(j int) bool { return s.Types[i].Name == s.Types[j].Name })
	})
}
func specBaseType(s *Schema) bool {
	return vExists(len(s.Types), func(i int) bool { return specIsBase(s.Types[i].Name) })
}
func specDupHttp(s *Schema) bool {
	return vExists(len(s.Http), func(i int) bool {
		return vExists(i, func(j int) bool { return s.Http[i].Name == s.Http[j].Name })
	})
}

//govc:target sadl.NewModel
func verify_C01_accepts(schema *Schema) {
	vRequires(schema != nil)
	m, err := NewModel(schema)
	bad := specDupType(schema) || specBaseType(schema) || specDupHttp(schema)
	vEnsures("rejects duplicates and base names", !bad || err != nil)
	vEnsures("accepts everything else", bad || err == nil)
	vEnsures("model iff no error", (m != nil) == (err == nil))
}

//govc:target sadl.NewModel (*sadl.Model).FindType
func verify_C01_types(schema *Schema, name string) {
	vRequires(schema != nil)
	m, err := NewModel(schema)
	vRequires(err == nil)
	vEnsures("finds every declared type", vForall(len(schema.Types), func(i int) bool {
		return m.FindType(schema.Types[i].Name) == schema.Types[i]
	}))
	td := m.FindType(name)
	vEnsures("a found declared type has that name", td == nil || specIsBase(name) || td.Name == name)
	vEnsures("a found base type has that name", td == nil || !specIsBase(name) || td.Name == name)
	vEnsures("nothing for other names", td == nil || specIsBase(name) || vExists(len(schema.Types), func(i int) bool {
		return schema.Types[i].Name == name && schema.Types[i] == td
	}))
	vEnsures("finds every base type", !specIsBase(name) || td != nil)
	vEnsures("base type is itself", !specIsBase(name) || td.Type == name)
}

//govc:target sadl.NewModel (*sadl.Model).FindHttp
func verify_C01_http(schema *Schema, name string) {
	vRequires(schema != nil)
	m, err := NewModel(schema)
	vRequires(err == nil)
	vEnsures("finds every declared action", vForall(len(schema.Http), func(i int) bool {
		return m.FindHttp(schema.Http[i].Name) == schema.Http[i]
	}))
	hd := m.FindHttp(name)
	vEnsures("nothing for other names", hd == nil || vExists(len(schema.Http), func(i int) bool {
		return schema.Http[i].Name == name && schema.Http[i] == hd
	}))
}

//govc:target sadl.NewModel
func verify_C01_schema(schema *Schema) {
	vRequires(schema != nil)
	s := vSnap(schema)
	m, err := NewModel(schema)
	vUnchanged("schema is unchanged", s, schema)
	vRequires(err == nil)
	vEnsures("scalars carried over", m.Name == schema.Name && m.Namespace == schema.Namespace && m.Version == schema.Version &&
		m.Comment == schema.Comment && m.Base == schema.Base && m.Sadl == schema.Sadl)
	vEnsures("counts carried over", len(m.Types) == len(schema.Types) && len(m.Http) == len(schema.Http) &&
		len(m.Examples) == len(schema.Examples) && len(m.Operations) == len(schema.Operations))
	vEnsures("types carried over", vForall(len(schema.Types), func(i int) bool { return m.Types[i] == schema.Types[i] }))
	vEnsures("actions carried over", vForall(len(schema.Http), func(i int) bool { return m.Http[i] == schema.Http[i] }))
	vEnsures("examples carried over", vForall(len(schema.Examples), func(i int) bool { return m.Examples[i] == schema.Examples[i] }))
}

// a schema that often repeats a name
func genDupSchema(g *vGen) *Schema {
	s := genSchema(g)
	if n := len(s.Types); n > 0 && g.chance(40) {
		td := *s.Types[g.n(n)]
		if g.chance(60) {
			td.TypeSpec = genSpec(g, nil, 0)
		}
		if g.chance(20) {
			td.Name = g.near(td.Name)
		} else if g.chance(20) {
			td.Name = g.pick(BaseTypes...)
			if g.chance(50) {
				td.Type = td.Name
			}
		}
		s.Types = append(s.Types, &td)
		g.r.Shuffle(len(s.Types), func(i, j int) { s.Types[i], s.Types[j] = s.Types[j], s.Types[i] })
	}
	if n := len(s.Http); n > 0 && g.chance(40) {
		h := *s.Http[g.n(n)]
		if g.chance(60) {
			h = *genHttp(g, h.Name, nil, 9)
		}
		if g.chance(20) {
			h.Name = g.near(h.Name)
		}
		s.Http = append(s.Http, &h)
	}
	return s
}

func gen_C01_accepts(g *vGen) *Schema { return genDupSchema(g) }
