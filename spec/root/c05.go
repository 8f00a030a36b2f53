package sadl

// C05: type equivalence compares by value.

func specSizeEq(a, b *int64) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func specDecEq(a, b *Decimal) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.AsBigFloat().Cmp(b.AsBigFloat()) == 0
}

func specIn(s string, l []string) bool {
	return vExists(len(l), func(i int) bool { return l[i] == s })
}

func specSymIn(s string, l []*EnumElementDef) bool {
	return vExists(len(l), func(i int) bool { return l[i].Symbol == s })
}

func specVarIn(s string, l []*UnionVariantDef) bool {
	return vExists(len(l), func(i int) bool { return l[i].Type == s })
}

//govc:unfold
func specEquivName(model *Model, n1, n2 string) bool {
	if n1 == n2 {
		return true
	}
	t1, t2 := model.FindType(n1), model.FindType(n2)
	return t1 != nil && t2 != nil && specEquiv(model, &t1.TypeSpec, &t2.TypeSpec)
}

func specEquiv(model *Model, a, b *TypeSpec) bool {
	if a.Type != b.Type {
		return false
	}
	switch a.Type {
	case "String":
		return a.Pattern == b.Pattern && specSizeEq(a.MinSize, b.MinSize) && specSizeEq(a.MaxSize, b.MaxSize) && a.Reference == b.Reference &&
			len(a.Values) == len(b.Values) && vForall(len(a.Values), func(i int) bool { return specIn(a.Values[i], b.Values) }) &&
			vForall(len(b.Values), func(i int) bool { return specIn(b.Values[i], a.Values) })
	case "UUID":
		return a.Reference == b.Reference
	case "Bytes":
		return specSizeEq(a.MinSize, b.MinSize) && specSizeEq(a.MaxSize, b.MaxSize)
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return specDecEq(a.Min, b.Min) && specDecEq(a.Max, b.Max)
	case "Enum":
		return len(a.Elements) == len(b.Elements) && vForall(len(a.Elements), func(i int) bool { return specSymIn(a.Elements[i].Symbol, b.Elements) }) &&
			vForall(len(b.Elements), func(i int) bool { return specSymIn(b.Elements[i].Symbol, a.Elements) })
	case "Union":
		return len(a.Variants) == len(b.Variants) && vForall(len(a.Variants), func(i int) bool { return specVarIn(a.Variants[i].Type, b.Variants) }) &&
			vForall(len(b.Variants), func(i int) bool { return specVarIn(b.Variants[i].Type, a.Variants) })
	case "Struct":
		return len(a.Fields) == len(b.Fields) && vForall(len(a.Fields), func(i int) bool {
			f, g := a.Fields[i], b.Fields[i]
			return f.Name == g.Name && f.Required == g.Required && specEquiv(model, &f.TypeSpec, &g.TypeSpec)
		})
	case "Array", "Map":
		return specSizeEq(a.MinSize, b.MinSize) && specSizeEq(a.MaxSize, b.MaxSize) && specEquivName(model, a.Items, b.Items) && specEquivName(model, a.Keys, b.Keys)
	case "UnitValue":
		return specEquivName(model, a.Unit, b.Unit) && specEquivName(model, a.Value, b.Value)
	}
	return true
}

// specCopy: b says the same as a, in separate storage
func specCopy(a, b *TypeSpec) bool {
	return a.Type == b.Type && a.Pattern == b.Pattern && a.Reference == b.Reference && specSizeEq(a.MinSize, b.MinSize) && specSizeEq(a.MaxSize, b.MaxSize) &&
		specDecEq(a.Min, b.Min) && specDecEq(a.Max, b.Max) && a.Items == b.Items && a.Keys == b.Keys && a.Unit == b.Unit && a.Value == b.Value &&
		len(a.Values) == len(b.Values) && vForall(len(a.Values), func(i int) bool { return a.Values[i] == b.Values[i] }) &&
		len(a.Elements) == len(b.Elements) && vForall(len(a.Elements), func(i int) bool { return a.Elements[i].Symbol == b.Elements[i].Symbol }) &&
		len(a.Variants) == len(b.Variants) && vForall(len(a.Variants), func(i int) bool { return a.Variants[i].Type == b.Variants[i].Type }) &&
		len(a.Fields) == len(b.Fields) && vForall(len(a.Fields), func(i int) bool {
		return a.Fields[i].Name == b.Fields[i].Name && a.Fields[i].Required == b.Fields[i].Required && specCopy(&a.Fields[i].TypeSpec, &b.Fields[i].TypeSpec)
	})
}

//govc:contract (*sadl.Model).EquivalentTypes
//govc:modular
//govc:fuel 1
func verify_C05_equivalent(model *Model, a, b *TypeSpec) {
	vRequires(model != nil && a != nil && b != nil)
	vCases(a.Type, "String", "UUID", "Bytes", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Enum", "Union", "Struct", "Array", "Map", "UnitValue")
	eq := model.EquivalentTypes(a, b)
	vEnsures("equivalent exactly when equal by value", eq == specEquiv(model, a, b))
	vEnsures("does not depend on the order", specEquiv(model, a, b) == specEquiv(model, b, a))
	vEnsures("equivalent to a copy of itself", eq || !specCopy(a, b))
}

//govc:target (*sadl.Model).EquivalentTypesByName
func verify_C05_byname(model *Model, n1, n2 string) {
	vRequires(model != nil)
	eq := model.EquivalentTypesByName(n1, n2)
	t1, t2 := model.FindType(n1), model.FindType(n2)
	vEnsures("same name or equivalent definitions", eq == (n1 == n2 || t1 != nil && t2 != nil && specEquiv(model, &t1.TypeSpec, &t2.TypeSpec)))
}

func genCopySpec(g *vGen, a *TypeSpec) *TypeSpec {
	b := *a
	cs := func(p *int64) *int64 {
		if p == nil {
			return nil
		}
		q := *p
		return &q
	}
	cd := func(p *Decimal) *Decimal {
		if p == nil {
			return nil
		}
		q, _ := ParseDecimal(p.String())
		return q
	}
	b.MinSize, b.MaxSize, b.Min, b.Max = cs(a.MinSize), cs(a.MaxSize), cd(a.Min), cd(a.Max)
	b.Values = append([]string(nil), a.Values...)
	b.Elements, b.Variants, b.Fields = nil, nil, nil
	for _, e := range a.Elements {
		f := *e
		b.Elements = append(b.Elements, &f)
	}
	for _, e := range a.Variants {
		f := *e
		b.Variants = append(b.Variants, &f)
	}
	for _, e := range a.Fields {
		f := *e
		f.TypeSpec = *genCopySpec(g, &e.TypeSpec)
		b.Fields = append(b.Fields, &f)
	}
	return &b
}

// a copy changed in at most one place
func genNearSpec(g *vGen, a *TypeSpec) *TypeSpec {
	b := genCopySpec(g, a)
	k := g.n(16)
	if g.chance(70) {
		// a place that matters for this type
		switch a.Type {
		case "String":
			k = []int{0, 1, 4, 5, 6, 6, 6}[g.n(7)]
		case "UUID":
			k = 5
		case "Bytes":
			k = g.n(2)
		case "Enum":
			k = 7
		case "Union":
			k = 8
		case "Struct":
			k = 9
		case "Array", "Map":
			k = []int{0, 1, 10, 11}[g.n(4)]
		case "UnitValue":
			k = 12
		default:
			k = 2 + g.n(2)
		}
	}
	switch k {
	case 0:
		b.MinSize = genSize(g)
	case 1:
		b.MaxSize = genSize(g)
	case 2:
		b.Min = genDecimal(g)
	case 3:
		b.Max = genDecimal(g)
	case 4:
		b.Pattern = g.pick("", "^x")
	case 5:
		b.Reference = g.pick("", "Foo")
	case 6:
		g.r.Shuffle(len(b.Values), func(i, j int) { b.Values[i], b.Values[j] = b.Values[j], b.Values[i] })
		if len(b.Values) > 0 && g.chance(60) {
			b.Values[g.n(len(b.Values))] = b.Values[g.n(len(b.Values))]
		}
		if len(b.Values) > 0 && g.chance(30) {
			b.Values[g.n(len(b.Values))] = g.Name()
		}
		if len(b.Values) > 0 && g.chance(10) {
			b.Values = b.Values[1:]
		}
	case 7:
		g.r.Shuffle(len(b.Elements), func(i, j int) { b.Elements[i], b.Elements[j] = b.Elements[j], b.Elements[i] })
		if len(b.Elements) > 0 && g.chance(60) {
			b.Elements[g.n(len(b.Elements))].Symbol = g.pick("A", "B", "C", b.Elements[0].Symbol)
		}
		if len(b.Elements) > 0 && g.chance(10) {
			b.Elements = b.Elements[1:]
		}
	case 8:
		g.r.Shuffle(len(b.Variants), func(i, j int) { b.Variants[i], b.Variants[j] = b.Variants[j], b.Variants[i] })
		if len(b.Variants) > 0 && g.chance(60) {
			b.Variants[g.n(len(b.Variants))].Type = g.pick("Foo", "Bar", "String", b.Variants[0].Type)
		}
		if len(b.Variants) > 0 && g.chance(10) {
			b.Variants = b.Variants[1:]
		}
	case 9:
		if len(b.Fields) > 0 {
			f := b.Fields[g.n(len(b.Fields))]
			switch g.n(3) {
			case 0:
				f.Name = g.Name()
			case 1:
				f.Required = !f.Required
			default:
				f.TypeSpec = *genNearSpec(g, &f.TypeSpec)
			}
		}
	case 10:
		b.Items = g.pick("Foo", "Bar", "String")
	case 11:
		b.Keys = g.pick("Foo", "Bar", "String")
	case 12:
		b.Unit = g.pick("Foo", "Bar", "String")
		b.Value = g.pick("Foo", "Decimal", "Int32")
	}
	return b
}

func gen_C05_equivalent(g *vGen) (*Model, *TypeSpec, *TypeSpec) {
	m := genModelNR(g)
	a := genSpecOf(g, m)
	if g.chance(15) {
		return m, a, genSpecOf(g, m)
	}
	return m, a, genNearSpec(g, a)
}

func gen_C05_byname(g *vGen) (*Model, string, string) {
	m := genModelNR(g)
	n := append(genNames(m), "String", "Nope")
	return m, n[g.n(len(n))], n[g.n(len(n))]
}

// genModelNR: no recursion through container items
func genModelNR(g *vGen) *Model {
	m := genModel(g)
	for _, t := range m.Types {
		if genCyclic(m, &t.TypeSpec, map[string]bool{t.Name: true}) {
			t.TypeSpec = TypeSpec{Type: "String"}
		}
	}
	if g.chance(50) && len(m.Types) > 1 {
		// near copies among the types, so that equivalence by name matters
		i, j := g.n(len(m.Types)), g.n(len(m.Types))
		t := *genNearSpec(g, &m.Types[i].TypeSpec)
		old := m.Types[j].TypeSpec
		m.Types[j].TypeSpec = t
		if genCyclic(m, &t, map[string]bool{m.Types[j].Name: true}) {
			m.Types[j].TypeSpec = old
		}
		for _, t := range m.Types {
			if genCyclic(m, &t.TypeSpec, map[string]bool{t.Name: true}) {
				t.TypeSpec = TypeSpec{Type: "String"}
			}
		}
	}
	return m
}

func genCyclic(m *Model, ts *TypeSpec, seen map[string]bool) bool {
	step := func(n string) bool {
		if n == "" {
			return false
		}
		if seen[n] {
			return true
		}
		t := m.FindType(n)
		if t == nil || t.Name == t.Type {
			return false
		}
		seen[n] = true
		r := genCyclic(m, &t.TypeSpec, seen)
		delete(seen, n)
		return r
	}
	if step(ts.Items) || step(ts.Keys) || step(ts.Unit) || step(ts.Value) {
		return true
	}
	for _, f := range ts.Fields {
		if genCyclic(m, &f.TypeSpec, seen) || step(f.Type) {
			return true
		}
	}
	return step(ts.Type)
}
