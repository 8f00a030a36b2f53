package sadl

// C04: composite validation is exactly the structural, element-wise definition.

//govc:opaque
func specUnitOK(model *Model, td *TypeSpec, v interface{}) bool {
	return model.ValidateUnitValue("x", td, v) == nil
}

func specSizeOK(td *TypeSpec, n int) bool {
	return (td.MinSize == nil || n >= int(*td.MinSize)) && (td.MaxSize == nil || n <= int(*td.MaxSize))
}

func specConforms(model *Model, td *TypeSpec, v interface{}) bool {
	switch td.Type {
	case "Timestamp":
		return specTimestamp(v)
	case "String":
		return specString(td, v)
	case "Bool":
		return specBool(v)
	case "Enum":
		return specEnum(td, v)
	case "UUID":
		return specUUID(v)
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return model.ValidateNumber("x", td, v) == nil
	case "Bytes", "Any":
		return true
	case "UnitValue":
		return specUnitOK(model, td, v)
	case "Struct":
		m, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		known := vForallKey(m, func(k string, _ interface{}) bool {
			return vExists(len(td.Fields), func(i int) bool { return td.Fields[i].Name == k })
		})
		good := vForall(len(td.Fields), func(i int) bool {
			f := td.Fields[i]
			x, ok := m[f.Name]
			if !ok {
				return !f.Required
			}
			return specConforms(model, &f.TypeSpec, x)
		})
		return known && good
	case "Array":
		a, ok := v.([]interface{})
		if !ok || !specSizeOK(td, len(a)) {
			return false
		}
		if td.Items == "Any" {
			return true
		}
		t := model.FindType(td.Items)
		if t == nil {
			return false
		}
		return vForall(len(a), func(i int) bool { return specConforms(model, &t.TypeSpec, a[i]) })
	case "Map":
		m, ok := v.(map[string]interface{})
		if !ok || !specSizeOK(td, len(m)) {
			return false
		}
		if td.Items == "Any" {
			return true
		}
		t := model.FindType(td.Items)
		if t == nil {
			return false
		}
		return vForallKey(m, func(_ string, x interface{}) bool { return specConforms(model, &t.TypeSpec, x) })
	case "Union":
		m, ok := v.(map[string]interface{})
		if !ok || len(m) != 1 {
			return false
		}
		return vExists(len(td.Variants), func(i int) bool {
			x, ok := m[td.Variants[i].Name]
			return ok && vForall(i, func(j int) bool { _, dup := m[td.Variants[j].Name]; return !dup }) &&
				specConforms(model, &td.Variants[i].TypeSpec, x)
		})
	}
	t := model.FindType(td.Type)
	return t != nil && specConforms(model, &t.TypeSpec, v)
}

//govc:contract (*sadl.Model).ValidateUnitValue
//govc:modular
//govc:bounded the verdict does not depend on the context text; decided by C03 for decimal values and string units
func verify_C04_unitvalue(model *Model, ctx string, td *TypeSpec, v interface{}) {
	vRequires(model != nil && td != nil)
	err := model.ValidateUnitValue(ctx, td, v)
	vEnsures("same verdict in every context", (err == nil) == specUnitOK(model, td, v))
}

//govc:fuel 1
//govc:contract (*sadl.Model).ValidateAgainstTypeSpec
//govc:modular
func verify_C04_conforms(model *Model, ctx string, td *TypeSpec, v interface{}) {
	vRequires(model != nil && td != nil)
	vCases(td.Type, "Timestamp", "String", "Bool", "Enum", "UUID", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "Any",
		"UnitValue", "Struct", "Array", "Map", "Union")
	err := model.ValidateAgainstTypeSpec(ctx, td, v)
	vEnsures("accepted exactly when it conforms", (err == nil) == specConforms(model, td, v))
}

//govc:target (*sadl.Model).Validate
func verify_C04_validate(model *Model, ctx string, name string, v interface{}) {
	vRequires(model != nil)
	err := model.Validate(ctx, name, v)
	t := model.FindType(name)
	vEnsures("a name that does not resolve is an error", t != nil || err != nil)
	vEnsures("a name is validated as its definition", t == nil || (err == nil) == specConforms(model, &t.TypeSpec, v))
}
