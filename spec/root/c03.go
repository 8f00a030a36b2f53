package sadl

import (
	"regexp"
	"strings"
)

// C03: text-like scalars are validated against every declared constraint.

func specText(v interface{}) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *string:
		return *s, true
	}
	return "", false
}

func specString(td *TypeSpec, v interface{}) bool {
	s, ok := specText(v)
	if !ok {
		return false
	}
	if td.MinSize != nil && len(s) < int(*td.MinSize) {
		return false
	}
	if td.MaxSize != nil && len(s) > int(*td.MaxSize) {
		return false
	}
	if td.Values != nil {
		return vExists(len(td.Values), func(i int) bool { return td.Values[i] == s })
	}
	if td.Pattern != "" {
		m, err := regexp.MatchString(td.Pattern, s)
		return err == nil && m
	}
	return true
}

func specEnum(td *TypeSpec, v interface{}) bool {
	s, ok := specText(v)
	return ok && s != "" && vExists(len(td.Elements), func(i int) bool { return td.Elements[i].Symbol == s })
}

func specBool(v interface{}) bool {
	switch v.(type) {
	case bool, *bool:
		return true
	}
	return false
}

func specHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func specIsUUID(s string) bool {
	return len(s) == 36 && vForall(36, func(i int) bool {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			return s[i] == '-'
		}
		return specHex(s[i])
	})
}

func specUUID(v interface{}) bool {
	if _, ok := v.(UUID); ok {
		return true
	}
	s, ok := specText(v)
	return ok && specIsUUID(s)
}

func specTimestamp(v interface{}) bool {
	if _, ok := v.(*Timestamp); ok {
		return true
	}
	s, ok := specText(v)
	if !ok {
		return false
	}
	_, err := ParseTimestamp(s)
	return err == nil
}

//govc:target (*sadl.Model).ValidateString
func verify_C03_string(model *Model, ctx string, td *TypeSpec, v interface{}) {
	vRequires(model != nil && td != nil)
	err := model.ValidateString(ctx, td, v)
	vEnsures("accepts only conforming strings", err != nil || specString(td, v))
	vEnsures("accepts every conforming string", err == nil || !specString(td, v))
}

//govc:target (*sadl.Model).ValidateEnum
func verify_C03_enum(model *Model, ctx string, td *TypeSpec, v interface{}) {
	vRequires(model != nil && td != nil)
	err := model.ValidateEnum(ctx, td, v)
	vEnsures("accepts only symbols", err != nil || specEnum(td, v))
	vEnsures("accepts every symbol", err == nil || !specEnum(td, v))
}

//govc:target (*sadl.Model).ValidateBool
func verify_C03_bool(model *Model, ctx string, td *TypeSpec, v interface{}) {
	err := model.ValidateBool(ctx, td, v)
	vEnsures("accepts exactly booleans", (err == nil) == specBool(v))
}

//govc:target (*sadl.Model).ValidateUUID
func verify_C03_uuid(model *Model, ctx string, td *TypeSpec, v interface{}) {
	err := model.ValidateUUID(ctx, td, v)
	vEnsures("accepts only UUIDs", err != nil || specUUID(v))
	vEnsures("accepts every UUID", err == nil || !specUUID(v))
}

//govc:target (*sadl.Model).ValidateTimestamp
func verify_C03_timestamp(model *Model, ctx string, td *TypeSpec, v interface{}) {
	vRequires(model != nil && td != nil)
	err := model.ValidateTimestamp(ctx, td, v)
	vEnsures("accepts exactly timestamps", (err == nil) == specTimestamp(v))
}

//govc:target (*sadl.Model).ValidateUnitValue
//govc:fuel 2
//govc:inline (*sadl.Model).ValidateAgainstTypeSpec (*sadl.Model).ValidateUnitValue
func verify_C03_unitvalue(model *Model, ctx string, td *TypeSpec, v interface{}) {
	vRequires(model != nil && td != nil)
	tv, tu := model.FindType(td.Value), model.FindType(td.Unit)
	vRequires(tv != nil && specIsNumeric(tv.Type))
	vRequires(tu != nil && (tu.Type == "String" || tu.Type == "Enum"))
	vCases(tv.Type, "Int8", "Int16", "Int32", "Int64", "Float32", "Float64")
	vCases(tu.Type, "String")
	err := model.ValidateUnitValue(ctx, td, v)
	s, ok := specText(v)
	n := strings.Index(s, " ")
	good := ok && n > 0
	if good {
		d, derr := ParseDecimal(s[:n])
		good = derr == nil && model.ValidateNumber(ctx, &tv.TypeSpec, d) == nil
		if tu.Type == "String" {
			good = good && specString(&tu.TypeSpec, s[n+1:])
		} else {
			good = good && specEnum(&tu.TypeSpec, s[n+1:])
		}
	}
	vEnsures("accepts only number blank unit", err != nil || good)
	vEnsures("accepts every number blank unit", err == nil || !good)
}

func genTyped(g *vGen, types ...string) (*Model, string, *TypeSpec, interface{}) {
	for {
		m := genModel(g)
		for i := 0; i < 12; i++ {
			td := genSpecOf(g, m)
			for _, t := range types {
				if td.Type == t {
					return m, g.pick("", "ctx"), td, genValue(g, m, td, 0)
				}
			}
		}
	}
}

func gen_C03_string(g *vGen) (*Model, string, *TypeSpec, interface{}) { return genTyped(g, "String") }
func gen_C03_enum(g *vGen) (*Model, string, *TypeSpec, interface{})   { return genTyped(g, "Enum") }
func gen_C03_bool(g *vGen) (*Model, string, *TypeSpec, interface{})   { return genTyped(g, "Bool") }
func gen_C03_uuid(g *vGen) (*Model, string, *TypeSpec, interface{})   { return genTyped(g, "UUID") }
func gen_C03_timestamp(g *vGen) (*Model, string, *TypeSpec, interface{}) {
	return genTyped(g, "Timestamp")
}
func gen_C03_unitvalue(g *vGen) (*Model, string, *TypeSpec, interface{}) {
	return genTyped(g, "UnitValue")
}
func gen_C04_unitvalue(g *vGen) (*Model, string, *TypeSpec, interface{}) {
	return genTyped(g, "UnitValue")
}
func gen_C04_conforms(g *vGen) (*Model, string, *TypeSpec, interface{}) {
	m := genModel(g)
	td := genSpecOf(g, m)
	return m, g.pick("", "ctx"), td, genValue(g, m, td, 0)
}
func gen_C04_validate(g *vGen) (*Model, string, string, interface{}) {
	m := genModel(g)
	n := g.pick("Foo", "Nope", "String")
	if len(m.Types) > 0 && g.chance(85) {
		n = m.Types[g.n(len(m.Types))].Name
	}
	if t := m.FindType(n); t != nil {
		return m, g.pick("", "ctx"), n, genValue(g, m, &t.TypeSpec, 0)
	}
	return m, "", n, g.Any(0)
}
func gen_C02_number(g *vGen) (*Model, string, *TypeSpec, *Decimal) {
	m, c, td, _ := genTyped(g, vNums...)
	d := genDecimal(g)
	return m, c, td, d
}
func gen_C02_dispatch(g *vGen) (*Model, string, *TypeSpec, interface{}) { return genTyped(g, vNums...) }
