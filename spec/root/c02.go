package sadl

import "math"

// C02: numeric validation enforces the declared and the natural range.

func specIsNumeric(t string) bool {
	switch t {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return true
	}
	return false
}

func specLt(a, b *Decimal) bool { return a.AsBigFloat().Cmp(b.AsBigFloat()) < 0 }

//govc:target (*sadl.Model).ValidateNumber sadl.DecimalValue
func verify_C02_number(model *Model, ctx string, td *TypeSpec, n *Decimal) {
	vRequires(model != nil && td != nil && n != nil)
	vRequires(specIsNumeric(td.Type))
	err := model.ValidateNumber(ctx, td, n)
	var lo, hi *Decimal
	switch td.Type {
	case "Int8":
		lo, hi = NewDecimal(-128), NewDecimal(127)
	case "Int16":
		lo, hi = NewDecimal(-32768), NewDecimal(32767)
	case "Int32":
		lo, hi = NewDecimal(-2147483648), NewDecimal(2147483647)
	case "Int64":
		lo, _ = ParseDecimal("-9223372036854775808")
		hi, _ = ParseDecimal("9223372036854775807")
	}
	if td.Min != nil {
		lo = td.Min
	}
	if td.Max != nil {
		hi = td.Max
	}
	vEnsures("below the minimum is rejected", lo == nil || !specLt(n, lo) || err != nil)
	vEnsures("above the maximum is rejected", hi == nil || !specLt(hi, n) || err != nil)
	vEnsures("in range is accepted", err == nil || lo != nil && specLt(n, lo) || hi != nil && specLt(hi, n))
}

//govc:target (*sadl.Model).ValidateNumber
func verify_C02_notnumber(model *Model, ctx string, td *TypeSpec, v interface{}) {
	vRequires(model != nil)
	d, ok := v.(*Decimal)
	vRequires(!ok || d != nil)
	err := model.ValidateNumber(ctx, td, v)
	vEnsures("anything but a decimal is rejected", ok || err != nil)
}

//govc:target (*sadl.Model).ValidateAgainstTypeSpec
//govc:fuel 2
func verify_C02_dispatch(model *Model, ctx string, td *TypeSpec, v interface{}) {
	vRequires(model != nil && td != nil)
	vRequires(specIsNumeric(td.Type))
	err := model.ValidateAgainstTypeSpec(ctx, td, v)
	err2 := model.ValidateNumber(ctx, td, v)
	vEnsures("numeric types are validated as numbers", (err == nil) == (err2 == nil))
}

//govc:target (*sadl.Model).IsNumericType
func verify_C02_isnumeric(model *Model, td *TypeSpec) {
	vRequires(td != nil)
	vEnsures("exactly the numeric base types", model.IsNumericType(td) == specIsNumeric(td.Type))
}

var _ = math.MaxInt8
