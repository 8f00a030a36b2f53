package sadl

import (
	"encoding/json"
	"strings"
	"time"
)

// C11: scalar text forms parse strictly and round-trip.

func specHexDigit(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}

func specUUIDText(s string) bool {
	return len(s) == 36 && vForall(36, func(i int) bool {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			return s[i] == '-'
		}
		return specHexDigit(s[i])
	})
}

//govc:target sadl.ParseUUID
func verify_C11_uuid(s string) {
	u := ParseUUID(s)
	vEnsures("a text in UUID format is returned unchanged", !specUUIDText(s) || string(u) == s)
	vEnsures("any other text is refused", specUUIDText(s) || u == "")
}

//govc:target (*sadl.UUID).UnmarshalJSON
//govc:bounded encoding/json is outside the verifier's reach
func verify_C11_uuidjson(s string, raw []byte) {
	b, err := json.Marshal(s)
	vAssume(err == nil)
	var t string
	vAssume(json.Unmarshal(b, &t) == nil && t == s)
	u := UUID("before")
	err = json.Unmarshal(b, &u)
	vEnsures("a JSON text in UUID format is accepted", !specUUIDText(s) || err == nil && string(u) == s)
	vEnsures("any other JSON text is refused", specUUIDText(s) || err != nil && u == "before")
	var any interface{}
	if json.Unmarshal(raw, &any) == nil {
		if _, isText := any.(string); !isText && any != nil {
			vEnsures("JSON that is not a text is refused", json.Unmarshal(raw, &u) != nil)
		}
	}
}

//govc:target sadl.ParseUnitValue
func verify_C11_unit(s string) {
	uv, err := ParseUnitValue(s)
	n := strings.Index(s, " ")
	ok := false
	if n > 0 && n+1 < len(s) {
		_, derr := ParseDecimal(s[:n])
		ok = derr == nil
	}
	vEnsures("number, blank, unit is accepted", !ok || err == nil && uv != nil)
	vEnsures("anything else is refused", ok || err != nil && uv == nil)
	if ok {
		d, _ := ParseDecimal(s[:n])
		vEnsures("the value is the number before the first blank", uv.Value != nil && uv.Value.Cmp(d.AsBigFloat()) == 0)
		vEnsures("the unit is everything after the first blank", uv.Unit == s[n+1:])
	}
}

//govc:target sadl.ParseDecimal (*sadl.Decimal).String (*sadl.Decimal).MarshalJSON (*sadl.Decimal).UnmarshalJSON
//govc:bounded printing and parsing of big floats is a library function
func verify_C11_decimal(s string, f float64) {
	d, err := ParseDecimal(s)
	if err == nil {
		p := d.String()
		d2, err2 := ParseDecimal(p)
		vEnsures("the printed form parses", err2 == nil && d2.String() == p)
		vEnsures("and has the same value", specClose(d, d2))
		b, err3 := d.MarshalJSON()
		var d3 Decimal
		vEnsures("the JSON form parses to a decimal that prints the same", err3 == nil && json.Unmarshal(b, &d3) == nil && d3.String() == p && json.Valid(b))
		vEnsures("decimal digits are kept exactly", !specShortDigits(s) || p == specCanonical(s))
	}
	n := NewDecimal(f)
	p := n.String()
	n2, err2 := ParseDecimal(p)
	vEnsures("a number's printed form parses to the same number", err2 == nil && n2.AsFloat64() == f)
}

// a difference only in the last of the 250 bits
func specClose(a, b *Decimal) bool { return a.String() == b.String() || a.Cmp(&b.Float) == 0 }

// specShortDigits: an optional sign, digits and optionally a point and digits, few enough to be exact
func specShortDigits(s string) bool {
	t := strings.TrimPrefix(s, "-")
	if t == "" || len(t) > 60 || t[0] == '.' || t[len(t)-1] == '.' || strings.Count(t, ".") > 1 {
		return false
	}
	return vForall(len(t), func(i int) bool { return t[i] == '.' || '0' <= t[i] && t[i] <= '9' })
}

func specCanonical(s string) string {
	neg := strings.HasPrefix(s, "-")
	t := strings.TrimPrefix(s, "-")
	a, b, _ := strings.Cut(t, ".")
	a = strings.TrimLeft(a, "0")
	b = strings.TrimRight(b, "0")
	if a == "" {
		a = "0"
	}
	if b != "" {
		a += "." + b
	}
	if neg {
		a = "-" + a
	}
	return a
}

//govc:target (*sadl.UnitValue).String (*sadl.UnitValue).MarshalJSON (*sadl.UnitValue).UnmarshalJSON
//govc:bounded printing and parsing of big floats is a library function
func verify_C11_unitround(num string, unit string) {
	vRequires(unit != "")
	d, err := ParseDecimal(num)
	vRequires(err == nil)
	u := &UnitValue{Value: d, Unit: unit}
	u2, err := ParseUnitValue(u.String())
	vEnsures("the printed form parses to the same value and unit", err == nil && u2.Unit == unit && u2.Value.String() == d.String())
	vEnsures("and prints the same", err == nil && u2.String() == u.String())
	b, err := u.MarshalJSON()
	var u3 UnitValue
	var t string
	vRequires(strings.ToValidUTF8(unit, "?") == unit)
	vEnsures("the JSON form is the printed text", err == nil && json.Unmarshal(b, &t) == nil && t == u.String())
	vEnsures("the JSON form parses back", json.Unmarshal(b, &u3) == nil && u3.String() == u.String())
}

//govc:target (*sadl.Timestamp).String sadl.ParseTimestamp (*sadl.Timestamp).MarshalJSON (*sadl.Timestamp).UnmarshalJSON
//govc:bounded calendar computations are library functions
func verify_C11_timestamp(sec int64, nsec int64, zone int) {
	t := time.Unix(sec, nsec).In(time.FixedZone("z", zone))
	vRequires(t.UTC().Year() >= 1 && t.UTC().Year() <= 9999 && !t.IsZero())
	ts := Timestamp{t}
	p := ts.String()
	want := t.UTC().Format("2006-01-02T15:04:05.000Z")
	vEnsures("printed in UTC with milliseconds", p == want)
	t2, err := ParseTimestamp(p)
	vEnsures("the printed form parses to the same instant, to the millisecond", err == nil && t2.Time.Equal(t.UTC().Truncate(time.Millisecond)))
	vEnsures("and prints the same", t2.IsZero() || t2.String() == p)
	b, err := ts.MarshalJSON()
	var t3 Timestamp
	vEnsures("the JSON form parses back", err == nil && json.Unmarshal(b, &t3) == nil && t3.Time.Equal(t2.Time))
	var zero Timestamp
	vEnsures("the zero time prints as nothing", zero.String() == "")
}

//govc:target sadl.ParseTimestamp
//govc:bounded calendar computations are library functions
func verify_C11_tsparse(s string) {
	t, err := ParseTimestamp(s)
	vEnsures("no time with an error", err == nil || t.IsZero())
	norm := s
	for _, z := range []string{"+00:00", "-00:00", "+0000", "-0000"} {
		if strings.HasSuffix(s, z) {
			norm = s[:len(s)-len(z)] + "Z"
			break
		}
	}
	w, werr := time.Parse("2006-01-02T15:04:05Z07:00", norm)
	ok := werr == nil && strings.HasSuffix(norm, "Z")
	vEnsures("a UTC timestamp is accepted", !ok || err == nil && t.Time.Equal(w))
	vEnsures("any other text is refused", ok || err != nil)
}

func genNumText(g *vGen) string {
	switch g.n(5) {
	case 0:
		return genDecimal(g).String()
	case 1:
		s := g.pick("", "-")
		for i := 1 + g.n(20); i > 0; i-- {
			s += g.pick("0", "1", "9", "5", "3")
		}
		if g.chance(60) {
			s += "."
			for i := 1 + g.n(20); i > 0; i-- {
				s += g.pick("0", "1", "9", "5", "3")
			}
		}
		return s
	case 2:
		return g.pick("1e3", "1E-5", "+1", ".5", "5.", "0x10", "1_000", "Inf", "NaN", "", "-", "1.2.3", "12a", " 1", "1e400", "0.1e-300", "١", "1e", "--1", "1,5")
	}
	return g.pick("100", "1.50", "0", "-0", "007", "12.340", "0.1", "3.14159", "100000000000000000000000000001", "-2.5")
}

func gen_C11_uuid(g *vGen) string { return genUUIDText(g) }
func gen_C11_uuidjson(g *vGen) (string, []byte) {
	s := genUUIDText(g)
	if g.chance(10) {
		s = g.String()
	}
	return s, []byte(g.pick("1", "true", "null", "{}", "[]", "\"x\"", "[\"1ce437b0-1dd2-11b2-bc26-003ee1be85f9\"]"))
}
func gen_C11_unit(g *vGen) string {
	return genNumText(g) + g.pick(" ", " ", " ", " ", "  ", "", "\t") + g.pick("USD", "EUR", "", "a b", "kg", " x", "\"", "5")
}
func gen_C11_decimal(g *vGen) (string, float64) {
	return genNumText(g), float64(g.Int()) / []float64{1, 2, 3, 7, 10, 1000}[g.n(6)]
}
func gen_C11_unitround(g *vGen) (string, string) {
	return genNumText(g), g.pick("USD", "EUR", "a b", "kg", " x", "\"", "5", "é", "\n", "\\", "<")
}
func gen_C11_timestamp(g *vGen) (int64, int64, int) {
	sec := []int64{0, 1, 951782400, 1549234099, -1, -62135596800, 253402300799, 1582934400, g.Int(), g.r.Int63n(253402300799), -g.r.Int63n(62135596800), -62135596801 + int64(g.n(86400))}[g.n(12)]
	return sec, int64([]int{0, 1000000, 999999999, 43000000, 500000, g.n(1000000000)}[g.n(6)]), []int{0, 0, 3600, -18000, 19800, 45}[g.n(6)]
}
func gen_C11_tsparse(g *vGen) string {
	if g.chance(30) {
		return g.pick("2019-02-03", "2019-02-03T22:48:19", "2019-13-03T22:48:19Z", "2019-02-30T22:48:19Z", "2019-02-03T22:48:19.043+02:00", "2019-02-03t22:48:19Z", "2019-02-03T22:48:19,5Z", "", "Z", "+00:00", "2019-02-03T24:00:00Z", "19-02-03T22:48:19Z", "2019-02-03 22:48:19Z", "2019-2-3T22:48:19Z", "2019-02-03T22:48:60Z")
	}
	a, b, _ := gen_C11_timestamp(g)
	t := time.Unix(a, b).UTC()
	return t.Format(g.pick("2006-01-02T15:04:05Z", "2006-01-02T15:04:05.000Z", "2006-01-02T15:04:05.999999999Z", "2006-01-02T15:04:05.000+00:00", "2006-01-02T15:04:05-00:00", "2006-01-02T15:04:05.0+0000", "2006-01-02T15:04:05-0000", "2006-01-02T15:04:05+01:00", "2006-01-02T15:04Z"))
}
