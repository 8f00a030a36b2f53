package sadl

import (
	"os"
	"path/filepath"
)

// C08: configuration lookups follow the key path exactly and coerce by type.

// specPath: the value reached from v by following the keys
func specPath(v interface{}, keys []string) interface{} {
	for _, key := range keys {
		m, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		x, ok := m[key]
		if !ok {
			return nil
		}
		v = x
	}
	return v
}

func specObject(v interface{}) bool {
	_, ok := v.(map[string]interface{})
	return ok
}

//govc:target (*sadl.Data).Get
func verify_C08_get(v interface{}, keys []string) {
	vRequires(len(keys) > 0)
	d := AsData(v)
	x := d.Get(keys...)
	want := specPath(v, keys)
	vEnsures("the value at the end of the path", specSameValue(x, want))
	vEnsures("present exactly when there is a value", d.Has(keys...) == (want != nil))
}

// same value: identity where Go can compare, shape otherwise
func specSameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		return ok && len(x) == len(y) && vForallKey(x, func(k string, v interface{}) bool {
			w, ok := y[k]
			return ok && specKind(v) == specKind(w)
		})
	case []interface{}:
		y, ok := b.([]interface{})
		return ok && len(x) == len(y) && vForall(len(x), func(i int) bool { return specKind(x[i]) == specKind(y[i]) })
	}
	if specKind(b) == 8 || specKind(b) == 9 {
		return false
	}
	return a == b
}

func specKind(v interface{}) int {
	switch v.(type) {
	case nil:
		return 0
	case bool:
		return 1
	case string:
		return 2
	case *string:
		return 3
	case float64:
		return 4
	case int:
		return 5
	case int32:
		return 6
	case int64:
		return 7
	case map[string]interface{}:
		return 8
	case []interface{}:
		return 9
	}
	return 10
}

//govc:target (*sadl.Data).GetString (*sadl.Data).GetBool (*sadl.Data).GetInt (*sadl.Data).GetInt64 (*sadl.Data).GetFloat64 (*sadl.Data).GetArray (*sadl.Data).GetMap (*sadl.Data).GetDecimal (*sadl.Data).GetData
func verify_C08_typed(v interface{}, keys []string) {
	vRequires(len(keys) > 0)
	d := AsData(v)
	want := specPath(v, keys)
	vEnsures("text", d.GetString(keys...) == AsString(want))
	vEnsures("boolean", d.GetBool(keys...) == AsBool(want))
	vEnsures("integer", d.GetInt(keys...) == AsInt(want))
	vEnsures("long integer", d.GetInt64(keys...) == AsInt64(want))
	vEnsures("number", d.GetFloat64(keys...) == AsFloat64(want))
	vEnsures("list length", len(d.GetArray(keys...)) == len(AsArray(want)))
	vEnsures("object size", len(d.GetMap(keys...)) == len(AsMap(want)))
	vEnsures("decimal", (d.GetDecimal(keys...) == nil) == (AsDecimal(want) == nil))
	vEnsures("document", specSameValue(d.GetData(keys...).value, want))
}

//govc:target sadl.AsString sadl.AsBool sadl.AsInt sadl.AsInt64 sadl.AsFloat64
func verify_C08_scalar(v interface{}) {
	s, isText := v.(string)
	sp, isTextPtr := v.(*string)
	b, isBool := v.(bool)
	f, isFloat := v.(float64)
	n, isInt := v.(int)
	n32, isInt32 := v.(int32)
	n64, isInt64 := v.(int64)
	vEnsures("a text is returned", !isText || AsString(v) == s)
	vEnsures("a text pointer yields its text", !isTextPtr || AsString(v) == *sp)
	vEnsures("anything else is no text", isText || isTextPtr || AsString(v) == "")
	vEnsures("a boolean is returned", !isBool || AsBool(v) == b)
	vEnsures("a text is true unless it says false", !isText || AsBool(v) == (s != "false"))
	vEnsures("nothing is false", v != nil || !AsBool(v))
	vEnsures("any other present value is true", v == nil || isBool || isText || AsBool(v))
	vEnsures("a number is truncated to an integer", !isFloat || AsInt(v) == int(f))
	vEnsures("an integer is returned", !isInt || AsInt(v) == n)
	vEnsures("a short integer is widened", !isInt32 || AsInt(v) == int(n32))
	vEnsures("anything else is no integer", isFloat || isInt || isInt32 || isInt64 || AsInt(v) == 0)
	vEnsures("a number is truncated to a long integer", !isFloat || AsInt64(v) == int64(f))
	vEnsures("a long integer is returned", !isInt64 || AsInt64(v) == n64)
	vEnsures("anything else is no long integer", isFloat || isInt || isInt32 || isInt64 || AsInt64(v) == 0)
	vEnsures("a number is returned", !isFloat || AsFloat64(v) == f)
	vEnsures("anything else is no number", isFloat || AsFloat64(v) == 0)
}

//govc:target sadl.AsArray sadl.AsMap sadl.AsDecimal sadl.AsStringArray
func verify_C08_composite(v interface{}) {
	a, isList := v.([]interface{})
	m, isMap := v.(map[string]interface{})
	d, isDec := v.(*Decimal)
	vEnsures("a list is returned", !isList || len(AsArray(v)) == len(a) && vForall(len(a), func(i int) bool { return AsString(AsArray(v)[i]) == AsString(a[i]) }))
	vEnsures("anything else is no list", isList || AsArray(v) == nil)
	vEnsures("an object is returned", !isMap || len(AsMap(v)) == len(m) && vForallKey(m, func(k string, x interface{}) bool {
		y, ok := AsMap(v)[k]
		return ok && AsString(x) == AsString(y)
	}))
	vEnsures("anything else is no object", isMap || AsMap(v) == nil)
	vEnsures("a decimal is returned", !isDec || AsDecimal(v) == d)
}

//govc:target sadl.AsStringArray sadl.GetStringArray (*sadl.Data).GetStringArray
func verify_C08_texts(a []interface{}, key string) {
	texts := vForall(len(a), func(i int) bool {
		_, ok := a[i].(string)
		_, okp := a[i].(*string)
		return ok || okp
	})
	var v interface{} = a
	r := AsStringArray(v)
	vEnsures("a list of texts is returned in order", !texts || len(r) == len(a) && vForall(len(a), func(i int) bool { return r[i] == AsString(a[i]) }))
	vEnsures("a list with anything else is none", texts || len(r) == 0)
	m := map[string]interface{}{key: v}
	rm := GetStringArray(m, key)
	vEnsures("the same for a member", len(rm) == len(r) && vForall(len(r), func(i int) bool { return rm[i] == r[i] }))
	rd := AsData(m).GetStringArray(key)
	vEnsures("a document's list keeps every item's text", len(rd) == len(a) && vForall(len(a), func(i int) bool { return rd[i] == AsString(a[i]) }))
}

//govc:target sadl.Get sadl.GetString sadl.GetBool sadl.GetInt sadl.GetInt64 sadl.GetArray sadl.GetMap sadl.GetDecimal
func verify_C08_member(m map[string]interface{}, key string) {
	v, ok := m[key]
	if !ok {
		v = nil
	}
	vEnsures("member", specSameValue(Get(m, key), v))
	vEnsures("text member", GetString(m, key) == AsString(v))
	vEnsures("boolean member", GetBool(m, key) == AsBool(v))
	vEnsures("integer member", GetInt(m, key) == AsInt(v))
	vEnsures("long integer member", GetInt64(m, key) == AsInt64(v))
	vEnsures("list member", len(GetArray(m, key)) == len(AsArray(v)))
	vEnsures("object member", len(GetMap(m, key)) == len(AsMap(v)))
	vEnsures("decimal member", GetDecimal(m, key) == nil || AsDecimal(v) != nil)
}

//govc:target (*sadl.Data).Put (*sadl.Data).Get
func verify_C08_put(d *Data, key, other, val string) {
	vRequires(d != nil)
	m, isMap := d.value.(map[string]interface{})
	empty := d.value == nil || isMap && m == nil
	before, had := m[other]
	text := AsString(before)
	d.Put(key, val)
	vEnsures("the key returns the stored value", !empty && !isMap || AsString(d.Get(key)) == val)
	vEnsures("a missing key stays missing", !empty && !isMap || other == key || had || d.Get(other) == nil)
	vEnsures("every other key keeps its value", !isMap || other == key || !had || AsString(d.Get(other)) == text)
}

//govc:target (*sadl.Generator).GetConfigString (*sadl.Generator).GetConfigBool (*sadl.Generator).GetConfigInt
func verify_C08_config(v interface{}, key, sdef string, bdef bool, ndef int) {
	gen := &Generator{Config: AsData(v)}
	m, isMap := v.(map[string]interface{})
	x, ok := m[key]
	present := isMap && ok && x != nil
	vEnsures("configured text", !present || gen.GetConfigString(key, sdef) == AsString(x))
	vEnsures("default text", present || gen.GetConfigString(key, sdef) == sdef)
	vEnsures("configured boolean", !present || gen.GetConfigBool(key, bdef) == AsBool(x))
	vEnsures("default boolean", present || gen.GetConfigBool(key, bdef) == bdef)
	vEnsures("configured integer", !present || gen.GetConfigInt(key, ndef) == AsInt(x))
	vEnsures("default integer", present || gen.GetConfigInt(key, ndef) == ndef)
}

func genDoc(g *vGen, d int) interface{} {
	m := map[string]interface{}{}
	for i := g.n(5); i > 0; i-- {
		k := g.pick("a", "b", "c", "d", "force-overwrite", "")
		if d < 4 && g.chance(50) {
			m[k] = genDoc(g, d+1)
		} else {
			m[k] = g.Any(2)
		}
	}
	if g.chance(3) {
		return g.Any(1)
	}
	return m
}

func genKeys(g *vGen, v interface{}) []string {
	var keys []string
	for i := 1 + g.n(4); i > 0; i-- {
		m, _ := v.(map[string]interface{})
		k := g.pick("a", "b", "c", "d", "", "x")
		if len(m) > 0 && g.chance(85) {
			n := g.n(len(m))
			for _, kk := range sortedKeys(m) {
				if n == 0 {
					k = kk
				}
				n--
			}
		}
		keys = append(keys, k)
		v = m[k]
	}
	return keys
}

func sortedKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := 0; j < i; j++ {
			if ks[i] < ks[j] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func gen_C08_get(g *vGen) (interface{}, []string) {
	v := genDoc(g, 0)
	return v, genKeys(g, v)
}
func gen_C08_typed(g *vGen) (interface{}, []string) { return gen_C08_get(g) }
func gen_C08_put(g *vGen) (*Data, string, string, string) {
	d := AsData(genDoc(g, 2))
	if g.chance(10) {
		d = NewData()
	} else if g.chance(10) {
		d, _ = DataFromJsonString("null")
	}
	return d, g.pick("a", "b", "c", "d", "", "x"), g.pick("a", "b", "c", "d", "", "x"), g.String()
}
func gen_C08_member(g *vGen) (map[string]interface{}, string) {
	m, _ := genDoc(g, 2).(map[string]interface{})
	return m, g.pick("a", "b", "c", "d", "", "x")
}
func gen_C08_config(g *vGen) (interface{}, string, string, bool, int) {
	return genDoc(g, 2), g.pick("a", "b", "c", "d", "", "x", "force-overwrite"), g.String(), g.chance(50), g.n(9)
}
func gen_C08_texts(g *vGen) ([]interface{}, string) {
	var a []interface{}
	for i := g.few(5); i > 0; i-- {
		if g.chance(90) {
			s := g.String()
			if g.chance(30) {
				a = append(a, &s)
			} else {
				a = append(a, s)
			}
		} else {
			a = append(a, g.Any(3))
		}
	}
	return a, g.Name()
}

// specSameDoc: the same document, at every depth
func specSameDoc(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !specSameDoc(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !specSameDoc(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if specKind(b) >= 8 {
		return false
	}
	return a == b
}

type specDoc struct {
	Value map[string]interface{}
	Ext   string
	Raw   string // when not empty, the text of the file instead of the document
	Bad   bool   // Raw is not an object in this format
	Gone  bool
}

//govc:target sadl.DataToFile sadl.DataFromFile sadl.DataFromJsonString (*sadl.Data).UnmarshalJSON (*sadl.Data).MarshalJSON
//govc:bounded the file system and the JSON and YAML libraries are outside the verifier's reach
func verify_C08_file(d specDoc) {
	dir, err := os.MkdirTemp("", "c08")
	vAssume(err == nil)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "conf"+d.Ext)
	if d.Gone {
		x, err := DataFromFile(path)
		vEnsures("a missing file is an error", err != nil && x == nil)
		return
	}
	if d.Raw != "" {
		vAssume(os.WriteFile(path, []byte(d.Raw), 0600) == nil)
		x, err := DataFromFile(path)
		vEnsures("a malformed file is an error", (err != nil) == d.Bad && (x == nil) == d.Bad)
		if !d.Bad {
			vEnsures("its values are found", specSameDoc(x.AsMap(), d.Value))
		}
		y, jerr := DataFromJsonString(d.Raw)
		if d.Ext != ".yaml" {
			vEnsures("a malformed text is an error", (jerr != nil) == d.Bad && (y == nil) == d.Bad)
		}
		return
	}
	vEnsures("it is written", DataToFile(AsData(d.Value), path) == nil)
	x, err := DataFromFile(path)
	vEnsures("a written document is read back the same", err == nil && x != nil && specSameDoc(x.AsMap(), d.Value))
	y, err := DataFromJsonString(AsData(d.Value).String())
	vEnsures("a printed document is read back the same", err == nil && y != nil && specSameDoc(y.AsMap(), d.Value))
	raw, err := AsData(d.Value).MarshalJSON()
	z := NewData()
	vEnsures("the JSON form is read back the same", err == nil && z.UnmarshalJSON(raw) == nil && specSameDoc(z.AsMap(), d.Value))
}

func gen_C08_file(g *vGen) specDoc {
	d := specDoc{Value: map[string]interface{}{}, Ext: g.pick(".json", ".yaml", ".json", "", ".conf")}
	var val func(n int) interface{}
	val = func(n int) interface{} {
		switch g.n(7) {
		case 0:
			return nil
		case 1:
			return g.chance(50)
		case 2:
			return float64(g.n(2000)-1000) / 4
		case 3, 4:
			return g.pick("x", "true", "", "a: b", "- c", "# d", "<&>", "12", "null", "line\nbreak", "\"q\"", "é", "~")
		case 5:
			if n > 2 {
				return "deep"
			}
			l := []interface{}{}
			for i := g.few(3); i > 0; i-- {
				l = append(l, val(n+1))
			}
			return l
		}
		if n > 2 {
			return 1.5
		}
		m := map[string]interface{}{}
		for i := g.few(3); i > 0; i-- {
			m[g.Name()] = val(n + 1)
		}
		return m
	}
	for i := g.few(4); i > 0; i-- {
		d.Value[g.pick(g.Name(), "a-b", "x.y")] = val(0)
	}
	switch g.n(8) {
	case 0:
		d.Gone = true
	case 1:
		d.Raw, d.Bad = g.pick("{", "[1,2]", "\"x\"", "{\"a\":}", "{\"a\":1}}", "{\"a\" 1"), true
		if d.Ext == ".yaml" {
			d.Raw = g.pick("a: [", "- 1\n- 2", "a: b: c", "\"x", "{a: 1")
		}
	case 2:
		d.Raw = "{\"a\": {\"b\": [1, \"two\", true, null]}, \"c\": 1.5}"
		if d.Ext == ".yaml" {
			d.Raw = g.pick("a:\n  b:\n  - 1\n  - two\n  - true\n  - null\nc: 1.5\n", "# conf\na: {b: [1, \"two\", yes, ~]}\nc: 1.5")
		}
		d.Value = map[string]interface{}{"a": map[string]interface{}{"b": []interface{}{1.0, "two", true, nil}}, "c": 1.5}
	}
	return d
}

//govc:target (*sadl.Data).AsMap (*sadl.Data).IsNil
func verify_C08_asmap(v interface{}, key string) {
	var none *Data
	vEnsures("no document has no entries", none.AsMap() == nil)
	d := AsData(v)
	vEnsures("nil exactly when empty", d.IsNil() == (v == nil))
	m, ok := v.(map[string]interface{})
	r := d.AsMap()
	vEnsures("the entries of an object, nothing otherwise", len(r) == len(m) && (ok || r == nil))
	x, has := r[key]
	y, had := m[key]
	vEnsures("every entry", has == had && specSameValue(x, y))
}
