package sadl

import (
	"strings"
	"unicode/utf8"
)

// C21: identifier and annotation helpers.

func specLetter(c rune) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
func specDigit(c rune) bool  { return '0' <= c && c <= '9' }

//govc:target sadl.IsSymbolChar sadl.IsLetter sadl.IsDigit sadl.IsUppercaseLetter sadl.IsLowercaseLetter sadl.IsWhitespace
func verify_C21_chars(c rune, first bool) {
	vEnsures("the first character is an ASCII letter", !first || IsSymbolChar(c, first) == specLetter(c))
	vEnsures("the others are ASCII letters, digits or underscores", first || IsSymbolChar(c, first) == (specLetter(c) || specDigit(c) || c == '_'))
	vEnsures("letters", IsLetter(c) == specLetter(c))
	vEnsures("digits", IsDigit(c) == specDigit(c))
	vEnsures("upper case", IsUppercaseLetter(c) == ('A' <= c && c <= 'Z'))
	vEnsures("lower case", IsLowercaseLetter(c) == ('a' <= c && c <= 'z'))
	vEnsures("blanks", IsWhitespace(c) == (c == ' ' || c == '\t' || c == '\n'))
}

//govc:hidden
func specSymbol(s string) bool {
	return len(s) > 0 && specLetter(rune(s[0])) && vForall(len(s), func(i int) bool {
		return specLetter(rune(s[i])) || specDigit(rune(s[i])) || s[i] == '_'
	})
}

//govc:target sadl.IsSymbol
//govc:contract sadl.IsSymbol
//govc:modular
func verify_C21_symbol(s string) {
	r := IsSymbol(s)
	vEnsures("a symbol is a letter followed by letters, digits and underscores", r == specSymbol(s))
}

//govc:target sadl.Capitalize sadl.Uncapitalize
func verify_C21_case(s string) {
	vRequires(utf8.ValidString(s))
	up, low := Capitalize(s), Uncapitalize(s)
	if s == "" {
		vEnsures("an empty text stays empty", up == "" && low == "")
		return
	}
	_, n := utf8.DecodeRuneInString(s)
	vEnsures("capitalising changes at most the case of the first character", up == strings.ToUpper(s[:n])+s[n:])
	vEnsures("uncapitalising changes at most the case of the first character", low == strings.ToLower(s[:n])+s[n:])
	gen := &Generator{}
	vEnsures("the generator capitalises the same way", gen.Capitalize(s) == up && gen.Uncapitalize(s) == low)
}

//govc:target sadl.GetAnnotation
func verify_C21_annotation(annos map[string]string, key string) {
	v, ok := annos[key]
	vEnsures("the value of the annotation", !ok || v == "" || GetAnnotation(annos, key) == v)
	vEnsures("true for an annotation without value", !ok || v != "" || GetAnnotation(annos, key) == "true")
	vEnsures("nothing for an absent annotation", ok || GetAnnotation(annos, key) == "")
}

//govc:target sadl.BaseFileName
//govc:bounded path/filepath is a library
func verify_C21_basename(dir, base, ext string) {
	vRequires(base != "" && base != "." && !strings.Contains(base, "/") && !strings.Contains(ext, "/") && !strings.Contains(ext, "."))
	vRequires(!strings.HasPrefix(base, "."))
	path := base + "." + ext
	if dir != "" {
		path = dir + "/" + path
	}
	vEnsures("the file name without directory and extension", BaseFileName(path) == base)
	vRequires(!strings.Contains(base, "."))
	plain := base
	if dir != "" {
		plain = dir + "/" + base
	}
	vEnsures("a file name without extension", BaseFileName(plain) == base)
}

//govc:target sadl.AnnotationsAsString
//govc:bounded the annotations are listed in no particular order
func verify_C21_annotations(annos map[string]string) {
	s := AnnotationsAsString(annos)
	vEnsures("nothing for no annotations", len(annos) > 0 || s == "")
	if len(annos) == 1 {
		for k, v := range annos {
			vEnsures("one annotation", s == " ("+k+"="+specQuoted(v)+")")
		}
	}
	vEnsures("each annotation is listed", vForallKey(annos, func(k, v string) bool { return strings.Contains(s, k+"="+specQuoted(v)) }))
}

func specQuoted(v string) string {
	r := "\""
	for i := 0; i < len(v); i++ {
		if v[i] == '"' || v[i] == '\\' {
			r += "\\"
		}
		r += string(v[i])
	}
	return r + "\""
}

func gen_C21_symbol(g *vGen) string {
	s := ""
	for i := g.few(6); i > 0; i-- {
		s += g.pick("a", "Z", "_", "0", "9", "m", "A", "z")
	}
	if g.chance(20) {
		s += g.pick("é", "-", " ", ".", "$", "\x80", "ª", "[", "`", "{", "@", "/", ":")
		s += g.pick("", "a")
	}
	return s
}
func gen_C21_case(g *vGen) string {
	return g.pick("", "a", "A", "z", "Z", "é", "É", "ß", "1", "_", "ǆ", "日", "fooBar", "FooBar", "İ", "ı", " ", "ẞ", "Ạ", "Ω", "Ⴀ", "𐐀", "𐐨", "Å", "\xff", "\xe0a", "ｱ", "Ａ", string(rune(0x80+g.n(0x3000))), string(rune(0x10000+g.n(0x1000)))) + g.pick("", "abc", "XYZ", "é", "日本", "a b")
}
func gen_C21_chars(g *vGen) (rune, bool) { return rune(g.n(300)), g.chance(50) }
func gen_C21_annotations(g *vGen) map[string]string {
	m := map[string]string{}
	for i := g.n(4); i > 0; i-- {
		m[g.Name()] = g.pick("", "v", "a\"b", "x y", "\\", "true")
	}
	return m
}
func gen_C21_annotation(g *vGen) (map[string]string, string) {
	m := gen_C21_annotations(g)
	for k := range m {
		if g.chance(60) {
			return m, k
		}
	}
	return m, g.Name()
}
func gen_C21_basename(g *vGen) (string, string, string) {
	return g.pick("", "a", "/tmp", "a/b.c", "..", "/"), g.pick("x", "foo", "a.b", "foo-bar"), g.pick("sadl", "go", "", "json")
}
