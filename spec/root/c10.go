package sadl

import "strings"

// C10: formatted comments.

//govc:target sadl.FormatComment
//govc:bounded word wrapping: the wrapped text is compared word by word
func verify_C10_format(indent, prefix, comment string, maxcol int, pad bool) {
	vRequires(!strings.Contains(indent, "\n") && !strings.Contains(prefix, "\n"))
	r := FormatComment(indent, prefix, comment, maxcol, pad)
	vEnsures("ends with a newline", strings.HasSuffix(r, "\n"))
	blanks := strings.Repeat(" ", len(indent))
	lines := strings.Split(strings.TrimSuffix(r, "\n"), "\n")
	var text []string
	for i, l := range lines {
		rest, ok := strings.CutPrefix(l, indent+prefix)
		if !ok {
			rest, ok = strings.CutPrefix(l, blanks+prefix)
		}
		if !ok && pad && (i == 0 || i == len(lines)-1) {
			// a padding line carries the prefix without its blanks
			vEnsures("a padding line is only a comment mark", l == blanks+strings.Trim(prefix, " ") || l == indent+strings.Trim(prefix, " "))
			continue
		}
		vEnsures("every line starts with indentation and prefix", ok)
		text = append(text, rest)
	}
	if strings.Contains(comment, "\n") {
		vEnsures("the lines of the comment are kept", strings.Join(text, "\n") == comment)
	} else {
		vEnsures("the words of the comment appear once each and in order", specSameTexts(strings.Fields(strings.Join(text, " ")), strings.Fields(comment)))
	}
}

func specSameTexts(a, b []string) bool {
	return len(a) == len(b) && vForall(len(a), func(i int) bool { return a[i] == b[i] })
}

//govc:target (*sadl.Generator).FormatComment
func verify_C10_generator(indent, comment string, maxcol int, pad bool) {
	gen := &Generator{}
	vEnsures("comments of generated code start with //", gen.FormatComment(indent, comment, maxcol, pad) == FormatComment(indent, "// ", comment, maxcol, pad))
}

//govc:target sadl.FormatComment
func verify_C10_unwrapped(indent, prefix, comment string, maxcol int, pad bool) {
	vRequires(maxcol <= len(indent) && !strings.Contains(comment, "\n"))
	vEnsures("one line when there is no room to wrap", FormatComment(indent, prefix, comment, maxcol, pad) == indent+prefix+comment+"\n")
}

func genCommentText(g *vGen) string {
	var b string
	for i := g.few(8); i > 0; i-- {
		b += g.pick("a", "word", "longer-word", "x", "", "averyveryverylongwordthatdoesnotfit", "the", "é", "//", "#")
		b += g.pick(" ", " ", " ", "", "  ", " ")
	}
	if g.chance(25) {
		b += "\n" + g.pick("", "second line", " x", "\n", "y\n")
	}
	return b
}

func gen_C10_format(g *vGen) (string, string, string, int, bool) {
	return g.pick("", "", " ", "    ", "\t", "  ", "\t\t"), g.pick("// ", "# ", "//", " * ", "", "#", "> "), genCommentText(g), []int{0, 1, 2, 4, 8, 12, 20, 40, 80, 100, -1}[g.n(11)], g.chance(50)
}
func gen_C10_generator(g *vGen) (string, string, int, bool) {
	a, _, c, d, e := gen_C10_format(g)
	return a, c, d, e
}
func gen_C10_unwrapped(g *vGen) (string, string, string, int, bool) {
	a, b, c, _, e := gen_C10_format(g)
	return a, b, strings.ReplaceAll(c, "\n", " "), len(a) - g.n(2), e
}
