package httptrace

import (
	"sort"
	"strconv"
	"strings"

	"github.com/boynton/sadl"
)

// C20: HTTP example traces render the example request and response.

func specText(ex interface{}) string {
	switch v := ex.(type) {
	case *string:
		return *v
	case string:
		return v
	case *sadl.Decimal:
		return v.String()
	case bool:
		if v {
			return "true"
		}
		return "false"
	}
	return ""
}

// specFill: the template with the placeholders of the given names replaced
func specFill(t string, vals map[string]string) string {
	out := ""
	for {
		i := strings.IndexByte(t, '{')
		j := strings.IndexByte(t, '}')
		if i < 0 || j < i {
			return out + t
		}
		name := t[i+1 : j]
		if v, ok := vals[name]; ok {
			out += t[:i] + v
		} else {
			out += t[:j+1]
		}
		t = t[j+1:]
	}
}

// specHasValue: a query item other than "name="
func specHasValue(item string) bool {
	i := strings.Index(item, "=")
	return i < 0 || i < len(item)-1
}

// specQuery: the query parameters that have a value
func specQuery(uri string) string {
	i := strings.Index(uri, "?")
	if i < 0 {
		return uri
	}
	var kept []string
	for _, item := range strings.Split(uri[i+1:], "&") {
		if specHasValue(item) {
			kept = append(kept, item)
		}
	}
	if len(kept) == 0 {
		return uri[:i]
	}
	return uri[:i] + "?" + strings.Join(kept, "&")
}

func specRequest(h *sadl.HttpDef, req map[string]interface{}) string {
	vals := map[string]string{}
	var hs []string
	body := ""
	for _, in := range h.Inputs {
		switch {
		case in.Path || in.Query != "":
			vals[in.Name] = specText(req[in.Name])
		case in.Header != "":
			hs = append(hs, in.Header+": "+specText(req[in.Name]))
		default:
			body = sadl.Pretty(req[in.Name])
		}
	}
	sort.Strings(hs)
	return h.Method + " " + specQuery(specFill(h.Path, vals)) + "|" + strings.Join(hs, "|") + "|" + strings.TrimSpace(body)
}

func specResponse(h *sadl.HttpDef, exc *sadl.HttpExceptionSpec, res map[string]interface{}) string {
	status := int32(200)
	var outs []*sadl.HttpParamSpec
	if h.Expected != nil {
		status, outs = h.Expected.Status, h.Expected.Outputs
	}
	body := ""
	var hs []string
	if exc != nil {
		status = exc.Status
		body = sadl.Pretty(res)
	} else {
		for _, out := range outs {
			if out.Header != "" {
				hs = append(hs, out.Header+": "+specText(res[out.Name]))
			} else if status != 204 {
				body = sadl.Pretty(res[out.Name])
			}
		}
	}
	sort.Strings(hs)
	return strconv.Itoa(int(status)) + "|" + strings.Join(hs, "|") + "|" + body
}

// specParse: the messages in a trace
func specParse(text string) ([]string, bool) {
	var out []string
	for text != "" {
		i := strings.IndexByte(text, '\n')
		if i < 0 {
			break
		}
		line := text[:i]
		text = text[i+1:]
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		isResp := strings.HasPrefix(line, "HTTP/1.1 ")
		if !isResp && !strings.HasSuffix(line, " HTTP/1.1") {
			return nil, false
		}
		var hs []string
		length := -1
		for {
			j := strings.IndexByte(text, '\n')
			if j < 0 {
				return nil, false
			}
			h := text[:j]
			text = text[j+1:]
			if h == "" {
				break
			}
			switch {
			case strings.HasPrefix(h, "Content-Length: "):
				n, err := strconv.Atoi(h[len("Content-Length: "):])
				if err != nil || length >= 0 {
					return nil, false
				}
				length = n
			case strings.HasPrefix(h, "Content-Type:"), strings.HasPrefix(h, "Date:"), strings.HasPrefix(h, "Accept:"):
			default:
				hs = append(hs, h)
			}
		}
		sort.Strings(hs)
		body := ""
		if isResp {
			if length < 0 || length > len(text) {
				return nil, false
			}
			body = text[:length]
			text = text[length:]
			if text != "" && text[0] != '\n' {
				return nil, false
			}
			f := strings.Fields(line)
			out = append(out, f[1]+"|"+strings.Join(hs, "|")+"|"+body)
			continue
		}
		for text != "" && !strings.HasPrefix(text, "#") {
			j := strings.IndexByte(text, '\n')
			if j < 0 {
				j = len(text) - 1
			}
			body += text[:j+1]
			text = text[j+1:]
		}
		out = append(out, strings.TrimSuffix(line, " HTTP/1.1")+"|"+strings.Join(hs, "|")+"|"+strings.TrimSpace(body))
	}
	return out, true
}

//govc:target httptrace.generateHttpTrace
//govc:bounded the trace is read back as text
func verify_C20_trace(model *sadl.Model, h *sadl.HttpDef) {
	text, err := generateHttpTrace(model, h)
	vEnsures("no error", err == nil)
	got, ok := specParse(text)
	vEnsures("well-formed messages with their Content-Length", ok)
	var want []string
	for _, ex := range model.Examples {
		if ex.Target != sadl.Capitalize(h.Name)+"Request" {
			continue
		}
		m := specRequest(h, ex.Example.(map[string]interface{}))
		for _, rx := range model.Examples {
			if rx.Name != ex.Name {
				continue
			}
			if rx.Target == sadl.Capitalize(h.Name)+"Response" {
				m += "\n" + specResponse(h, nil, rx.Example.(map[string]interface{}))
			}
			for _, exc := range h.Exceptions {
				if exc.Type == rx.Target {
					m += "\n" + specResponse(h, exc, rx.Example.(map[string]interface{}))
				}
			}
		}
		want = append(want, m)
	}
	// a response follows its request
	var msgs []string
	for _, g := range got {
		if len(g) > 3 && g[3] == '|' && g[0] >= '1' && g[0] <= '9' && len(msgs) > 0 {
			msgs[len(msgs)-1] += "\n" + g
			continue
		}
		msgs = append(msgs, g)
	}
	sort.Strings(msgs)
	sort.Strings(want)
	vEnsures("as many messages as examples", len(msgs) == len(want))
	for i, w := range want {
		vEnsures("the example's messages", msgs[i] == w)
	}
}

//govc:target httptrace.stringExample
func verify_C20_value(ex interface{}) {
	s, isText := ex.(string)
	sp, isPtr := ex.(*string)
	d, isDec := ex.(*sadl.Decimal)
	b, isBool := ex.(bool)
	vRequires(!isPtr || sp != nil)
	vRequires(!isDec || d != nil)
	r := stringExample(ex)
	vEnsures("a text is itself", !isText || r == s)
	vEnsures("a text pointer is its text", !isPtr || r == *sp)
	vEnsures("a number is its decimal text", !isDec || r == d.String())
	vEnsures("a boolean is true or false", !isBool || r == specText(b))
	vEnsures("a missing value is empty", ex != nil || r == "")
}

//govc:target httptrace.stripMissingOptionalQueryParams
func verify_C20_query(uri string) {
	vEnsures("parameters with a value are kept, in order", stripMissingOptionalQueryParams(uri) == specQuery(uri))
}

var specNames = []string{"id", "name", "limit", "skip", "flag", "tag", "i", "names"}

func genScalar(g *vGen) interface{} {
	switch g.n(6) {
	case 0:
		return nil
	case 1:
		return sadl.NewDecimal(float64(g.n(2000)) / 4)
	case 2:
		return g.chance(50)
	case 3:
		return g.pick("", "x", "a=b", "YQ==", "hello", "caf\u00e9", "\u65e5\u672c", "\U0001F600")
	}
	s := g.pick("", "x", "a=b", "YQ==", "hello world", "42", "=", "na\u00efve", "\u65e5", "<&>")
	return &s
}

func genBody(g *vGen) interface{} {
	switch g.n(4) {
	case 0:
		return nil
	case 1:
		return genScalar(g)
	}
	m := map[string]interface{}{}
	for i := g.n(4); i > 0; i-- {
		m[g.pick("a", "b", "ccc")] = genScalar(g)
	}
	return m
}

func gen_C20_trace(g *vGen) (*sadl.Model, *sadl.HttpDef) {
	h := &sadl.HttpDef{Name: g.pick("getItem", "PutItem", "x"), Method: g.pick("GET", "PUT", "POST", "DELETE")}
	names := append([]string{}, specNames...)
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	path, query := "/items", ""
	if g.chance(20) {
		query = g.pick("v=1", "verbose", "v=")
	}
	for _, n := range names[:g.n(len(names)+1)] {
		in := &sadl.HttpParamSpec{}
		in.Name = n
		in.Type = "String"
		switch g.n(4) {
		case 0:
			in.Path = true
			path += "/{" + n + "}"
			if g.chance(25) {
				path += g.pick("/alt/{"+n+"}", "-{"+n+"}")
			}
		case 1:
			in.Query = g.pick(n, n+"s")
			if query != "" {
				query += "&"
			}
			query += in.Query + "={" + n + "}"
			if g.chance(20) {
				query += g.pick("&alt={"+n+"}", ",{"+n+"}")
			}
		case 2:
			in.Header = "X-" + n
		case 3:
			if !g.chance(50) {
				continue
			}
		}
		h.Inputs = append(h.Inputs, in)
	}
	nb := 0
	for i := 0; i < len(h.Inputs); i++ {
		in := h.Inputs[i]
		if !in.Path && in.Query == "" && in.Header == "" {
			nb++
			if nb > 1 {
				h.Inputs = append(h.Inputs[:i], h.Inputs[i+1:]...)
				i--
			}
		}
	}
	h.Path = path
	if query != "" {
		h.Path += "?" + query
	}
	h.Expected = &sadl.HttpExpectedSpec{Status: []int32{200, 201, 204, 304}[g.n(4)]}
	nb = 0
	for _, n := range names[:g.n(4)] {
		out := &sadl.HttpParamSpec{}
		out.Name = n
		out.Type = "String"
		if g.chance(60) || nb > 0 {
			out.Header = "Y-" + n
		} else {
			nb++
		}
		h.Expected.Outputs = append(h.Expected.Outputs, out)
	}
	for i := 0; i < g.n(3); i++ {
		h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: "Err" + strconv.Itoa(i), Status: int32(400 + g.n(100))})
	}
	m := &sadl.Model{}
	obj := func(ps []*sadl.HttpParamSpec) map[string]interface{} {
		r := map[string]interface{}{}
		for _, p := range ps {
			if g.chance(85) {
				if p.Path || p.Query != "" || p.Header != "" {
					r[p.Name] = genScalar(g)
				} else {
					r[p.Name] = genBody(g)
				}
			}
		}
		return r
	}
	for i, n := 0, 1+g.few(3); i < n; i++ {
		name := "ex" + strconv.Itoa(i)
		m.Examples = append(m.Examples, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + "Request", Name: name, Example: obj(h.Inputs)})
		switch g.n(4) {
		case 0:
		case 1:
			if len(h.Exceptions) > 0 {
				m.Examples = append(m.Examples, &sadl.ExampleDef{Target: h.Exceptions[g.n(len(h.Exceptions))].Type, Name: name, Example: obj(h.Inputs)})
			}
		default:
			m.Examples = append(m.Examples, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + "Response", Name: name, Example: obj(h.Expected.Outputs)})
		}
	}
	if g.chance(30) {
		m.Examples = append(m.Examples, &sadl.ExampleDef{Target: "Other", Name: "ex0", Example: "x"})
	}
	g.r.Shuffle(len(m.Examples), func(i, j int) { m.Examples[i], m.Examples[j] = m.Examples[j], m.Examples[i] })
	if g.chance(8) {
		h.Expected = nil
	}
	return m, h
}
func gen_C20_value(g *vGen) interface{} { return genScalar(g) }
func gen_C20_query(g *vGen) string {
	s := g.pick("/a", "/a/b", "")
	if g.chance(80) {
		s += "?"
	}
	for i := g.few(5); i > 0; i-- {
		s += g.pick("a=1", "b=", "c", "d=x=", "=", "&", "", "e=5") + g.pick("&", "&", "&", "?", "")
	}
	return s
}
