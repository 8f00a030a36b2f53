package main

import (
	"fmt"
	"sort"
	"strings"
)

// SMT-LIB printer. Two string encodings: "u" (uninterpreted sort with axioms) and "s" (theory of strings).

type smtPrinter struct {
	mode  string
	sb    strings.Builder
	decl  map[string]string
	declT map[string]*Term
	strs  map[string]int
	sites map[string][]string // site -> arg sorts
	flds  map[string]bool
	icons map[string][]string
	ops   map[string]bool
	count map[*Term]int
	named map[*Term]string
	defs  strings.Builder
	flits map[string]bool
	inPat bool
	patNm map[*Term]string
	bad   map[*Term]bool
}

// notPattern: the term contains Boolean structure, which solvers refuse in patterns
func (p *smtPrinter) notPattern(t *Term) bool {
	if b, ok := p.bad[t]; ok {
		return b
	}
	r := t.sort == "Bool" && t.op != "app" && t.op != "select"
	for _, a := range t.args {
		r = r || p.notPattern(a)
	}
	if t.op == "ite" {
		r = true
	}
	if p.bad == nil {
		p.bad = map[*Term]bool{}
	}
	p.bad[t] = r
	return r
}

func q(name string) string {
	simple := len(name) > 0 && !(name[0] >= '0' && name[0] <= '9')
	for i := 0; i < len(name) && simple; i++ {
		c := name[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("~!@$%^&*_+=<>.?/-", c) >= 0) {
			simple = false
		}
	}
	if simple {
		return name
	}
	name = strings.NewReplacer("|", "/", "\\", "/").Replace(name)
	return "|" + name + "|"
}

func (p *smtPrinter) srt(s string) string {
	if p.mode == "s" {
		return strings.ReplaceAll(s, "Str", "String")
	}
	return s
}

func (p *smtPrinter) scan(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		p.scan(a, seen)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.scan(x, seen)
		}
	}
	switch t.op {
	case "app":
		var as []string
		for _, a := range t.args {
			as = append(as, p.srt(a.sort))
		}
		p.decl[t.name] = "(" + strings.Join(as, " ") + ") " + p.srt(t.sort)
		p.declT[t.name] = t
	case "str":
		if _, ok := p.strs[t.name]; !ok {
			p.strs[t.name] = len(p.strs)
		}
	case "new":
		var as []string
		for _, a := range t.args {
			as = append(as, p.srt(a.sort))
		}
		p.sites[t.name] = as
	case "fld":
		p.flds[t.name] = true
	case "icon":
		var as []string
		for _, a := range t.args {
			as = append(as, p.srt(a.sort))
		}
		p.icons[t.name] = as
	case "itest":
		p.needIcon(t.name)
	case "isel":
		i := strings.LastIndex(t.name, "_")
		p.needIcon(t.name[:i])
	}
	p.ops[t.op] = true
}

func (p *smtPrinter) needIcon(name string) {
	if _, ok := p.icons[name]; ok {
		return
	}
	if name == errIcon {
		p.icons[name] = []string{p.srt("Str")}
		return
	}
	for _, ic := range icons {
		if ic.name == name {
			var as []string
			for _, s := range ic.sorts {
				as = append(as, p.srt(s))
			}
			p.icons[name] = as
		}
	}
}

// countShared counts references to closed terms
func (p *smtPrinter) countRefs(t *Term) {
	p.count[t]++
	if p.count[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.countRefs(a)
	}
}

func (p *smtPrinter) lit(t *Term) (string, bool) {
	switch t.op {
	case "true", "false":
		return t.op, true
	case "int":
		if strings.HasPrefix(t.name, "-") {
			return "(- " + t.name[1:] + ")", true
		}
		return t.name, true
	case "real":
		if strings.HasPrefix(t.name, "-") {
			return "(- " + t.name[1:] + ")", true
		}
		return t.name, true
	case "null":
		return "rnull", true
	case "nili":
		return "nili", true
	case "var":
		return q(t.name), true
	case "str":
		if p.mode == "s" {
			return smtString(t.name), true
		}
		return fmt.Sprintf("str!%d", p.strs[t.name]), true
	case "app":
		if len(t.args) == 0 {
			return q(t.name), true
		}
	case "new":
		if len(t.args) == 0 {
			return q("new!" + t.name), true
		}
	case "icon":
		if len(t.args) == 0 {
			return t.name, true
		}
	}
	return "", false
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 32 && c < 127 && c != '"' && c != '\\' {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// pr prints a term; loc holds let-bound names for open terms
func (p *smtPrinter) pr(t *Term, loc map[*Term]string) string {
	if s, ok := p.lit(t); ok {
		return s
	}
	if s, ok := loc[t]; ok {
		return s
	}
	if p.inPat && len(t.fv) == 0 && p.notPattern(t) {
		if n, ok := p.patNm[t]; ok {
			return n
		}
		p.inPat = false
		s := p.pr(t, loc)
		p.inPat = true
		n := fmt.Sprintf("g!%d", t.id)
		fmt.Fprintf(&p.defs, "(declare-const %s %s)\n(assert (= %s %s))\n", n, p.srt(t.sort), n, s)
		if p.patNm == nil {
			p.patNm = map[*Term]string{}
		}
		p.patNm[t] = n
		return n
	}
	if s, ok := p.named[t]; ok {
		return s
	}
	s := p.body(t, loc)
	if len(t.fv) == 0 && p.count[t] > 1 {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, p.srt(t.sort), s)
		p.named[t] = n
		return n
	}
	return s
}

func (p *smtPrinter) body(t *Term, loc map[*Term]string) string {
	arg := func(i int) string { return p.pr(t.args[i], loc) }
	args := func() string {
		var ss []string
		for _, a := range t.args {
			ss = append(ss, p.pr(a, loc))
		}
		return strings.Join(ss, " ")
	}
	switch t.op {
	case "app":
		return "(" + q(t.name) + " " + args() + ")"
	case "new":
		return "(" + q("new!"+t.name) + " " + args() + ")"
	case "fld":
		return "(" + q("fld!"+t.name) + " " + arg(0) + ")"
	case "icon":
		return "(" + t.name + " " + args() + ")"
	case "itest":
		return "((_ is " + t.name + ") " + arg(0) + ")"
	case "isel":
		return "(" + t.name + " " + arg(0) + ")"
	case "const":
		return "((as const " + p.srt(t.sort) + ") " + arg(0) + ")"
	case "concat":
		if p.mode == "s" {
			return "(str.++ " + args() + ")"
		}
		r := arg(0)
		for i := 1; i < len(t.args); i++ {
			r = "(cat " + r + " " + arg(i) + ")"
		}
		return r
	case "slen":
		if p.mode == "s" {
			return "(str.len " + arg(0) + ")"
		}
		return "(slen " + arg(0) + ")"
	case "sub":
		if p.mode == "s" {
			return "(str.substr " + arg(0) + " " + arg(1) + " (- " + arg(2) + " " + arg(1) + "))"
		}
		return "(ssub " + args() + ")"
	case "sat":
		if p.mode == "s" {
			return "(str.to_code (str.at " + args() + "))"
		}
		return "(sat " + args() + ")"
	case "strlt":
		if p.mode == "s" {
			return "(str.< " + args() + ")"
		}
		return "(strlt " + args() + ")"
	case "sindex":
		if p.mode == "s" {
			return "(str.indexof " + args() + " 0)"
		}
		return "(sindex " + args() + ")"
	case "forall", "exists":
		return p.quant(t, loc)
	case "and", "or", "=>", "not", "ite", "=", "<=", "+", "*", "select", "store", "r<", "r<=", "to_real":
		op := t.op
		switch op {
		case "r<":
			op = "<"
		case "r<=":
			op = "<="
		}
		return "(" + op + " " + args() + ")"
	}
	if len(t.args) == 0 {
		return q(t.op)
	}
	return "(" + t.op + " " + args() + ")"
}

func (p *smtPrinter) quant(t *Term, loc map[*Term]string) string {
	var bs []string
	bound := map[*Term]bool{}
	for _, b := range t.bind {
		bs = append(bs, "("+q(b.name)+" "+p.srt(b.sort)+")")
		bound[b] = true
	}
	// shared open subterms of the body that involve this quantifier's variables but no inner ones
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	innerBound := map[*Term]bool{}
	var findInner func(x *Term, seen map[*Term]bool)
	findInner = func(x *Term, seen map[*Term]bool) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, b := range x.bind {
			innerBound[b] = true
		}
		for _, a := range x.args {
			findInner(a, seen)
		}
	}
	findInner(t.args[0], map[*Term]bool{})
	walk = func(x *Term) {
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		order = append(order, x)
	}
	walk(t.args[0])
	nl := map[*Term]string{}
	for k, v := range loc {
		nl[k] = v
	}
	var lets []string
	for _, x := range order {
		if cnt[x] < 2 || len(x.fv) == 0 {
			continue
		}
		if _, ok := p.lit(x); ok {
			continue
		}
		if _, ok := loc[x]; ok {
			continue
		}
		touches, inner := false, false
		for v := range x.fv {
			if bound[v] {
				touches = true
			}
			if innerBound[v] {
				inner = true
			}
		}
		if !touches || inner {
			continue
		}
		s := p.pr(x, nl)
		n := fmt.Sprintf("l!%d", x.id)
		lets = append(lets, fmt.Sprintf("(let ((%s %s)) ", n, s))
		nl[x] = n
	}
	b := p.pr(t.args[0], nl)
	for _, l := range lets {
		_ = l
	}
	body := strings.Join(lets, "") + b + strings.Repeat(")", len(lets))
	if len(t.pats) > 0 {
		var ps []string
		for _, pt := range t.pats {
			var xs []string
			for _, x := range pt {
				xs = append(xs, p.prFull(x))
			}
			ps = append(ps, ":pattern ("+strings.Join(xs, " ")+")")
		}
		body = "(! " + body + " " + strings.Join(ps, " ") + ")"
	}
	return "(" + t.op + " (" + strings.Join(bs, " ") + ") " + body + ")"
}

func (p *smtPrinter) prFull(t *Term) string {
	if s, ok := p.lit(t); ok {
		return s
	}
	p.inPat = true
	defer func() { p.inPat = false }()
	if len(t.fv) == 0 {
		return p.pr(t, nil)
	}
	return p.body2(t)
}
func (p *smtPrinter) body2(t *Term) string {
	// full expansion for patterns
	loc := map[*Term]string{}
	return p.body(t, loc)
}

// nonNegAxiom states the range fact that the simplifier uses for a symbol
func (p *smtPrinter) nonNegAxiom(sb *strings.Builder, t *Term) {
	var bs, as []string
	for i, a := range t.args {
		v := fmt.Sprintf("nn!%d", i)
		bs = append(bs, "("+v+" "+p.srt(a.sort)+")")
		as = append(as, v)
	}
	e := q(t.name)
	if len(as) > 0 {
		e = "(" + e + " " + strings.Join(as, " ") + ")"
	}
	srt := t.sort
	for strings.HasPrefix(srt, "(Array ") {
		ks, vs := arrParts(srt)
		v := fmt.Sprintf("nn!%d", len(bs))
		bs = append(bs, "("+v+" "+p.srt(ks)+")")
		e = "(select " + e + " " + v + ")"
		srt = vs
	}
	if srt != "Int" {
		return
	}
	if len(bs) == 0 {
		fmt.Fprintf(sb, "(assert (<= 0 %s))\n", e)
		return
	}
	fmt.Fprintf(sb, "(assert (forall (%s) (! (<= 0 %s) :pattern (%s))))\n", strings.Join(bs, " "), e, e)
}

// oldAxiom: every reference reachable through this symbol existed before the call under verification
func (p *smtPrinter) oldAxiom(sb *strings.Builder, t *Term) {
	var bs, as []string
	for i, a := range t.args {
		v := fmt.Sprintf("nn!%d", i)
		bs = append(bs, "("+v+" "+p.srt(a.sort)+")")
		as = append(as, v)
	}
	e := q(t.name)
	if len(as) > 0 {
		e = "(" + e + " " + strings.Join(as, " ") + ")"
	}
	srt := t.sort
	for strings.HasPrefix(srt, "(Array ") {
		ks, vs := arrParts(srt)
		v := fmt.Sprintf("nn!%d", len(bs))
		bs = append(bs, "("+v+" "+p.srt(ks)+")")
		e = "(select " + e + " " + v + ")"
		srt = vs
	}
	if len(bs) == 0 {
		return
	}
	if srt == "Ref" {
		fmt.Fprintf(sb, "(assert (forall (%s) (! (isold %s) :pattern (%s))))\n", strings.Join(bs, " "), e, e)
	}
	if srt == "Iface" {
		for name, sorts := range p.icons {
			for i, so := range sorts {
				if so == "Ref" {
					x := fmt.Sprintf("(%s_%d %s)", name, i, e)
					fmt.Fprintf(sb, "(assert (forall (%s) (! (=> ((_ is %s) %s) (isold %s)) :pattern (%s))))\n", strings.Join(bs, " "), name, e, x, x)
				}
			}
		}
	}
}

func smtQuery(mode string, hyps []*Term, goal *Term, free []*Term, wantModel bool) string {
	p := &smtPrinter{mode: mode, decl: map[string]string{}, declT: map[string]*Term{}, strs: map[string]int{}, sites: map[string][]string{}, flds: map[string]bool{},
		icons: map[string][]string{}, ops: map[string]bool{}, count: map[*Term]int{}, named: map[*Term]string{}}
	seen := map[*Term]bool{}
	all := append(append([]*Term{}, hyps...), goal)
	fv := map[*Term]bool{}
	for _, h := range all {
		p.scan(h, seen)
		p.countRefs(h)
		for v := range h.fv {
			fv[v] = true
		}
	}
	// free variables become constants: substitute so that they are closed
	m := map[*Term]*Term{}
	var fvs []*Term
	for v := range fv {
		fvs = append(fvs, v)
	}
	sort.Slice(fvs, func(i, j int) bool { return fvs[i].name < fvs[j].name })
	if len(fvs) > 0 {
		for _, v := range fvs {
			c := Sym("c:"+v.name, v.sort)
			if oldSyms[v.name] {
				oldSyms["c:"+v.name] = true
			}
			m[v] = c
		}
		memo := map[*Term]*Term{}
		nh := make([]*Term, len(hyps))
		for i, h := range hyps {
			nh[i] = subst(h, m, memo)
		}
		ng := subst(goal, m, memo)
		return smtQuery(mode, nh, ng, nil, wantModel)
	}
	var sb strings.Builder
	if mode == "s" {
		sb.WriteString("(set-logic ALL)\n")
	}
	sb.WriteString("(set-option :produce-models true)\n")
	if mode == "u" {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	sb.WriteString("(declare-sort Flt 0)\n")
	// Ref datatype
	sb.WriteString("(declare-datatypes ((Ref 0)) (((rnull) (rold (roldid Int))")
	for _, f := range sortedKeys(p.flds) {
		fmt.Fprintf(&sb, " (%s (%s Ref))", q("fld!"+f), q("fldbase!"+f))
	}
	var ss []string
	for s := range p.sites {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		if len(p.sites[s]) == 0 {
			fmt.Fprintf(&sb, " (%s)", q("new!"+s))
			continue
		}
		fmt.Fprintf(&sb, " (%s", q("new!"+s))
		for i, a := range p.sites[s] {
			fmt.Fprintf(&sb, " (%s %s)", q(fmt.Sprintf("new!%s!%d", s, i)), a)
		}
		sb.WriteString(")")
	}
	sb.WriteString(")))\n")
	// Iface datatype
	sb.WriteString("(declare-datatypes ((Iface 0)) (((nili) (Iother (Iother_0 Int))")
	var is []string
	for s := range p.icons {
		is = append(is, s)
	}
	sort.Strings(is)
	for _, s := range is {
		fmt.Fprintf(&sb, " (%s", s)
		for i, a := range p.icons[s] {
			fmt.Fprintf(&sb, " (%s_%d %s)", s, i, a)
		}
		sb.WriteString(")")
	}
	sb.WriteString(")))\n")
	for _, d := range sortedKeysS(p.decl) {
		fmt.Fprintf(&sb, "(declare-fun %s %s)\n", q(d), p.decl[d])
		if nonNegSyms[d] {
			p.nonNegAxiom(&sb, p.declT[d])
		}
	}
	S := p.srt("Str")
	if mode == "u" {
		sb.WriteString("(declare-fun slen (Str) Int)\n(declare-fun cat (Str Str) Str)\n(declare-fun ssub (Str Int Int) Str)\n(declare-fun sat (Str Int) Int)\n(declare-fun strlt (Str Str) Bool)\n(declare-fun sindex (Str Str) Int)\n")
		type sl struct {
			s string
			i int
		}
		var ls []sl
		empty := -1
		for s, i := range p.strs {
			ls = append(ls, sl{s, i})
			if s == "" {
				empty = i
			}
		}
		sort.Slice(ls, func(a, b int) bool { return ls[a].i < ls[b].i })
		for _, l := range ls {
			fmt.Fprintf(&sb, "(declare-fun str!%d () Str) ; %s\n(assert (= (slen str!%d) %d))\n", l.i, strings.ReplaceAll(fmt.Sprintf("%q", l.s), "\n", " "), l.i, len(l.s))
			if p.ops["sat"] && len(l.s) <= 40 {
				for k := 0; k < len(l.s); k++ {
					fmt.Fprintf(&sb, "(assert (= (sat str!%d %d) %d))\n", l.i, k, l.s[k])
				}
			}
		}
		if len(ls) > 1 {
			sb.WriteString("(assert (distinct")
			for _, l := range ls {
				fmt.Fprintf(&sb, " str!%d", l.i)
			}
			sb.WriteString("))\n")
		}
		if empty < 0 {
			empty = len(p.strs)
			fmt.Fprintf(&sb, "(declare-fun str!%d () Str)\n(assert (= (slen str!%d) 0))\n", empty, empty)
		}
		e := fmt.Sprintf("str!%d", empty)
		sb.WriteString("(assert (forall ((s Str)) (! (and (>= (slen s) 0) (=> (= (slen s) 0) (= s " + e + "))) :pattern ((slen s)))))\n")
		if p.ops["concat"] {
			sb.WriteString("(assert (forall ((a Str) (b Str)) (! (= (slen (cat a b)) (+ (slen a) (slen b))) :pattern ((cat a b)))))\n")
			sb.WriteString("(assert (forall ((a Str) (b Str)) (! (and (=> (= a " + e + ") (= (cat a b) b)) (=> (= b " + e + ") (= (cat a b) a))) :pattern ((cat a b)))))\n")
			sb.WriteString("(assert (forall ((a Str) (b Str) (c Str)) (! (= (cat a (cat b c)) (cat (cat a b) c)) :pattern ((cat a (cat b c))))))\n")
			if p.ops["sat"] {
				sb.WriteString("(assert (forall ((a Str) (b Str) (i Int)) (! (= (sat (cat a b) i) (ite (and (<= 0 i) (< i (slen a))) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (cat a b) i)))))\n")
			}
			if p.ops["sub"] {
				sb.WriteString("(assert (forall ((a Str) (b Str)) (! (and (= (ssub (cat a b) 0 (slen a)) a) (= (ssub (cat a b) (slen a) (+ (slen a) (slen b))) b)) :pattern ((cat a b)))))\n")
			}
		}
		if p.ops["sub"] {
			sb.WriteString("(assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s))) (= (slen (ssub s l h)) (- h l))) :pattern ((ssub s l h)))))\n")
			sb.WriteString("(assert (forall ((s Str) (h Int)) (! (=> (= h (slen s)) (= (ssub s 0 h) s)) :pattern ((ssub s 0 h)))))\n")
			if p.ops["sat"] {
				sb.WriteString("(assert (forall ((s Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s)) (<= 0 i) (< i (- h l))) (= (sat (ssub s l h) i) (sat s (+ l i)))) :pattern ((sat (ssub s l h) i)))))\n")
			}
		}
		if p.ops["sat"] {
			sb.WriteString("(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))\n")
		}
		if p.ops["strlt"] {
			sb.WriteString("(assert (forall ((a Str) (b Str)) (! (and (not (and (strlt a b) (strlt b a))) (=> (not (= a b)) (or (strlt a b) (strlt b a)))) :pattern ((strlt a b)))))\n")
		}
	}
	_ = S
	if p.ops["tdiv"] || p.ops["tmod"] {
		sb.WriteString("(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))\n(define-fun tmod ((a Int) (b Int)) Int (- a (* b (tdiv a b))))\n")
	}
	for _, n := range []int{8, 16, 32, 64} {
		if p.ops[fmt.Sprintf("wrap%d", n)] {
			fmt.Fprintf(&sb, "(define-fun wrap%d ((a Int)) Int (mod a %s))\n", n, pow2(n))
		}
		if p.ops[fmt.Sprintf("wrap%ds", n)] {
			fmt.Fprintf(&sb, "(define-fun wrap%ds ((a Int)) Int (- (mod (+ a %s) %s) %s))\n", n, pow2(n-1), pow2(n), pow2(n-1))
		}
	}
	for _, o := range []string{"strbytes", "bytestr", "runestr"} {
		if p.ops[o] {
			switch o {
			case "strbytes":
				fmt.Fprintf(&sb, "(declare-fun strbytes (%s) (Array Int Int))\n", S)
				if mode == "u" {
					fmt.Fprintf(&sb, "(assert (forall ((s %s) (i Int)) (! (= (select (strbytes s) i) (sat s i)) :pattern ((select (strbytes s) i)))))\n", S)
				} else {
					fmt.Fprintf(&sb, "(assert (forall ((s %s) (i Int)) (! (= (select (strbytes s) i) (str.to_code (str.at s i))) :pattern ((select (strbytes s) i)))))\n", S)
				}
			case "bytestr":
				fmt.Fprintf(&sb, "(declare-fun bytestr ((Array Int Int) Int Int) %s)\n", S)
			case "runestr":
				fmt.Fprintf(&sb, "(declare-fun runestr (Int) %s)\n", S)
			}
		}
	}
	if _, ok := p.decl["itoa"]; ok && mode == "s" {
		// itoa stays uninterpreted but injective
	}
	if _, ok := p.decl["itoa"]; ok {
		sb.WriteString("(declare-fun atoi! (" + S + ") Int)\n(assert (forall ((i Int)) (! (= (atoi! (|itoa| i)) i) :pattern ((|itoa| i)))))\n")
	}
	var hs []string
	olds := map[string]bool{}
	for _, t := range sortedTerms(seen) {
		if t.sort == "Ref" && len(t.fv) == 0 && (t.op == "app" || t.op == "select" || t.op == "isel") && isOld(t) {
			olds[p.pr(t, nil)] = true
		}
	}
	for _, h := range hyps {
		if h == tTrue {
			continue
		}
		hs = append(hs, p.pr(h, nil))
	}
	g := p.pr(goal, nil)
	sb.WriteString(p.defs.String())
	if len(ss) > 0 {
		sb.WriteString("(declare-fun isold (Ref) Bool)\n(assert (forall ((r Ref)) (! (=> (isold r) (not (or false")
		for _, s := range ss {
			fmt.Fprintf(&sb, " ((_ is %s) r)", q("new!"+s))
		}
		sb.WriteString("))) :pattern ((isold r)))))\n")
		for _, f := range sortedKeys(p.flds) {
			fmt.Fprintf(&sb, "(assert (forall ((r Ref)) (! (=> (isold (%s r)) (isold r)) :pattern ((isold (%s r))))))\n", q("fld!"+f), q("fld!"+f))
		}
		for _, o := range sortedKeys(olds) {
			fmt.Fprintf(&sb, "(assert (isold %s))\n", o)
		}
		for _, d := range sortedKeysS(p.decl) {
			if oldSyms[d] {
				p.oldAxiom(&sb, p.declT[d])
			}
		}
	}
	for _, h := range hs {
		sb.WriteString("(assert " + h + ")\n")
	}
	sb.WriteString("(assert (not " + g + "))\n(check-sat)\n")
	return sb.String()
}

func pow2(n int) string {
	r := new(bigInt).Lsh(bigOne, uint(n))
	return r.String()
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
func sortedKeysS(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
