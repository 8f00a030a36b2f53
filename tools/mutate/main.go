// mutate FILE: lists the mutants of a Go file as JSON lines {id,line,what,text}; development only.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

type edit struct {
	lo, hi int
	text   string
	what   string
	line   int
}

func main() {
	src, _ := os.ReadFile(os.Args[1])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, t, w string) {
		es = append(es, edit{off(a), off(b), t, w, fs.Position(a).Line})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}
	var fn string
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BinaryExpr:
				for _, t := range swap[v.Op] {
					add(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), t, fn+": "+str(v)+" => "+t)
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					add(v.Pos(), v.End(), str(v.X), fn+": "+str(v)+" => left")
					add(v.Pos(), v.End(), str(v.Y), fn+": "+str(v)+" => right")
				}
			case *ast.IfStmt:
				add(v.Cond.Pos(), v.Cond.End(), "!("+str(v.Cond)+")", fn+": negate "+str(v.Cond))
				if v.Init == nil {
					add(v.Cond.Pos(), v.Cond.End(), "false && ("+str(v.Cond)+")", fn+": never "+str(v.Cond))
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					add(v.Pos(), v.End(), "("+v.Value+"+1)", fn+": "+v.Value+"+1")
				}
				if v.Kind == token.STRING && len(v.Value) > 2 && v.Value[0] == '"' {
					add(v.Pos(), v.End(), v.Value[:len(v.Value)-1]+"_\"", fn+": literal "+v.Value)
				}
			case *ast.Ident:
				if v.Name == "true" {
					add(v.Pos(), v.End(), "false", fn+": true=>false")
				}
				if v.Name == "false" {
					add(v.Pos(), v.End(), "true", fn+": false=>true")
				}
			case *ast.BranchStmt:
				if v.Tok == token.BREAK && v.Label == nil {
					add(v.Pos(), v.End(), "continue", fn+": break=>continue")
				}
				if v.Tok == token.CONTINUE && v.Label == nil {
					add(v.Pos(), v.End(), "break", fn+": continue=>break")
				}
			case *ast.ExprStmt:
				add(v.Pos(), v.End(), "", fn+": delete "+str(v))
			case *ast.IncDecStmt:
				add(v.Pos(), v.End(), "", fn+": delete "+str(v))
			case *ast.AssignStmt:
				if v.Tok == token.ASSIGN {
					add(v.Pos(), v.End(), "", fn+": delete "+str(v))
				}
			case *ast.CaseClause:
				if len(v.List) > 1 {
					add(v.List[0].Pos(), v.List[1].Pos(), "", fn+": drop case "+str(v.List[0]))
				}
			case *ast.SliceExpr:
				if v.Low != nil {
					add(v.Low.Pos(), v.Low.End(), str(v.Low)+"+1", fn+": "+str(v)+" low+1")
				}
			case *ast.UnaryExpr:
				if v.Op == token.NOT {
					add(v.Pos(), v.X.Pos(), "", fn+": drop ! "+str(v))
				}
			}
			return true
		})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].lo < es[j].lo })
	for i, e := range es {
		t := string(src[:e.lo]) + e.text + string(src[e.hi:])
		w := strings.Join(strings.Fields(e.what), " ")
		b, _ := json.Marshal(map[string]interface{}{"id": i, "line": e.line, "what": w, "text": t})
		fmt.Println(string(b))
	}
}
