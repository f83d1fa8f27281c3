// mutate lists single edits of the Go files given: one JSON object per line
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type edit struct {
	File       string `json:"file"`
	From, To   int
	New, What  string
	Line       int
	Func       string
}

func main() {
	// method names by file package for exchanges
	enc := json.NewEncoder(os.Stdout)
	names := map[string]bool{}
	files := map[string]*ast.File{}
	src := map[string][]byte{}
	fs := token.NewFileSet()
	for _, p := range os.Args[1:] {
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fs, p, b, 0)
		if err != nil {
			panic(err)
		}
		files[p], src[p] = f, b
		for _, d := range f.Decls {
			if g, ok := d.(*ast.FuncDecl); ok {
				names[g.Name.Name] = true
			}
		}
	}
	for _, p := range os.Args[1:] {
		f, b := files[p], src[p]
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			g, ok := d.(*ast.FuncDecl)
			if !ok || g.Body == nil {
				continue
			}
			emit := func(from, to int, s, what string) {
				enc.Encode(edit{p, from, to, s, what, fs.Position(token.Pos(fs.File(f.Pos()).Base() + from)).Line, g.Name.Name})
			}
			put := func(n ast.Node, s, what string) { emit(off(n.Pos()), off(n.End()), s, what) }
			ast.Inspect(g.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					put(x.Cond, "!("+text(x.Cond)+")", "condition negated")
					if x.Else == nil {
						put(x, "", "if statement removed")
					}
				case *ast.BinaryExpr:
					for _, o := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}[x.Op] {
						emit(off(x.OpPos), off(x.OpPos)+len(x.Op.String()), o, "operator "+x.Op.String()+" becomes "+o)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						put(x, "("+x.Value+"+1)", "literal +1")
						if x.Value != "0" {
							put(x, "("+x.Value+"-1)", "literal -1")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						put(x, "false", "true becomes false")
					} else if x.Name == "false" {
						put(x, "true", "false becomes true")
					}
				case *ast.ExprStmt:
					put(x, "", "statement removed")
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						l := x.Results[len(x.Results)-1]
						if text(l) == "err" {
							put(l, "nil", "error dropped")
						}
					}
				case *ast.BlockStmt:
					for k := 0; k+1 < len(x.List); k++ {
						// a call with its error check
						a, ok1 := x.List[k].(*ast.AssignStmt)
						i, ok2 := x.List[k+1].(*ast.IfStmt)
						if ok1 && ok2 && len(a.Lhs) == 1 && text(a.Lhs[0]) == "err" && text(i.Cond) == "err != nil" {
							emit(off(a.Pos()), off(i.End()), "", "call with its check removed: "+text(a.Rhs[0]))
							if k+3 < len(x.List) {
								b2, ok3 := x.List[k+2].(*ast.AssignStmt)
								i2, ok4 := x.List[k+3].(*ast.IfStmt)
								if ok3 && ok4 && len(b2.Lhs) == 1 && text(b2.Lhs[0]) == "err" && text(i2.Cond) == "err != nil" {
									emit(off(a.Pos()), off(i2.End()), text(b2)+"\n"+text(i2)+"\n"+text(a)+"\n"+text(i), "calls exchanged")
								}
							}
						}
						emit(off(x.List[k].Pos()), off(x.List[k+1].End()), text(x.List[k+1])+"\n"+text(x.List[k]), "statements exchanged")
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN {
						put(x, "", "assignment removed")
					}
				case *ast.CallExpr:
					for k := 0; k+1 < len(x.Args); k++ {
						if text(x.Args[k]) != text(x.Args[k+1]) {
							emit(off(x.Args[k].Pos()), off(x.Args[k+1].End()), text(x.Args[k+1])+", "+text(x.Args[k]), "arguments exchanged")
						}
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && names[s.Sel.Name] {
						for _, o := range similar(s.Sel.Name, names) {
							put(s.Sel, o, "call of "+s.Sel.Name+" becomes "+o)
						}
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						put(x, "continue", "break becomes continue")
					} else if x.Tok == token.CONTINUE {
						put(x, "break", "continue becomes break")
					}
				case *ast.CompositeLit:
					for k := 0; k+1 < len(x.Elts); k++ {
						p1, ok1 := x.Elts[k].(*ast.KeyValueExpr)
						p2, ok2 := x.Elts[k+1].(*ast.KeyValueExpr)
						if ok1 && ok2 && text(p1.Value) != text(p2.Value) {
							emit(off(p1.Value.Pos()), off(p2.Value.End()), text(p2.Value)+string(b[off(p1.End()):off(p2.Value.Pos())])+text(p1.Value), "field values exchanged")
						}
					}
				}
				return true
			})
		}
	}
	fmt.Fprint(os.Stderr, len(names), " names\n")
}

// similar: other names with the same first word
func similar(n string, all map[string]bool) []string {
	first := func(s string) string {
		for i := 1; i < len(s); i++ {
			if s[i] >= 'A' && s[i] <= 'Z' {
				return s[:i]
			}
		}
		return s
	}
	var r []string
	for m := range all {
		if m != n && first(m) == first(n) && !strings.HasPrefix(m, "New") {
			r = append(r, m)
		}
	}
	return r
}
