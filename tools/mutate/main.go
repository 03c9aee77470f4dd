// mutate lists small changes of Go files as JSON lines; used to test the checks, see DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File, Func, What string
	Line, Off, End   int
	New              string
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		emit := func(p, e token.Pos, what, repl string) {
			a, b := fs.Position(p), fs.Position(e)
			out.Encode(mutant{f, fn, what, a.Line, a.Offset, b.Offset, repl})
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				fn = d.Name.Name
				if d.Recv != nil && len(d.Recv.List) > 0 {
					fn = text(d.Recv.List[0].Type) + "." + fn
				}
			default:
				fn = "(top)"
			}
			named := false
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Type.Results != nil {
				for _, r := range fd.Type.Results.List {
					named = named || len(r.Names) > 0
				}
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
					for _, a := range alt[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), n.Op.String()+" -> "+a+" in "+text(n), a)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n.Pos(), n.End(), "only left of "+text(n), "("+text(n.X)+")")
						emit(n.Pos(), n.End(), "only right of "+text(n), "("+text(n.Y)+")")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						emit(n.Pos(), n.End(), "without ! in "+text(n), text(n.X))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), n.Value+" + 1", fmt.Sprint(v+1))
							if v > 0 {
								emit(n.Pos(), n.End(), n.Value+" - 1", fmt.Sprint(v-1))
							}
						}
					}
					if n.Kind == token.STRING && len(n.Value) > 2 && fn != "(top)" {
						_ = n
					}
				case *ast.IfStmt:
					if n.Init == nil {
						emit(n.Cond.Pos(), n.Cond.End(), "never: if "+text(n.Cond), "false && ("+text(n.Cond)+")")
						emit(n.Cond.Pos(), n.Cond.End(), "always: if "+text(n.Cond), "true || ("+text(n.Cond)+")")
					} else {
						emit(n.Cond.Pos(), n.Cond.End(), "never: if "+text(n.Cond), "("+text(n.Cond)+") && false")
					}
				case *ast.BranchStmt:
					if n.Tok == token.BREAK && n.Label == nil || n.Tok == token.CONTINUE && n.Label == nil {
						emit(n.Pos(), n.End(), "no "+text(n), "")
						if n.Tok == token.BREAK {
							emit(n.Pos(), n.End(), "continue for break", "continue")
						} else {
							emit(n.Pos(), n.End(), "break for continue", "break")
						}
					}
				case *ast.ExprStmt:
					emit(n.Pos(), n.End(), "no "+text(n), "")
				case *ast.DeferStmt:
					emit(n.Pos(), n.End(), "no "+text(n), "")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						var l []string
						for _, x := range n.Rhs {
							l = append(l, text(x))
						}
						emit(n.Pos(), n.End(), "no "+text(n), strings.Repeat("_, ", len(l)-1)+"_ = "+strings.Join(l, ", "))
					}
				case *ast.IncDecStmt:
					emit(n.Pos(), n.End(), "no "+text(n), "")
				case *ast.ReturnStmt:
					if len(n.Results) == 0 && named {
						return true
					}
					if len(n.Results) > 0 {
						last := n.Results[len(n.Results)-1]
						t := text(last)
						switch {
						case t == "true":
							emit(last.Pos(), last.End(), "return false", "false")
						case t == "false":
							emit(last.Pos(), last.End(), "return true", "true")
						case t == "err" || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "err") && !strings.Contains(t, "("):
							emit(last.Pos(), last.End(), "nil for "+t, "nil")
						}
					}
				case *ast.CaseClause:
					for i, x := range n.List {
						if len(n.List) > 1 {
							if i == 0 {
								emit(x.Pos(), n.List[1].Pos(), "no case "+text(x), "")
							} else {
								emit(n.List[i-1].End(), x.End(), "no case "+text(x), "")
							}
						}
					}
				case *ast.KeyValueExpr:
					if fn == "(top)" {
						emit(n.Pos(), n.End()+1, "no element "+text(n), "")
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low.Pos(), n.Low.End(), "no low bound in "+text(n), "")
					}
					if n.High != nil && n.Max == nil {
						emit(n.High.Pos(), n.High.End(), "no high bound in "+text(n), "")
					}
				}
				return true
			})
		}
	}
}
