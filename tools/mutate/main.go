// Command mutate lists small mutations of Go files as JSON lines (development only: used to look for gaps in the checks).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	ID    int    `json:"id"`
	File  string `json:"file"`
	Func  string `json:"func"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Desc  string `json:"desc"`
}

func main() {
	id := 0
	enc := json.NewEncoder(os.Stdout)

	for _, f := range os.Args[1:] {
		only := map[string]bool{}
		if i := strings.IndexByte(f, ':'); i >= 0 {
			for _, n := range strings.Split(f[i+1:], ",") {
				only[n] = true
			}
			f = f[:i]
		}

		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}

		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}

		off := func(p token.Pos) int { return fs.Position(p).Offset }

		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if len(only) > 0 && !only[fd.Name.Name] {
				continue
			}

			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			emit := func(n ast.Node, repl, kind string) {
				id++
				old := text(n)
				if len(old) > 70 {
					old = old[:70] + "..."
				}
				_ = enc.Encode(mut{id, f, fd.Name.Name, fs.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), repl,
					fmt.Sprintf("%s: %q -> %q", kind, old, short(repl))})
			}

			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					c := text(x.Cond)
					emit(x.Cond, "!("+c+")", "neg")
					if b, ok := x.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
						emit(x.Cond, text(b.X), "left")
						emit(x.Cond, text(b.Y), "right")
					}
					if x.Else == nil && x.Init == nil {
						emit(x, "{}", "dropif")
					}
					if x.Else != nil {
						emit(x.Else, "{}", "dropelse")
					}
				case *ast.BinaryExpr:
					switch x.Op {
					case token.LAND, token.LOR:
						o := "||"
						if x.Op == token.LOR {
							o = "&&"
						}
						emit(x, "(("+text(x.X)+") "+o+" ("+text(x.Y)+"))", "andor")
					case token.EQL:
						emit(x, "("+text(x.X)+" != "+text(x.Y)+")", "cmp")
					case token.NEQ:
						emit(x, "("+text(x.X)+" == "+text(x.Y)+")", "cmp")
					case token.LSS, token.LEQ, token.GTR, token.GEQ:
						m := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">"}
						emit(x, text(x.X)+m[x.Op]+text(x.Y), "cmp")
					case token.ADD:
						emit(x, text(x.X), "addl")
						emit(x, text(x.Y), "addr")
					}
				case *ast.ExprStmt:
					emit(x, "", "drop")
				case *ast.DeferStmt:
					emit(x, "", "drop")
					emit(x, text(x.Call), "undefer")
				case *ast.IncDecStmt:
					emit(x, "", "drop")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x, "", "drop")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit(x, "break", "brk")
						emit(x, "", "drop")
					}
					if x.Tok == token.BREAK {
						emit(x, "", "drop")
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						l := x.Results[len(x.Results)-1]
						t := text(l)
						if t != "nil" && fd.Type.Results != nil {
							emit(l, "nil", "retnil")
						}
						if t == "true" || t == "false" {
							emit(l, map[string]string{"true": "false", "false": "true"}[t], "bool")
						}
					} else {
						emit(x, "", "drop")
					}
				case *ast.RangeStmt:
					emit(x, "{}", "droploop")
				case *ast.CaseClause:
					if len(x.Body) > 0 && x.List != nil {
						var b bytes.Buffer
						b.Write(src[off(x.Case):off(x.Colon)])
						b.WriteString(":")
						emit(x, b.String(), "dropcase")
					}
				case *ast.BasicLit:
					if x.Kind == token.STRING {
						if x.Value != `""` && !strings.Contains(x.Value, "%") {
							emit(x, `"zz"`, "str")
						}
					} else if x.Kind == token.INT {
						emit(x, x.Value+"+1", "int")
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						emit(x, map[string]string{"true": "false", "false": "true"}[x.Name], "bool")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x, text(x.X), "unnot")
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 0 {
						emit(x, text(x.Args[0]), "noappend")
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 && !x.Ellipsis.IsValid() {
						if p, ok := s.X.(*ast.Ident); ok && (p.Name == "strings" || p.Name == "path") {
							emit(x, text(x.Args[0]), "uncall")
						}
					}
					if len(x.Args) == 1 {
						if i, ok := x.Fun.(*ast.Ident); ok && strings.HasPrefix(i.Name, "sanitize") {
							emit(x, text(x.Args[0]), "uncall")
						}
					}
				case *ast.KeyValueExpr:
					emit(x, "", "dropkv")
				}

				return true
			})
		}
	}
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}
