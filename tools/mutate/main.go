// mutate lists small changes of Go files, one JSON object per line.  It is
// used to look for changes that compile and pass the tests yet go unnoticed by
// the checks; nothing in MANIFEST.json needs it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Kind, Fn, Old, New string
	Line, Start, End         int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		emit := func(kind string, n ast.Node, repl string) {
			s, e := off(n.Pos()), off(n.End())
			enc.Encode(mut{file, kind, fn, string(src[s:e]), repl, fs.Position(n.Pos()).Line, s, e})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		isErr := func(e ast.Expr) bool {
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return false
			}
			x, ok := b.X.(*ast.Ident)
			y, ok2 := b.Y.(*ast.Ident)
			return ok && ok2 && x.Name == "err" && y.Name == "nil"
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					if isErr(x.Cond) {
						if x.Init == nil {
							emit("ignore-err", x, "_ = err")
						} else {
							emit("ignore-err", x.Cond, "false && "+text(x.Cond))
						}
					} else {
						emit("if-true", x.Cond, "true || "+text(x.Cond))
						emit("if-false", x.Cond, "false && ("+text(x.Cond)+")")
					}
				case *ast.ExprStmt:
					emit("del-call", x, "")
				case *ast.DeferStmt:
					emit("del-defer", x, "")
				case *ast.GoStmt:
					emit("no-go", x, text(x.Call))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						r := ""
						for i, l := range x.Rhs {
							if i > 0 {
								r += "; "
							}
							if len(x.Rhs) == len(x.Lhs) {
								r += "_ = " + text(l)
							} else {
								for j := range x.Lhs {
									if j > 0 {
										r += ", "
									}
									r += "_"
								}
								r += " = " + text(l)
							}
						}
						emit("del-assign", x, r)
					}
				case *ast.IncDecStmt:
					emit("del-inc", x, "")
				case *ast.BinaryExpr:
					sw := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+", token.LAND: "||", token.LOR: "&&"}
					if r, ok := sw[x.Op]; ok && !isErr(x) {
						emit("op", x, text(x.X)+" "+r+" "+text(x.Y))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("int", x, fmt.Sprint(v+1))
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x, text(x.X))
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit("branch", x, "break")
					} else if x.Tok == token.BREAK {
						emit("branch", x, "continue")
					}
				case *ast.CallExpr:
					// swapped neighbouring arguments
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := text(x.Args[i]), text(x.Args[i+1])
						if a != b {
							s, e := off(x.Args[i].Pos()), off(x.Args[i+1].End())
							enc.Encode(mut{file, "swap", fn, string(src[s:e]), b + ", " + a, fs.Position(x.Pos()).Line, s, e})
						}
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 {
						last := x.Results[k-1]
						if id, ok := last.(*ast.Ident); ok && (id.Name == "err" || len(id.Name) > 3 && id.Name[:3] == "Err") && k >= 1 {
							emit("nil-err", last, "nil")
						}
						if id, ok := last.(*ast.Ident); ok && id.Name == "true" {
							emit("bool", last, "false")
						} else if ok && id.Name == "false" {
							emit("bool", last, "true")
						}
						if c, ok := last.(*ast.CallExpr); ok && k == 1 {
							_ = c
						}
					}
				case *ast.KeyValueExpr:
					_ = x
				}
				return true
			})
			// pairs: x.Lock(); defer x.Unlock(), and neighbouring statements swapped
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				b, ok := n.(*ast.BlockStmt)
				if !ok {
					return true
				}
				for i := 0; i+1 < len(b.List); i++ {
					s1, s2 := b.List[i], b.List[i+1]
					if es, ok := s1.(*ast.ExprStmt); ok {
						if c, ok := es.X.(*ast.CallExpr); ok {
							if se, ok := c.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "Lock" || se.Sel.Name == "RLock") {
								if _, ok := s2.(*ast.DeferStmt); ok {
									s, e := off(s1.Pos()), off(s2.End())
									enc.Encode(mut{file, "no-lock", fn, string(src[s:e]), "", fs.Position(s1.Pos()).Line, s, e})
								}
							}
						}
					}
					_, r := s2.(*ast.ReturnStmt)
					_, d := s2.(*ast.DeferStmt)
					_, d1 := s1.(*ast.DeferStmt)
					if !r && !d && !d1 {
						s, e := off(s1.Pos()), off(s2.End())
						enc.Encode(mut{file, "order", fn, string(src[s:e]), text(s2) + "\n" + text(s1), fs.Position(s1.Pos()).Line, s, e})
					}
				}
				return true
			})
		}
	}
}
