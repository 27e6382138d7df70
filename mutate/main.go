// Lists mutants of the Go files given: one JSON object per line with file, function, line, kind and
// the byte range to replace. Used to look for gaps in the checks; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File, Func, Kind string
	Line, From, To   int
	New              string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				name = t.(*ast.Ident).Name + "." + name
			}
			emit := func(kind string, from, to int, repl string) {
				enc.Encode(mutant{f, name, kind, fs.Position(file.Pos()).Line*0 + lineOf(src, from), from, to, repl})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					from := off(n.OpPos)
					to := from + len(n.Op.String())
					for _, r := range binops[n.Op] {
						emit("op "+n.Op.String()+" "+r, from, to, r)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.ParseInt(n.Value, 0, 64)
						if err == nil {
							emit("const+1", off(n.Pos()), off(n.End()), fmt.Sprint(v+1))
							if v > 0 {
								emit("const-1", off(n.Pos()), off(n.End()), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if n.Name == "true" || n.Name == "false" {
						emit("bool", off(n.Pos()), off(n.End()), map[string]string{"true": "false", "false": "true"}[n.Name])
					}
				case *ast.IfStmt:
					emit("if not", off(n.Cond.Pos()), off(n.Cond.End()), "!("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
					emit("if false", off(n.Cond.Pos()), off(n.Cond.End()), "false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
				case *ast.AssignStmt:
					if n.Tok == token.ADD_ASSIGN {
						emit("+= -=", off(n.TokPos), off(n.TokPos)+2, "-=")
					}
					if n.Tok == token.OR_ASSIGN {
						emit("|= =", off(n.TokPos), off(n.TokPos)+2, "=")
					}
					if n.Tok != token.DEFINE {
						// drop the assignment, keeping operands used
						emit("drop assign", off(n.Pos()), off(n.End()), "if false { "+string(src[off(n.Pos()):off(n.End())])+" }")
					}
				case *ast.ExprStmt:
					emit("drop call", off(n.Pos()), off(n.End()), "if false { "+string(src[off(n.Pos()):off(n.End())])+" }")
				case *ast.IncDecStmt:
					emit("drop incdec", off(n.Pos()), off(n.End()), "")
				case *ast.BranchStmt:
					if n.Tok == token.CONTINUE || n.Tok == token.BREAK {
						emit("drop "+n.Tok.String(), off(n.Pos()), off(n.End()), "")
					}
					if n.Tok == token.CONTINUE {
						emit("continue break", off(n.Pos()), off(n.End()), "break")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						emit("drop !", off(n.Pos()), off(n.Pos())+1, "")
					}
					if n.Op == token.SUB {
						emit("drop -", off(n.Pos()), off(n.Pos())+1, "")
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 1 {
						if r, ok := map[string]string{"int32": "int32(int16", "int": "int(int16", "uint32": "uint32(uint16", "int64": "int64(int32"}[id.Name]; ok {
							emit("narrow", off(n.Pos()), off(n.End()), r+"("+string(src[off(n.Args[0].Pos()):off(n.Args[0].End())])+"))")
						}
					}
				}
				return true
			})
		}
	}
}

func lineOf(src []byte, off int) int {
	n := 1
	for _, b := range src[:off] {
		if b == '\n' {
			n++
		}
	}
	return n
}

var binops = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.QUO: {"*"}, token.REM: {"/"}, token.XOR: {"|"},
}
