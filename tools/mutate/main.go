// Command mutate lists small changes to Go source files, one JSON object per
// line: {file, off, end, repl, desc}.  It is used to measure the checks: see
// mutate.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Repl string `json:"repl"`
	Desc string `json:"desc"`
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*", "%"}, token.REM: {"/"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|", "&"}, token.AND_NOT: {"&", "|"},
}
var idents = map[string][]string{
	"BinaryType": {"NativeType"}, "NativeType": {"BinaryType"}, "BigEndian": {"LittleEndian"}, "LittleEndian": {"BigEndian"},
	"Uint": {"Int"}, "Int": {"Uint"}, "SetUint": {"SetInt"}, "SetInt": {"SetUint"}, "true": {"false"}, "false": {"true"},
	"SIndex": {"TIndex"}, "TIndex": {"SIndex"}, "int64": {"int32", "uint64"}, "uint64": {"uint32", "int64"}, "int32": {"int16", "uint32"}, "uint32": {"uint16", "int32"},
	"int16": {"int8", "uint16"}, "uint16": {"uint8", "int16"}, "uint8": {"uint16", "int8"}, "int8": {"int16", "uint8"}, "float64": {"float32"}, "float32": {"float64"},
	"Len": {"Cap"}, "len": {"cap"}, "Kind": {}, "continue": {"break"},
	"read8": {}, "Float64": {"Float32"}, "Float32": {"Float64"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(a, b token.Pos, repl, desc string) {
			enc.Encode(mut{fn, off(a), off(b), repl, fmt.Sprintf("%s:%d %s", fn, fs.Position(a).Line, desc)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if fd.Name.Name == "String" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[n.Op] {
						put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, fmt.Sprintf("%s -> %s in %s", n.Op, s, text(n)))
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						put(n.Pos(), n.End(), text(n.X), "only left of "+text(n))
						put(n.Pos(), n.End(), text(n.Y), "only right of "+text(n))
					}
					if n.Op == token.ADD || n.Op == token.SUB || n.Op == token.MUL || n.Op == token.QUO {
						put(n.Pos(), n.End(), text(n.X), "only left of "+text(n))
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB || n.Op == token.XOR {
						put(n.Pos(), n.End(), text(n.X), "drop "+n.Op.String()+" in "+text(n))
					}
				case *ast.IfStmt:
					put(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "if true: "+text(n.Cond))
					put(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if false: "+text(n.Cond))
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.ParseInt(n.Value, 0, 64)
						if err == nil {
							put(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("%d -> %d", v, v+1))
							if v > 0 {
								put(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), fmt.Sprintf("%d -> %d", v, v-1))
							}
						}
					}
				case *ast.Ident:
					for _, s := range idents[n.Name] {
						put(n.Pos(), n.End(), s, n.Name+" -> "+s)
					}
				case *ast.ExprStmt:
					put(n.Pos(), n.End(), "", "drop "+text(n))
				case *ast.IncDecStmt:
					put(n.Pos(), n.End(), "", "drop "+text(n))
				case *ast.AssignStmt:
					if n.Tok == token.DEFINE {
						return true
					}
					put(n.Pos(), n.End(), "", "drop "+text(n))
					if n.Tok == token.ADD_ASSIGN {
						put(n.TokPos, n.TokPos+2, "-=", "+= -> -= in "+text(n))
						put(n.TokPos, n.TokPos+2, "=", "+= -> = in "+text(n))
					}
					if n.Tok == token.OR_ASSIGN {
						put(n.TokPos, n.TokPos+2, "=", "|= -> = in "+text(n))
					}
				case *ast.BranchStmt:
					if n.Label == nil {
						put(n.Pos(), n.End(), "", "drop "+n.Tok.String())
						if n.Tok == token.CONTINUE {
							put(n.Pos(), n.End(), "break", "continue -> break")
						}
					}
				case *ast.DeferStmt:
					put(n.Pos(), n.End(), "", "drop "+text(n))
				case *ast.CaseClause:
					for i, e := range n.List {
						if len(n.List) > 1 {
							a, b := e.Pos(), e.End()
							if i+1 < len(n.List) {
								b = n.List[i+1].Pos()
							} else {
								a = n.List[i-1].End()
							}
							put(a, b, "", "drop case "+text(e))
						}
					}
					if len(n.Body) > 0 {
						put(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case "+text(n.Body[0]))
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 {
						put(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap arguments of "+text(n))
					}
					if len(n.Args) == 1 {
						if id, ok := n.Fun.(*ast.Ident); ok && len(id.Name) > 3 && id.Name != "panic" {
							put(n.Pos(), n.End(), text(n.Args[0]), "drop call in "+text(n))
						}
					}
				case *ast.ReturnStmt:
					for _, e := range n.Results {
						if id, ok := e.(*ast.Ident); ok && id.Name == "err" {
							put(e.Pos(), e.End(), "nil", "return nil for err")
						}
					}
				}
				return true
			})
		}
	}
}
