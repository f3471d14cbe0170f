// Lists the mutants of Go files: one line of JSON each (file, byte range, new text).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Kind string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(kind string, a, b token.Pos, s string) {
			i, j := off(a), off(b)
			enc.Encode(mutant{name, fs.Position(a).Line, i, j, string(src[i:j]), s, kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left", x.Pos(), x.End(), text(x.X))
					emit("right", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit("int", x.Pos(), x.End(), strconv.Itoa(v+1))
						if v > 0 {
							emit("int", x.Pos(), x.End(), strconv.Itoa(v-1))
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					emit("str", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"q"+x.Value[len(x.Value)-1:])
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				}
				if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				emit("if", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
				emit("if", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("not", x.Pos(), x.End(), text(x.X))
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					emit("case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
				}
				for i, e := range x.List {
					if len(x.List) > 1 {
						if i == 0 {
							emit("caseitem", e.Pos(), x.List[1].Pos(), "")
						} else {
							emit("caseitem", x.List[i-1].End(), e.End(), "")
						}
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s, emit)
				}
			case *ast.CallExpr:
				for i, a := range x.Args {
					if len(x.Args) > 1 {
						if i == 0 {
							emit("arg", a.Pos(), x.Args[1].Pos(), "")
						} else {
							emit("arg", x.Args[i-1].End(), a.End(), "")
						}
					}
					if i > 0 {
						emit("swap", x.Args[i-1].Pos(), a.End(), text(a)+", "+text(x.Args[i-1]))
					}
				}
				if id, ok := x.Fun.(*ast.Ident); ok {
					alt := map[string][]string{
						"ZeroOrMoreTimes": {"OneOrMoreTimes", "ZeroOrOnce"}, "OneOrMoreTimes": {"ZeroOrMoreTimes"},
						"ZeroOrOnce": {"ZeroOrMoreTimes", "Once"}, "sp0": {"sp1"}, "sp1": {"sp0"}, "SeqI": {"Seq"}, "Seq": {"SeqI"},
						"First": {"FlatGroup"}, "LookAhead": {"LookBehind"},
					}
					for _, s := range alt[id.Name] {
						emit("fn", id.Pos(), id.End(), s)
					}
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						emit("field", kv.Pos(), kv.End()+1, "")
					}
				}
				for i, a := range x.Elts {
					if _, ok := a.(*ast.KeyValueExpr); !ok && i > 0 {
						emit("elt", x.Elts[i-1].End(), a.End(), "")
					}
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					emit("for", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				}
			case *ast.SelectorExpr:
				alt := map[string][]string{"ToLower": {"TrimSpace"}, "MakeDottedKeyIgnoreCase": {"MakeDottedKey"}}
				for _, s := range alt[x.Sel.Name] {
					emit("sel", x.Sel.Pos(), x.Sel.End(), s)
				}
			}
			return true
		})
	}
	fmt.Fprint(os.Stderr)
}

func stmt(s ast.Stmt, emit func(string, token.Pos, token.Pos, string)) {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit("stmt", x.Pos(), x.End(), "")
		}
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		emit("stmt", x.Pos(), x.End(), "")
	case *ast.BranchStmt:
		emit("stmt", x.Pos(), x.End(), "")
	case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
		emit("block", x.Pos(), x.End(), "")
	}
}
