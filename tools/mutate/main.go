// mutate lists small syntactic changes of the non-test Go files of a
// repository as JSON lines {file, off, end, text, desc}: the input of
// tools/mutants.py, which runs the checks on each.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Desc string `json:"desc"`
}

var (
	fset = token.NewFileSet()
	src  []byte
	name string
	enc  = json.NewEncoder(os.Stdout)
)

func off(p token.Pos) int      { return fset.Position(p).Offset }
func text(n ast.Node) string   { return string(src[off(n.Pos()):off(n.End())]) }
func emit(n ast.Node, s, op string) {
	p := fset.Position(n.Pos())
	old := strings.Join(strings.Fields(text(n)), " ")
	if len(old) > 80 {
		old = old[:80] + "..."
	}
	nw := strings.Join(strings.Fields(s), " ")
	if len(nw) > 80 {
		nw = nw[:80] + "..."
	}
	enc.Encode(mutant{name, off(n.Pos()), off(n.End()), s, fmt.Sprintf("%s:%d %s: %s => %s", name, p.Line, op, old, nw)})
}

func returns(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok != token.FALLTHROUGH
	}
	return false
}

func main() {
	repo := os.Args[1]
	for _, pat := range []string{"sm3", "sm2", "x509", "pkcs12"} {
		files, _ := filepath.Glob(filepath.Join(repo, pat, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, _ = os.ReadFile(f)
			name, _ = filepath.Rel(repo, f)
			af, err := parser.ParseFile(fset, f, src, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				walk(d)
			}
		}
	}
}

func walk(d ast.Decl) {
	ast.Inspect(d, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.CONST || n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.BinaryExpr:
			l, r := text(n.X), text(n.Y)
			sw := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
				token.ADD: "-", token.SUB: "+", token.MUL: "+", token.QUO: "*", token.REM: "/", token.AND: "|", token.OR: "&", token.XOR: "|", token.SHL: ">>", token.SHR: "<<", token.AND_NOT: "&"}
			if t, ok := sw[n.Op]; ok {
				emit(n, l+" "+t+" "+r, "op")
			}
			if n.Op == token.LAND {
				emit(n, "(true || "+l+") && "+r, "drop")
				emit(n, l+" && (true || "+r+")", "drop")
			}
			if n.Op == token.LOR {
				emit(n, "(false && "+l+") || "+r, "drop")
				emit(n, l+" || (false && "+r+")", "drop")
			}
		case *ast.IfStmt:
			emit(n.Cond, "false && ("+text(n.Cond)+")", "if")
			if !returns(n.Body) {
				emit(n.Cond, "true || ("+text(n.Cond)+")", "if")
			}
		case *ast.ForStmt:
			brk(n.Body)
		case *ast.RangeStmt:
			brk(n.Body)
		case *ast.ExprStmt:
			emit(n, "", "del")
		case *ast.IncDecStmt:
			emit(n, "", "del")
		case *ast.AssignStmt:
			if n.Tok == token.ASSIGN && len(n.Lhs) == 1 && len(n.Rhs) == 1 {
				if id, ok := n.Lhs[0].(*ast.Ident); !ok || id.Name != "_" {
					emit(n, "_ = "+text(n.Rhs[0]), "del")
				}
			} else if n.Tok != token.DEFINE && n.Tok != token.ASSIGN {
				emit(n, "_ = "+text(n.Rhs[0]), "del")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseUint(n.Value, 0, 64); err == nil {
					emit(n, strconv.FormatUint(v+1, 10), "int")
					if v > 0 {
						emit(n, strconv.FormatUint(v-1, 10), "int")
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				emit(n, "false", "bool")
			} else if n.Name == "false" {
				emit(n, "true", "bool")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				emit(n, "("+text(n.X)+")", "not")
			}
		case *ast.CaseClause:
			if len(n.List) > 1 {
				for i := range n.List {
					var s []string
					for j, e := range n.List {
						if i != j {
							s = append(s, text(e))
						}
					}
					p := n.List[0].Pos()
					q := n.List[len(n.List)-1].End()
					emit(span{p, q}, strings.Join(s, ", "), "case")
				}
			}
			if len(n.List) > 0 {
				emit(n, "", "delcase")
			}
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE || n.Tok == token.BREAK {
				emit(n, "", "del")
			}
		case *ast.CompositeLit:
			for _, e := range n.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					if off(kv.End()) < len(src) && src[off(kv.End())] == ',' {
						emit(span{kv.Pos(), kv.End() + 1}, "", "elt")
					}
				}
			}
		case *ast.SliceExpr:
			if n.High != nil {
				emit(n.High, text(n.High)+"-1", "hi")
			}
		}
		return true
	})
}

type span struct{ a, b token.Pos }

func (s span) Pos() token.Pos { return s.a }
func (s span) End() token.Pos { return s.b }

func brk(b *ast.BlockStmt) {
	if !returns(b) && len(b.List) > 0 {
		p := b.Rbrace
		emit(span{p, p + 1}, "\nbreak\n}", "once")
	}
}
