// Command mutator writes simple mutants of a Go file: mutator FILE OUTDIR
// Every mutant is OUTDIR/N.go with a line in OUTDIR/index: N<TAB>line<TAB>description.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	out := os.Args[2]
	if err := os.MkdirAll(out, 0o755); err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	n := 0
	index, _ := os.Create(filepath.Join(out, "index"))
	defer index.Close()
	add := func(at token.Pos, what string, es ...edit) {
		s := string(src)
		for i := len(es) - 1; i >= 0; i-- {
			s = s[:es[i].from] + es[i].text + s[es[i].to:]
		}
		n++
		if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("%d.go", n)), []byte(s), 0o644); err != nil {
			panic(err)
		}
		fmt.Fprintf(index, "%d\t%d\t%s\n", n, fs.Position(at).Line, strings.Join(strings.Fields(what), " "))
	}
	rep := func(x ast.Node, s string) {
		add(x.Pos(), text(x)+" => "+s, edit{off(x.Pos()), off(x.End()), s})
	}
	quiet := func(c *ast.CallExpr) bool { // messages
		s := text(c.Fun)
		return strings.HasPrefix(s, "errors.") || strings.HasPrefix(s, "logging.") || s == "fmt.Errorf" || s == "panic" || s == "fatal" || strings.HasPrefix(s, "logrs.") || strings.HasSuffix(s, ".Wrapf")
	}
	var visit func(ast.Node) bool
	visit = func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CallExpr:
			if quiet(x) {
				return false
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				swap := map[string]string{"HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix", "TrimPrefix": "TrimSuffix", "TrimSuffix": "TrimPrefix", "Index": "LastIndex", "LastIndex": "Index", "TrimLeft": "TrimPrefix", "Contains": "HasPrefix"}
				if to, ok := swap[s.Sel.Name]; ok {
					rep(s.Sel, to)
				}
			}
			if len(x.Args) >= 2 {
				a, b := x.Args[0], x.Args[1]
				if text(a) != text(b) {
					add(x.Pos(), "swap arguments of "+text(x), edit{off(a.Pos()), off(a.End()), text(b)}, edit{off(b.Pos()), off(b.End()), text(a)})
				}
			}
			if s := text(x.Fun); (strings.HasPrefix(s, "strings.") || s == "append" || strings.HasPrefix(s, "filepath.")) && len(x.Args) > 0 {
				rep(x, text(x.Args[0]))
			}
		case *ast.BinaryExpr:
			op := func(s string) {
				add(x.OpPos, text(x)+" => "+s, edit{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), s})
			}
			switch x.Op {
			case token.EQL:
				op("!=")
			case token.NEQ:
				op("==")
			case token.LSS:
				op("<=")
				op(">")
			case token.GTR:
				op(">=")
				op("<")
			case token.LEQ:
				op("<")
			case token.GEQ:
				op(">")
			case token.LAND:
				op("||")
				rep(x, text(x.X))
				rep(x, text(x.Y))
			case token.LOR:
				op("&&")
				rep(x, text(x.X))
				rep(x, text(x.Y))
			case token.ADD:
				op("-")
				rep(x, text(x.X))
			case token.SUB:
				op("+")
			}
		case *ast.IfStmt:
			c := text(x.Cond)
			if c != "err != nil" {
				rep(x.Cond, "!("+c+")")
			}
			add(x.Cond.Pos(), "never: if "+c, edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") && false"})
			if c != "err != nil" {
				add(x.Cond.Pos(), "always: if "+c, edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") || true"})
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					rep(x, strconv.Itoa(v+1))
					if v > 0 {
						rep(x, strconv.Itoa(v-1))
					}
				}
			case token.STRING:
				if v, err := strconv.Unquote(x.Value); err == nil {
					rep(x, strconv.Quote(v+"x"))
					if v != "" {
						rep(x, `""`)
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				rep(x, "false")
			} else if x.Name == "false" {
				rep(x, "true")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				rep(x, text(x.X))
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				rep(x, "break")
			}
			if x.Label == nil && x.Tok == token.BREAK {
				rep(x, "{}")
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				last := x.Results[k-1]
				if s := text(last); s == "err" || strings.HasPrefix(s, "errors.") || strings.HasPrefix(s, "fmt.Errorf") {
					add(x.Pos(), "swallow "+text(x), edit{off(last.Pos()), off(last.End()), "nil"})
				}
			}
		case *ast.ForStmt, *ast.RangeStmt:
			var b *ast.BlockStmt
			if y, ok := x.(*ast.ForStmt); ok {
				b = y.Body
			} else {
				b = x.(*ast.RangeStmt).Body
			}
			add(x.Pos(), "one turn: "+strings.SplitN(text(x), "\n", 2)[0], edit{off(b.Rbrace), off(b.Rbrace), "\nbreak\n"})
			if _, ok := x.(*ast.RangeStmt); ok {
				add(x.Pos(), "no turn: "+strings.SplitN(text(x), "\n", 2)[0], edit{off(b.Lbrace) + 1, off(b.Lbrace) + 1, "\nbreak\n"})
			}
		case *ast.CaseClause:
			for i, e := range x.List {
				if len(x.List) > 1 {
					from, to := off(e.Pos()), off(e.End())
					if i+1 < len(x.List) {
						to = off(x.List[i+1].Pos())
					} else {
						from = off(x.List[i-1].End())
					}
					add(e.Pos(), "no case "+text(e), edit{from, to, ""})
				}
			}
			if len(x.Body) > 0 {
				add(x.Pos(), "empty case: "+strings.SplitN(text(x), "\n", 2)[0], edit{off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End()), ""})
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch y := s.(type) {
				case *ast.ExprStmt:
					if c, ok := y.X.(*ast.CallExpr); ok && quiet(c) {
						continue
					}
					rep(s, "{}")
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						rep(s, "{}")
					}
				case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
					rep(s, "{}")
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)
}
