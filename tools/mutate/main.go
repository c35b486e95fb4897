// mutate lists small changes of Go source files as JSON lines
// {file, func, off, end, new, op}. Usage: mutate FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Op   string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		emit := func(op string, a, b token.Pos, repl string) {
			enc.Encode(mut{name, fn, fset.Position(a).Line, off(a), off(b), repl, op})
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
				if n.Body == nil {
					return false
				}
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.StructType:
				for _, fl := range n.Fields.List {
					if fl.Tag != nil {
						t := fl.Tag.Value
						for _, r := range []struct{ op, old, new string }{
							{"tag-omitempty", ",omitempty", ""}, {"tag-attr", ",attr", ""},
						} {
							if strings.Contains(t, r.old) {
								emit(r.op, fl.Tag.Pos(), fl.Tag.End(), strings.Replace(t, r.old, r.new, 1))
							}
						}
						if i := strings.Index(t, `xml:"`); i >= 0 {
							body := t[i+5:]
							j := strings.IndexAny(body, `,"`)
							if nm := body[:j]; nm != "" && nm != "-" {
								local := nm
								if k := strings.LastIndexAny(nm, " >"); k >= 0 {
									local = nm[k+1:]
									emit("tag-ns", fl.Tag.Pos(), fl.Tag.End(), t[:i+5]+local+body[j:])
									emit("tag-ns2", fl.Tag.Pos(), fl.Tag.End(), t[:i+5]+nm[:k-1]+nm[k:]+body[j:])
								}
								c := strings.ToUpper(local[:1])
								if c == local[:1] {
									c = strings.ToLower(c)
								}
								emit("tag-case", fl.Tag.Pos(), fl.Tag.End(), t[:i+5]+nm[:len(nm)-len(local)]+c+local[1:]+body[j:])
							}
							if !strings.Contains(t, "omitempty") && !strings.Contains(t, `"-"`) && !strings.Contains(t, ",any") && !strings.Contains(t, "innerxml") {
								emit("tag+omitempty", fl.Tag.Pos(), fl.Tag.End(), t[:i+5]+body[:strings.Index(body, `"`)]+",omitempty"+body[strings.Index(body, `"`):])
							}
						}
					}
					if st, ok := fl.Type.(*ast.StarExpr); ok {
						emit("field-deref", fl.Type.Pos(), fl.Type.End(), text(st.X.Pos(), st.X.End()))
					}
				}
				return false
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
				}
				for _, a := range alt[n.Op] {
					emit("bin"+n.Op.String()+a, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("drop-left", n.X.Pos(), n.Y.Pos(), "")
					emit("drop-right", n.X.End(), n.Y.End(), "")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("drop-not", n.Pos(), n.X.Pos(), "")
				}
			case *ast.IfStmt:
				emit("if-not", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond.Pos(), n.Cond.End())+")")
				emit("if-never", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond.Pos(), n.Cond.End())+") && false")
				emit("if-always", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond.Pos(), n.Cond.End())+") || true")
			case *ast.ForStmt:
				if n.Post != nil {
					emit("for-post2", n.Post.End(), n.Post.End(), "")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("int+1", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int-1", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				case token.CHAR:
					if n.Value != `'x'` {
						emit("char", n.Pos(), n.End(), `'x'`)
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil {
						if s == "" {
							emit("str+", n.Pos(), n.End(), `"x"`)
						} else {
							emit("str-", n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]))
						}
					}
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit("bool", n.Pos(), n.End(), "false")
				case "false":
					emit("bool", n.Pos(), n.End(), "true")
				}
			case *ast.ReturnStmt:
				if len(n.Results) > 0 {
					last := n.Results[len(n.Results)-1]
					if id, ok := last.(*ast.Ident); ok && (id.Name == "err") {
						emit("ret-nil", last.Pos(), last.End(), "nil")
					}
				}
			case *ast.BranchStmt:
				switch n.Tok {
				case token.CONTINUE:
					emit("branch", n.Pos(), n.Pos()+8, "break")
				case token.BREAK:
					emit("branch", n.Pos(), n.Pos()+5, "continue")
				}
				if n.Label != nil {
					emit("unlabel", n.Pos(), n.End(), n.Tok.String())
				}
			case *ast.SliceExpr:
				for _, x := range []ast.Expr{n.Low, n.High} {
					if x != nil {
						emit("slice+1", x.Pos(), x.End(), text(x.Pos(), x.End())+"+1")
						emit("slice-1", x.Pos(), x.End(), text(x.Pos(), x.End())+"-1")
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := n.Args[i], n.Args[i+1]
					emit("swap", a.Pos(), b.End(), text(b.Pos(), b.End())+", "+text(a.Pos(), a.End()))
				}
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i, x := range n.List {
						if i == 0 {
							emit("case-drop", x.Pos(), n.List[1].Pos(), "")
						} else {
							emit("case-drop", n.List[i-1].End(), x.End(), "")
						}
					}
				}
				if len(n.Body) > 0 {
					emit("case-empty", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.BlockStmt:
				for i, s := range n.List {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						emit("del", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit("del", s.Pos(), s.End(), "")
							if len(s.Lhs) == 1 && s.Tok == token.ASSIGN {
								emit("del_", s.Lhs[0].Pos(), s.Lhs[0].End(), "_")
							}
						} else {
							for _, l := range s.Lhs {
								if id, ok := l.(*ast.Ident); ok && id.Name == "err" && len(s.Lhs) > 1 {
									emit("err_", l.Pos(), l.End(), "_")
								}
							}
						}
					case *ast.ReturnStmt:
						if i < len(n.List)-1 || len(s.Results) == 0 {
							emit("del", s.Pos(), s.End(), "")
						}
					case *ast.BranchStmt:
						emit("del", s.Pos(), s.End(), "")
					case *ast.IfStmt:
						if s.Else != nil {
							emit("else-drop", s.Body.End(), s.Else.End(), "")
						}
					}
					if i+1 < len(n.List) {
						t := n.List[i+1]
						_, d1 := s.(*ast.AssignStmt)
						_, d2 := t.(*ast.AssignStmt)
						if d1 || d2 {
							emit("exchange", s.Pos(), t.End(), text(t.Pos(), t.End())+"\n"+text(s.Pos(), s.End()))
						}
					}
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
