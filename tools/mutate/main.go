// Command mutate lists single-point mutants of Go files as JSON lines:
// file, byte offsets, replacement and a description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	ID         int
	File       string
	Line       int
	Start, End int
	New        string
	Desc       string
}

func main() {
	n := 0
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		emit := func(s, e token.Pos, nw, desc string) {
			n++
			enc.Encode(mut{n, f, fs.Position(s).Line, off(s), off(e), nw, desc})
		}
		rep := func(x ast.Node, nw string) {
			emit(x.Pos(), x.End(), nw, fmt.Sprintf("%s -> %s", clip(txt(x)), clip(nw)))
		}
		skip := map[ast.Node]bool{}
		ast.Inspect(a, func(x ast.Node) bool {
			if x == nil || skip[x] {
				return false
			}
			switch t := x.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range ops[t.Op] {
					emit(t.OpPos, t.OpPos+token.Pos(len(t.Op.String())), o, fmt.Sprintf("%s: %s -> %s", clip(txt(t)), t.Op, o))
				}
				if t.Op == token.LAND || t.Op == token.LOR {
					rep(t, txt(t.X))
					rep(t, txt(t.Y))
				}
			case *ast.UnaryExpr:
				if t.Op == token.NOT || t.Op == token.SUB {
					rep(t, txt(t.X))
				}
			case *ast.BasicLit:
				switch t.Kind {
				case token.INT:
					if t.Value == "0" {
						rep(t, "1")
					} else {
						rep(t, "("+t.Value+"+1)")
						rep(t, "("+t.Value+"-1)")
					}
				case token.FLOAT:
					rep(t, "("+t.Value+"*1.1+0.01)")
					rep(t, "("+t.Value+"*0.9-0.01)")
				case token.STRING:
					if t.Value != `""` {
						rep(t, `"zz"`)
					}
				}
			case *ast.IfStmt:
				if t.Init == nil {
					rep(t.Cond, "!("+txt(t.Cond)+")")
					rep(t.Cond, "false && ("+txt(t.Cond)+")")
					rep(t.Cond, "true || ("+txt(t.Cond)+")")
				}
				if t.Else != nil {
					if _, ok := t.Else.(*ast.BlockStmt); ok {
						rep(t.Else, "{}")
					}
				}
			case *ast.CaseClause:
				if len(t.Body) > 0 {
					emit(t.Body[0].Pos(), t.Body[len(t.Body)-1].End(), "", "empty case "+clip(txt(t)))
				}
			case *ast.AssignStmt:
				if t.Tok == token.DEFINE {
					break
				}
				emit(t.Pos(), t.End(), "", "delete "+clip(txt(t)))
				if o, ok := asg[t.Tok]; ok {
					emit(t.TokPos, t.TokPos+token.Pos(len(t.Tok.String())), o, fmt.Sprintf("%s: %s -> %s", clip(txt(t)), t.Tok, o))
				}
			case *ast.IncDecStmt:
				emit(t.Pos(), t.End(), "", "delete "+clip(txt(t)))
			case *ast.ExprStmt:
				emit(t.Pos(), t.End(), "", "delete "+clip(txt(t)))
			case *ast.BranchStmt:
				if t.Tok == token.CONTINUE {
					emit(t.Pos(), t.End(), "break", "continue -> break")
				}
				if t.Tok == token.BREAK {
					emit(t.Pos(), t.End(), "", "delete break")
				}
			case *ast.CallExpr:
				if s, ok := t.Fun.(*ast.SelectorExpr); ok {
					nm := s.Sel.Name
					for _, p := range [][2]string{{"Min", "Max"}, {"Sin", "Cos"}, {"Floor", "Ceil"}, {"GetStackedStartPositionMod", "GetStackedEndPositionMod"}, {"GetStartTime", "GetEndTime"}, {"GetStartPosition", "GetEndPosition"}} {
						for k := 0; k < 2; k++ {
							if strings.HasPrefix(nm, p[k]) {
								rep(s.Sel, p[1-k]+strings.TrimPrefix(nm, p[k]))
							}
						}
					}
					if len(t.Args) == 2 && (strings.HasPrefix(nm, "M")) {
						rep(t, txt(t.Args[0]))
						rep(t, txt(t.Args[1]))
					}
					if len(t.Args) == 1 && (nm == "Abs" || nm == "Sqrt" || nm == "Floor" || nm == "Ceil" || nm == "TrimSpace" || nm == "Round") {
						rep(t, txt(t.Args[0]))
					}
					if nm == "Previous" {
						rep(t.Args[0], "("+txt(t.Args[0])+")+1")
					}
				}
			case *ast.IndexExpr:
				rep(t.Index, "("+txt(t.Index)+")+1")
				rep(t.Index, "("+txt(t.Index)+")-1")
			}
			return true
		})
	}
}

func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 70 {
		s = s[:70] + "…"
	}
	return s
}

var ops = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.AND_NOT: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

var asg = map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*=", token.OR_ASSIGN: "&="}
