// mutate lists and applies small syntactic changes to a Go file, for trying
// out the checks.
//
//	mutate FILE          prints the number of mutants
//	mutate FILE N OUT    writes mutant N to OUT and prints what it changes
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	src := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := strings.Join(strings.Fields(b.String()), " ")
		if len(s) > 90 {
			s = s[:90]
		}
		return s
	}
	var all []mutant
	add := func(n ast.Node, what string, do func()) { all = append(all, mutant{n.Pos(), what, do}) }
	isLog := func(e ast.Expr) bool {
		s := src(e)
		return strings.HasPrefix(s, "log.") && !strings.Contains(s, "Fatal") || strings.Contains(s, "log.With") || strings.Contains(s, ".Debug") || strings.Contains(s, ".Trace") || strings.Contains(s, ".Warn") || strings.Contains(s, ".Info")|| strings.Contains(s, ".Error(")|| strings.Contains(s, ".Errorf(")&& !strings.Contains(s, "fmt.")
	}
	cmp := map[token.Token]token.Token{token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL, token.ADD: token.SUB, token.SUB: token.ADD, token.LAND: token.LOR, token.LOR: token.LAND}
	block := func(l *[]ast.Stmt) {
		for i := range *l {
			i := i
			s := (*l)[i]
			del := false
			switch x := s.(type) {
			case *ast.ExprStmt:
				del = !isLog(x.X)
			case *ast.AssignStmt:
				del = x.Tok != token.DEFINE
			case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				del = true
			case *ast.BranchStmt:
				del = x.Tok != token.GOTO
			case *ast.ReturnStmt:
				del = len(x.Results) == 0
			case *ast.IfStmt:
				del = x.Else == nil && !strings.Contains(src(x.Body), "log.") || x.Else == nil && len(x.Body.List) > 1
			}
			if del {
				add(s, "delete: "+src(s), func() { (*l)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			}
			if i+1 < len(*l) {
				t := (*l)[i+1]
				_, a := s.(*ast.ExprStmt)
				_, b := t.(*ast.ExprStmt)
				_, c := s.(*ast.AssignStmt)
				_, d := t.(*ast.AssignStmt)
				if (a || c) && (b || d) && !strings.HasPrefix(src(s), "log.") && !strings.HasPrefix(src(t), "log.") && !(c && s.(*ast.AssignStmt).Tok == token.DEFINE) {
					add(s, "swap: "+src(s)+" <-> "+src(t), func() { (*l)[i], (*l)[i+1] = t, s })
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if isLog(x) {
				return false
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Tok == token.TYPE {
				return false
			}
		case *ast.BlockStmt:
			block(&x.List)
		case *ast.CaseClause:
			block(&x.Body)
		case *ast.CommClause:
			block(&x.Body)
		case *ast.IfStmt:
			add(x.Cond, "negate: "+src(x.Cond), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}, OpPos: x.Cond.Pos()} })
			if b, ok := x.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
				add(b, "left only: "+src(b), func() { x.Cond = b.X })
				add(b, "right only: "+src(b), func() { x.Cond = b.Y })
			}
		case *ast.BinaryExpr:
			if t, ok := cmp[x.Op]; ok {
				o := x.Op
				add(x, "operator "+o.String()+" -> "+t.String()+": "+src(x), func() { x.Op = t })
				if o == token.EQL || o == token.NEQ {
					break
				}
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x, fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = fmt.Sprint(v + 1) })
					if v > 1 {
						add(x, fmt.Sprintf("%d -> %d", v, v-1), func() { x.Value = fmt.Sprint(v - 1) })
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				add(x, x.Name+" flipped", func() {
					if x.Name == "true" {
						x.Name = "false"
					} else {
						x.Name = "true"
					}
				})
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
					add(x, "return nil for "+src(x), func() { x.Results[k-1] = ast.NewIdent("nil") })
				}
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		fmt.Println(len(all))
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := all[i]
	p := fset.Position(m.pos)
	m.do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Args[3], b.Bytes(), 0644); err != nil {
		panic(err)
	}
	fmt.Printf("%d %s\n", p.Line, m.what)
}
