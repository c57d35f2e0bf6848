// Command mutate lists small changes of a Go file, or applies one of them.
//
//	mutate FILE        prints N<tab>line<tab>what for each change
//	mutate FILE N      prints the file with change N
//
// It is a development tool: the changes show what the checks do not see.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	pos, end token.Pos
	text     string
	what     string
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO}, token.XOR: {token.OR}, token.AND_NOT: {token.AND},
}

func main() {
	fset := token.NewFileSet()
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var all []change
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
	add := func(a, b token.Pos, t string) {
		all = append(all, change{a, b, t, fmt.Sprintf("%.60q -> %.60q", text(a, b), t)})
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
				add(s.Pos(), s.End(), "")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "")
				}
			case *ast.BranchStmt:
				if s.Tok != token.FALLTHROUGH || i < len(list) {
					add(s.Pos(), s.End(), "")
				}
				if s.Tok == token.CONTINUE {
					add(s.Pos(), s.Pos()+token.Pos(len("continue")), "break")
				}
				if s.Tok == token.BREAK {
					add(s.Pos(), s.Pos()+token.Pos(len("break")), "continue")
				}
			case *ast.ReturnStmt:
				if i == len(list)-1 {
					add(s.Pos(), s.End(), "")
				}
			case *ast.IfStmt:
				if s.Init == nil {
					if s.Else == nil {
						add(s.Pos(), s.End(), "")
					} else {
						add(s.Body.End(), s.Else.End(), "")
					}
				}
			}
		}
		// exchange neighbours
		for i := 0; i+1 < len(list); i++ {
			simple := func(s ast.Stmt) bool {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					return true
				case *ast.AssignStmt:
					return s.Tok != token.DEFINE
				}
				return false
			}
			if simple(list[i]) && simple(list[i+1]) {
				a, b := list[i], list[i+1]
				add(a.Pos(), b.End(), text(b.Pos(), b.End())+"\n"+text(a.Pos(), a.End()))
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String())
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n.Pos(), n.End(), text(n.X.Pos(), n.X.End()))
				add(n.Pos(), n.End(), text(n.Y.Pos(), n.Y.End()))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.Pos(), n.End(), text(n.X.Pos(), n.X.End()))
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond.Pos(), n.Cond.End())+")")
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				}
			case token.CHAR:
				v, _, _, err := strconv.UnquoteChar(n.Value[1:], '\'')
				if err == nil {
					add(n.Pos(), n.End(), strconv.QuoteRune(v+1))
				}
			}
		case *ast.Ident:
			switch n.Name {
			case "true":
				add(n.Pos(), n.End(), "false")
			case "false":
				add(n.Pos(), n.End(), "true")
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				add(n.Low.Pos(), n.Low.End(), "")
			}
			if n.High != nil && !n.Slice3 {
				add(n.High.Pos(), n.High.End(), "")
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			if len(n.List) > 1 {
				add(n.List[0].Pos(), n.List[1].Pos(), "")
				add(n.List[len(n.List)-2].End(), n.List[len(n.List)-1].End(), "")
			}
			if len(n.Body) > 0 {
				add(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, c := range all {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(c.pos).Line, c.what)
		}
		return
	}
	i, err := strconv.Atoi(os.Args[2])
	if err != nil {
		panic(err)
	}
	c := all[i]
	os.Stdout.Write(src[:off(c.pos)])
	os.Stdout.WriteString(c.text)
	os.Stdout.Write(src[off(c.end):])
}
