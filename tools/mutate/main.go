// Command mutate lists or applies small syntactic changes of Go files.
//
//	mutate -list FILE...          prints "file<TAB>n<TAB>line<TAB>kind" for each change
//	mutate -more ...              the same for a second, larger set of changes
//	mutate -apply N FILE          rewrites FILE with its N-th change
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
)

type change struct {
	pos  token.Pos
	kind string
	do   func()
}

var swap = map[token.Token][]token.Token{
	token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.AND: {token.OR}, token.OR: {token.AND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND_NOT: {token.AND},
}

func changes(f *ast.File) (out []change) {
	add := func(p token.Pos, kind string, do func()) { out = append(out, change{p, kind, do}) }
	list := func(l *[]ast.Stmt) {
		for i, s := range *l {
			what := ""
			switch s := s.(type) {
			case *ast.ExprStmt:
				what = "call"
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					what = "assignment"
				}
			case *ast.IncDecStmt:
				what = "inc/dec"
			case *ast.IfStmt:
				if s.Init == nil {
					what = "if"
				}
			case *ast.BranchStmt:
				what = s.Tok.String()
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					what = "return"
				}
			case *ast.DeferStmt:
				what = "defer"
			case *ast.ForStmt, *ast.RangeStmt:
				what = "loop"
			}
			if what != "" {
				add(s.Pos(), "delete "+what, func() { (*l)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			}
		}
		// neighbours that change places
		for i := 0; i+1 < len(*l); i++ {
			_, a := (*l)[i].(*ast.ExprStmt)
			_, b := (*l)[i+1].(*ast.ExprStmt)
			if !a {
				x, ok := (*l)[i].(*ast.AssignStmt)
				a = ok && x.Tok == token.ASSIGN
			}
			if !b {
				x, ok := (*l)[i+1].(*ast.AssignStmt)
				b = ok && x.Tok == token.ASSIGN
			}
			if a && b {
				add((*l)[i].Pos(), "swap statements", func() { (*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i] })
			}
		}
	}
	if *more {
		names(f, add)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if *more {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			default:
				wider(n, add)
				return true
			}
		}
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				add(x.OpPos, x.Op.String()+" -> "+t.String(), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.OpPos, "left of "+x.Op.String()+" only", func() { x.Y = x.X })
				add(x.OpPos, "right of "+x.Op.String()+" only", func() { x.X = x.Y })
			}
		case *ast.IfStmt:
			add(x.Pos(), "negate if", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
			if x.Else != nil {
				add(x.Else.Pos(), "delete else", func() { x.Else = nil })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 63); err == nil {
					add(x.Pos(), fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = strconv.FormatInt(v+1, 10) })
					if v > 0 {
						add(x.Pos(), fmt.Sprintf("%d -> %d", v, v-1), func() { x.Value = strconv.FormatInt(v-1, 10) })
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				add(x.Pos(), "not "+x.Name, func() { x.Name = map[string]string{"true": "false", "false": "true"}[x.Name] })
			}
		case *ast.BlockStmt:
			list(&x.List)
		case *ast.CaseClause:
			list(&x.Body)
			for i := range x.List {
				if len(x.List) > 1 {
					add(x.List[i].Pos(), "delete case", func() { x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...) })
				}
			}
			if len(x.List) == 1 && len(x.Body) > 0 {
				add(x.Pos(), "empty case", func() { x.Body = nil })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), "drop !", func() { x.Op = token.ADD; *x = ast.UnaryExpr{Op: token.NOT, X: &ast.UnaryExpr{Op: token.NOT, X: x.X}} })
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), "continue -> break", func() { x.Tok = token.BREAK })
			} else if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), "break -> continue", func() { x.Tok = token.CONTINUE })
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Pos(), "no low bound", func() { x.Low = nil })
			}
		}
		return true
	})
	return
}

var more = flag.Bool("more", false, "the second set of changes")

var conv = map[string]string{"int32": "int16", "uint32": "int32", "int64": "int32", "uint64": "int64", "int": "int32", "uint": "uint32", "uint16": "uint8", "uintptr": "uint32"}

// wider is the second set of changes.
func wider(n ast.Node, add func(token.Pos, string, func())) {
	switch x := n.(type) {
	case *ast.CallExpr:
		for i := 0; i+1 < len(x.Args); i++ {
			add(x.Args[i].Pos(), "swap arguments", func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
		}
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && conv[id.Name] != "" {
			add(x.Pos(), id.Name+" -> "+conv[id.Name], func() {
				x.Args[0] = &ast.CallExpr{Fun: ast.NewIdent(conv[id.Name]), Args: []ast.Expr{x.Args[0]}}
			})
		}
	case *ast.RangeStmt:
		add(x.Pos(), "skip first", func() { x.X = &ast.SliceExpr{X: x.X, Low: ast.NewIdent("min(1, len(" + text(x.X) + "))")} })
		add(x.Pos(), "skip last", func() { x.X = &ast.SliceExpr{X: x.X, High: ast.NewIdent("max(0, len(" + text(x.X) + ")-1)")} })
	case *ast.BasicLit:
		if x.Kind == token.STRING && len(x.Value) > 3 {
			v := x.Value
			add(x.Pos(), "shorter text", func() { x.Value = v[:len(v)-2] + v[len(v)-1:] })
			add(x.Pos(), "text without head", func() { x.Value = v[:1] + v[2:] })
		}
	case *ast.BlockStmt:
		for i, s := range x.List {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt:
				add(s.Pos(), "twice", func() {
					x.List = append(append(append([]ast.Stmt{}, x.List[:i+1]...), s), x.List[i+1:]...)
				})
			case *ast.IfStmt:
				if s.Init == nil && s.Else == nil {
					add(s.Pos(), "always", func() { x.List[i] = s.Body })
				}
			case *ast.AssignStmt:
				if s.Tok == token.ADD_ASSIGN || s.Tok == token.OR_ASSIGN {
					add(s.Pos(), "assign only", func() { s.Tok = token.ASSIGN })
				}
			}
			if i+1 < len(x.List) {
				add(s.Pos(), "swap neighbours", func() { x.List[i], x.List[i+1] = x.List[i+1], x.List[i] })
			}
		}
	case *ast.SwitchStmt:
		for i, c := range x.Body.List {
			if i+1 < len(x.Body.List) {
				add(c.Pos(), "swap cases", func() { l := x.Body.List; l[i], l[i+1] = l[i+1], l[i] })
			}
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.SUB, token.QUO, token.REM, token.SHL, token.SHR:
			add(x.Pos(), "swap operands", func() { x.X, x.Y = x.Y, x.X })
		case token.ADD:
			add(x.Pos(), "left of + only", func() { x.Y = &ast.BinaryExpr{X: x.Y, Op: token.SUB, Y: x.Y} })
		case token.EQL, token.NEQ:
			add(x.OpPos, "order", func() { x.Op = map[token.Token]token.Token{token.EQL: token.LEQ, token.NEQ: token.GTR}[x.Op] })
			add(x.OpPos, "order", func() { x.Op = map[token.Token]token.Token{token.EQL: token.GEQ, token.NEQ: token.LSS}[x.Op] })
		}
	case *ast.SliceExpr:
		if x.High != nil {
			add(x.Pos(), "no high bound", func() { x.High = nil; x.Slice3 = false; x.Max = nil })
		}
		if x.Slice3 {
			add(x.Pos(), "no max", func() { x.Slice3 = false; x.Max = nil })
		}
	case *ast.ReturnStmt:
		for i, r := range x.Results {
			if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "nil") && len(x.Results) > 1 {
				if id.Name == "err" {
					add(x.Pos(), "return no error", func() { x.Results[i] = ast.NewIdent("nil") })
				}
			}
		}
	}
}

// names replaces names by other ones of the same function.
func names(f *ast.File, add func(token.Pos, string, func())) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		local, sels := map[string]bool{}, map[string]bool{}
		sel := map[*ast.Ident]bool{}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectorExpr:
				sel[x.Sel] = true
				sels[x.Sel.Name] = true
			case *ast.Field:
				for _, n := range x.Names {
					local[n.Name] = true
				}
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					for _, l := range x.Lhs {
						if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
							local[id.Name] = true
						}
					}
				}
			}
			return true
		})
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			set := local
			if sel[id] {
				set = sels
			} else if !local[id.Name] {
				return true
			}
			var all []string
			for o := range set {
				all = append(all, o)
			}
			sort.Strings(all)
			for _, o := range all {
				if old := id.Name; o != old && o != "err" && old != "err" {
					add(id.Pos(), old+" -> "+o, func() { id.Name = o })
				}
			}
			return true
		})
	}
}

func text(e ast.Expr) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), e)
	return b.String()
}

func main() {
	list := flag.Bool("list", false, "")
	apply := flag.Int("apply", -1, "")
	flag.Parse()
	for _, fn := range flag.Args() {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		cs := changes(f)
		if *list {
			for i, c := range cs {
				fmt.Printf("%s\t%d\t%d\t%s\n", fn, i, fs.Position(c.pos).Line, c.kind)
			}
			continue
		}
		cs[*apply].do()
		var b bytes.Buffer
		if err := format.Node(&b, fs, f); err != nil {
			panic(err)
		}
		if err := os.WriteFile(fn, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
	}
}
