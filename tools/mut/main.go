// mut lists single-token mutations of a Go file as JSON lines
// {"off","end","new","line","func","kind"}.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"strconv"
	"strings"
)

type M struct {
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
}

func main() {
	fs := token.NewFileSet()
	src, _ := os.ReadFile(os.Args[1])
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	swap := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "+=", token.SHR_ASSIGN: "<<=", token.SHL_ASSIGN: ">>=", token.OR_ASSIGN: "&=", token.XOR_ASSIGN: "|=", token.AND_ASSIGN: "|="}
	for _, d := range f.Decls {
		name := "-"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
			if fd.Recv != nil {
				name = "." + name
			}
		} else if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		put := func(a, b token.Pos, s, k string) {
			enc.Encode(M{fs.Position(a).Offset, fs.Position(b).Offset, s, fs.Position(a).Line, name, k})
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+"→"+s)
				}
			case *ast.UnaryExpr:
				if x.Op == token.SUB {
					put(x.OpPos, x.OpPos+1, "+", "unary -")
				}
				if x.Op == token.NOT {
					put(x.OpPos, x.OpPos+1, "", "drop !")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, ok := new(big.Int).SetString(x.Value, 0)
					if ok {
						put(x.Pos(), x.End(), new(big.Int).Add(v, big.NewInt(1)).String(), "const+1")
						if v.Sign() > 0 {
							put(x.Pos(), x.End(), new(big.Int).Sub(v, big.NewInt(1)).String(), "const-1")
						}
					}
				case token.FLOAT:
					v, _ := strconv.ParseFloat(x.Value, 64)
					put(x.Pos(), x.End(), strconv.FormatFloat(v*1.001+1e-7, 'g', -1, 64), "float*1.001")
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && name != "-" {
						put(x.Pos(), x.End(), strconv.Quote(v+"x"), "string+x")
					}
				case token.CHAR:
					put(x.Pos(), x.End(), "'~'", "char")
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					put(x.Pos(), x.End(), "", "delete assign")
				}
				if s, ok := asg[x.Tok]; ok {
					put(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s, x.Tok.String())
				}
			case *ast.IncDecStmt:
				put(x.Pos(), x.End(), "", "delete incdec")
			case *ast.ExprStmt:
				put(x.Pos(), x.End(), "", "delete call")
			case *ast.DeferStmt:
				put(x.Pos(), x.End(), "", "delete defer")
			case *ast.BranchStmt:
				put(x.Pos(), x.End(), "", "delete "+x.Tok.String())
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "true || "+par(src, fs, x.Cond), "if true")
				put(x.Cond.Pos(), x.Cond.End(), "false && "+par(src, fs, x.Cond), "if false")
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					put(x.Pos(), x.End(), "", "delete return")
				}
			case *ast.IndexExpr:
				s := string(src[fs.Position(x.Index.Pos()).Offset:fs.Position(x.Index.End()).Offset])
				if !strings.Contains(s, "\"") {
					put(x.Index.Pos(), x.Index.End(), "("+s+")+1", "index+1")
				}
			case *ast.SliceExpr:
				for _, e := range []ast.Expr{x.Low, x.High} {
					if e != nil {
						s := string(src[fs.Position(e.Pos()).Offset:fs.Position(e.End()).Offset])
						put(e.Pos(), e.End(), "("+s+")+1", "slice+1")
					}
				}
			}
			return true
		})
	}
}

func par(src []byte, fs *token.FileSet, e ast.Expr) string {
	return "(" + string(src[fs.Position(e.Pos()).Offset:fs.Position(e.End()).Offset]) + ")"
}
