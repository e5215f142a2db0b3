// Command mutate lists mutants of a Go source file: "mutate FILE" prints one
// JSON object per line: {"line":..,"what":..,"from":offset,"to":offset,"text":..}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		enc := json.NewEncoder(os.Stdout)
		enc.SetEscapeHTML(false)
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		out := func(what string, from, to int, text string) {
			line := 1
			for _, c := range src[:from] {
				if c == '\n' {
					line++
				}
			}
			enc.Encode(mutant{file, line, what + ": " + string(clip(src[from:to])) + " -> " + text, from, to, text})
		}
		ops := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					p := off(n.OpPos)
					out("op", p, p+len(n.Op.String()), o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					out("left only", off(n.Pos()), off(n.End()), string(src[off(n.X.Pos()):off(n.X.End())]))
					out("right only", off(n.Pos()), off(n.End()), string(src[off(n.Y.Pos()):off(n.Y.End())]))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.Atoi(n.Value)
					if err != nil {
						break
					}
					out("int", off(n.Pos()), off(n.End()), strconv.Itoa(v+1))
					if v > 0 {
						out("int", off(n.Pos()), off(n.End()), strconv.Itoa(v-1))
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					out("bool", off(n.Pos()), off(n.End()), "false")
				} else if n.Name == "false" {
					out("bool", off(n.Pos()), off(n.End()), "true")
				}
			case *ast.IfStmt:
				out("if", off(n.Cond.Pos()), off(n.Cond.End()), "(("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+") && false)")
				out("if", off(n.Cond.Pos()), off(n.Cond.End()), "(("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+") || true)")
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.BREAK {
					out("branch", off(n.Pos()), off(n.End()), "continue")
				} else if n.Label == nil && n.Tok == token.CONTINUE {
					out("branch", off(n.Pos()), off(n.End()), "break")
				}
			case *ast.IncDecStmt:
				x := string(src[off(n.X.Pos()):off(n.X.End())])
				out("stmt", off(n.Pos()), off(n.End()), "_ = "+x)
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN && len(n.Lhs) == len(n.Rhs) && len(n.Lhs) == 1 {
					x := string(src[off(n.Rhs[0].Pos()):off(n.Rhs[0].End())])
					out("stmt", off(n.Pos()), off(n.End()), "_ = "+x)
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					out("slice", off(n.Low.Pos()), off(n.Low.End()), string(src[off(n.Low.Pos()):off(n.Low.End())])+"+1")
				}
				if n.High != nil {
					out("slice", off(n.High.Pos()), off(n.High.End()), string(src[off(n.High.Pos()):off(n.High.End())])+"-1")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) > 1 {
					out("append", off(n.Pos()), off(n.End()), string(src[off(n.Args[0].Pos()):off(n.Args[0].End())]))
				}
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := string(src[off(n.Args[i].Pos()):off(n.Args[i].End())]), string(src[off(n.Args[i+1].Pos()):off(n.Args[i+1].End())])
					out("swap args", off(n.Args[i].Pos()), off(n.Args[i+1].End()), b+", "+a)
				}
			case *ast.ReturnStmt:
				if len(n.Results) > 1 {
					l := n.Results[len(n.Results)-1]
					if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
						out("ret", off(l.Pos()), off(l.End()), "nil")
					}
				}
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return append(append([]byte(nil), b[:60]...), "..."...)
	}
	return b
}
