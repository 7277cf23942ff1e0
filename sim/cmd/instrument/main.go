// Command instrument writes an instrumented copy of every non-test Go file of a module and
// an overlay file for go build. It puts a yield point before every statement, marks go
// statements, and replaces package sync by the simulated one. It never writes in the module.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, end int
	text     string
	ord      int
}

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var (
	sites   []siteInfo
	overlay = map[string]string{}
)

func fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 3 {
		fail("usage: instrument REPO OUTDIR")
	}
	repo, out := os.Args[1], os.Args[2]
	n := 0
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := info.Name()
		if info.IsDir() {
			if path != repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(repo, path)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dst := filepath.Join(out, "src", strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		res, changed := instrument(path, rel, src)
		if !changed {
			return nil
		}
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
		overlay[path] = dst
		n++
		return nil
	})
	if err != nil {
		fail("%v", err)
	}
	if cwd, err := os.Getwd(); err == nil {
		dst := filepath.Join(out, "zz_dict.go")
		if err := os.WriteFile(dst, []byte(dictionary()), 0o644); err != nil {
			fail("%v", err)
		}
		overlay[filepath.Join(cwd, "cmd", "simrun", "zz_dict.go")] = dst
	}
	write(filepath.Join(out, "overlay.json"), map[string]interface{}{"Replace": overlay})
	write(filepath.Join(out, "sites.json"), sites)
	fmt.Printf("instrumented %d files, %d yield points\n", n, len(sites))
}

func write(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fail("%v", err)
	}
}

func instrument(path, rel string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		fail("%v", err) // does not compile either
	}
	file := fset.File(f.Pos())
	var edits []edit
	add := func(off, end int, text string) { edits = append(edits, edit{off, end, text, len(edits)}) }
	curFunc := ""
	y := func(pos token.Pos) string {
		id := len(sites)
		sites = append(sites, siteInfo{id, rel, fset.Position(pos).Line, curFunc})
		return fmt.Sprintf("verifhook__.Y(%d);", id)
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			text := y(s.Pos())
			inner := s
			for {
				l, ok := inner.(*ast.LabeledStmt)
				if !ok {
					break
				}
				inner = l.Stmt
			}
			if _, ok := inner.(*ast.GoStmt); ok {
				text += "verifhook__.Spawn();"
			}
			add(file.Offset(s.Pos()), -1, text)
		}
	}
	tagged, generic := false, false
	for _, g := range f.Comments {
		for _, l := range g.List {
			tagged = tagged || strings.HasPrefix(l.Text, "//go:build ") || strings.HasPrefix(l.Text, "// +build ")
		}
	}
	if !strings.HasPrefix(rel, "_") && !strings.HasPrefix(rel, "cmd") {
		literals(f)
	}
	comms := map[ast.Node]bool{} // channel operations of select statements stay as they are
	two := map[ast.Expr]bool{}   // receives with a second result
	var visit func(n ast.Node) bool
	switchBodies := map[*ast.BlockStmt]bool{}
	visit = func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.FuncDecl:
			curFunc = t.Name.Name
			if t.Recv != nil && len(t.Recv.List) == 1 {
				curFunc = recvName(t.Recv.List[0].Type) + "." + curFunc
			}
		case *ast.SwitchStmt:
			switchBodies[t.Body] = true
		case *ast.TypeSwitchStmt:
			switchBodies[t.Body] = true
		case *ast.SelectStmt:
			switchBodies[t.Body] = true
		case *ast.BlockStmt:
			if switchBodies[t] {
				return true
			}
			if len(t.List) == 0 && t.Rbrace.IsValid() {
				add(file.Offset(t.Rbrace), -1, y(t.Rbrace))
			}
			stmts(t.List)
		case *ast.CaseClause:
			stmts(t.Body)
		case *ast.CommClause:
			stmts(t.Body)
			switch c := t.Comm.(type) {
			case *ast.SendStmt:
				comms[c] = true
			case *ast.ExprStmt:
				comms[c.X] = true
			case *ast.AssignStmt:
				comms[c.Rhs[0]] = true
			}
		case *ast.AssignStmt:
			if len(t.Lhs) == 2 && len(t.Rhs) == 1 {
				two[t.Rhs[0]] = true
			}
		case *ast.ValueSpec:
			if len(t.Names) == 2 && len(t.Values) == 1 {
				two[t.Values[0]] = true
			}
		case *ast.SendStmt:
			if !comms[t] && !tagged {
				generic = true
				add(file.Offset(t.Pos()), -1, "verifhook__.Sender(")
				add(file.Offset(t.Arrow), file.Offset(t.Arrow)+2, ")(")
				add(file.Offset(t.End()), -1, ")")
			}
		case *ast.UnaryExpr:
			if t.Op == token.ARROW && !comms[t] && !tagged && curFunc != "" {
				generic = true
				name := "verifhook__.Recv("
				if two[t] {
					name = "verifhook__.Recv2("
				}
				add(file.Offset(t.OpPos), file.Offset(t.OpPos)+2, name)
				add(file.Offset(t.End()), -1, ")")
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	hasHook := len(edits) > 0
	for _, imp := range f.Imports {
		if imp.Path.Value == `"sync"` {
			add(file.Offset(imp.Path.Pos()), file.Offset(imp.Path.End()), `"verifsim/simsync"`)
		}
	}
	if len(edits) == 0 {
		return nil, false
	}
	if generic {
		// the hooks of channel operations have type parameters, which the module's go version may lack
		add(0, -1, "//go:build go1.18\n\n")
	}
	if hasHook {
		add(file.Offset(f.Name.End()), -1, `;import verifhook__ "verifsim/hook"`)
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].ord < edits[j].ord
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off
		if e.end >= 0 {
			pos = e.end
		}
	}
	b.Write(src[pos:])
	return []byte(b.String()), true
}

func recvName(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.StarExpr:
		return recvName(t.X)
	case *ast.Ident:
		return t.Name
	case *ast.IndexExpr:
		return recvName(t.X)
	}
	return "?"
}

// The literals of the code under test make a dictionary for the generators: a branch on a
// particular text or number is reached by inputs that have them.
var (
	dictWords = map[string]bool{}
	dictInts  = map[int64]bool{}
)

func literals(f *ast.File) {
	var value func(e ast.Expr) constant.Value
	value = func(e ast.Expr) constant.Value {
		switch t := e.(type) {
		case *ast.BasicLit:
			return constant.MakeFromLiteral(t.Value, t.Kind, 0)
		case *ast.ParenExpr:
			return value(t.X)
		case *ast.BinaryExpr:
			x, y := value(t.X), value(t.Y)
			if x == nil || y == nil || x.Kind() != constant.Int || y.Kind() != constant.Int {
				return nil
			}
			switch t.Op {
			case token.SHL:
				if n, ok := constant.Uint64Val(y); ok && n < 64 {
					return constant.Shift(x, token.SHL, uint(n))
				}
			case token.ADD, token.SUB, token.MUL:
				return constant.BinaryOp(x, t.Op, y)
			}
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.ImportSpec:
			return false
		case ast.Expr:
			v := value(t)
			if v == nil {
				return true
			}
			switch v.Kind() {
			case constant.String:
				if w := constant.StringVal(v); w != "" && len(w) < 100 {
					dictWords[w] = true
				}
			case constant.Int:
				if b, ok := t.(*ast.BasicLit); ok && b.Kind == token.CHAR {
					if i, ok := constant.Int64Val(v); ok {
						dictWords[string(rune(i))] = true
					}
				} else if i, ok := constant.Int64Val(v); ok && i >= 3 && i <= 200000 {
					dictInts[i] = true
				}
				return true
			}
		}
		return true
	})
}

func dictionary() string {
	var b strings.Builder
	b.WriteString("package main\n\nfunc init() {\n\tdictWords = []string{")
	var ws []string
	for w := range dictWords {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	for _, w := range ws {
		fmt.Fprintf(&b, "%q, ", w)
	}
	b.WriteString("}\n\tdictInts = []int{")
	var is []int
	for i := range dictInts {
		is = append(is, int(i))
	}
	sort.Ints(is)
	for _, i := range is {
		fmt.Fprintf(&b, "%d, ", i)
	}
	b.WriteString("}\n}\n")
	return b.String()
}
