// mutate lists or applies small changes of the library's statements:
// mutate DIR list | mutate DIR apply N   (points in a fixed order)
package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type point struct {
	file     string
	from, to int // byte offsets
	repl     string
	op       string
	line     int
}

var pts []point

func main() {
	dir := os.Args[1]
	var files []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() && (rel == "examples" || rel == "test" || rel == ".git" || rel == "bin" || rel == "docs") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "mock") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		scan(dir, f)
	}
	if os.Args[2] == "list" {
		for i, p := range pts {
			fmt.Printf("%d %s:%d %s\n", i, p.file, p.line, p.op)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[3])
	p := pts[n]
	b, _ := os.ReadFile(filepath.Join(dir, p.file))
	out := string(b[:p.from]) + p.repl + string(b[p.to:])
	os.WriteFile(filepath.Join(dir, p.file), []byte(out), 0o644)
	fmt.Printf("%s:%d %s: %q -> %q\n", p.file, p.line, p.op, string(b[p.from:p.to]), p.repl)
}

func originals(dir, rel string) map[int]bool {
	o, _ := exec.Command("git", "-C", dir, "blame", "-s", "c023727..HEAD", rel).Output()
	m := map[int]bool{}
	sc := bufio.NewScanner(strings.NewReader(string(o)))
	sc.Buffer(nil, 1<<20)
	for i := 1; sc.Scan(); i++ {
		m[i] = strings.HasPrefix(sc.Text(), "^")
	}
	return m
}

func scan(dir, path string) {
	rel, _ := filepath.Rel(dir, path)
	src, _ := os.ReadFile(path)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		return
	}
	orig := originals(dir, rel)
	if os.Getenv("ALL_LINES") != "" {
		orig = nil
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(n ast.Node, repl, op string) {
		l := fs.Position(n.Pos()).Line
		if orig != nil && !orig[l] {
			return
		}
		pts = append(pts, point{rel, off(n.Pos()), off(n.End()), repl, op, l})
	}
	isLog := func(s string) bool {
		return strings.Contains(s, ".log.") || strings.HasPrefix(s, "log.")
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ExprStmt:
			if t := text(x); !isLog(t) {
				add(x, "", "delete")
			}
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				vs := []string{}
				for _, e := range x.Rhs {
					vs = append(vs, text(e))
				}
				bl := strings.TrimSuffix(strings.Repeat("_, ", len(vs)), ", ")
				if len(x.Lhs) == len(x.Rhs) {
					add(x, bl+" = "+strings.Join(vs, ", "), "drop-assign")
				}
			}
		case *ast.IncDecStmt:
			add(x, "", "delete")
		case *ast.DeferStmt:
			add(x, "", "delete-defer")
		case *ast.GoStmt:
			add(x, text(x.Call), "go-inline")
		case *ast.SendStmt:
			add(x, "", "delete-send")
		case *ast.IfStmt:
			add(x.Cond, "!("+text(x.Cond)+")", "negate")
		case *ast.BinaryExpr:
			if r := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}[x.Op]; r != "" && !strings.Contains(text(x), `"`) {
				add(x, text(x.X)+" "+r+" "+text(x.Y), "op "+x.Op.String())
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x, fmt.Sprint(v+1), "const")
				}
			}
		case *ast.CommClause:
			if x.Comm != nil && len(x.Body) > 0 {
				// never ready
				if es, ok := x.Comm.(*ast.ExprStmt); ok {
					add(es, "<-(chan struct{})(nil)", "drop-case")
				}
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				t := text(r)
				if t == "err" {
					add(r, "nil", "ret-nil")
				} else if t == "true" {
					add(r, "false", "ret-bool")
				} else if t == "false" {
					add(r, "true", "ret-bool")
				}
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x, "", "delete-continue")
			}
		}
		return true
	})
}
