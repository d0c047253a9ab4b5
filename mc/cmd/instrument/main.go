// Command instrument writes copies of the sources of the implementation with
// yield points ahead of every statement, and the build overlay that replaces the
// originals by them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const mod = "github.com/freerware/negotiator/verifmc"

type insertion struct {
	at   int
	text string
	del  int
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	points, exotic := 0, false
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); path != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") || strings.HasSuffix(path, "internal/test") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dst, n, ex, err := instrument(path, src)
		if err != nil {
			return err
		}
		exotic = exotic || ex
		if n == 0 {
			return nil
		}
		points += n
		to := filepath.Join(out, fmt.Sprintf("%03d_%s", len(replace), filepath.Base(path)))
		if err := os.WriteFile(to, dst, 0o644); err != nil {
			return err
		}
		replace[path] = to
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("files=%d points=%d exotic=%v\n", len(replace), points, exotic)
}

func instrument(path string, src []byte) (out []byte, points int, exotic bool, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, false, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ins []insertion
	list := func(l []ast.Stmt, entry bool) {
		for i, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			call := "mcsched__.Y();"
			if entry && i == 0 {
				call = "mcsched__.F();"
			}
			ins = append(ins, insertion{at: off(s.Pos()), text: call})
			points++
		}
	}
	entries := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			entries[x.Body] = true
		case *ast.FuncLit:
			entries[x.Body] = true
		case *ast.BlockStmt:
			list(x.List, entries[x])
		case *ast.CaseClause:
			list(x.Body, false)
		case *ast.CommClause:
			list(x.Body, false)
		case *ast.LabeledStmt:
			// the label stays attached to its statement.
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
			exotic = true
		case *ast.UnaryExpr:
			exotic = exotic || x.Op == token.ARROW
		case *ast.ImportSpec:
			if x.Path.Value == `"sync"` {
				alias := ""
				if x.Name == nil {
					alias = "sync "
				}
				ins = append(ins, insertion{at: off(x.Path.Pos()), text: alias + `"` + mod + `/xsync"`, del: len(x.Path.Value)})
			}
		}
		return true
	})
	if points == 0 {
		return nil, 0, exotic, nil
	}
	head := fmt.Sprintf(";import mcsched__ \"%s/sched\"", mod)
	if exotic {
		head += ";func init() { mcsched__.Exotic = true }"
	}
	// imports have to come first, hence a function of its own goes to the end.
	tail := ""
	if i := strings.Index(head, ";func"); i >= 0 {
		head, tail = head[:i], "\n"+head[i+1:]+"\n"
	}
	ins = append(ins, insertion{at: off(f.Name.End()), text: head})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	last := 0
	for _, x := range ins {
		out = append(out, src[last:x.at]...)
		out = append(out, x.text...)
		last = x.at + x.del
	}
	out = append(out, src[last:]...)
	out = append(out, tail...)
	return out, points, exotic, nil
}
