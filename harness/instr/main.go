// Command instr writes copies of the library's sources with a scheduling point
// before every statement and with sync and sync/atomic replaced, plus the
// overlay file that makes the compiler use them.
//
// usage: instr REPO OUTDIR OVERLAY.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, end int
	text    string
}

func main() {
	repo, out, overlay := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	n, points := 0, 0
	err := filepath.Walk(filepath.Join(repo, "pkg"), func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := fi.Name()
		if fi.IsDir() {
			if name == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, ".pb.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		res, k, err := instrument(path, src)
		if err != nil {
			return err
		}
		if res == nil {
			return nil
		}
		points += k
		n++
		to := filepath.Join(out, fmt.Sprintf("%d_%s", n, name))
		repl[path] = to
		return os.WriteFile(to, res, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	data, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	if err := os.WriteFile(overlay, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("%d files, %d points\n", n, points)
}

func instrument(path string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	if f.Name.Name == "main" {
		return nil, 0, nil
	}
	for _, i := range f.Imports {
		if i.Path.Value == `"C"` {
			return nil, 0, nil
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	points := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			points++
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "verifsched.Point();"})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		switch p {
		case "sync":
			edits = append(edits, edit{off(i.Path.Pos()), off(i.Path.End()), `"verif/sched/sync"`})
		case "sync/atomic":
			edits = append(edits, edit{off(i.Path.Pos()), off(i.Path.End()), `"verif/sched/atomic"`})
		}
	}
	if points > 0 {
		e := off(f.Name.End())
		edits = append(edits, edit{e, e, `; import verifsched "verif/sched"`})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	return []byte(b.String()), points, nil
}
