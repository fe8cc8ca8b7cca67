package model

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// The library can tell two names, strings or sizes apart only by what they are
// made of or by comparing them with constants that occur in its text. So the
// constants of the sources under test belong to the alphabets of the checks:
// whatever name or number the code singles out is among the ones tried.

var lits struct {
	once sync.Once
	strs []string
	ints []int
}

func harvest() {
	strs, ints := map[string]bool{}, map[int]bool{}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	tagged := regexp.MustCompile(`[^\s:"]+:"([^",]*)`)
	for _, dir := range []string{"pkg", "cmd", "examples", "internal", "docs"} {
		filepath.WalkDir(filepath.Join(repo, dir), func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, ".pb.go") {
				return nil
			}
			f, _ := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if f == nil {
				return nil
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					if n.Tag != nil {
						if v := constant.MakeFromLiteral(n.Tag.Value, token.STRING, 0); v.Kind() == constant.String {
							for _, m := range tagged.FindAllStringSubmatch(constant.StringVal(v), -1) {
								strs[m[1]] = true
							}
						}
						n.Tag = nil
					}
				case ast.Expr:
					v := value(n)
					if v == nil {
						return true
					}
					switch v.Kind() {
					case constant.String:
						strs[constant.StringVal(v)] = true
					case constant.Int:
						if i, ok := constant.Int64Val(v); ok && i > 0 && i <= 1<<31 {
							l, _ := n.(*ast.BasicLit)
							switch {
							case l != nil && l.Kind == token.CHAR:
								strs[string(rune(i))] = true
							case l != nil && len(l.Value) > 2 && l.Value[0] == '0' && l.Value[1] != 'x': // a file mode
							default:
								ints[int(i)] = true
							}
						}
					}
				}
				return true
			})
			return nil
		})
	}
	for s := range strs {
		lits.strs = append(lits.strs, s)
	}
	for i := range ints {
		lits.ints = append(lits.ints, i)
	}
	sort.Strings(lits.strs)
	sort.Ints(lits.ints)
}

// value is the value of an expression of literals, or nil.
func value(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		v = constant.MakeFromLiteral(e.Value, e.Kind, 0)
		if v.Kind() == constant.Float {
			if i := constant.ToInt(v); i.Kind() == constant.Int {
				v = i
			}
		}
		return v
	case *ast.ParenExpr:
		return value(e.X)
	case *ast.BinaryExpr:
		x, y := value(e.X), value(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(y)
			if !ok || s > 64 {
				return nil
			}
			return constant.Shift(x, e.Op, uint(s))
		case token.QUO:
			return constant.BinaryOp(x, token.QUO_ASSIGN, y)
		case token.ADD, token.SUB, token.MUL:
			if reflect.TypeOf(x) == reflect.TypeOf(y) {
				return constant.BinaryOp(x, e.Op, y)
			}
		}
	}
	return nil
}

// SourceStrings lists the short string constants of the sources under test.
func SourceStrings() []string {
	lits.once.Do(harvest)
	var out []string
	for _, s := range lits.strs {
		if len(s) > 0 && len(s) <= 64 && strings.Count(s, " ") <= 1 {
			out = append(out, s)
		}
	}
	return out
}

// SourceInts lists the positive integer constants of the sources under test up
// to max.
func SourceInts(max int) []int {
	lits.once.Do(harvest)
	var out []int
	for _, i := range lits.ints {
		if i <= max {
			out = append(out, i)
		}
	}
	return out
}

// SourceNames lists names made of the string constants of the sources under
// test: each constant, its parts between dots, and both with a letter before
// or behind.
func SourceNames() []string {
	seen := map[string]bool{"": true}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, s := range SourceStrings() {
		add(s)
		for _, p := range strings.Split(s, ".") {
			add(p)
		}
	}
	for _, s := range append([]string{}, out...) {
		add(s + "x")
		add("x" + s)
	}
	return out
}

// WithSourceSizes adds the integer constants of the sources under test up to
// max, and their neighbours, to a list of sizes.
func WithSourceSizes(sizes []int, max int) []int {
	seen := map[int]bool{}
	var out []int
	for _, n := range sizes {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for _, i := range SourceInts(max) {
		for _, n := range []int{i - 1, i, i + 1} {
			if n > 0 && !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return out
}

// Sizes lists 1 to n and, up to max, the integer constants of the sources under
// test and their neighbours.
func Sizes(n, max int) []int {
	var out []int
	for i := 1; i <= n; i++ {
		out = append(out, i)
	}
	return WithSourceSizes(out, max)
}

// Runs are the lengths of long runs of events through one object: n, and a
// little more than every larger number that the sources under test name.
func Runs(n int) []int {
	out := []int{n}
	for _, x := range SourceInts(200000) {
		if x+2 > n {
			out = append(out, x+2)
		}
	}
	return out
}
