package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// delayOverlay writes copies of the module's files in which every statement may be preceded by a yield, for the
// native replay of schedules found by the engine, and returns the overlay file.
func (n *natives) delayOverlay() (string, error) {
	gm, err := os.ReadFile(filepath.Join(n.dir, "go.mod"))
	if err != nil {
		return "", err
	}
	mt := regexp.MustCompile(regexp.QuoteMeta(modulePath) + `(?: v\S+)? => (\S+)`).FindSubmatch(gm)
	if mt == nil {
		return "", fmt.Errorf("no replacement for %s in go.mod", modulePath)
	}
	repo := string(mt[1])
	if !filepath.IsAbs(repo) {
		repo = filepath.Join(n.dir, repo)
	}
	files, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return "", err
	}
	out := filepath.Join(n.tmp, "delay")
	if err := os.MkdirAll(out, 0o755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	pkg := ""
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			return "", err
		}
		pkg = af.Name.Name
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(af, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.SwitchStmt:
				for _, c := range x.Body.List {
					for _, s := range c.(*ast.CaseClause).Body {
						list([]ast.Stmt{s})
					}
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.CommClause:
				list(x.Body)
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
					default:
						list([]ast.Stmt{s})
					}
				}
			}
			return true
		})
		sort.Ints(at)
		var b strings.Builder
		last := 0
		for i, o := range at {
			if i > 0 && at[i-1] == o {
				continue
			}
			b.Write(src[last:o])
			b.WriteString("verifYield();")
			last = o
		}
		b.Write(src[last:])
		g := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(g, []byte(b.String()), 0o644); err != nil {
			return "", err
		}
		rep[f] = g
	}
	y := filepath.Join(out, "zz_verif_yield.go")
	os.WriteFile(y, []byte("package "+pkg+`

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
)

var verifRate = func() uint32 { n, _ := strconv.Atoi(os.Getenv("VERIF_YIELD")); return uint32(n) }()

func verifYield() {
	if verifRate > 0 && rand.Uint32N(verifRate) == 0 {
		for k := 1 << rand.Uint32N(7); k > 0; k-- {
			runtime.Gosched()
		}
	}
}
`), 0o644)
	rep[filepath.Join(repo, "zz_verif_yield.go")] = y
	o, err := json.Marshal(map[string]any{"Replace": rep})
	if err != nil {
		return "", err
	}
	p := filepath.Join(out, "overlay.json")
	return p, os.WriteFile(p, o, 0o644)
}
