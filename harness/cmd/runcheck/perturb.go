package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// perturb writes, under dir, copies of the library's source files in which
// every statement is preceded by a call of a schedule-perturbation point, and
// an overlay file that makes the go command build those copies instead. The
// point yields or sleeps at random; it uses only the runtime's own generator,
// so it adds no happens-before edge that could hide a data race, and calls are
// inserted without moving lines, so reports name the original positions.
func perturb(repo, dir string, pkgs []string) (overlay string, points int, err error) {
	replace := map[string]string{}
	for _, p := range pkgs {
		src := filepath.Join(repo, p)
		files, err := filepath.Glob(filepath.Join(src, "*.go"))
		if err != nil || len(files) == 0 {
			continue // the package may have been moved; it is simply not perturbed
		}
		pkgName := ""
		n := 0
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return "", 0, err
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, b, parser.ParseComments)
			if err != nil {
				return "", 0, err
			}
			if bytes.Contains(b, []byte("//go:build !go1.11")) || bytes.Contains(b, []byte("// +build !go1.11")) || bytes.Contains(b, []byte("// +build !go1.9")) {
				continue
			}
			pkgName = af.Name.Name
			var offs []int
			add := func(list []ast.Stmt) {
				for _, s := range list {
					switch s.(type) {
					case *ast.EmptyStmt:
						continue
					}
					offs = append(offs, fset.PositionFor(s.Pos(), false).Offset)
				}
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					// The body of a switch or select holds clauses, not statements.
					ok := true
					for _, s := range x.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							ok = false
						}
					}
					if ok {
						add(x.List)
					}
				case *ast.CaseClause:
					add(x.Body)
				case *ast.CommClause:
					add(x.Body)
				}
				return true
			})
			sort.Ints(offs)
			var out bytes.Buffer
			prev := 0
			for _, o := range offs {
				out.Write(b[prev:o])
				out.WriteString("verifPerturbPoint();")
				prev = o
			}
			out.Write(b[prev:])
			n += len(offs)
			dst := filepath.Join(dir, "src", p, filepath.Base(f))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return "", 0, err
			}
			if err := os.WriteFile(dst, out.Bytes(), 0o644); err != nil {
				return "", 0, err
			}
			replace[f] = dst
		}
		if pkgName == "" {
			continue
		}
		dst := filepath.Join(dir, "src", p, "zz_verif_perturb.go")
		if err := os.WriteFile(dst, []byte(fmt.Sprintf(pointSrc, pkgName)), 0o644); err != nil {
			return "", 0, err
		}
		replace[filepath.Join(src, "zz_verif_perturb.go")] = dst
		points += n
	}
	b, err := json.Marshal(map[string]any{"Replace": replace})
	if err != nil {
		return "", 0, err
	}
	overlay = filepath.Join(dir, "overlay.json")
	return overlay, points, os.WriteFile(overlay, b, 0o644)
}

const pointSrc = `package %s

import (
	verifrand "math/rand/v2"
	verifruntime "runtime"
	veriftime "time"
)

func verifPerturbPoint() {
	x := verifrand.Uint32()
	if x&0x1f != 0 {
		return
	}
	x >>= 5
	switch {
	case x&0x7f == 0:
		veriftime.Sleep(veriftime.Duration(x>>7&0x3f) * veriftime.Microsecond)
	default:
		verifruntime.Gosched()
	}
}
`
