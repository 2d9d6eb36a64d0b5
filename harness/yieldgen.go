package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// cmdYieldgen writes copies of the packages with a scheduling point before
// every statement, and the overlay that puts them in place of the originals.
// The copies do what the originals do, with other interleavings.
func cmdYieldgen(args []string) {
	out := args[0]
	rep := map[string]string{}
	for _, dir := range args[1:] {
		sites, pkg := 0, ""
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		must(err)
		for _, file := range files {
			if strings.HasSuffix(file, "_test.go") {
				continue
			}
			src, err := os.ReadFile(file)
			must(err)
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
			must(err)
			pkg = f.Name.Name
			var at []int
			add := func(ss []ast.Stmt) {
				for _, s := range ss {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(x.List)
				case *ast.CaseClause:
					add(x.Body)
				case *ast.CommClause:
					add(x.Body)
				}
				return true
			})
			sort.Ints(at)
			var b strings.Builder
			last := 0
			for _, o := range at {
				b.Write(src[last:o])
				fmt.Fprintf(&b, "verifYield(%d); ", sites)
				sites++
				last = o
			}
			b.Write(src[last:])
			dst := filepath.Join(out, pkg+"_"+filepath.Base(file))
			must(os.WriteFile(dst, []byte(b.String()), 0644))
			rep[file] = dst
		}
		dst := filepath.Join(out, pkg+"_yield.go")
		must(os.WriteFile(dst, []byte(fmt.Sprintf(yieldSrc, pkg, sites+1)), 0644))
		rep[filepath.Join(dir, "verif_yield.go")] = dst
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": rep})
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644))
}

const yieldSrc = `package %s

import (
	"math/rand"
	"runtime"
	"time"
)

const verifSites = %d

// set between runs only
var verifDelay [verifSites]struct {
	every, nap int
}

// VerifPlan picks a few statements to be delayed often and long, others to
// yield, and leaves the rest alone.
func VerifPlan(seed int64) {
	r := rand.New(rand.NewSource(seed))
	for i := range verifDelay {
		verifDelay[i].every, verifDelay[i].nap = 0, 0
		if r.Intn(3) == 0 {
			verifDelay[i].every = 1 + r.Intn(4)
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		i := r.Intn(verifSites)
		verifDelay[i].every, verifDelay[i].nap = 1+r.Intn(3), 1+r.Intn(400)
	}
}

func verifYield(i int) {
	d := verifDelay[i]
	if d.every == 0 || int(time.Now().UnixNano()>>4)%%d.every != 0 {
		return
	}
	if d.nap == 0 {
		runtime.Gosched()
		return
	}
	time.Sleep(time.Duration(d.nap) * time.Microsecond)
}
`
