// Package instr prepares the copies of the code under test that the
// concurrency check runs: a call of verifYield before every statement, and a
// VerifReset function that puts every package-level variable back to its
// initial value. The copies are used through go build's -overlay; /repo is
// not touched.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Pkgs are the instrumented packages, dependencies first.
var Pkgs = []string{"sm3", "sm2", "x509", "pkcs12"}

type insertion struct {
	off  int
	text string
}

// poolSrc replaces sync.Pool in the race-detector build: nothing is ever
// reused, so that the library's own pools do not order the two threads.
const poolSrc = `

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
`

// Main writes the overlays into out: overlay.json (yields) and race.json.
func Main(repo, out string) error {
	if err := os.MkdirAll(out, 0755); err != nil {
		return err
	}
	over := map[string]string{}
	site := 0
	var hot []int // sites whose statement mentions a package-level variable
	for _, p := range Pkgs {
		dir := filepath.Join(repo, p)
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		type file struct {
			path string
			src  []byte
			ast  *ast.File
		}
		var files []file
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || e.IsDir() {
				continue
			}
			fn := filepath.Join(dir, n)
			src, err := os.ReadFile(fn)
			if err != nil {
				return err
			}
			a, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				return err
			}
			if constrained(n, a) {
				continue
			}
			files = append(files, file{fn, src, a})
		}
		if len(files) == 0 {
			return fmt.Errorf("no files in %s", dir)
		}
		// package-level names
		vars := map[string]bool{}
		deps := map[string][]string{} // name -> identifiers its initialiser or body mentions
		type spec struct {
			names []string
			code  string
			file  int
			fn    string
			uses  map[string]bool
		}
		var specs []*spec
		for fi, f := range files {
			for _, d := range f.ast.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Body != nil {
						key := d.Name.Name
						if d.Recv != nil {
							key = "." + key // methods by name
						}
						deps[key] = append(deps[key], idents(d.Body)...)
					}
				case *ast.GenDecl:
					if d.Tok != token.VAR {
						continue
					}
					embed := d.Doc != nil && strings.Contains(d.Doc.Text(), "go:embed")
					for _, s := range d.Specs {
						v := s.(*ast.ValueSpec)
						var names []string
						blank := true
						for _, n := range v.Names {
							names = append(names, n.Name)
							if n.Name != "_" {
								vars[n.Name] = true
								blank = false
							}
						}
						if blank || embed || hasEmbed(v.Doc) {
							continue
						}
						text := func(n ast.Node) string {
							return string(f.src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
						}
						if len(v.Values) == len(v.Names) {
							for i, n := range v.Names {
								if n.Name == "_" {
									continue
								}
								code := n.Name + " = " + text(v.Values[i])
								if v.Type != nil {
									code = "var v " + text(v.Type) + " = " + text(v.Values[i]) + "\n\t" + n.Name + " = v"
								}
								sp := &spec{names: []string{n.Name}, code: code, file: fi, uses: set(idents(v.Values[i]))}
								specs = append(specs, sp)
							}
							continue
						}
						sp := &spec{names: names, file: fi, uses: map[string]bool{}}
						if len(v.Values) > 0 {
							sp.code = strings.Join(names, ", ") + " = " + text(v.Values[0])
							sp.uses = set(idents(v.Values[0]))
						} else {
							var l []string
							for _, n := range names {
								if n != "_" {
									l = append(l, n+" = *new("+text(v.Type)+")")
								}
							}
							sp.code = strings.Join(l, "\n\t")
						}
						specs = append(specs, sp)
					}
				}
			}
		}
		owner := map[string]*spec{}
		for i, s := range specs {
			s.fn = fmt.Sprintf("verifReset%d", i)
			for _, n := range s.names {
				owner[n] = s
			}
		}
		// initialisation order: depth first over what the initialisers reach
		var order []*spec
		done := map[*spec]int{}
		var visit func(s *spec)
		visit = func(s *spec) {
			if done[s] != 0 {
				return
			}
			done[s] = 1
			seen := map[string]bool{}
			var reach func(names map[string]bool)
			reach = func(names map[string]bool) {
				var l []string
				for n := range names {
					l = append(l, n)
				}
				sort.Strings(l)
				for _, n := range l {
					if seen[n] {
						continue
					}
					seen[n] = true
					if o := owner[n]; o != nil && o != s {
						visit(o)
					}
					if d, ok := deps[n]; ok {
						reach(set(d))
					}
					if d, ok := deps["."+n]; ok {
						reach(set(d))
					}
				}
			}
			reach(s.uses)
			order = append(order, s)
		}
		for _, s := range specs {
			visit(s)
		}
		// write the files
		var inits []string
		for fi, f := range files {
			var ins []insertion
			tail := ""
			for _, d := range f.ast.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
					n := fmt.Sprintf("verifInit%d", len(inits))
					inits = append(inits, n)
					ins = append(ins, insertion{fset.Position(fd.Name.End()).Offset, n + "Renamed"})
					// "init" + "verifInit0Renamed" is a new name
					tail += fmt.Sprintf("\nfunc init() { init%sRenamed() }\nfunc %s() { init%sRenamed() }\n", n, n, n)
				}
			}
			stmts := func(list []ast.Stmt) {
				for _, s := range list {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						continue
					}
					if mentions(s, vars) {
						hot = append(hot, site)
					}
					ins = append(ins, insertion{fset.Position(s.Pos()).Offset, fmt.Sprintf("verifYield(%d);", site)})
					site++
				}
			}
			ast.Inspect(f.ast, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
				case *ast.CommClause:
					stmts(n.Body)
				}
				return true
			})
			sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
			var b strings.Builder
			last := 0
			for _, in := range ins {
				b.Write(f.src[last:in.off])
				b.WriteString(in.text)
				last = in.off
			}
			b.Write(f.src[last:])
			b.WriteString("\n" + tail)
			for _, s := range specs {
				if s.file == fi {
					fmt.Fprintf(&b, "\nfunc %s() {\n\t%s\n}\n", s.fn, s.code)
				}
			}
			of := filepath.Join(out, p+"_"+filepath.Base(f.path))
			if err := os.WriteFile(of, []byte(b.String()), 0644); err != nil {
				return err
			}
			over[f.path] = of
		}
		var h strings.Builder
		fmt.Fprintf(&h, "package %s\n\n// VerifYield is called before every statement.\nvar VerifYield func(site int)\n\nfunc verifYield(n int) {\n\tif f := VerifYield; f != nil {\n\t\tf(n)\n\t}\n}\n\n// VerifReset puts the package back to its initial state.\nfunc VerifReset() {\n", files[0].ast.Name.Name)
		for _, s := range order {
			fmt.Fprintf(&h, "\t%s()\n", s.fn)
		}
		for _, n := range inits {
			fmt.Fprintf(&h, "\t%s()\n", n)
		}
		h.WriteString("}\n")
		of := filepath.Join(out, p+"_zz_verif_hook.go")
		if err := os.WriteFile(of, []byte(h.String()), 0644); err != nil {
			return err
		}
		over[filepath.Join(dir, "zz_verif_hook.go")] = of
	}
	b, _ := json.Marshal(map[string]any{"Replace": over})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		return err
	}
	b, _ = json.Marshal(map[string]any{"sites": site, "hot": hot})
	if err := os.WriteFile(filepath.Join(out, "sites.json"), b, 0644); err != nil {
		return err
	}
	return race(out)
}

// race writes the overlay of the race-detector build.
func race(out string) error {
	root := os.Getenv("MC_GOROOT")
	pool := filepath.Join(root, "src", "sync", "pool.go")
	src, err := os.ReadFile(pool)
	if err != nil {
		return err
	}
	re := regexp.MustCompile(`(?m)^func \(p \*Pool\) (Put|Get)\(`)
	s := re.ReplaceAllString(string(src), "func (p *Pool) old$1(") + poolSrc
	of := filepath.Join(out, "sync_pool.go")
	if err := os.WriteFile(of, []byte(s), 0644); err != nil {
		return err
	}
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{pool: of}})
	return os.WriteFile(filepath.Join(out, "race.json"), b, 0644)
}

func constrained(name string, a *ast.File) bool {
	for _, g := range a.Comments {
		if g.Pos() > a.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") {
				return true
			}
		}
	}
	for _, s := range []string{"_windows.go", "_darwin.go", "_arm64.go", "_386.go", "_js.go", "_wasm.go", "_s390x.go", "_ppc64le.go"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

func hasEmbed(g *ast.CommentGroup) bool {
	if g == nil {
		return false
	}
	for _, c := range g.List {
		if strings.HasPrefix(c.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func idents(n ast.Node) (l []string) {
	ast.Inspect(n, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			l = append(l, i.Name)
		}
		return true
	})
	return
}

func set(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// mentions looks at a statement without the blocks inside it.
func mentions(s ast.Stmt, vars map[string]bool) (yes bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			if vars[n.Name] {
				yes = true
			}
		}
		return !yes
	})
	return
}
