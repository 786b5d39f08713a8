// Command vstinstr makes the instrumented copy of the repository that the
// simulator runs.
//
//	vstinstr -src /repo -dst DIR/repo [-full pkg,pkg] [-cgo] [-header FILE]
//
// It copies the non-test Go sources under pkg/ and rewrites them by text
// insertion (line numbers stay the same):
//   - imports of sync, sync/atomic, time and math/rand become the simulator's;
//   - in the packages named by -full a yield point precedes every statement,
//     and read-modify-write statements get one between the read and the write;
//   - elsewhere every loop body counts one step of the run's budget;
//   - ranging over a map becomes ranging in a seeded order;
//   - package-level variables are registered, so that every run starts from
//     the program's initial state.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/justyntemme/vst3go"

var swaps = map[string]string{
	"sync":        "vstrt/ssync",
	"sync/atomic": "vstrt/satomic",
	"time":        "vstrt/stime",
	"math/rand":   "vstrt/srand",
}

// allocSeam precedes the bridge's C sources: their allocations go to the simulator.
const allocSeam = `#include <stdlib.h>
#include <string.h>
#ifndef VS_ALLOC_SEAM
#define VS_ALLOC_SEAM
extern void* vs_malloc(size_t);
extern void vs_free(void*);
extern void* vs_calloc(size_t, size_t);
extern void* vs_realloc(void*, size_t);
extern char* vs_strdup(const char*);
#define malloc vs_malloc
#define free vs_free
#define calloc vs_calloc
#define realloc vs_realloc
#undef strdup
#define strdup vs_strdup
#endif
#line 1
`

type edit struct {
	pos, end int
	text     string
	seq      int
}

type pkgSrc struct {
	path  string // import path
	dir   string
	files []*ast.File
	names []string
	srcs  [][]byte
	tpkg  *types.Package
	info  *types.Info
	busy  bool
}

var (
	fset  = token.NewFileSet()
	pkgs  = map[string]*pkgSrc{}
	sites []string
	tagsF string
)

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p, ok := pkgs[path]; ok {
		check(p)
		if p.tpkg != nil {
			return p.tpkg, nil
		}
	}
	q := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
	q.MarkComplete()
	return q, nil
}

func check(p *pkgSrc) {
	if p.tpkg != nil || p.busy {
		return
	}
	p.busy = true
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{}, Error: func(error) {}, FakeImportC: true}
	p.tpkg, _ = conf.Check(p.path, fset, p.files, p.info)
	p.busy = false
}

func tagOK(src []byte, tags map[string]bool) bool {
	for _, line := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(line)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if constraint.IsGoBuild(t) {
			e, err := constraint.Parse(t)
			if err == nil {
				return e.Eval(func(tag string) bool {
					return tags[tag] || tag == "linux" || tag == "amd64" || tag == "cgo" || tag == "gc" || tag == "unix"
				})
			}
		}
	}
	return true
}

func main() {
	src := flag.String("src", "/repo", "")
	dst := flag.String("dst", "", "")
	full := flag.String("full", "", "comma separated package dirs below pkg/")
	plain := flag.Bool("plain", false, "no yield points or loop counters, only the seams")
	cgo := flag.Bool("cgo", false, "include the packages that use cgo")
	header := flag.String("header", "", "stand-in for include/vst3/vst3_c_api.h")
	tags := flag.String("tags", "", "build tags")
	flag.Parse()
	fullSet := map[string]bool{}
	for _, f := range strings.Split(*full, ",") {
		if f != "" {
			fullSet["pkg/"+f] = true
		}
	}
	tagSet := map[string]bool{}
	for _, t := range strings.Split(*tags, ",") {
		tagSet[t] = true
	}
	cgoDirs := []string{"pkg/bridge", "pkg/plugin", "pkg/vst3"}
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "vstinstr:", err)
			os.Exit(2)
		}
	}
	die(os.MkdirAll(*dst, 0o755))
	gomod, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	die(err)
	die(os.WriteFile(filepath.Join(*dst, "go.mod"), []byte(string(gomod)+"\nrequire vstrt v0.0.0\n"), 0o644))

	err = filepath.Walk(filepath.Join(*src, "pkg"), func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, path)
		isCgo := false
		for _, d := range cgoDirs {
			if rel == d || strings.HasPrefix(rel, d+"/") {
				isCgo = true
			}
		}
		if isCgo && !*cgo {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") {
			if isCgo || strings.HasSuffix(path, ".h") || strings.HasSuffix(path, ".c") {
				b, err := os.ReadFile(path)
				if err != nil {
					return err
				}
				out := filepath.Join(*dst, rel)
				os.MkdirAll(filepath.Dir(out), 0o755)
				return os.WriteFile(out, b, 0o644)
			}
			return nil
		}
		if strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if !tagOK(b, tagSet) {
			return nil
		}
		ip := module + "/" + filepath.ToSlash(filepath.Dir(rel))
		p := pkgs[ip]
		if p == nil {
			p = &pkgSrc{path: ip, dir: filepath.ToSlash(filepath.Dir(rel))}
			pkgs[ip] = p
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			return err
		}
		p.files = append(p.files, f)
		p.names = append(p.names, rel)
		p.srcs = append(p.srcs, b)
		return nil
	})
	die(err)
	if *cgo {
		// bridge headers and C sources outside pkg/
		for _, d := range []string{"bridge", "include"} {
			filepath.Walk(filepath.Join(*src, d), func(path string, fi os.FileInfo, err error) error {
				if err != nil || fi.IsDir() {
					return nil
				}
				rel, _ := filepath.Rel(*src, path)
				b, err := os.ReadFile(path)
				die(err)
				if strings.HasSuffix(rel, ".c") {
					b = append([]byte(allocSeam), b...)
				}
				out := filepath.Join(*dst, rel)
				os.MkdirAll(filepath.Dir(out), 0o755)
				return os.WriteFile(out, b, 0o644)
			})
		}
		if *header != "" {
			b, err := os.ReadFile(*header)
			die(err)
			out := filepath.Join(*dst, "include/vst3/vst3_c_api.h")
			if _, err := os.Stat(out); err != nil {
				os.MkdirAll(filepath.Dir(out), 0o755)
				die(os.WriteFile(out, b, 0o644))
			}
		}
	}
	var order []string
	for ip := range pkgs {
		order = append(order, ip)
	}
	sort.Strings(order)
	for _, ip := range order {
		check(pkgs[ip])
	}
	sites = append(sites, "start")
	for _, ip := range order {
		p := pkgs[ip]
		mode := "loops"
		if fullSet[p.dir] {
			mode = "full"
		}
		if *plain {
			mode = "plain"
		}
		pkgVars := map[string]bool{}
		for _, f := range p.files {
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							pkgVars[n.Name] = true
						}
					}
				}
			}
		}
		for i, f := range p.files {
			out := rewrite(p, f, p.names[i], p.srcs[i], mode, pkgVars)
			o := filepath.Join(*dst, p.names[i])
			die(os.MkdirAll(filepath.Dir(o), 0o755))
			die(os.WriteFile(o, out, 0o644))
		}
	}
	b, _ := json.Marshal(sites)
	die(os.WriteFile(filepath.Join(*dst, "sites.json"), b, 0o644))
}

func rewrite(p *pkgSrc, f *ast.File, name string, src []byte, mode string, pkgVars map[string]bool) []byte {
	tf := fset.File(f.Pos())
	off := func(pos token.Pos) int { return tf.Offset(pos) }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var edits []edit
	ins := func(pos int, s string) { edits = append(edits, edit{pos, pos, s, len(edits)}) }
	rep := func(a, b int, s string) { edits = append(edits, edit{a, b, s, len(edits)}) }
	used := false
	site := func(n ast.Node) int {
		pp := fset.Position(n.Pos())
		sites = append(sites, fmt.Sprintf("%s:%d", name, pp.Line))
		return len(sites) - 1
	}
	for _, is := range f.Imports {
		path := strings.Trim(is.Path.Value, `"`)
		if to, ok := swaps[path]; ok {
			rep(off(is.Path.Pos()), off(is.Path.End()), `"`+to+`"`)
		}
	}
	isMap := func(e ast.Expr) bool {
		if p.info == nil {
			return false
		}
		tv, ok := p.info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}
	// shared: could the expression denote shared memory, and is evaluating it
	// twice harmless?
	var simple func(e ast.Expr) bool
	simple = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident, *ast.BasicLit:
			return true
		case *ast.SelectorExpr:
			return simple(x.X)
		case *ast.IndexExpr:
			return simple(x.X) && simple(x.Index)
		case *ast.StarExpr:
			return simple(x.X)
		case *ast.ParenExpr:
			return simple(x.X)
		}
		return false
	}
	shared := func(e ast.Expr) bool {
		if id, ok := e.(*ast.Ident); ok {
			return pkgVars[id.Name]
		}
		return simple(e)
	}
	hasFuncLit := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(m ast.Node) bool {
			if _, ok := m.(*ast.FuncLit); ok {
				found = true
			}
			return !found
		})
		return found
	}
	oneLine := func(s string) string { return strings.ReplaceAll(s, "\n", " ") }
	hasComment := func(s string) bool { return strings.Contains(s, "//") }
	var doList func(list []ast.Stmt)
	doList = func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			used = true
			y := fmt.Sprintf("vrt.Y(%d);", site(s))
			done := false
			switch x := s.(type) {
			case *ast.IncDecStmt:
				if shared(x.X) && !isMap(x.X) {
					l := text(x.X)
					op := "+"
					if x.Tok == token.DEC {
						op = "-"
					}
					rep(off(x.Pos()), off(x.End()), fmt.Sprintf("%s{ vrtT := %s; vrt.Y(%d); %s = vrtT %s 1 }", y, l, site(s), l, op))
					done = true
				}
			case *ast.AssignStmt:
				if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || hasFuncLit(x) || hasComment(text(x)) {
					break
				}
				l, r := text(x.Lhs[0]), text(x.Rhs[0])
				if !shared(x.Lhs[0]) || strings.Contains(r, "\n") && hasComment(r) {
					break
				}
				if x.Tok != token.ASSIGN {
					op := strings.TrimSuffix(x.Tok.String(), "=")
					if strings.Contains(r, "\n") {
						break
					}
					rep(off(x.Pos()), off(x.End()), fmt.Sprintf("%s{ vrtT := %s; vrt.Y(%d); %s = vrtT %s (%s) }", y, l, site(s), l, op, oneLine(r)))
					done = true
				} else if strings.Contains(r, "\n") {
					break
				} else if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && len(c.Args) > 0 && text(c.Args[0]) == l {
						rep(off(x.Pos()), off(x.End()), fmt.Sprintf("%s{ vrtT := %s; vrt.Y(%d); %s = vrtT }", y, r, site(s), l))
						done = true
					}
				} else if b, ok := x.Rhs[0].(*ast.BinaryExpr); ok && (text(b.X) == l || text(b.Y) == l) {
					switch b.Op {
					case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR:
						rep(off(x.Pos()), off(x.End()), fmt.Sprintf("%s{ vrtT := %s; vrt.Y(%d); %s = vrtT }", y, r, site(s), l))
						done = true
					}
				}
			}
			if !done {
				ins(off(s.Pos()), y)
			}
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			skip[x.Body] = true
		case *ast.SelectStmt:
			skip[x.Body] = true
		case *ast.FuncDecl:
			if x.Name.Name == "init" && x.Recv == nil {
				return false
			}
		case *ast.BlockStmt:
			if mode == "full" && !skip[x] {
				doList(x.List)
			}
		case *ast.CaseClause:
			if mode == "full" {
				doList(x.Body)
			}
		case *ast.ForStmt:
			if mode == "loops" || mode == "full" && len(x.Body.List) == 0 {
				used = true
				ins(off(x.Body.Lbrace)+1, " vrt.L();")
			}
		case *ast.RangeStmt:
			if mode == "loops" {
				used = true
				ins(off(x.Body.Lbrace)+1, " vrt.L();")
			}
			if isMap(x.X) && !hasFuncLit(x.X) {
				if x.Tok == token.DEFINE || x.Key == nil {
					used = true
					fn := "vrt.MapRange"
					if x.Value == nil {
						fn = "vrt.MapKeys"
					}
					t := text(x.X)
					rep(off(x.X.Pos()), off(x.X.End()), fn+"("+t+")")
				}
			}
		}
		return true
	})
	// Package-level variables.
	var reg []string
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, n := range s.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					reg = append(reg, n.Name)
				}
			}
		}
	}
	tail := ""
	if len(reg) > 0 {
		used = true
		tail = "\nfunc init() {\n"
		for _, n := range reg {
			tail += fmt.Sprintf("\tvrt.Global(%q, &%s)\n", p.dir+"."+n, n)
		}
		tail += "}\n"
	}
	if used {
		ins(off(f.Name.End()), `; import vrt "vstrt/rt"`)
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].seq < edits[j].seq
	})
	var out []byte
	at := 0
	for _, e := range edits {
		if e.pos < at {
			continue // nested inside a replaced range
		}
		out = append(out, src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, src[at:]...)
	out = append(out, tail...)
	return out
}
