// Command rewrite turns the package under test into its simulated form: every
// goroutine, channel, lock, timer, map access, file, console and process
// operation goes through simrt, and scheduling points are inserted before
// statements that touch memory other goroutines can reach.  It reads the
// working tree of the repository as it is and never writes to it.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var (
	fset  = token.NewFileSet()
	info  *types.Info
	pkg   *types.Package
	shims = map[string]map[string]bool{} // import path -> exported names
	shimP = map[string]string{
		"sync": "ssync", "sync/atomic": "satomic", "time": "stime", "os": "sos", "os/exec": "sexec",
		"math/rand": "srand", "math/rand/v2": "srand", "fmt": "sfmt", "io/ioutil": "sioutil", "path/filepath": "sfilepath",
		"runtime": "sruntime", "log": "slog", "container/list": "slist", "context": "scontext",
	}
	mutable  = map[types.Object]bool{} // package variables written outside initialisers
	captured = map[types.Object]bool{} // local variables shared with a function literal
)

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"rewrite:"}, a...)...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	simdir := flag.String("sim", "", "module directory the instrumented package is written below (as golisp/)")
	flag.Parse()
	loadShims(*simdir)
	writeMod(*repo, *simdir)

	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(*repo, 0)
	if err != nil {
		die(err)
	}
	names := append([]string{}, bp.GoFiles...)
	files := []*ast.File{}
	srcNames := []string{}
	for _, n := range names {
		f, err := parser.ParseFile(fset, filepath.Join(*repo, n), nil, parser.SkipObjectResolution)
		if err != nil {
			die(err)
		}
		files = append(files, f)
		srcNames = append(srcNames, n)
	}
	// cgo files (terminal line editing) are replaced by the simulated terminal
	for _, n := range bp.IgnoredGoFiles {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(*repo, n), nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		if !usesC(f) {
			continue
		}
		g := terminalStub(f)
		srcNames = append(srcNames, "zz_terminal.go")
		files = append(files, g)
	}
	for _, n := range bp.CgoFiles {
		die("unexpected cgo file", n)
	}
	pkgName := files[0].Name.Name
	imp := exportImporter(*simdir, files)
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: imp, FakeImportC: true, GoVersion: "go" + goVersion(*repo)}
	pkg, err = conf.Check("verifsim/golisp", fset, files, info)
	if err != nil {
		die("type check:", err)
	}
	analyse(files)
	out := filepath.Join(*simdir, "golisp")
	os.RemoveAll(out)
	if err := os.MkdirAll(out, 0777); err != nil {
		die(err)
	}
	for i, f := range files {
		rw := &rewriter{file: f, need: map[string]string{}, real: map[string]bool{}}
		src := rw.fileSource()
		if err := os.WriteFile(filepath.Join(out, srcNames[i]), src, 0666); err != nil {
			die(err)
		}
	}
	reset := resetSource(pkgName)
	if err := os.WriteFile(filepath.Join(out, "zz_reset.go"), reset, 0666); err != nil {
		die(err)
	}
}

func usesC(f *ast.File) bool {
	for _, i := range f.Imports {
		if i.Path.Value == `"C"` {
			return true
		}
	}
	return false
}

// terminalStub keeps the signatures of the cgo file's exported functions.
func terminalStub(f *ast.File) *ast.File {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport \"os\"\n\nvar _ = os.Args\n\n", f.Name.Name)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || !fd.Name.IsExported() {
			continue
		}
		var sig bytes.Buffer
		format.Node(&sig, fset, fd.Type)
		s := strings.Replace(sig.String(), "func(", "func "+fd.Name.Name+"(", 1)
		args := []string{}
		for _, p := range fd.Type.Params.List {
			for _, n := range p.Names {
				args = append(args, n.Name)
			}
		}
		body := ""
		switch fd.Name.Name {
		case "ReadLine":
			body = "return os.ReadLine(" + strings.Join(args, ", ") + ")"
		case "AddHistory":
			body = "os.AddHistory(" + strings.Join(args, ", ") + ")"
		case "WriteHistoryToFile":
			body = "os.WriteHistory(" + strings.Join(args, ", ") + ")"
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				body += "; return 0"
			}
		default:
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				body = "return 0"
			}
		}
		fmt.Fprintf(&b, "%s { %s }\n", s, body)
	}
	src := b.String()
	src = strings.Replace(src, "import \"os\"", "import os \"verifsim/sos\"", 1)
	g, err := parser.ParseFile(fset, "zz_terminal.go", src, parser.SkipObjectResolution)
	if err != nil {
		die(err, src)
	}
	return g
}

func goVersion(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	m := regexp.MustCompile(`(?m)^go\s+(\d+)\.(\d+)`).FindStringSubmatch(string(b))
	if m == nil {
		return "1.21"
	}
	min, _ := strconv.Atoi(m[2])
	if min < 21 {
		min = 21
	}
	return fmt.Sprintf("1.%d", min)
}

func writeMod(repo, sim string) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die(err)
	}
	s := string(b)
	s = regexp.MustCompile(`(?m)^module\s+.*$`).ReplaceAllString(s, "module verifsim")
	s = regexp.MustCompile(`(?m)^go\s+.*$`).ReplaceAllString(s, "go "+goVersion(repo))
	s = regexp.MustCompile(`(?m)^toolchain\s+.*$`).ReplaceAllString(s, "")
	os.WriteFile(filepath.Join(sim, "go.mod"), []byte(s), 0666)
	defer simulateSet(sim, s)
	if g, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(sim, "go.sum"), g, 0666)
	}
}

const setPath = "github.com/SteelSeries/set.v0"

// simulateSet gives the package's only dependency with a map and a lock of its
// own the same seams: a copy of it, with its lock, map accesses and iterations
// behind simrt, takes its place.
func simulateSet(sim, mod string) {
	if !strings.Contains(mod, setPath) {
		return
	}
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", setPath)
	cmd.Dir = sim
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	dir := strings.TrimSpace(string(o))
	if err != nil || dir == "" {
		die("no source of", setPath, err)
	}
	out := filepath.Join(sim, "setv0")
	if err := os.MkdirAll(out, 0777); err != nil {
		die(err)
	}
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		b, err := os.ReadFile(m)
		if err != nil {
			die(err)
		}
		s := string(b)
		t := strings.Replace(s, "\"sync\"", "sync \"verifsim/ssync\"", 1)
		t = strings.ReplaceAll(t, "for item := range s.m {", "for _, it := range simrt.Iter(s.m) {\nitem, _, there := it.Next()\nif !there { continue }\n")
		t = regexp.MustCompile(`\bs\.m\[(\w+)\] = `).ReplaceAllString(t, "simrt.MW(s.m)[$1] = ")
		t = regexp.MustCompile(` = s\.m\[(\w+)\]`).ReplaceAllString(t, " = simrt.MR(s.m)[$1]")
		t = strings.ReplaceAll(t, "delete(s.m, item)", "simrt.MDel(s.m, item)")
		if strings.Contains(t, "simrt.") {
			t = regexp.MustCompile(`(?m)^package (\w+)$`).ReplaceAllString(t, "package $1\n\nimport \"verifsim/simrt\"\n")
		}
		os.WriteFile(filepath.Join(out, filepath.Base(m)), []byte(t), 0666)
	}
	os.WriteFile(filepath.Join(out, "go.mod"), []byte("module "+setPath+"\n\ngo 1.21\n"), 0666)
	os.WriteFile(filepath.Join(sim, "go.mod"), []byte(mod+"\nreplace "+setPath+" => ./setv0\n"), 0666)
}

func loadShims(sim string) {
	for ip, dir := range shimP {
		m := map[string]bool{}
		ps, err := parser.ParseDir(fset, filepath.Join(sim, dir), nil, parser.SkipObjectResolution)
		if err != nil {
			die(err)
		}
		for _, p := range ps {
			for _, f := range p.Files {
				for _, d := range f.Decls {
					switch d := d.(type) {
					case *ast.FuncDecl:
						if d.Recv == nil && d.Name.IsExported() {
							m[d.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range d.Specs {
							switch s := s.(type) {
							case *ast.TypeSpec:
								m[s.Name.Name] = true
							case *ast.ValueSpec:
								for _, n := range s.Names {
									m[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		shims[ip] = m
	}
}

// exportImporter resolves imports from compiled export data.
func exportImporter(dir string, files []*ast.File) types.Importer {
	set := map[string]bool{"unsafe": false}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
	for _, f := range files {
		for _, i := range f.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			if p == "C" || p == "unsafe" || set[p] {
				continue
			}
			set[p] = true
			args = append(args, p)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	exp := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(o))
	for dec.More() {
		var x struct{ ImportPath, Export string }
		if err := dec.Decode(&x); err != nil {
			die(err)
		}
		exp[x.ImportPath] = x.Export
	}
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exp[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
}

func pkgVar(id *ast.Ident) types.Object {
	o := info.Uses[id]
	if o == nil {
		return nil
	}
	if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() == pkg.Scope() {
		return o
	}
	return nil
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// analyse finds the package variables that change after initialisation and
// the locals shared with function literals.
func analyse(files []*ast.File) {
	mark := func(e ast.Expr) {
		if id := rootIdent(e); id != nil {
			if o := pkgVar(id); o != nil {
				mutable[o] = true
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						for _, l := range n.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
				case *ast.RangeStmt:
					if n.Tok == token.ASSIGN {
						if n.Key != nil {
							mark(n.Key)
						}
						if n.Value != nil {
							mark(n.Value)
						}
					}
				case *ast.CallExpr:
					// method calls with pointer receivers, and arguments passed on
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
							mark(s.X)
						}
					}
				case *ast.FuncLit:
					lo, hi := n.Pos(), n.End()
					ast.Inspect(n.Body, func(m ast.Node) bool {
						if id, ok := m.(*ast.Ident); ok {
							if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != pkg.Scope() && (v.Pos() < lo || v.Pos() > hi) {
								captured[v] = true
							}
						}
						return true
					})
				}
				return true
			})
		}
	}
}

// ---------------------------------------------------------------- rewriter

type rewriter struct {
	file  *ast.File
	need  map[string]string // alias -> import path
	real  map[string]bool   // original import names still used
	tmp   int
	extra []ast.Decl
}

func (r *rewriter) fresh(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("_%s%d", p, r.tmp))
}

func (r *rewriter) rt(name string) ast.Expr {
	r.need["simrt"] = "verifsim/simrt"
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) point(sync bool) ast.Stmt {
	if sync {
		return &ast.ExprStmt{X: r.call("SP", &ast.BasicLit{Kind: token.INT, Value: "13"})}
	}
	return &ast.ExprStmt{X: r.call("P")}
}

var initFuncs []string
var initSeq int

func (r *rewriter) fileSource() []byte {
	f := r.file
	var b bytes.Buffer
	decls := []ast.Decl{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			r.genDecl(d, true)
			decls = append(decls, d)
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				n := fmt.Sprintf("verifInit%d", initSeq)
				initSeq++
				initFuncs = append(initFuncs, n)
				d.Name = ast.NewIdent(n)
			}
			d.Doc = nil
			if d.Recv != nil {
				r.fieldList(d.Recv)
			}
			r.funcType(d.Type)
			if d.Body != nil {
				d.Body.List = r.stmts(d.Body.List)
			}
			decls = append(decls, d)
		}
	}
	decls = append(decls, r.extra...)
	fmt.Fprintf(&b, "package %s\n\n", f.Name.Name)
	imps := []string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if i.Name != nil && i.Name.Name == "_" {
			imps = append(imps, fmt.Sprintf("_ %q", p))
			continue
		}
		if i.Name != nil && i.Name.Name == "." {
			if _, ok := shimP[p]; ok {
				die("dot import of", p)
			}
			imps = append(imps, fmt.Sprintf(". %q", p))
			continue
		}
		if r.real[p] {
			if i.Name != nil {
				imps = append(imps, fmt.Sprintf("%s %q", i.Name.Name, p))
			} else {
				imps = append(imps, fmt.Sprintf("%q", p))
			}
		}
	}
	for a, p := range r.need {
		imps = append(imps, fmt.Sprintf("%s %q", a, p))
	}
	sort.Strings(imps)
	for _, s := range imps {
		fmt.Fprintf(&b, "import %s\n", s)
	}
	fmt.Fprintln(&b)
	for _, d := range decls {
		if err := format.Node(&b, fset, d); err != nil {
			die(fset.Position(d.Pos()), err)
		}
		fmt.Fprint(&b, "\n\n")
	}
	return b.Bytes()
}

// resetSource re-runs package initialisation.
func resetSource(pkgName string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport simrt \"verifsim/simrt\"\n\nvar _ = simrt.P\n\n", pkgName)
	fmt.Fprintf(&b, "// VerifReset puts every package variable back to its state at process start.\nfunc VerifReset() {\n")
	done := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			done[v] = true
		}
	}
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !done[v] && n != "_" {
			fmt.Fprintf(&b, "\t%s = simrt.Zero(%s)\n", n, n)
		}
	}
	for _, in := range info.InitOrder {
		id, ok := initExprID[in.Rhs]
		if !ok {
			die("initialiser without function", in)
		}
		fmt.Fprintf(&b, "\tverifInitExpr%d()\n", id)
	}
	for _, n := range initFuncs {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	fmt.Fprintf(&b, "}\n\n// VerifVars gives every package variable.\nfunc VerifVars() map[string]interface{} {\n\treturn map[string]interface{}{\n")
	for _, n := range sc.Names() {
		if _, ok := sc.Lookup(n).(*types.Var); ok && n != "_" {
			fmt.Fprintf(&b, "\t\t%q: &%s,\n", n, n)
		}
	}
	fmt.Fprintf(&b, "\t}\n}\n")
	return b.Bytes()
}

var initExprID = map[ast.Expr]int{}

func (r *rewriter) genDecl(d *ast.GenDecl, top bool) {
	d.Doc = nil
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if s.Type != nil {
				s.Type = r.typ(s.Type)
			}
			for i := range s.Values {
				e := s.Values[i]
				ne := r.expr(e)
				s.Values[i] = ne
				if top && d.Tok == token.VAR {
					id := len(initExprID)
					initExprID[e] = id
					lhs := []ast.Expr{}
					if len(s.Values) == 1 {
						for _, n := range s.Names {
							lhs = append(lhs, ast.NewIdent(n.Name))
						}
					} else {
						lhs = append(lhs, ast.NewIdent(s.Names[i].Name))
					}
					r.extra = append(r.extra, &ast.FuncDecl{Name: ast.NewIdent(fmt.Sprintf("verifInitExpr%d", id)), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{ne}}}}})
				}
			}
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			if _, ok := s.Type.(*ast.ChanType); ok && !s.Assign.IsValid() {
				s.Assign = s.Name.End()
			}
			if s.TypeParams != nil {
				r.fieldList(s.TypeParams)
			}
			s.Type = r.typ(s.Type)
		}
	}
}
