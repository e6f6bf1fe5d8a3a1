// Command instr rewrites the Go packages of the simulator so that every
// source of nondeterminism goes through the deterministic runtime, and writes
// a build overlay. It never touches the repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Name       string
	Module     *struct {
		Main bool
		Path string
	}
	Error *struct{ Err string }
}

var notes = map[string]bool{}

func note(f string, a ...interface{}) { notes[fmt.Sprintf(f, a...)] = true }

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo/SmartCache/sim", "module directory")
	rt := flag.String("rt", "/verif/rt", "runtime sources")
	out := flag.String("out", "/verif/.build", "output directory")
	gobin := flag.String("go", "go", "go tool")
	modfile := flag.String("modfile", "", "go.mod copy")
	guests := flag.String("guests", "", "further programs to mount, as DIR=MOUNT,...")
	flag.Parse()

	stage := map[string]string{} // file of a mounted program -> its staged copy
	args := []string{"list", "-modfile=" + *modfile, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Standard,Name,Module,Error"}
	if *guests != "" {
		for _, g := range strings.Split(*guests, ",") {
			kv := strings.SplitN(g, "=", 2)
			stageGuest(*repo, kv[0], kv[1], *out, modulePath(*modfile), stage)
		}
		f := filepath.Join(*out, "stage.json")
		js, _ := json.MarshalIndent(map[string]interface{}{"Replace": stage}, "", " ")
		must(os.WriteFile(f, js, 0644))
		args = append(args, "-overlay="+f)
	}
	args = append(args, "./...")
	cmd := exec.Command(*gobin, args...)
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, eb.String())
	}
	exports := map[string]string{}
	var own []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	modPath := ""
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			own = append(own, p)
			modPath = p.Module.Path
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})

	simosNames := exportedFuncs(filepath.Join(*rt, "simos"))
	overlay := map[string]string{}
	gen := filepath.Join(*out, "gen")
	_ = os.RemoveAll(gen)
	total := map[string]int{}
	for _, p := range own {
		if len(p.CgoFiles) > 0 {
			fatal("cgo in %s", p.ImportPath)
		}
		instrument(fset, imp, p, modPath, gen, simosNames, overlay, total, stage)
	}
	// runtime packages
	for _, sub := range []string{"simrt", "simos", "simviper"} {
		fs, _ := filepath.Glob(filepath.Join(*rt, sub, "*.go"))
		for _, f := range fs {
			overlay[filepath.Join(*repo, "verifsim", sub, filepath.Base(f))] = f
		}
	}
	fs, _ := filepath.Glob(filepath.Join(*rt, "main", "*.go"))
	for _, f := range fs {
		overlay[filepath.Join(*repo, "zz_verif_"+filepath.Base(f))] = f
	}
	if *guests != "" {
		fs, _ = filepath.Glob(filepath.Join(*rt, "guest", "*.go"))
		for _, f := range fs {
			overlay[filepath.Join(*repo, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0644))
	var ns []string
	for n := range notes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	js, _ = json.MarshalIndent(map[string]interface{}{"notes": ns, "rewrites": total}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "instr.json"), js, 0644))
}

// guestRoot is the directory below the module where other programs of the
// repository are mounted.
const guestRoot = "verifguest"

func modulePath(modfile string) string {
	b, err := os.ReadFile(modfile)
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return strings.Trim(f[1], "\"")
		}
	}
	fatal("no module line in %s", modfile)
	return ""
}

// stageGuest copies the Go packages of a program outside the module (its
// directory and those below, or one file) to where they can be imported:
// relative imports become absolute ones, package main gets a name.
func stageGuest(repo, src, mount, out, mod string, stage map[string]string) {
	var fs []string
	base := src
	if strings.HasSuffix(src, ".go") {
		fs, base = []string{src}, filepath.Dir(src)
	} else {
		must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() && p != src && (strings.HasPrefix(fi.Name(), ".") || strings.HasPrefix(fi.Name(), "_") || fi.Name() == "testdata") {
				return filepath.SkipDir
			}
			if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				fs = append(fs, p)
			}
			return nil
		}))
	}
	for n, f := range fs {
		b, err := os.ReadFile(f)
		must(err)
		set := token.NewFileSet()
		a, err := parser.ParseFile(set, f, b, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		rel, err := filepath.Rel(base, filepath.Dir(f))
		must(err)
		type edit struct {
			at, end int
			with    string
		}
		var ed []edit
		off := func(p token.Pos) int { return set.Position(p).Offset }
		if a.Name.Name == "main" {
			ed = append(ed, edit{off(a.Name.Pos()), off(a.Name.End()), "guestmain"})
		}
		for _, im := range a.Imports {
			p := strings.Trim(im.Path.Value, "\"`")
			if strings.HasPrefix(p, "./") || strings.HasPrefix(p, "../") {
				t := filepath.Join(mod, guestRoot, mount, rel, p)
				ed = append(ed, edit{off(im.Path.Pos()), off(im.Path.End()), fmt.Sprintf("%q", t)})
			}
		}
		for i := len(ed) - 1; i >= 0; i-- {
			b = append(b[:ed[i].at:ed[i].at], append([]byte(ed[i].with), b[ed[i].end:]...)...)
		}
		// build constraints stand before the package clause
		head := string(b[:off(a.Package)])
		var keep []string
		for _, l := range strings.Split(head, "\n") {
			if !strings.HasPrefix(l, "//go:build") && !strings.HasPrefix(l, "// +build") {
				keep = append(keep, l)
			}
		}
		text := "//go:build go1.22\n\n" + strings.Join(keep, "\n") + string(b[off(a.Package):])
		dst := filepath.Join(out, "stage", fmt.Sprintf("%s-%d-%s", mount, n, filepath.Base(f)))
		must(os.MkdirAll(filepath.Dir(dst), 0755))
		must(os.WriteFile(dst, []byte(text), 0644))
		stage[filepath.Join(repo, guestRoot, mount, rel, filepath.Base(f))] = dst
	}
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// exportedFuncs lists the exported top-level names of a package directory.
func exportedFuncs(dir string) map[string]bool {
	fs := token.NewFileSet()
	pk, err := parser.ParseDir(fs, dir, nil, 0)
	must(err)
	r := map[string]bool{}
	for _, p := range pk {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						r[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							if s.Name.IsExported() {
								r[s.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, n := range s.Names {
								if n.IsExported() {
									r[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return r
}

func instrument(fset *token.FileSet, imp types.Importer, p *listPkg, modPath, gen string, simosNames map[string]bool, overlay map[string]string, total map[string]int, stage map[string]string) {
	guest := strings.HasPrefix(p.ImportPath, modPath+"/"+guestRoot+"/")
	lang := "go1.21"
	if guest {
		lang = "go1.22" // as without a go.mod: the current language
	}
	var files []*ast.File
	var names []string
	var generated []bool
	for _, n := range p.GoFiles {
		full := filepath.Join(p.Dir, n)
		real := full
		if t := stage[full]; t != "" {
			real = t
		}
		src, err := os.ReadFile(real)
		must(err)
		if bytes.Contains(src, []byte("//go:embed")) || bytes.Contains(src, []byte("//go:linkname")) {
			fatal("%s: unsupported compiler directive", full)
		}
		f, err := parser.ParseFile(fset, full, src, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
		names = append(names, full)
		head := src
		if len(head) > 400 {
			head = head[:400]
		}
		generated = append(generated, bytes.Contains(head, []byte("// Code generated")))
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp, GoVersion: lang}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type check %s: %v", p.ImportPath, err)
	}
	// which file owns a package variable
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return -1
	}
	extra := make([][]ast.Decl, len(files))
	var calls []string
	rws := make([]*rewriter, len(files))
	for i := range files {
		rws[i] = &rewriter{fset: fset, info: info, pkg: tp, file: files[i], simos: simosNames, total: total, used: map[string]bool{}, modPath: modPath, guest: guest}
	}
	// rewrite everything in place
	initN := 0
	isMain := p.Name == "main"
	for i, f := range files {
		if generated[i] {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				if fd.Name.Name == "init" {
					fd.Name = ast.NewIdent(fmt.Sprintf("vsimOrigInit%d", initN))
					initN++
				}
				if guest && fd.Name.Name == "main" {
					fd.Name = ast.NewIdent("VsimMain")
				}
				if isMain && fd.Name.Name == "main" {
					fd.Name = ast.NewIdent("vsimOrigMain")
				}
			}
		}
		rws[i].fileDecls(f)
	}
	// resets: zero values first, then initializers in order
	hasInit := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			hasInit[v] = true
		}
	}
	for _, n := range tp.Scope().Names() {
		v, ok := tp.Scope().Lookup(n).(*types.Var)
		if !ok || hasInit[v] || n == "_" {
			continue
		}
		if i := fileOf(v.Pos()); i < 0 || generated[i] {
			continue
		}
		calls = append(calls, fmt.Sprintf("vsimrt.Zero(&%s)", n))
	}
	for k, in := range info.InitOrder {
		if len(in.Lhs) == 0 {
			continue
		}
		i := fileOf(in.Lhs[0].Pos())
		if i < 0 || generated[i] {
			continue
		}
		blank := true
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		rhs := findInit(files[i], in.Lhs[0], info)
		if rhs == nil {
			fatal("no initializer for %s", in.Lhs[0].Name())
		}
		fn := fmt.Sprintf("vsimGlobal%d", k)
		extra[i] = append(extra[i], &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}}})
		calls = append(calls, fn+"()")
	}
	for k := 0; k < initN; k++ {
		calls = append(calls, fmt.Sprintf("vsimOrigInit%d()", k))
	}
	dir := filepath.Join(gen, strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/"))
	must(os.MkdirAll(dir, 0755))
	for i, f := range files {
		if generated[i] {
			note("not instrumented (generated): %s", names[i])
			continue
		}
		f.Decls = append(f.Decls, extra[i]...)
		rws[i].fixImports(f, modPath)
		var buf bytes.Buffer
		buf.WriteString("//go:build " + lang + "\n\n")
		f.Comments = nil
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			fatal("print %s: %v", names[i], err)
		}
		dst := filepath.Join(dir, filepath.Base(names[i]))
		must(os.WriteFile(dst, buf.Bytes(), 0644))
		overlay[names[i]] = dst
	}
	if len(calls) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "//go:build %s\n\npackage %s\n\nimport vsimrt \"%s/verifsim/simrt\"\n\nfunc init() { vsimrt.RegisterReset(vsimReset) }\n\nfunc vsimReset() {\n", lang, p.Name, modPath)
		for _, c := range calls {
			sb.WriteString("\t" + c + "\n")
		}
		sb.WriteString("}\n")
		dst := filepath.Join(dir, "zz_vsim_reset.go")
		must(os.WriteFile(dst, []byte(sb.String()), 0644))
		overlay[filepath.Join(p.Dir, "zz_vsim_reset.go")] = dst
	}
}

// findInit returns the (already rewritten) initialiser of a package variable.
func findInit(f *ast.File, v *types.Var, info *types.Info) ast.Expr {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if info.Defs[n] == v {
					if len(vs.Values) == len(vs.Names) {
						return vs.Values[i]
					}
					if len(vs.Values) == 1 {
						return vs.Values[0]
					}
				}
			}
		}
	}
	return nil
}
