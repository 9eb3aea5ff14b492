// simgen turns /repo's working tree (plus the two dependencies that hold
// shared state or do I/O, bbolt and go-fuse's nodefs) into simulated copies:
// every nondeterministic or effectful package is swapped for a shim, goroutines
// and channels become simulator tasks and queues, map iteration order becomes a
// choice of the simulator, and yield points are inserted before every
// statement. It only reads /repo and writes below -out.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var (
	outDir  = flag.String("out", "", "output directory (the btrsim module)")
	repo    = flag.String("repo", "/repo", "repository")
	slots   = flag.Int("slots", 2, "number of copies of the repository")
	pkgs    = map[string]*listPkg{}
	modPath string
)

// intercepted packages and the name of their shim.
var shims = map[string]string{
	"os": "os", "io/ioutil": "ioutil", "path/filepath": "filepath", "syscall": "syscall",
	"golang.org/x/sys/unix": "unix", "time": "time", "math/rand": "rand", "math/rand/v2": "randv2",
	"crypto/rand": "crand", "sync": "sync", "sync/atomic": "atomic", "os/signal": "signal",
	"context": "context", "io": "io",
	"log": "log", "fmt": "fmt", "runtime": "runtime", depFuse: "fuse",
}

const (
	depBolt   = "go.etcd.io/bbolt"
	depNodefs = "github.com/hanwen/go-fuse/v2/fuse/nodefs"
	depFuse   = "github.com/hanwen/go-fuse/v2/fuse"
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Imports,ImportMap,Module,Error", "./..."}
	for p := range shims {
		if p != "golang.org/x/sys/unix" && p != depFuse {
			args = append(args, p)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var repoPkgs []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		if !p.Standard && strings.HasPrefix(p.Dir, *repo) {
			if p.Error != nil {
				fatal("package %s: %s", p.ImportPath, p.Error.Err)
			}
			repoPkgs = append(repoPkgs, p)
			modPath = p.Module.Path
		}
	}
	if len(repoPkgs) == 0 {
		fatal("no packages in %s", *repo)
	}
	genShims()
	genDep(depBolt, "dep/bbolt")
	genDep(depNodefs, "dep/nodefs")
	for s := 0; s < *slots; s++ {
		genSlot(s, repoPkgs)
	}
}

func newImporter(fset *token.FileSet) types.Importer {
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
}

// ---------------------------------------------------------------- shims

// genShims writes, into every hand-written shim package, a file that
// re-exports everything of the real package the shim does not define itself.
func genShims() {
	imp := newImporter(token.NewFileSet())
	var paths []string
	for p := range shims {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, path := range paths {
		if pkgs[path] == nil {
			if path == "golang.org/x/sys/unix" || path == depFuse {
				continue
			}
			fatal("no package %s", path)
		}
		dir := filepath.Join(*outDir, "shim", shims[path])
		os.MkdirAll(dir, 0755)
		own := map[string]bool{}
		fset := token.NewFileSet()
		m, err := parser.ParseDir(fset, dir, nil, 0)
		if err != nil {
			fatal("%v", err)
		}
		for _, pk := range m {
			for _, f := range pk.Files {
				for _, d := range f.Decls {
					switch d := d.(type) {
					case *ast.FuncDecl:
						if d.Recv == nil {
							own[d.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range d.Specs {
							switch s := s.(type) {
							case *ast.TypeSpec:
								own[s.Name.Name] = true
							case *ast.ValueSpec:
								for _, n := range s.Names {
									own[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		p, err := imp.Import(path)
		if err != nil {
			fatal("import %s: %v", path, err)
		}
		var b bytes.Buffer
		name := shims[path]
		fmt.Fprintf(&b, "// Code generated by simgen. DO NOT EDIT.\npackage sim%s\n\nimport real_ %q\n\n", name, path)
		n := 0
		for _, nm := range p.Scope().Names() {
			o := p.Scope().Lookup(nm)
			if !o.Exported() || own[nm] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real_.%s\n", nm, nm)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real_.%s\n", nm, nm)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real_.%s\n", nm, nm)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real_.%s\n", nm, nm)
			default:
				continue
			}
			n++
		}
		if n == 0 {
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, "zz_reexport.go"), b.Bytes(), 0644); err != nil {
			fatal("%v", err)
		}
	}
}

// ---------------------------------------------------------------- packages

type unit struct {
	path   string
	fset   *token.FileSet
	files  []*ast.File
	names  []string
	info   *types.Info
	pkg    *types.Package
	slot   int
	isDep  bool
	cur    int
	nextID int
	// import aliases required per file
	need []map[string]string
}

func load(p *listPkg) *unit {
	u := &unit{path: p.ImportPath, fset: token.NewFileSet()}
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(u.fset, fn, nil, 0) // comments dropped on purpose
		if err != nil {
			fatal("%v", err)
		}
		u.files = append(u.files, af)
		u.names = append(u.names, f)
		u.need = append(u.need, map[string]string{})
	}
	u.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: newImporter(u.fset), GoVersion: ""}
	pkg, err := conf.Check(p.ImportPath, u.fset, u.files, u.info)
	if err != nil {
		fatal("type check %s: %v", p.ImportPath, err)
	}
	u.pkg = pkg
	return u
}

func (u *unit) mapImport(path string) string {
	if s, ok := shims[path]; ok {
		return "btrsim/shim/" + s
	}
	switch path {
	case depBolt:
		return "btrsim/dep/bbolt"
	case depNodefs:
		return "btrsim/dep/nodefs"
	}
	if !u.isDep && (path == modPath || strings.HasPrefix(path, modPath+"/")) {
		return fmt.Sprintf("btrsim/slot%d%s", u.slot, strings.TrimPrefix(path, modPath))
	}
	return path
}

func (u *unit) rewriteImports(f *ast.File) {
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		np := u.mapImport(path)
		if np == path {
			continue
		}
		if im.Name == nil {
			name := ""
			if p := pkgs[path]; p != nil {
				name = p.Name
			} else {
				name = filepath.Base(path)
			}
			im.Name = ast.NewIdent(name)
		}
		im.Path.Value = strconv.Quote(np)
	}
}

func (u *unit) write(dir string) {
	os.MkdirAll(dir, 0755)
	for i, f := range u.files {
		u.rewriteImports(f)
		for path, alias := range u.need[i] {
			spec := &ast.ImportSpec{Name: ast.NewIdent(alias), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
			d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
			f.Decls = append([]ast.Decl{d}, f.Decls...)
		}
		var b bytes.Buffer
		b.WriteString("// Code generated by simgen. DO NOT EDIT.\n\n")
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			fatal("print %s: %v", u.names[i], err)
		}
		if err := os.WriteFile(filepath.Join(dir, u.names[i]), b.Bytes(), 0644); err != nil {
			fatal("%v", err)
		}
	}
}

func genDep(path, rel string) {
	p := pkgs[path]
	if p == nil {
		// Not used by this tree; provide an empty package.
		dir := filepath.Join(*outDir, rel)
		os.MkdirAll(dir, 0755)
		os.WriteFile(filepath.Join(dir, "empty.go"), []byte("package "+filepath.Base(rel)+"\n"), 0644)
		return
	}
	u := load(p)
	u.isDep = true
	for i := range u.files {
		u.cur = i
		u.instrument(u.files[i])
	}
	u.write(filepath.Join(*outDir, rel))
}

func genSlot(slot int, list []*listPkg) {
	root := filepath.Join(*outDir, fmt.Sprintf("slot%d", slot))
	var order []string
	mainPath := ""
	for _, p := range list { // -deps order: dependencies first
		u := load(p)
		u.slot = slot
		for i := range u.files {
			u.cur = i
		}
		u.genReset()
		for i := range u.files {
			u.cur = i
			u.instrument(u.files[i])
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		if p.Name == "main" {
			for _, f := range u.files {
				f.Name = ast.NewIdent("simmain_")
			}
		}
		u.write(filepath.Join(root, rel))
		if p.Name == "main" {
			if p.ImportPath == modPath+"/cmd/btrfscue" || mainPath == "" {
				mainPath = "btrsim/slot" + fmt.Sprint(slot) + "/" + rel
			}
			var b bytes.Buffer
			fmt.Fprintf(&b, "package simmain_\n\nfunc SimMain() { main() }\n")
			os.WriteFile(filepath.Join(root, rel, "zz_simmain.go"), b.Bytes(), 0644)
		}
		order = append(order, "btrsim/slot"+fmt.Sprint(slot)+"/"+rel)
	}
	var b bytes.Buffer
	dir := filepath.Join(root, "zzboot")
	os.MkdirAll(dir, 0755)
	fmt.Fprintf(&b, "// Code generated by simgen. DO NOT EDIT.\npackage zzboot\n\nimport (\n")
	for i, o := range order {
		fmt.Fprintf(&b, "\tp%d %q\n", i, o)
	}
	fmt.Fprintf(&b, "\tmainpkg %q\n)\n\n", mainPath)
	fmt.Fprintf(&b, "// Boot does what starting a fresh process does: initialise every package, then run main.\nfunc Boot() {\n\tInit()\n\tmainpkg.SimMain()\n}\n\nfunc Init() {\n")
	for i := range order {
		fmt.Fprintf(&b, "\tp%d.SimReset_()\n", i)
	}
	fmt.Fprintf(&b, "}\n")
	os.WriteFile(filepath.Join(dir, "boot.go"), b.Bytes(), 0644)
}

// genReset turns package initialisation into a function that can be called
// again for every simulated process.
func (u *unit) genReset() {
	var inits []string
	fileOf := map[*ast.File]int{}
	for i, f := range u.files {
		fileOf[f] = i
	}
	findFile := func(pos token.Pos) int {
		for i, f := range u.files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return 0
	}
	var body []ast.Stmt
	call := func(name string) ast.Stmt { return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}} }
	// 1. zero all package-level variables
	zeroFile := map[int][]ast.Stmt{}
	for i, f := range u.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name == "_" {
						continue
					}
					zeroFile[i] = append(zeroFile[i], &ast.ExprStmt{X: &ast.CallExpr{
						Fun:  &ast.SelectorExpr{X: ast.NewIdent("simrt_"), Sel: ast.NewIdent("Zero")},
						Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)}}}})
				}
			}
		}
	}
	addFunc := func(fi int, name string, stmts []ast.Stmt) {
		u.files[fi].Decls = append(u.files[fi].Decls, &ast.FuncDecl{Name: ast.NewIdent(name),
			Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: stmts}})
	}
	for i := range u.files {
		if len(zeroFile[i]) > 0 {
			name := fmt.Sprintf("simZero_%d", i)
			addFunc(i, name, zeroFile[i])
			u.need[i]["btrsim/simrt"] = "simrt_"
			body = append(body, call(name))
		}
	}
	// 2. re-run variable initialisers in initialisation order
	type vinit struct {
		fi   int
		stmt ast.Stmt
		name string
	}
	var vs []vinit
	for k, in := range u.info.InitOrder {
		fi := findFile(in.Rhs.Pos())
		if in.Rhs == nil {
			continue
		}
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		vs = append(vs, vinit{fi, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}}, fmt.Sprintf("simVar_%d", k)})
	}
	// The initialisers move into functions; the declarations keep only their
	// types, so that nothing runs at real program start.
	for i, f := range u.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vspec := s.(*ast.ValueSpec)
				if len(vspec.Values) == 0 || vspec.Type != nil {
					if vspec.Type != nil {
						vspec.Values = nil
					}
					continue
				}
				_ = i
				// Keep the initialiser (it fixes the type); pure and cheap at start-up
				// because shims ignore calls outside a simulation.
			}
		}
	}
	for _, v := range vs {
		// Vars whose declaration still holds the very same expression node would
		// be instrumented twice; give the function a deep copy by re-parsing.
		as := v.stmt.(*ast.AssignStmt)
		as.Rhs[0] = u.cloneExpr(as.Rhs[0])
		addFunc(v.fi, v.name, []ast.Stmt{v.stmt})
		body = append(body, call(v.name))
	}
	// 3. init functions
	n := 0
	for i, f := range u.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				continue
			}
			name := fmt.Sprintf("simInit_%d", n)
			n++
			fd.Name = ast.NewIdent(name)
			inits = append(inits, name)
			_ = i
		}
	}
	for _, nm := range inits {
		body = append(body, call(nm))
	}
	addFunc(0, "SimReset_", body)
}

// cloneExpr deep-copies an expression, carrying over type information.
func (u *unit) cloneExpr(e ast.Expr) ast.Expr {
	return cloneNode(e, u.info).(ast.Expr)
}
