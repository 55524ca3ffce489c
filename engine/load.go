package main

// Loading /repo (plus the overlaid harness packages) and building its SSA form on demand.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const (
	repoMod = "github.com/FAU-CDI/hangover"
	zvPath  = repoMod + "/internal/zverif"
	symPath = zvPath + "/sym"
	mdlPath = zvPath + "/model"
)

var debugEngine = os.Getenv("GOSYM_DEBUG") != ""

func stack() []byte { return debug.Stack() }

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		if j := strings.LastIndex(f[:i], "/"); j >= 0 {
			return f[j+1:]
		}
	}
	return f
}

type Options struct {
	MaxDecisions  int
	MaxConcretize int
	MaxSteps      int
	MaxPaths      int
	Workers       int
	Solver        string
	SolverMS      int
}

type Engine struct {
	need    sharedNeed
	repo    string
	hdir    string // directory with the harness sources
	overlay map[string]string
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	tpkgs   map[string]*types.Package
	opt     Options

	mu    sync.Mutex
	built map[*ssa.Package]bool
	funcs sync.Map // *ssa.Function -> *Func

	shared sync.Map // *ssa.Package -> bool

	intr  map[string]Intrinsic
	redir map[string]redirect // function -> model function (in mdlPath)

	methods sync.Map // methKey -> *Func
	impls   sync.Map // implKey -> bool

	ex *Explorer

	rtErr types.Type

	embeds map[types.Object][]embedded
}

// buildOverlay maps the harness sources into internal/zverif of the repository.
func buildOverlay(repo, hdir string) (map[string]string, error) {
	ov := map[string]string{}
	err := filepath.Walk(hdir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(hdir, path)
		if !info.IsDir() && info.Name() == "COPY" {
			return copyCommands(repo, hdir, path, rel, ov)
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		if strings.HasPrefix(rel, "inpkg/") {
			// inpkg/<dir>/x.go is placed next to the package's own sources
			ov[filepath.Join(repo, strings.TrimPrefix(rel, "inpkg/"))] = path
			return nil
		}
		ov[filepath.Join(repo, "internal/zverif", rel)] = path
		return nil
	})
	return ov, err
}

// copyCommands makes the commands a COPY file lists importable. A line
//
//	dir name [without import ...]
//
// makes the sources in dir a package called name next to the file, with a
// function Main that runs the command, and drops the blank imports listed.
func copyCommands(repo, hdir, path, rel string, ov map[string]string) error {
	list, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	keep := filepath.Join(filepath.Dir(hdir), ".cache", "copy")
	if err := os.MkdirAll(keep, 0o755); err != nil {
		return err
	}
	put := func(dst string, b []byte) error {
		sum := sha256.Sum256(b)
		f := filepath.Join(keep, hex.EncodeToString(sum[:])+".go")
		ov[dst] = f
		if _, err := os.Stat(f); err == nil {
			return nil
		}
		t, err := os.CreateTemp(keep, "new")
		if err != nil {
			return err
		}
		if _, err = t.Write(b); err == nil {
			err = t.Close()
		}
		if err != nil {
			return err
		}
		return os.Rename(t.Name(), f)
	}
	for _, l := range strings.Split(string(list), "\n") {
		w := strings.Fields(l)
		if len(w) < 2 || strings.HasPrefix(l, "#") {
			continue
		}
		src, to := filepath.Join(repo, w[0]), filepath.Join(repo, "internal/zverif", filepath.Dir(rel), w[1])
		files, err := filepath.Glob(filepath.Join(src, "*.go"))
		if err != nil {
			return err
		}
		main := false
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(src, filepath.Base(f)); err != nil || !ok {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			fs := token.NewFileSet()
			p, err := parser.ParseFile(fs, f, b, parser.ParseComments)
			if err != nil {
				return err
			}
			if p.Name.Name != "main" {
				continue
			}
			main = true
			// edits from the back keep the offsets in front valid
			for i := len(p.Imports) - 1; i >= 0; i-- {
				im := p.Imports[i]
				for _, x := range w[2:] {
					if im.Name != nil && im.Name.Name == "_" && im.Path.Value == strconv.Quote(x) {
						b = append(b[:fs.Position(im.Path.Pos()).Offset:fs.Position(im.Path.Pos()).Offset], append([]byte(`"embed"`), b[fs.Position(im.Path.End()).Offset:]...)...)
					}
				}
			}
			at := fs.Position(p.Name.Pos()).Offset
			b = append(b[:at:at], append([]byte(w[1]), b[at+len("main"):]...)...)
			if err := put(filepath.Join(to, "copy_"+filepath.Base(f)), b); err != nil {
				return err
			}
		}
		if main {
			if err := put(filepath.Join(to, "copy.go"), []byte("package "+w[1]+"\n\n// Main runs the command.\nfunc Main() { main() }\n")); err != nil {
				return err
			}
		}
	}
	return nil
}

func writeOverlayJSON(ov map[string]string, file string) error {
	b, err := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}

const goRelease = "/opt/veriftools/go1.23.12/bin"

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GOENV", "GOPATH", "GOMODCACHE", "GOCACHE", "CGO_ENABLED", "PWD", "GOROOT", "GOWORK":
			continue
		}
		env = append(env, kv)
	}
	cache := os.Getenv("GOSYM_GOCACHE")
	if cache == "" {
		cache = "/verif/.cache/gocache"
	}
	return append(env,
		"PATH="+os.Getenv("PATH"),
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOENV=off", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "CGO_ENABLED=0")
}

func Load(repo, hdir string, pkgPaths []string, opt Options) (*Engine, error) {
	e := &Engine{repo: repo, hdir: hdir, opt: opt, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, built: map[*ssa.Package]bool{}}
	ov, err := buildOverlay(repo, hdir)
	if err != nil {
		return nil, err
	}
	e.overlay = ov
	content := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		content[dst] = b
	}
	e.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		BuildFlags: []string{"-tags=purego"},
		Env:        goEnv(),
		Fset:       e.fset,
		Overlay:    content,
		ParseFile:  nil,
	}
	pats := append([]string{symPath, mdlPath, "unicode/utf8"}, pkgPaths...)
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, p.PkgPath+": "+er.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	e.prog = ssa.NewProgram(e.fset, ssa.InstantiateGenerics)
	var all []*packages.Package
	packages.Visit(initial, nil, func(p *packages.Package) { all = append(all, p) })
	for _, p := range all {
		if p.Types == nil || p.IllTyped {
			return nil, fmt.Errorf("package %s is ill typed", p.PkgPath)
		}
		if e.prog.Package(p.Types) != nil {
			continue
		}
		var files []*ast.File = p.Syntax
		sp := e.prog.CreatePackage(p.Types, files, p.TypesInfo, true)
		e.pkgs[p.PkgPath] = sp
		e.tpkgs[p.PkgPath] = p.Types
	}
	if rt := e.tpkgs["runtime"]; rt != nil {
		if o := rt.Scope().Lookup("errorString"); o != nil {
			e.rtErr = canon(o.Type())
		}
	}
	e.initIntrinsics()
	e.scanModels(all)
	if err := e.scanEmbeds(all); err != nil {
		return nil, err
	}
	return e, nil
}

type embedded struct {
	name string
	data []byte
	dir  bool
}

// scanEmbeds reads the files of the //go:embed variables of the code under test.
func (e *Engine) scanEmbeds(all []*packages.Package) error {
	e.embeds = map[types.Object][]embedded{}
	for _, p := range all {
		if !strings.HasPrefix(p.PkgPath, repoMod) {
			continue
		}
		for _, f := range p.Syntax {
			dir := filepath.Dir(e.fset.Position(f.Package).Filename)
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					doc := vs.Doc
					if doc == nil && len(gd.Specs) == 1 {
						doc = gd.Doc
					}
					if doc == nil || len(vs.Names) != 1 {
						continue
					}
					var pats []string
					for _, l := range doc.List {
						if t, ok := strings.CutPrefix(l.Text, "//go:embed "); ok {
							for _, x := range strings.Fields(t) {
								if u, err := strconv.Unquote(x); err == nil {
									x = u
								}
								pats = append(pats, x)
							}
						}
					}
					if len(pats) == 0 {
						continue
					}
					files, err := embedFiles(dir, pats)
					if err != nil {
						return err
					}
					e.embeds[p.TypesInfo.Defs[vs.Names[0]]] = files
				}
			}
		}
	}
	return nil
}

func embedFiles(dir string, pats []string) ([]embedded, error) {
	got := map[string]embedded{}
	add := func(file string) error {
		b, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, file)
		if err != nil {
			return err
		}
		rel = filepath.ToSlash(rel)
		got[rel] = embedded{rel, b, false}
		for d := path.Dir(rel); d != "."; d = path.Dir(d) {
			got[d+"/"] = embedded{d + "/", nil, true}
		}
		return nil
	}
	for _, pat := range pats {
		pat, everything := strings.CutPrefix(pat, "all:")
		ms, err := filepath.Glob(filepath.Join(dir, pat))
		if err != nil {
			return nil, err
		}
		for _, m := range ms {
			err := filepath.WalkDir(m, func(file string, d fs.DirEntry, err error) error {
				if err != nil {
					return err
				}
				hidden := file != m && (strings.HasPrefix(d.Name(), ".") || strings.HasPrefix(d.Name(), "_")) && !everything
				if d.IsDir() {
					if hidden {
						return filepath.SkipDir
					}
					return nil
				}
				if hidden || !d.Type().IsRegular() {
					return nil
				}
				return add(file)
			})
			if err != nil {
				return nil, err
			}
		}
	}
	split := func(n string) (string, string) {
		n = strings.TrimSuffix(n, "/")
		return path.Dir(n), path.Base(n)
	}
	var out []embedded
	for _, f := range got {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := split(out[i].name)
		c, d := split(out[j].name)
		return a < c || a == c && b < d
	})
	return out, nil
}

func (e *Engine) initialValue(g *ssa.Global) value {
	if v, ok := e.embedValue(g); ok {
		return v
	}
	return zero(g.Type().(*types.Pointer).Elem())
}

// embedValue is the content of a //go:embed variable.
func (e *Engine) embedValue(g *ssa.Global) (value, bool) {
	files, ok := e.embeds[g.Object()]
	if !ok || g.Object() == nil {
		return nil, false
	}
	var one []byte
	for _, f := range files {
		if !f.dir {
			one = f.data
		}
	}
	switch u := g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Basic:
		return string(one), true
	case *types.Slice:
		var b []value
		for _, x := range one {
			b = append(b, uint64(x))
		}
		return b, true
	case *types.Struct: // embed.FS
		ft := u.Field(0).Type().(*types.Pointer).Elem().(*types.Slice).Elem()
		var all []value
		for _, f := range files {
			s := zero(ft).(structure)
			s[0], s[1] = f.name, string(f.data)
			all = append(all, s)
		}
		c := new(value)
		*c = all
		return structure{c}, true
	}
	return nil, false
}

// scanModels collects the functions of the model packages that stand for others (//gosym:replace NAME).
func (e *Engine) scanModels(all []*packages.Package) {
	for _, p := range all {
		if p.PkgPath != mdlPath && !strings.HasPrefix(p.PkgPath, mdlPath+"/") {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, l := range fd.Doc.List {
					if n, ok := strings.CutPrefix(l.Text, "//gosym:replace "); ok {
						e.redir[strings.TrimSpace(n)] = redirect{p.PkgPath, fd.Name.Name}
					}
				}
			}
		}
	}
}

type redirect struct{ pkg, name string }

func (e *Engine) runtimeError(msg string) iface {
	if e.rtErr == nil {
		return iface{canon(types.Typ[types.String]), "runtime error: " + msg}
	}
	return iface{e.rtErr, msg}
}

// isShared tells packages whose globals are kept per worker (everything that is not the code under test or a harness).
func (e *Engine) isShared(pkg *ssa.Package) bool {
	if pkg == nil {
		return true
	}
	if v, ok := e.shared.Load(pkg); ok {
		return v.(bool)
	}
	path := pkg.Pkg.Path()
	sh := !strings.HasPrefix(path, repoMod)
	e.shared.Store(pkg, sh)
	return sh
}

func (e *Engine) ensureBuilt(pkg *ssa.Package) {
	e.mu.Lock()
	e.ensureBuiltLocked(pkg)
	e.mu.Unlock()
}

func (e *Engine) ensureBuiltLocked(pkg *ssa.Package) {
	if pkg == nil || e.built[pkg] {
		return
	}
	pkg.Build()
	e.built[pkg] = true
}

// lookup finds a function by package path and name.
func (e *Engine) lookup(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	e.ensureBuilt(p)
	return p.Func(name)
}

func pkgOf(f *ssa.Function) *ssa.Package {
	if f.Pkg != nil {
		return f.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if p := f.Parent(); p != nil {
		return pkgOf(p)
	}
	return nil
}

// funcName is the name intrinsics are looked up by: that of the generic origin, without type arguments.
func funcName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

type methKey struct {
	t types.Type
	m string
}

// findMethod resolves a dynamic call.
func (e *Engine) findMethod(t types.Type, m *types.Func) *Func {
	k := methKey{t, m.Id()}
	if f, ok := e.methods.Load(k); ok {
		fn, _ := f.(*Func)
		return fn
	}
	e.mu.Lock()
	var fn *ssa.Function
	if sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
		fn = e.prog.MethodValue(sel)
	}
	e.mu.Unlock()
	if fn == nil {
		return nil
	}
	f := e.getFunc(fn)
	e.methods.Store(k, f)
	return f
}

// methodByName finds an exported method of a dynamic type, or nil.
func (e *Engine) methodByName(t types.Type, name string) *Func {
	k := methKey{t, "name:" + name}
	if f, ok := e.methods.Load(k); ok {
		fn, _ := f.(*Func)
		return fn
	}
	e.mu.Lock()
	var fn *ssa.Function
	if sel := types.NewMethodSet(t).Lookup(nil, name); sel != nil {
		fn = e.prog.MethodValue(sel)
	}
	e.mu.Unlock()
	var f *Func
	if fn != nil {
		f = e.getFunc(fn)
	}
	e.methods.Store(k, f)
	return f
}

type implKey struct {
	t, i types.Type
}

func (e *Engine) implements(t types.Type, i *types.Interface, it types.Type) bool {
	k := implKey{t, it}
	if b, ok := e.impls.Load(k); ok {
		return b.(bool)
	}
	e.mu.Lock()
	b := types.Implements(t, i)
	e.mu.Unlock()
	e.impls.Store(k, b)
	return b
}
