// instr copies the repository's non-test sources into a scratch module and
// rewrites them so that every source of nondeterminism goes through the
// controlled runtime in internal/vshim. It judges nothing; it only rewrites
// by syntax and types.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/bigbluebutton/bbb-webrtc-recorder"
const shim = mod + "/internal/vshim/"

type target struct {
	rel    string // directory below the module
	fine   string // vsched package constant, "" for none
	daemon bool   // auxiliary library: goroutines are daemons
	entry  bool   // its init functions are the program: they run as Main
	src    string // original import path for copied libraries
}

var fineOf = map[string]string{
	"internal/server":            "PkgServer",
	"internal/webrtc":            "PkgWebRTC",
	"internal/webrtc/livekit":    "PkgLiveKit",
	"internal/webrtc/recorder":   "PkgRecorder",
	"internal/webrtc/utils":      "PkgUtils",
	"internal/pubsub":            "PkgPubSub",
	"internal/pubsub/redis":      "PkgRedis",
	"internal/pubsub/events":     "PkgOther",
	"internal/webrtc/signal":     "PkgOther",
	"internal/webrtc/interfaces": "PkgOther",
	"internal/prometheus":        "PkgOther",
	"internal/app":               "PkgApp",
	"internal/vmain":             "PkgApp",
}

// Packages left as they are.
var skipPkg = map[string]bool{"internal/config": true, "internal": true, "web": true}

// Replaced in the program package only.
var entryShims = map[string]string{"os/signal": "vsignal", "fmt": "vfmt"}

// import path -> shim package
var shims = map[string]string{
	"sync":                                "vsync",
	"time":                                "vtime",
	"os":                                  "vos",
	"context":                             "vctx",
	"net/http":                            "vhttp",
	"github.com/pion/webrtc/v3":           "vpion",
	"github.com/livekit/server-sdk-go/v2": "vlksdk",
	"github.com/gomodule/redigo/redis":    "vredigo",
	"github.com/at-wat/ebml-go/mkvcore":   "mkvcore",
	"github.com/at-wat/ebml-go/webm":      "webm",
	"github.com/livekit/server-sdk-go/v2/pkg/jitter": "lkjitter",
}

var libs = []target{
	{rel: "internal/vshim/mkvcore", daemon: true, src: "github.com/at-wat/ebml-go/mkvcore"},
	{rel: "internal/vshim/webm", daemon: true, src: "github.com/at-wat/ebml-go/webm"},
	{rel: "internal/vshim/lkjitter", daemon: true, src: "github.com/livekit/server-sdk-go/v2/pkg/jitter"},
}

func die(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...)
	os.Exit(3)
}

func check(err error) {
	if err != nil {
		die(err)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mc := flag.String("mc", "", "directory with vshim and vharness")
	flag.Parse()
	os.Unsetenv("GOFLAGS")
	os.Setenv("GOFLAGS", "-mod=mod -buildvcs=false")

	copyTree(*repo, *out)
	copyDir(filepath.Join(*mc, "vshim"), filepath.Join(*out, "internal/vshim"))
	copyDir(filepath.Join(*mc, "vharness"), filepath.Join(*out, "internal/vharness"))

	// The program itself, as a package that can be imported.
	vm := filepath.Join(*out, "internal/vmain")
	copyGo(filepath.Join(*out, "cmd/bbb-webrtc-recorder"), vm)

	// Collect packages.
	var ts []target
	filepath.WalkDir(filepath.Join(*out, "internal"), func(p string, d fs.DirEntry, err error) error {
		check(err)
		if !d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(*out, p)
		if rel == "internal/vshim" || rel == "internal/vharness" {
			return filepath.SkipDir
		}
		if skipPkg[rel] {
			return nil
		}
		m, _ := filepath.Glob(filepath.Join(p, "*.go"))
		if len(m) > 0 {
			f, ok := fineOf[rel]
			if !ok {
				f = "PkgOther"
			}
			ts = append(ts, target{rel: rel, fine: f, entry: rel == "internal/app" || rel == "internal/vmain"})
		}
		return nil
	})
	// Copies of auxiliary libraries.
	dirs := goListDirs(*out, libs)
	for _, l := range libs {
		copyGo(dirs[l.src], filepath.Join(*out, l.rel))
	}
	ts = append(ts, libs...)

	fset := token.NewFileSet()
	pkgs := map[string]*pkg{}
	ext := map[string]bool{}
	for _, t := range ts {
		p := &pkg{t: t, path: mod + "/" + t.rel, dir: filepath.Join(*out, t.rel)}
		files, _ := filepath.Glob(filepath.Join(p.dir, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			src, err := os.ReadFile(f)
			check(err)
			if bytes.Contains(src, []byte("//go:embed")) || !buildable(src) {
				p.skip = append(p.skip, f)
			}
			a, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
			if err != nil {
				die("parse", err)
			}
			if a.Name.Name == "main" {
				a.Name.Name = "vmain"
			}
			p.files = append(p.files, a)
			p.names = append(p.names, f)
			for _, im := range a.Imports {
				ip, _ := strconv.Unquote(im.Path.Value)
				if strings.HasPrefix(ip, mod+"/internal/") || ip == mod+"/internal" {
					if skipPkg[strings.TrimPrefix(ip, mod+"/")] {
						ext[ip] = true
					}
					p.deps = append(p.deps, ip)
				} else {
					ext[ip] = true
				}
			}
		}
		pkgs[p.path] = p
	}
	for s := range shims {
		ext[s] = true
	}
	for s := range entryShims {
		ext[s] = true
	}
	delete(ext, "C")
	delete(ext, "unsafe")
	exports := goListExports(*out, ext)
	gcimp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := exports[p]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	im := &imp{gc: gcimp, pkgs: pkgs, fset: fset}
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		_, err := im.Import(p)
		check(err)
	}
	for _, p := range paths {
		rewrite(fset, pkgs[p])
	}
	// Aliases for the rest of each shimmed package.
	for orig, s := range shims {
		isLib := false
		for _, l := range libs {
			if l.src == orig {
				isLib = true
			}
		}
		if isLib {
			continue
		}
		tp, err := gcimp.Import(orig)
		check(err)
		genAlias(filepath.Join(*out, "internal/vshim", s), s, orig, tp)
	}
	for orig, s := range entryShims {
		tp, err := gcimp.Import(orig)
		check(err)
		genAlias(filepath.Join(*out, "internal/vshim", s), s, orig, tp)
	}
}

func buildable(src []byte) bool { return true }

type pkg struct {
	t     target
	path  string
	dir   string
	files []*ast.File
	names []string
	skip  []string
	deps  []string
	tp    *types.Package
	info  *types.Info
	busy  bool
	main  bool
}

type imp struct {
	gc   types.Importer
	pkgs map[string]*pkg
	fset *token.FileSet
}

func (i *imp) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	k, ok := i.pkgs[p]
	if !ok {
		return i.gc.Import(p)
	}
	if k.tp != nil {
		return k.tp, nil
	}
	if k.busy {
		return nil, fmt.Errorf("import cycle %s", p)
	}
	k.busy = true
	k.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Instances: map[*ast.Ident]types.Instance{}, Defs: map[*ast.Ident]types.Object{}}
	var firstErr error
	cfg := types.Config{Importer: i, Error: func(err error) {
		if firstErr == nil {
			firstErr = err
		}
	}}
	tp, _ := cfg.Check(p, i.fset, k.files, k.info)
	if firstErr != nil {
		return nil, fmt.Errorf("type check %s: %v", p, firstErr)
	}
	k.tp = tp
	return tp, nil
}

func copyTree(src, dst string) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		check(err)
		check(os.MkdirAll(dst, 0755))
		check(os.WriteFile(filepath.Join(dst, f), b, 0644))
	}
	for _, d := range []string{"internal", "web", "cmd"} {
		copyDir(filepath.Join(src, d), filepath.Join(dst, d))
	}
}

func copyDir(src, dst string) {
	filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			check(os.MkdirAll(filepath.Join(dst, rel), 0755))
			return nil
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		check(err)
		check(os.WriteFile(filepath.Join(dst, rel), b, 0644))
		return nil
	})
}

func copyGo(src, dst string) {
	check(os.MkdirAll(dst, 0755))
	m, _ := filepath.Glob(filepath.Join(src, "*.go"))
	for _, f := range m {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		check(err)
		check(os.WriteFile(filepath.Join(dst, filepath.Base(f)), b, 0644))
	}
}

func goListDirs(dir string, ls []target) map[string]string {
	args := []string{"list", "-f", "{{.ImportPath}} {{.Dir}}"}
	for _, l := range ls {
		args = append(args, l.src)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	r := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Fields(l)
		r[f[0]] = f[1]
	}
	return r
}

func goListExports(dir string, ext map[string]bool) map[string]string {
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
	var l []string
	for e := range ext {
		l = append(l, e)
	}
	sort.Strings(l)
	cmd := exec.Command("go", append(args, l...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	r := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var v struct{ ImportPath, Export string }
		if err := dec.Decode(&v); err == io.EOF {
			break
		} else {
			check(err)
		}
		r[v.ImportPath] = v.Export
	}
	return r
}

// genAlias re-exports everything of orig that the shim does not define.
func genAlias(dir, name, orig string, tp *types.Package) {
	have := map[string]bool{}
	fs := token.NewFileSet()
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range m {
		a, err := parser.ParseFile(fs, f, nil, parser.SkipObjectResolution)
		check(err)
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport orig %q\n\n", name, orig)
	n := 0
	sc := tp.Scope()
	for _, nm := range sc.Names() {
		o := sc.Lookup(nm)
		if !o.Exported() || have[nm] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = orig.%s\n", nm, nm)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = orig.%s\n", nm, nm)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = orig.%s\n", nm, nm)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = orig.%s\n", nm, nm)
		}
		n++
	}
	if n == 0 {
		return
	}
	check(os.WriteFile(filepath.Join(dir, "zz_alias.go"), b.Bytes(), 0644))
}

// ------------------------------------------------------------------------

type rw struct {
	p     *pkg
	info  *types.Info
	used  bool
	fine  string
	gofn  string
	stmtP token.Pos
	stmtE token.Pos

	captured map[types.Object]bool
}

func rewrite(fset *token.FileSet, p *pkg) {
	for i, f := range p.files {
		r := &rw{p: p, info: p.info, fine: p.t.fine, gofn: "Go", captured: capturedVars(f, p.info)}
		if p.t.daemon {
			r.gofn = "DaemonGo"
		}
		f.Comments = nil
		// Imports
		for _, is := range f.Imports {
			ip, _ := strconv.Unquote(is.Path.Value)
			s, ok := shims[ip]
			if !ok && p.t.entry {
				s, ok = entryShims[ip]
			}
			if !ok {
				continue
			}
			if p.t.daemon && (s == "vos" || s == "vctx" || s == "vhttp") {
				continue
			}
			if is.Name == nil {
				nm := path.Base(ip)
				if o, ok := p.info.Defs[nil]; ok {
					_ = o
				}
				nm = pkgName(p, is, ip)
				is.Name = ast.NewIdent(nm)
			}
			is.Path.Value = strconv.Quote(shim + s)
			is.EndPos = 0
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					r.block(d.Body)
				}
				if d.Recv == nil && d.Name.Name == "main" && p.t.entry {
					d.Name.Name = "vmainfn"
					p.main = true
				}
				if d.Recv == nil && d.Name.Name == "init" {
					d.Name.Name = fmt.Sprintf("vinit%d_%d", i, len(p.inits()))
					p.addInit(d.Name.Name)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for k := range vs.Values {
							vs.Values[k] = r.expr(vs.Values[k])
						}
					}
				}
			}
		}
		if r.used {
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
				&ast.ImportSpec{Name: ast.NewIdent("vsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shim + "vsched")}}}}}, f.Decls...)
		}
		if i == len(p.files)-1 {
			p.resetFile()
		}
		src, err := os.ReadFile(p.names[i])
		check(err)
		if bytes.Contains(src, []byte("//go:embed")) {
			continue
		}
		var b bytes.Buffer
		// go:build lines
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//go:build") {
				b.WriteString(l + "\n\n")
			}
			if strings.HasPrefix(l, "package ") {
				break
			}
		}
		clearPos(f)
		check((&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f))
		check(os.WriteFile(p.names[i], b.Bytes(), 0644))
	}
}

var initNames = map[*pkg][]string{}

func (p *pkg) inits() []string  { return initNames[p] }
func (p *pkg) addInit(n string) { initNames[p] = append(initNames[p], n) }

// resetFile generates the code that restores package variables before every
// execution.
func (p *pkg) resetFile() {
	if p.t.daemon {
		// library copies keep their init functions
		if len(initNames[p]) > 0 {
			var b bytes.Buffer
			fmt.Fprintf(&b, "package %s\n\nfunc init() {\n", p.files[0].Name.Name)
			for _, n := range initNames[p] {
				fmt.Fprintf(&b, "\t%s()\n", n)
			}
			b.WriteString("}\n")
			check(os.WriteFile(filepath.Join(p.dir, "zz_reset.go"), b.Bytes(), 0644))
		}
		return
	}
	type vv struct {
		name string
		pos  token.Pos
	}
	var first, second []string
	imports := map[string]string{}
	_ = imports
	for _, f := range p.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if n.Name != "_" {
						first = append(first, n.Name)
					}
				}
			}
		}
	}
	_ = second
	if len(first) == 0 && len(initNames[p]) == 0 && !p.t.entry {
		return
	}
	// The variables' initial values are saved by copying reference-free
	// values and deep-copying maps and slices after package initialisation.
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport \"%svsched\"\n\nfunc init() {\n", p.files[0].Name.Name, shim)
	for _, n := range initNames[p] {
		if !p.t.entry {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
	}
	for _, n := range first {
		fmt.Fprintf(&b, "\tvsched.SaveVar(&%s)\n", n)
	}
	b.WriteString("}\n")
	if p.t.entry {
		b.WriteString("\nvar _ = vsched.Go\n\n// VMain runs the program.\nfunc VMain() {\n")
		if p.main {
			for _, f := range p.files {
				for _, im := range f.Imports {
					if im.Path.Value == strconv.Quote(mod+"/internal/app") {
						b.WriteString("\tvapp.VMain()\n")
					}
				}
			}
		}
		for _, n := range initNames[p] {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
		if p.main {
			b.WriteString("\tvmainfn()\n")
		}
		b.WriteString("}\n")
	}
	src := b.String()
	if strings.Contains(src, "vapp.VMain") {
		src = strings.Replace(src, "import ", "import vapp \""+mod+"/internal/app\"\nimport ", 1)
	}
	check(os.WriteFile(filepath.Join(p.dir, "zz_reset.go"), []byte(src), 0644))
}

func pkgName(p *pkg, is *ast.ImportSpec, ip string) string {
	for _, im := range p.tp.Imports() {
		if im.Path() == ip {
			return im.Name()
		}
	}
	b := path.Base(ip)
	if len(b) > 1 && b[0] == 'v' && b[1] >= '0' && b[1] <= '9' {
		b = path.Base(path.Dir(ip))
	}
	return b
}

func sel(n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(n)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func (r *rw) s(n string) ast.Expr { r.used = true; return sel(n) }

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}
func (r *rw) isChan(e ast.Expr) bool { _, ok := under(r.typ(e)).(*types.Chan); return ok }
func (r *rw) isMap(e ast.Expr) bool  { _, ok := under(r.typ(e)).(*types.Map); return ok }

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		pre := r.pre(s)
		rmw := r.fine != "" && r.rmw(s)
		s2 := r.stmt(s)
		if pre != nil {
			out = append(out, pre)
		}
		if rmw {
			s2 = r.split(s2)
		}
		out = append(out, s2)
	}
	return out
}

// capturedVars are the variables a function literal shares with the function
// around it, and those of the package.
func capturedVars(f *ast.File, info *types.Info) map[types.Object]bool {
	m := map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		l, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(l, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && (v.Pos() < l.Pos() || v.Pos() >= l.End()) {
					m[v] = true
				}
			}
			return true
		})
		return true
	})
	return m
}

// rmw: the statement reads a field, an element or what a pointer points to
// and writes it back changed.
func (r *rw) rmw(s ast.Stmt) bool {
	shared := func(e ast.Expr) bool {
		switch e := e.(type) {
		case *ast.SelectorExpr:
			if id, ok := e.X.(*ast.Ident); ok {
				if _, isPkg := r.info.Uses[id].(*types.PkgName); isPkg {
					return false
				}
			}
			return true
		case *ast.IndexExpr:
			return !r.isMap(e.X)
		case *ast.StarExpr:
			return true
		case *ast.Ident:
			return r.captured[r.info.Uses[e]]
		}
		return false
	}
	switch t := s.(type) {
	case *ast.IncDecStmt:
		return shared(t.X)
	case *ast.AssignStmt:
		if len(t.Lhs) != 1 || len(t.Rhs) != 1 || !shared(t.Lhs[0]) {
			return false
		}
		if t.Tok == token.ASSIGN {
			c, ok := t.Rhs[0].(*ast.CallExpr)
			if !ok || len(c.Args) < 1 {
				return false
			}
			id, ok := c.Fun.(*ast.Ident)
			return ok && id.Name == "append" && types.ExprString(c.Args[0]) == types.ExprString(t.Lhs[0])
		}
		return t.Tok != token.DEFINE
	}
	return false
}

// split puts a scheduling point between reading and writing.
func (r *rw) split(s ast.Stmt) ast.Stmt {
	p, old := ast.NewIdent("vp_"), ast.NewIdent("vold_")
	def := func(v *ast.Ident, e ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
	}
	var x, res ast.Expr
	switch t := s.(type) {
	case *ast.IncDecStmt:
		x = t.X
		op := token.ADD
		if t.Tok == token.DEC {
			op = token.SUB
		}
		res = &ast.BinaryExpr{X: old, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
	case *ast.AssignStmt:
		x = t.Lhs[0]
		if t.Tok == token.ASSIGN {
			c, ok := t.Rhs[0].(*ast.CallExpr)
			if !ok || len(c.Args) < 1 {
				return s
			}
			n := *c
			n.Args = append([]ast.Expr{old}, c.Args[1:]...)
			res = &n
		} else {
			res = &ast.BinaryExpr{X: old, Op: t.Tok - token.ADD_ASSIGN + token.ADD, Y: &ast.ParenExpr{X: t.Rhs[0]}}
		}
	default:
		return s
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		def(p, &ast.UnaryExpr{Op: token.AND, X: x}),
		def(old, &ast.StarExpr{X: p}),
		&ast.ExprStmt{X: call(r.s("P"), r.s(r.fine))},
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN, Rhs: []ast.Expr{res}},
	}}
}

// pre returns the scheduling point to insert before s.
func (r *rw) pre(s ast.Stmt) ast.Stmt {
	if r.fine == "" {
		return nil
	}
	switch t := s.(type) {
	case *ast.BranchStmt, *ast.EmptyStmt:
		return nil
	case *ast.DeclStmt:
		if g, ok := t.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
			return nil
		}
	case *ast.LabeledStmt:
		return r.pre(t.Stmt)
	}
	maps := r.maps(s)
	if len(maps) > 0 {
		args := []ast.Expr{r.s(r.fine)}
		args = append(args, maps...)
		return &ast.ExprStmt{X: call(r.s("Map"), args...)}
	}
	if !r.interesting(s) {
		return nil
	}
	return &ast.ExprStmt{X: call(r.s("P"), r.s(r.fine))}
}

// interesting: the statement itself (not nested blocks) touches a field, a
// pointer, a call or a loop; pure logging does not count.
func (r *rw) interesting(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		return true
	}
	if es, ok := s.(*ast.ExprStmt); ok {
		if c, ok := es.X.(*ast.CallExpr); ok && r.isLog(c) {
			return false
		}
	}
	found := false
	shallow(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if _, isPkg := r.info.Uses[id].(*types.PkgName); isPkg {
					return false
				}
			}
			found = true
		case *ast.IndexExpr, *ast.StarExpr, *ast.CallExpr:
			found = true
		case *ast.Ident:
			// a variable of an enclosing function or of the package
			if v, ok := r.info.Uses[n].(*types.Var); ok && v.Parent() != nil {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rw) isLog(c *ast.CallExpr) bool {
	e := ast.Expr(c)
	for {
		switch t := e.(type) {
		case *ast.CallExpr:
			e = t.Fun
		case *ast.SelectorExpr:
			e = t.X
		case *ast.Ident:
			if p, ok := r.info.Uses[t].(*types.PkgName); ok {
				return strings.Contains(p.Imported().Path(), "logrus")
			}
			return false
		default:
			return false
		}
	}
}

// shallow visits the parts of a statement that are evaluated when it is
// reached: nested statements' bodies and function literals are not entered.
func shallow(n ast.Node, f func(ast.Node) bool) {
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil {
				return false
			}
			switch m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				return m == n
			case *ast.CaseClause, *ast.CommClause:
				return false
			}
			return f(m)
		})
	}
	switch t := n.(type) {
	case *ast.BlockStmt:
	case *ast.IfStmt:
		if t.Init != nil {
			walk(t.Init)
		}
		walk(t.Cond)
	case *ast.ForStmt:
		if t.Init != nil {
			walk(t.Init)
		}
		if t.Cond != nil {
			walk(t.Cond)
		}
	case *ast.RangeStmt:
		walk(t.X)
	case *ast.SwitchStmt:
		if t.Init != nil {
			walk(t.Init)
		}
		if t.Tag != nil {
			walk(t.Tag)
		}
	case *ast.TypeSwitchStmt:
		if t.Init != nil {
			walk(t.Init)
		}
		walk(t.Assign)
	case *ast.SelectStmt:
	case *ast.LabeledStmt:
		shallow(t.Stmt, f)
	default:
		walk(n)
	}
}

// maps lists the maps accessed by s as (expression, write) pairs.
func (r *rw) maps(s ast.Stmt) []ast.Expr {
	type acc struct {
		e ast.Expr
		w bool
	}
	var as []acc
	writes := map[ast.Expr]bool{}
	shallow(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					writes[ix] = true
				}
			}
		case *ast.IncDecStmt:
			if ix, ok := n.X.(*ast.IndexExpr); ok {
				writes[ix] = true
			}
		case *ast.IndexExpr:
			if r.isMap(n.X) {
				as = append(as, acc{n.X, writes[n]})
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "delete" && len(n.Args) == 2 && r.isMap(n.Args[0]) {
				as = append(as, acc{n.Args[0], true})
			}
		}
		return true
	})
	if rs, ok := s.(*ast.RangeStmt); ok && r.isMap(rs.X) {
		as = append(as, acc{rs.X, false})
	}
	var out []ast.Expr
	for _, a := range as {
		if !r.pure(a.e, s) {
			continue
		}
		v := "false"
		if a.w {
			v = "true"
		}
		out = append(out, copyExpr(a.e), ast.NewIdent(v))
	}
	return out
}

func (r *rw) pure(e ast.Expr, s ast.Stmt) bool {
	switch t := e.(type) {
	case *ast.Ident:
		o := r.info.Uses[t]
		if o == nil {
			return false
		}
		return !(o.Pos() >= s.Pos() && o.Pos() < s.End())
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if _, isPkg := r.info.Uses[id].(*types.PkgName); isPkg {
				return false
			}
		}
		return r.pure(t.X, s)
	case *ast.StarExpr:
		return r.pure(t.X, s)
	case *ast.ParenExpr:
		return r.pure(t.X, s)
	}
	return false
}

func copyExpr(e ast.Expr) ast.Expr {
	switch t := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(t.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: copyExpr(t.X), Sel: ast.NewIdent(t.Sel.Name)}
	case *ast.StarExpr:
		return &ast.ParenExpr{X: &ast.StarExpr{X: copyExpr(t.X)}}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: copyExpr(t.X)}
	}
	return e
}

func (r *rw) recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch t := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(t)
	case *ast.ExprStmt:
		t.X = r.expr(t.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.s("SendTo"), r.expr(t.Chan)), r.expr(t.Value))}
	case *ast.IncDecStmt:
		t.X = r.expr(t.X)
	case *ast.AssignStmt:
		if len(t.Lhs) == 2 && len(t.Rhs) == 1 {
			if u := r.recvOf(t.Rhs[0]); u != nil {
				t.Rhs[0] = call(r.s("Recv2"), r.expr(u.X))
				for i := range t.Lhs {
					t.Lhs[i] = r.expr(t.Lhs[i])
				}
				return t
			}
		}
		for i := range t.Lhs {
			t.Lhs[i] = r.expr(t.Lhs[i])
		}
		for i := range t.Rhs {
			t.Rhs[i] = r.expr(t.Rhs[i])
		}
	case *ast.GoStmt:
		return r.goStmt(t)
	case *ast.DeferStmt:
		t.Call = r.call(t.Call)
	case *ast.ReturnStmt:
		for i := range t.Results {
			t.Results[i] = r.expr(t.Results[i])
		}
	case *ast.LabeledStmt:
		t.Stmt = r.stmt(t.Stmt)
	case *ast.IfStmt:
		t.Init = r.stmt(t.Init)
		t.Cond = r.expr(t.Cond)
		r.block(t.Body)
		t.Else = r.stmt(t.Else)
	case *ast.SwitchStmt:
		t.Init = r.stmt(t.Init)
		if t.Tag != nil {
			t.Tag = r.expr(t.Tag)
		}
		r.clauses(t.Body)
	case *ast.TypeSwitchStmt:
		t.Init = r.stmt(t.Init)
		t.Assign = r.stmt(t.Assign)
		r.clauses(t.Body)
	case *ast.ForStmt:
		t.Init = r.stmt(t.Init)
		if t.Cond != nil {
			t.Cond = r.expr(t.Cond)
		}
		t.Post = r.stmt(t.Post)
		r.block(t.Body)
		if len(t.Body.List) == 0 || r.fine == "" && r.p.t.daemon == false {
			// an empty loop body still counts steps
			t.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(r.s("P"), ast.NewIdent("0"))}}, t.Body.List...)
		}
	case *ast.RangeStmt:
		return r.rangeStmt(t)
	case *ast.SelectStmt:
		return r.selectStmt(t)
	case *ast.DeclStmt:
		if g, ok := t.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					if len(vs.Names) == 2 && len(vs.Values) == 1 {
						if u := r.recvOf(vs.Values[0]); u != nil {
							vs.Values[0] = call(r.s("Recv2"), r.expr(u.X))
							continue
						}
					}
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
	}
	return s
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			if tv, ok := r.info.Types[cc.List[i]]; ok && tv.IsType() {
				continue
			}
			cc.List[i] = r.expr(cc.List[i])
		}
		cc.Body = r.list(cc.Body)
	}
}

func (r *rw) goStmt(t *ast.GoStmt) ast.Stmt {
	c := t.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results.NumFields() == 0 {
		r.block(fl.Body)
		return &ast.ExprStmt{X: call(r.s(r.gofn), fl)}
	}
	if r.needsCall(c.Fun) {
		return r.goWrapped(c)
	}
	fun := r.expr(c.Fun)
	// arguments are evaluated by the statement, not by the new goroutine
	args := []ast.Expr{fun}
	for _, a := range c.Args {
		args = append(args, r.expr(a))
	}
	name := r.gofn + "Call"
	if c.Ellipsis != token.NoPos {
		name += "Slice"
	}
	return &ast.ExprStmt{X: call(r.s(name), args...)}
}

// needsCall: a builtin or a generic function without its type arguments is no value.
func (r *rw) needsCall(f ast.Expr) bool {
	switch f := ast.Unparen(f).(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Builtin); ok {
			return true
		}
		_, ok := r.info.Instances[f]
		return ok
	case *ast.SelectorExpr:
		return r.needsCall(f.Sel)
	}
	return false
}

// goWrapped evaluates the arguments and calls in a literal.
func (r *rw) goWrapped(c *ast.CallExpr) ast.Stmt {
	b := &ast.BlockStmt{}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			continue
		}
		id := ast.NewIdent(fmt.Sprintf("vgoarg%d", i))
		r.info.Types[id] = tv
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		c.Args[i] = id
	}
	body := &ast.BlockStmt{List: []ast.Stmt{r.stmt(&ast.ExprStmt{X: c})}}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}
	b.List = append(b.List, &ast.ExprStmt{X: call(r.s(r.gofn), lit)})
	return b
}

func (r *rw) rangeStmt(t *ast.RangeStmt) ast.Stmt {
	isC, isM := r.isChan(t.X), r.isMap(t.X)
	t.X = r.expr(t.X)
	if t.Key != nil && t.Tok == token.ASSIGN {
		t.Key = r.expr(t.Key)
	}
	if t.Value != nil && t.Tok == token.ASSIGN {
		t.Value = r.expr(t.Value)
	}
	r.block(t.Body)
	switch {
	case isC:
		ok := ast.NewIdent("vrangeok")
		var key ast.Expr = ast.NewIdent("_")
		if t.Key != nil {
			key = t.Key
		}
		var pre []ast.Stmt
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		if t.Tok == token.ASSIGN {
			pre = []ast.Stmt{
				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(r.s("Recv2"), t.X)}}, brk}
		} else {
			pre = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.s("Recv2"), t.X)}}, brk}
			if t.Key != nil {
				if id, isId := t.Key.(*ast.Ident); isId && id.Name != "_" {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}})
				}
			}
		}
		return &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, t.Body.List...)}}
	case isM && !r.p.t.daemon:
		if t.Key == nil {
			return &ast.RangeStmt{X: call(r.s("MapKeys"), t.X), Body: t.Body}
		}
		// for _, it := range vsched.MapRange(m) { k := it.K; v, ok := it.M[it.K]; if !ok { continue }; ... }
		it := ast.NewIdent("vrangeit")
		itK := &ast.SelectorExpr{X: ast.NewIdent("vrangeit"), Sel: ast.NewIdent("K")}
		itM := &ast.SelectorExpr{X: ast.NewIdent("vrangeit"), Sel: ast.NewIdent("M")}
		var pre []ast.Stmt
		var val ast.Expr = ast.NewIdent("_")
		if t.Value != nil {
			val = t.Value
		}
		okv := ast.NewIdent("vrangeok")
		tok := t.Tok
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t.Key}, Tok: defTokIf(tok, t.Key), Rhs: []ast.Expr{itK}})
		if tok == token.DEFINE {
			pre = append(pre, use(t.Key)...)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: itM, Index: itK}}})
			pre = append(pre, use(val)...)
		} else {
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{okv}, Type: ast.NewIdent("bool")}}}})
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val, okv}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.IndexExpr{X: itM, Index: itK}}})
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Tok: token.DEFINE, X: call(r.s("MapRange"), t.X), Value: it,
			Body: &ast.BlockStmt{List: append(pre, t.Body.List...)}}
	}
	return t
}

func defTokIf(tok token.Token, e ast.Expr) token.Token {
	if tok != token.DEFINE {
		return token.ASSIGN
	}
	return defTok(e)
}

func defTok(e ast.Expr) token.Token {
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return token.ASSIGN
	}
	return token.DEFINE
}

func use(e ast.Expr) []ast.Stmt {
	if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}}}
	}
	return nil
}

var selN int

func (r *rw) selectStmt(t *ast.SelectStmt) ast.Stmt {
	var lhs, rhs, args []ast.Expr
	var out []ast.Stmt
	hasDef := false
	idx := 0
	for _, c := range t.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			out = append(out, &ast.CaseClause{Body: r.list(cc.Body)})
			continue
		}
		selN++
		v := ast.NewIdent(fmt.Sprintf("vsel%d", selN))
		lhs = append(lhs, v)
		args = append(args, ast.NewIdent(v.Name))
		var pre []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(r.s("CaseSendTo"), r.expr(m.Chan)), r.expr(m.Value)))
		case *ast.ExprStmt:
			u := r.recvOf(m.X)
			rhs = append(rhs, call(r.s("CaseRecv"), r.expr(u.X)))
		case *ast.AssignStmt:
			u := r.recvOf(m.Rhs[0])
			rhs = append(rhs, call(r.s("CaseRecv"), r.expr(u.X)))
			vals := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("Val")}}
			if len(m.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("Ok")})
			}
			l := m.Lhs
			tok := m.Tok
			if tok == token.DEFINE {
				all := true
				for _, e := range l {
					if id, ok := e.(*ast.Ident); !ok || id.Name != "_" {
						all = false
					}
				}
				if all {
					tok = token.ASSIGN
				}
			}
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: vals})
			if tok == token.DEFINE {
				for _, e := range l {
					pre = append(pre, use(e)...)
				}
			}
		}
		out = append(out, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(pre, r.list(cc.Body)...)})
		idx++
	}
	d := "false"
	if hasDef {
		d = "true"
	} else {
		out = append(out, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable select"`})}}})
	}
	sw := &ast.SwitchStmt{Tag: call(r.s("Select"), append([]ast.Expr{ast.NewIdent(d)}, args...)...), Body: &ast.BlockStmt{List: out}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) call(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	if ce, ok := e.(*ast.CallExpr); ok {
		return ce
	}
	return c
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch t := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		t.X = r.expr(t.X)
	case *ast.SelectorExpr:
		t.X = r.expr(t.X)
	case *ast.IndexExpr:
		t.X = r.expr(t.X)
		t.Index = r.expr(t.Index)
	case *ast.SliceExpr:
		t.X = r.expr(t.X)
		t.Low = r.expr(t.Low)
		t.High = r.expr(t.High)
		t.Max = r.expr(t.Max)
	case *ast.TypeAssertExpr:
		t.X = r.expr(t.X)
	case *ast.StarExpr:
		t.X = r.expr(t.X)
	case *ast.UnaryExpr:
		if t.Op == token.ARROW {
			return call(r.s("Recv"), r.expr(t.X))
		}
		t.X = r.expr(t.X)
	case *ast.BinaryExpr:
		t.X = r.expr(t.X)
		t.Y = r.expr(t.Y)
	case *ast.KeyValueExpr:
		t.Key = r.expr(t.Key)
		t.Value = r.expr(t.Value)
	case *ast.CompositeLit:
		for i := range t.Elts {
			if kv, ok := t.Elts[i].(*ast.KeyValueExpr); ok {
				kv.Value = r.expr(kv.Value)
				if _, isId := kv.Key.(*ast.Ident); !isId {
					kv.Key = r.expr(kv.Key)
				}
				continue
			}
			t.Elts[i] = r.expr(t.Elts[i])
		}
	case *ast.FuncLit:
		r.block(t.Body)
	case *ast.CallExpr:
		if id, ok := t.Fun.(*ast.Ident); ok {
			if _, isB := r.info.Uses[id].(*types.Builtin); isB {
				switch id.Name {
				case "make":
					isC := r.isChan(t.Args[0]) || r.isChanType(t.Args[0])
					for i := 1; i < len(t.Args); i++ {
						t.Args[i] = r.expr(t.Args[i])
					}
					if isC {
						return call(r.s("MakeChan"), t)
					}
					return t
				case "new":
					return t
				case "close":
					return call(r.s("CloseChan"), r.expr(t.Args[0]))
				case "len", "cap":
					if r.isChan(t.Args[0]) {
						if id.Name == "len" {
							return call(r.s("LenChan"), r.expr(t.Args[0]))
						}
						return t
					}
				}
			}
		}
		t.Fun = r.expr(t.Fun)
		r.exprs(t.Args)
	}
	return e
}

func (r *rw) isChanType(e ast.Expr) bool {
	if tv, ok := r.info.Types[e]; ok && tv.IsType() {
		_, c := tv.Type.Underlying().(*types.Chan)
		return c
	}
	return false
}
