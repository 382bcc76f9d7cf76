// Command instrument copies the Go packages of a module to another directory and
// redirects goroutines, channels, locks, atomics, clocks, timers, random sources,
// signals and file-system access to the simulator (package verif/sim).
//
//	instrument -src /repo -dst DIR [-race]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	dst := flag.String("dst", "", "output directory")
	race := flag.Bool("race", false, "race build")
	flag.Parse()
	args := []string{"list", "-export", "-deps", "-json"}
	if *race {
		args = append(args, "-race")
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		die("go list failed: %v\n%s", err, errb.String())
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	modPath := ""
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if abs, _ := filepath.Abs(*src); p.Module != nil && strings.HasPrefix(p.Dir+"/", abs+"/") {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("no module found in %s", *src)
	}
	fset := token.NewFileSet()
	imp := &loader{mod: map[string]*types.Package{}}
	imp.ext = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	n := 0
	for _, p := range pkgs { // -deps order: dependencies first
		if p.Module == nil || p.Module.Path != modPath {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		if p.Name == "main" && !strings.HasPrefix(rel, "cmd/") {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		var files []*ast.File
		var srcs [][]byte
		for _, g := range p.GoFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, g))
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), b, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			srcs = append(srcs, b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
		gv := ""
		if p.Module.GoVersion != "" {
			gv = "go" + p.Module.GoVersion
		}
		conf := types.Config{Importer: imp, GoVersion: gv}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check of %s: %v", p.ImportPath, err)
		}
		imp.mod[p.ImportPath] = tp
		pi := &pkgInst{fset: fset, info: info, tpkg: tp, rel: rel, isMain: p.Name == "main", goFiles: p.GoFiles}
		outDir := filepath.Join(*dst, rel)
		if err := os.MkdirAll(outDir, 0o755); err != nil {
			die("%v", err)
		}
		for i, b := range pi.run(files, srcs) {
			if err := os.WriteFile(filepath.Join(outDir, p.GoFiles[i]), b, 0o644); err != nil {
				die("%v", err)
			}
			n++
		}
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*src, f))
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(*dst, f), b, 0o644)
	}
	fmt.Fprintf(os.Stderr, "instrument: %d files of %s\n", n, modPath)
}

type loader struct {
	mod map[string]*types.Package
	ext types.Importer
}

func (l *loader) Import(path string) (*types.Package, error) {
	if p := l.mod[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return l.ext.Import(path)
}

// seams: package path -> replacement package and the names replaced ("*": all).
type seam struct {
	repl  string
	names map[string]bool // nil: every name
	all   bool
}

func names(s string) map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(s) {
		m[n] = true
	}
	return m
}

var seams = map[string]seam{
	"sync":          {repl: "verif/sim/simsync", all: true},
	"sync/atomic":   {repl: "verif/sim/simatomic", all: true},
	"context":       {repl: "verif/sim/simcontext", all: true},
	"os/signal":     {repl: "verif/sim/simsignal", all: true},
	"os/exec":       {repl: "verif/sim/simexec", all: true},
	"time":          {repl: "verif/sim/simtime", names: names("Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker")},
	"runtime":       {repl: "verif/sim/simruntime", names: names("Gosched NumGoroutine GC LockOSThread UnlockOSThread NumCPU GOMAXPROCS SetFinalizer")},
	"math/rand":     {repl: "verif/sim/simrand", names: names("Seed Int63 Uint32 Uint64 Int31 Int Int63n Int31n Intn Float64 Float32 Perm Shuffle Read NormFloat64 ExpFloat64")},
	"math/rand/v2":  {repl: "verif/sim/simrandv2", names: names("Int64 Uint32 Uint64 Int32 Int Uint Int64N Uint64N Int32N Uint32N IntN UintN Float64 Float32 Perm Shuffle NormFloat64 ExpFloat64")},
	"crypto/rand":   {repl: "verif/sim/simcrand", names: names("Read Reader Int Text")},
	"path/filepath": {repl: "verif/sim/simfilepath", names: names("Abs EvalSymlinks WalkDir Walk Glob")},
	"os": {repl: "verif/sim/simos", names: names(`Getwd Chdir Stat Lstat ReadDir Getenv LookupEnv Environ Getpid Executable TempDir UserHomeDir
		ReadFile Readlink Exit Open File NewFile Stdin Stdout Stderr DirFS Remove RemoveAll Rename Mkdir MkdirAll MkdirTemp WriteFile Create CreateTemp OpenFile Chmod Chown Chtimes Truncate Symlink Link Setenv`)},
	"golang.org/x/crypto/argon2": {repl: "verif/sim/simargon2", names: names("IDKey Key")},
	"golang.org/x/crypto/bcrypt": {repl: "verif/sim/simbcrypt", names: names("GenerateFromPassword CompareHashAndPassword")},
}

func alias(repl string) string { return "vsim_" + repl[strings.LastIndex(repl, "/")+1:] }

type pkgInst struct {
	fset    *token.FileSet
	info    *types.Info
	tpkg    *types.Package
	rel     string
	isMain  bool
	goFiles []string
	seq     int
}

type fileInst struct {
	*pkgInst
	src   []byte
	file  *ast.File
	base  int
	repl  map[ast.Node]func() string
	need  map[string]bool // replacement packages used
	used  map[string]bool // (unused) original packages kept
	extra strings.Builder
}

func (p *pkgInst) run(files []*ast.File, srcs [][]byte) [][]byte {
	var out [][]byte
	fis := make([]*fileInst, len(files))
	inits := []string{} // calls, in order
	for i, f := range files {
		fi := &fileInst{pkgInst: p, src: srcs[i], file: f, repl: map[ast.Node]func() string{}, need: map[string]bool{}}
		fi.base = p.fset.File(f.Pos()).Base()
		fis[i] = fi
		fi.collect()
	}
	// package variables: zero everything, then re-run the initializers in order
	specOf := map[types.Object]*ast.ValueSpec{}
	fileOf := func(pos token.Pos) *fileInst {
		for _, fi := range fis {
			if fi.file.FileStart <= pos && pos <= fi.file.FileEnd {
				return fi
			}
		}
		die("position outside package")
		return nil
	}
	initialized := map[types.Object]bool{}
	for _, in := range p.info.InitOrder {
		for _, v := range in.Lhs {
			initialized[v] = true
		}
	}
	for _, fi := range fis {
		for _, d := range fi.file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, id := range vs.Names {
					obj := p.info.Defs[id]
					if obj == nil {
						continue
					}
					specOf[obj] = vs
					if id.Name != "_" && !initialized[obj] {
						fn := fmt.Sprintf("vsim_zero%d", p.seq)
						p.seq++
						fmt.Fprintf(&fi.extra, "\nfunc %s() { vsim.Zero(&%s) }\n", fn, id.Name)
						inits = append(inits, fn)
					}
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		fi := fileOf(in.Rhs.Pos())
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		fn := fmt.Sprintf("vsim_var%d", p.seq)
		p.seq++
		if blank {
			// keep the declared type: re-use the specification when it has a single value
			vs := specOfBlank(fi.file, in.Rhs)
			if vs == nil {
				continue
			}
			typ := ""
			if vs.Type != nil {
				typ = " " + fi.text(vs.Type)
			}
			fmt.Fprintf(&fi.extra, "\nfunc %s() { var %s%s = %s }\n", fn, strings.Join(lhs, ", "), typ, fi.text(in.Rhs))
		} else {
			fmt.Fprintf(&fi.extra, "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), fi.text(in.Rhs))
		}
		inits = append(inits, fn)
	}
	// init functions become ordinary functions
	for _, fi := range fis {
		for _, d := range fi.file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				fn := fmt.Sprintf("vsim_init%d", p.seq)
				p.seq++
				fi.repl[fd.Name] = func() string { return fn }
				inits = append(inits, fn)
			}
			if p.isMain && fd.Name.Name == "main" {
				fi.repl[fd.Name] = func() string { return "SimMain" }
			}
		}
	}
	for i, fi := range fis {
		if i == len(fis)-1 && len(inits) > 0 {
			fmt.Fprintf(&fi.extra, "\nfunc init() { vsim.RegisterReset(%q, func() { %s() }) }\n", p.rel, strings.Join(inits, "(); "))
		}
		out = append(out, fi.render())
	}
	return out
}

func specOfBlank(f *ast.File, rhs ast.Expr) *ast.ValueSpec {
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, v := range vs.Values {
					if v == rhs {
						return vs
					}
				}
			}
		}
	}
	return nil
}

func (f *fileInst) off(p token.Pos) int { return f.fset.Position(p).Offset }

func (f *fileInst) raw(a, b token.Pos) string { return string(f.src[f.offset(a):f.offset(b)]) }

func (f *fileInst) offset(p token.Pos) int { return int(p) - f.base }

// text renders a node with all replacements applied.
func (f *fileInst) text(n ast.Node) string {
	if r := f.repl[n]; r != nil {
		return r()
	}
	return f.inner(n)
}

// inner renders a node ignoring a replacement of the node itself.
func (f *fileInst) inner(n ast.Node) string {
	return f.span(n, n.Pos(), n.End())
}

// span renders the source between two positions inside n.
func (f *fileInst) span(n ast.Node, from, to token.Pos) string {
	type sub struct {
		a, b int
		n    ast.Node
	}
	var subs []sub
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if f.repl[c] != nil {
			if c.Pos() >= from && c.End() <= to {
				subs = append(subs, sub{f.offset(c.Pos()), f.offset(c.End()), c})
			}
			return false
		}
		return true
	})
	sort.Slice(subs, func(i, j int) bool { return subs[i].a < subs[j].a })
	var b strings.Builder
	at := f.offset(from)
	for _, s := range subs {
		if s.a < at {
			continue
		}
		b.Write(f.src[at:s.a])
		b.WriteString(f.repl[s.n]())
		at = s.b
	}
	b.Write(f.src[at:f.offset(to)])
	return b.String()
}

func (f *fileInst) render() []byte {
	body := f.inner(f.file)
	// inner starts at the package keyword; keep what precedes it (build constraints)
	head := string(f.src[:f.offset(f.file.Pos())])
	body += string(f.src[f.offset(f.file.End()):])
	return []byte(head + body + f.extra.String())
}
