// Command instrument prepares a simulation build of the repository without
// touching it: it writes instrumented copies of the repository's non-test Go
// files to a scratch directory and an overlay file that makes the go command
// use them, together with the simulator packages, in place of the originals.
//
// What it inserts or replaces (each can be switched off with -off=...):
//
//	yield  a call hook.Y() before every statement and in every loop body: the
//	       points at which the simulator counts steps and may switch tasks
//	os     os.Open, os.OpenFile, os.ReadFile, os.Stat, os.File  -> simulated files
//	time   time.Now, Since, Until, Sleep                         -> simulated clock
//	sync   sync.Mutex, RWMutex, Once, WaitGroup, Pool            -> cooperative versions
//	map    for k, v := range m (m a map)                         -> seeded order
//	hot    hook.H(site) in place of hook.Y() where a package-level variable that
//	       changes at run time is touched: preferred points for switching tasks
//	clip   the clipboard library                                 -> simulated clipboard
//
// It works on the syntax and types it finds, so it follows any rewrite of the
// code that still compiles.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path, Dir string }
	Error                         *struct{ Err string }
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type stats struct {
	Files, Yields, OS, Time, Sync, Maps, Clip int
	GoStmts, ChanOps                          int
	HotVars, HotPoints                        int
	Typed                                     bool
	Off                                       []string
}

var off = map[string]bool{}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	simdir := flag.String("sim", "/verif/sim", "simulator sources")
	out := flag.String("out", "", "scratch directory")
	offs := flag.String("off", "", "comma separated list of rewrites to leave out")
	flag.Parse()
	if *out == "" {
		fatal("-out is required")
	}
	var st stats
	for _, o := range strings.Split(*offs, ",") {
		if o != "" {
			off[o] = true
			st.Off = append(st.Off, o)
		}
	}
	modfile := filepath.Join(*out, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, f))
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(filepath.Join(*out, f), b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	pkgs := list(*repo, modfile)
	exports := map[string]string{}
	modpath := ""
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Dir == *repo {
			modpath = p.Module.Path
		}
	}
	if modpath == "" {
		fatal("module of %s not found", *repo)
	}
	hookPath := modpath + "/zzsim/hook"
	clipPath := modpath + "/zzsim/clip"
	overlay := map[string]string{}
	srcdir := filepath.Join(*out, "src")
	if err := os.MkdirAll(srcdir, 0o755); err != nil {
		fatal("%v", err)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	st.Typed = true
	type pkg struct {
		files []*ast.File
		srcs  [][]byte
		names []string
		info  *types.Info
	}
	var all []*pkg
	hot := map[string]bool{}
	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Module.Dir != *repo || p.Name == "main" {
			continue
		}
		k := &pkg{}
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			b, err := os.ReadFile(fn)
			if err != nil {
				fatal("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, b, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			k.files, k.srcs, k.names = append(k.files, f), append(k.srcs, b), append(k.names, fn)
		}
		k.info = &types.Info{Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, k.files, k.info); err != nil {
			st.Typed = false
			fmt.Fprintf(os.Stderr, "instrument: type information incomplete: %v\n", err)
		}
		all = append(all, k)
		for _, f := range k.files {
			changed(f, k.info, modpath, hot)
		}
	}
	for v := range hot {
		if strings.HasPrefix(v, modpath+"/facade.") { // the variables behind the command's flags
			delete(hot, v)
		}
	}
	st.HotVars = len(hot)
	n := 0
	for _, k := range all {
		for i, f := range k.files {
			in := &inst{fset: fset, file: f, src: k.srcs[i], info: k.info, st: &st, hook: hookPath, clip: clipPath, hot: hot}
			text := in.run()
			n++
			dst := filepath.Join(srcdir, fmt.Sprintf("%03d_%s", n, filepath.Base(k.names[i])))
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[k.names[i]] = dst
			st.Files++
		}
	}
	for _, d := range []string{"hook", "clip", "harness"} {
		ents, err := os.ReadDir(filepath.Join(*simdir, d))
		if err != nil {
			fatal("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(*repo, "zzsim", d, e.Name())] = filepath.Join(*simdir, d, e.Name())
			}
		}
	}
	// a copy of the repository's sample data for the generator
	overlay[filepath.Join(*repo, "zzsim", "harness", "zz_samples.go")] = writeSamples(*repo, *out)
	gen := fmt.Sprintf("package hook\n\nfunc init() { Free = %v; Off = %q; HotVars = %d }\n", st.GoStmts > 0 || st.ChanOps > 0, strings.Join(st.Off, ","), st.HotVars)
	genf := filepath.Join(*out, "zz_gen.go")
	if err := os.WriteFile(genf, []byte(gen), 0o644); err != nil {
		fatal("%v", err)
	}
	overlay[filepath.Join(*repo, "zzsim", "hook", "zz_gen.go")] = genf
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	b, _ = json.Marshal(st)
	if err := os.WriteFile(filepath.Join(*out, "instrument.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func list(repo, modfile string) []*pkgInfo {
	cmd := exec.Command("go", "list", "-modfile="+modfile, "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module,Error", "./...")
	cmd.Dir = repo
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = os.Stderr
	if err := cmd.Run(); err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(&buf)
	var ps []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			return ps
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		ps = append(ps, p)
	}
}

// writeSamples embeds the files of <repo>/testdata as a Go file; a missing
// directory gives an empty table.
func writeSamples(repo, out string) string {
	var names []string
	root := filepath.Join(repo, "testdata")
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && fi.Size() < 1<<17 {
			names = append(names, p)
		}
		return nil
	})
	sort.Strings(names)
	var b bytes.Buffer
	b.WriteString("package main\n\nvar samples = []sample{\n")
	for _, n := range names {
		data, err := os.ReadFile(n)
		if err != nil {
			continue
		}
		rel, _ := filepath.Rel(root, n)
		fmt.Fprintf(&b, "\t{%q, %q},\n", rel, string(data))
	}
	b.WriteString("}\n")
	dst := filepath.Join(out, "zz_samples.go")
	if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
	return dst
}

type inst struct {
	fset       *token.FileSet
	file       *ast.File
	src        []byte
	info       *types.Info
	st         *stats
	hook, clip string
	edits      []edit
	tail       map[string]bool
	imports    map[string]string // local name -> path
	generic    bool
	hot        map[string]bool
}

// global names the package-level variable of this module an identifier
// refers to, "" if it refers to something else.
func global(id *ast.Ident, info *types.Info, modpath string) string {
	v, ok := info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return ""
	}
	if p := v.Pkg().Path(); p != modpath && !strings.HasPrefix(p, modpath+"/") {
		return ""
	}
	return v.Pkg().Path() + "." + v.Name()
}

// root returns the identifier an addressable expression starts with.
func root(e ast.Expr, info *types.Info) *ast.Ident {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := info.Uses[id].(*types.PkgName); ok {
				return x.Sel
			}
		}
		return root(x.X, info)
	case *ast.ParenExpr:
		return root(x.X, info)
	case *ast.StarExpr:
		return root(x.X, info)
	case *ast.IndexExpr:
		return root(x.X, info)
	case *ast.SliceExpr:
		return root(x.X, info)
	}
	return nil
}

// changed collects the package-level variables that functions (other than
// init) assign to, take the address of, or call pointer methods on.
func changed(f *ast.File, info *types.Info, modpath string, hot map[string]bool) {
	mark := func(e ast.Expr) {
		if id := root(e, info); id != nil {
			if g := global(id, info, modpath); g != "" {
				hot[g] = true
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || (fd.Recv == nil && fd.Name.Name == "init") {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					mark(x.Key)
					if x.Value != nil {
						mark(x.Value)
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "copy" || id.Name == "clear" || id.Name == "append") && len(x.Args) > 0 {
					mark(x.Args[0])
				}
				if se, ok := x.Fun.(*ast.SelectorExpr); ok {
					if s := info.Selections[se]; s != nil && s.Kind() == types.MethodVal {
						if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
							if _, ok := sig.Recv().Type().(*types.Pointer); ok {
								mark(se.X)
							}
						}
					}
				}
			}
			return true
		})
	}
}

// touches tells whether a statement itself (not the blocks inside it)
// mentions a variable of in.hot.
func (in *inst) touches(s ast.Stmt) bool {
	if len(in.hot) == 0 {
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.Ident:
			if v, ok := in.info.Uses[x].(*types.Var); ok && v.Pkg() != nil && !v.IsField() && v.Parent() == v.Pkg().Scope() && in.hot[v.Pkg().Path()+"."+v.Name()] {
				found = true
			}
		}
		return !found
	})
	return found
}

func (in *inst) pos(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) ins(p token.Pos, s string) {
	in.edits = append(in.edits, edit{in.pos(p), in.pos(p), s, len(in.edits)})
}

func (in *inst) repl(from, to token.Pos, s string) {
	in.edits = append(in.edits, edit{in.pos(from), in.pos(to), s, len(in.edits)})
}

var rewrites = map[string]map[string]string{
	"os":        {"Open": "Open", "OpenFile": "OpenFile", "ReadFile": "ReadFile", "File": "File", "Stat": "Stat", "Lstat": "Stat"},
	"io/ioutil": {"ReadFile": "ReadFile"},
	"time":      {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep"},
	"sync":      {"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup", "Pool": "Pool"},
}

var keepers = map[string]string{"os": "Args", "io/ioutil": "Discard", "time": "UTC", "sync": "NewCond"}

func (in *inst) run() []byte {
	in.tail = map[string]bool{}
	in.imports = map[string]string{}
	for _, im := range in.file.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := path[strings.LastIndex(path, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		in.imports[name] = path
		if path == "github.com/atotto/clipboard" && !off["clip"] {
			in.st.Clip++
			n := ""
			if im.Name == nil {
				n = "clipboard "
			}
			in.repl(im.Path.Pos(), im.Path.End(), n+`"`+in.clip+`"`)
		}
	}
	hasBuild := false
	for _, c := range in.file.Comments {
		if c.Pos() < in.file.Package {
			for _, l := range c.List {
				if strings.HasPrefix(l.Text, "//go:build") || strings.HasPrefix(l.Text, "// +build") {
					hasBuild = true
				}
			}
		}
	}
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.list(x.List)
		case *ast.CaseClause:
			in.list(x.Body)
		case *ast.CommClause:
			in.list(x.Body)
		case *ast.ForStmt:
			in.loop(x.Body)
		case *ast.RangeStmt:
			in.loop(x.Body)
			if !off["map"] && !hasBuild {
				in.maprange(x)
			}
			if t, ok := in.info.Types[x.X]; ok && t.Type != nil {
				if _, ok := t.Type.Underlying().(*types.Chan); ok {
					in.st.ChanOps++
				}
			}
		case *ast.GoStmt:
			in.st.GoStmts++
		case *ast.SendStmt:
			in.st.ChanOps++
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				in.st.ChanOps++
			}
		case *ast.SelectorExpr:
			in.selector(x)
		}
		return true
	})
	in.edits = append(in.edits, edit{in.pos(in.file.Name.End()), in.pos(in.file.Name.End()),
		"; import zzhook " + `"` + in.hook + `"; var _ = zzhook.Y; `, -1})
	// "package p; import ...; var _" would put a declaration before the other
	// imports; move the keeper to the end of the file instead.
	in.edits[len(in.edits)-1].text = `; import zzhook "` + in.hook + `"`
	var tail bytes.Buffer
	tail.WriteString("\n\nvar _ = zzhook.Y\n")
	var ks []string
	for k := range in.tail {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, name := range ks {
		path := in.imports[name]
		fmt.Fprintf(&tail, "var _ = %s.%s\n", name, keepers[path])
	}
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].off != in.edits[j].off {
			return in.edits[i].off < in.edits[j].off
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var outb bytes.Buffer
	if in.generic {
		outb.WriteString("//go:build go1.21\n\n")
	}
	last := 0
	for _, e := range in.edits {
		if e.off < last {
			fatal("overlapping edits in %s", in.fset.Position(in.file.Pos()).Filename)
		}
		outb.Write(in.src[last:e.off])
		outb.WriteString(e.text)
		last = e.end
	}
	outb.Write(in.src[last:])
	outb.Write(tail.Bytes())
	return outb.Bytes()
}

func (in *inst) list(l []ast.Stmt) {
	if off["yield"] {
		return
	}
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		in.st.Yields++
		if in.touches(s) {
			in.st.HotPoints++
			in.ins(s.Pos(), fmt.Sprintf("zzhook.H(%d); ", in.st.HotPoints))
			continue
		}
		in.ins(s.Pos(), "zzhook.Y(); ")
	}
}

func (in *inst) loop(b *ast.BlockStmt) {
	if off["yield"] || len(b.List) > 0 {
		return
	}
	in.ins(b.Lbrace+1, " zzhook.Y() ")
	in.st.Yields++
}

func (in *inst) selector(x *ast.SelectorExpr) {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return
	}
	path := ""
	if o := in.info.Uses[id]; o != nil {
		pn, ok := o.(*types.PkgName)
		if !ok {
			return
		}
		path = pn.Imported().Path()
	} else if id.Obj == nil {
		path = in.imports[id.Name]
	}
	m := rewrites[path]
	to, ok := m[x.Sel.Name]
	if !ok {
		return
	}
	switch path {
	case "os", "io/ioutil":
		if off["os"] {
			return
		}
		in.st.OS++
	case "time":
		if off["time"] {
			return
		}
		in.st.Time++
	case "sync":
		if off["sync"] {
			return
		}
		in.st.Sync++
	}
	in.tail[id.Name] = true
	in.repl(x.Pos(), x.End(), "zzhook."+to)
}

// simple reports whether evaluating e again is harmless.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	}
	return false
}

func (in *inst) maprange(x *ast.RangeStmt) {
	t, ok := in.info.Types[x.X]
	if !ok || t.Type == nil {
		return
	}
	if _, ok := t.Type.Underlying().(*types.Map); !ok {
		return
	}
	if !simple(x.X) || x.Tok == token.ASSIGN || x.Key == nil {
		return
	}
	k, ok := x.Key.(*ast.Ident)
	if !ok {
		return
	}
	v := "_"
	if x.Value != nil {
		vi, ok := x.Value.(*ast.Ident)
		if !ok {
			return
		}
		v = vi.Name
	}
	if k.Name == "_" && v == "_" {
		return
	}
	// a body that assigns to the map or shadows its name keeps Go's own order
	bad := false
	root := ""
	ast.Inspect(x.X, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && root == "" {
			root = id.Name
		}
		return true
	})
	if root == k.Name || root == v {
		return
	}
	ast.Inspect(x.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "delete" {
				bad = true
			}
		}
		return true
	})
	if bad {
		return
	}
	m := string(in.src[in.pos(x.X.Pos()):in.pos(x.X.End())])
	kn := k.Name
	if kn == "_" {
		kn = "zzk"
	}
	in.repl(x.Key.Pos(), x.X.End(), fmt.Sprintf("_, %s := range zzhook.MapKeys(%s)", kn, m))
	if v != "_" {
		in.ins(x.Body.Lbrace+1, fmt.Sprintf(" %s, zzok := %s[%s]; if !zzok { continue }; ", v, m, kn))
	} else {
		in.ins(x.Body.Lbrace+1, fmt.Sprintf(" if _, zzok := %s[%s]; !zzok { continue }; ", m, kn))
	}
	in.st.Maps++
	in.generic = true
}
