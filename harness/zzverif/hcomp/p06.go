package hcomp

import (
	"context"
	"go/build"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"path"
	"slices"
	"strings"

	compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/aperturerobotics/controllerbus/zzverif/hfs"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/sirupsen/logrus"
	"golang.org/x/mod/modfile"
	"golang.org/x/tools/go/packages"
)

// tokens has the tokens of a Go file.
func tokens(src string) []string {
	var sc scanner.Scanner
	fset := token.NewFileSet()
	sc.Init(fset.AddFile("x.go", fset.Base(), len(src)), []byte(src), nil, scanner.ScanComments)
	var out []string
	for {
		_, tok, lit := sc.Scan()
		if tok == token.EOF {
			return out
		}
		if tok == token.SEMICOLON {
			// may be inserted
			continue
		}
		out = append(out, tok.String()+" "+lit)
	}
}

// contents has the contents of a Go file: the imports may be in any order.
func contents(src string) []string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ImportsOnly)
	sym.Assert(err == nil, "the files are valid")
	var imports []string
	for _, imp := range f.Imports {
		s := imp.Path.Value
		if imp.Name != nil {
			s = imp.Name.Name + " " + s
		}
		imports = append(imports, s)
	}
	slices.Sort(imports)
	begin := fset.Position(f.Name.End()).Offset
	end := begin
	for _, d := range f.Decls {
		end = fset.Position(d.End()).Offset
	}
	return append(append(tokens(src[:begin]), imports...), tokens(src[end:])...)
}

// mod is a module of a build.
type mod struct {
	path string
	// dir has its files
	dir string
	// local is set if it is not in the module cache
	local bool
	// gomod is its file
	gomod string
	m     *packages.Module
}

// pkg is a package of a build.
type pkg struct {
	path string
	mod  *mod
	file string
	src  string
	ctor bool
	// noMod is set if its module is not known
	noMod bool
	// bad is set if it does not compile
	bad bool
}

// hot is a build of a plugin.
type hot struct {
	fs   *hfs.FS
	mods []*mod
	pkgs []*pkg
}

const prefix = "cbus-plugin-x"

// generate generates the modules of the plugin.
func (h *hot) generate() (*compiler.ModuleCompiler, error) {
	l := logrus.New()
	l.SetOutput(io.Discard)
	le := logrus.NewEntry(l)
	packages.VerifLoad = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		var out []*packages.Package
		for _, p := range h.pkgs {
			tp := types.NewPackage(p.path, path.Base(p.path))
			if p.ctor {
				tp.Scope().Insert(types.NewTypeName(token.NoPos, tp, "NewFactory", types.Typ[types.Int]))
			}
			f, err := parser.ParseFile(cfg.Fset, h.fs.Path(path.Join(p.mod.dir, p.file)), p.src, parser.ParseComments|parser.AllErrors|parser.SkipObjectResolution)
			sym.Assert(err == nil, "the file is parsed")
			pp := &packages.Package{Name: tp.Name(), PkgPath: p.path, Types: tp, Module: p.mod.m, IllTyped: p.bad}
			if p.noMod {
				pp.Module = nil
			}
			pp.Syntax = append(pp.Syntax, f)
			out = append(out, pp)
		}
		return out, nil
	}
	var paths []string
	for _, p := range h.pkgs {
		paths = append(paths, p.path)
	}
	ctx := context.Background()
	an, err := compiler.AnalyzePackages(ctx, le, h.fs.Path("src"), paths)
	sym.Assert(err == nil, "the packages are analyzed")
	mc, err := compiler.NewModuleCompiler(ctx, le, prefix, h.fs.Path("out"), "id")
	sym.Assert(err == nil, "the compiler is constructed")
	return mc, mc.GenerateModules(an, "ver")
}

// add adds a module with its files.
func (h *hot) add(m *mod) *mod {
	m.m = &packages.Module{Path: m.path, Dir: h.fs.Path(m.dir), GoMod: h.fs.Path(m.dir + "/go.mod")}
	h.fs.Write(m.dir+"/go.mod", m.gomod)
	h.mods = append(h.mods, m)
	return m
}

// replacement checks where a path leads to.
func replacement(f *modfile.File, dir, old, version string) string {
	for _, r := range f.Replace {
		if r.Old.Path == old && r.Old.Version == version {
			if modfile.IsDirectoryPath(r.New.Path) && r.New.Path[0] != '/' {
				return path.Join(dir, r.New.Path)
			}
			return r.New.Path + r.New.Version
		}
	}
	return ""
}

// modFile reads a module file.
func (h *hot) modFile(name string) *modfile.File {
	d, ok := h.fs.Read(name)
	sym.Assert(ok, "every module has a module file")
	f, err := modfile.Parse(name, []byte(d), nil)
	sym.Assert(err == nil, "the module files are valid")
	return f
}

// out is the directory of a module of the plugin.
func out(m *mod) string { return "out/" + prefix + "/" + m.path }

// verify checks the modules of the plugin.
func (h *hot) verify() {
	// the files
	want := []string{"out/" + prefix + "/plugin/go.mod", "out/" + prefix + "/plugin/bin/plugin.go"}
	for _, m := range h.mods {
		want = append(want, out(m)+"/go.mod")
	}
	for _, p := range h.pkgs {
		name := out(p.mod) + "/" + p.file
		want = append(want, name)
		imports, decls, _ := strings.Cut(p.src, "\nvar")
		for _, q := range h.pkgs {
			imports = strings.ReplaceAll(imports, `"`+q.path+`"`, `"`+prefix+"/"+q.path+`"`)
		}
		src := imports + "\nvar" + decls
		d, ok := h.fs.Read(name)
		sym.Assert(ok, "every file is in the plugin")
		sym.Assert(slices.Equal(contents(d), contents(src)), "only the imports of the packages of the plugin are changed")
	}
	var got []string
	for _, name := range h.fs.List() {
		if strings.HasPrefix(name, "out/") && name != "out/other" {
			got = append(got, name)
		}
	}
	slices.Sort(want)
	sym.Assert(slices.Equal(got, want), "only files of the packages are in the plugin")
	// the modules
	plugin := h.modFile("out/" + prefix + "/plugin/go.mod")
	pluginDir := h.fs.Path("out/" + prefix + "/plugin")
	sym.Assert(plugin.Module.Mod.Path == prefix+"/plugin", "the plugin is a module")
	for _, m := range h.mods {
		f := h.modFile(out(m) + "/go.mod")
		sym.Assert(f.Module.Mod.Path == prefix+"/"+m.path, "the path of a module has the prefix")
		src, err := modfile.Parse("go.mod", []byte(m.gomod), nil)
		sym.Assert(err == nil, "the module is valid")
		sym.Assert(len(f.Require) == len(src.Require), "a module has its requirements only")
		for _, r := range src.Require {
			sym.Assert(slices.ContainsFunc(f.Require, func(q *modfile.Require) bool { return q.Mod == r.Mod }), "a module keeps its requirements")
			sym.Assert(slices.ContainsFunc(plugin.Require, func(q *modfile.Require) bool { return q.Mod.Path == r.Mod.Path }), "the plugin has the requirements of its modules")
		}
		for _, r := range src.Replace {
			to := replacement(src, h.fs.Path(m.dir), r.Old.Path, r.Old.Version)
			sym.Assert(replacement(f, h.fs.Path(out(m)), r.Old.Path, r.Old.Version) == to, "a module keeps its replacements")
			sym.Assert(replacement(plugin, pluginDir, r.Old.Path, r.Old.Version) == to, "the plugin has the replacements of its modules")
		}
		for _, q := range h.mods {
			to := replacement(f, h.fs.Path(out(m)), prefix+"/"+q.path, "")
			sym.Assert(q == m || to == h.fs.Path(out(q)), "a module finds the other modules of the plugin")
		}
		sym.Assert(replacement(plugin, pluginDir, prefix+"/"+m.path, "") == h.fs.Path(out(m)), "the plugin finds its modules")
		if m.local {
			sym.Assert(replacement(f, "", m.path, "") == h.fs.Path(m.dir), "a module finds its other packages")
			sym.Assert(replacement(plugin, "", m.path, "") == h.fs.Path(m.dir), "the plugin finds the other packages of a module")
		}
		// the sources are left alone
		d, ok := h.fs.Read(m.dir + "/go.mod")
		sym.Assert(ok && d == m.gomod, "the module is not changed")
	}
	// the program
	d, _ := h.fs.Read("out/" + prefix + "/plugin/bin/plugin.go")
	f, err := parser.ParseFile(token.NewFileSet(), "plugin.go", d, parser.ParseComments)
	sym.Assert(err == nil, "the program is valid")
	n := 0
	for _, p := range h.pkgs {
		if !p.ctor {
			continue
		}
		n++
		k := 0
		for _, imp := range f.Imports {
			if imp.Path.Value == `"`+prefix+"/"+p.path+`"` {
				k++
			}
		}
		sym.Assert(k == 1, "the program imports the factories of the plugin")
	}
	sym.Assert(len(f.Imports) == n+3, "the program imports the factories only")
	sym.Assert(f.Scope.Lookup("ControllerBusPlugin") != nil && f.Scope.Lookup("HotPluginBuildUUID") != nil, "the program is a plugin")
	sym.Assert(strings.Count(d, "NewFactory(b)") == n, "the program has the factories of the plugin")
	x, ok := h.fs.Read("out/other")
	sym.Assert(ok && x == "other", "other files are kept")
}

// start starts a build.
func start() *hot {
	h := &hot{fs: hfs.New()}
	h.fs.Write("out/other", "other")
	h.fs.Mkdir("go/pkg")
	build.Default.GOPATH = h.fs.Path("go")
	return h
}

// P06Modules generates the modules of a plugin.
//
//verif:prop P06
//verif:bounds 2 modules, one of them in 4 places and with 4 paths, and 2 or 3 packages which import each other; stale files; the modules are generated once or twice
//verif:quick preempt=0 merge=0 steps=20000000
//verif:thorough preempt=0 merge=0 maporder=2 steps=20000000 budget=900s
func P06Modules() {
	modules(sym.Choose("path", 4), sym.Choose("place", 4), sym.Choose("sub", 2) == 1, sym.Choose("stale", 3))
}

// P06Order generates the modules of a plugin in any order.
//
//verif:prop P06
//verif:bounds 2 modules with 2 packages, one module within the other or not, stale files or not; the maps with up to 2 (thorough 3) keys in every order
//verif:quick preempt=0 merge=0 maporder=2 steps=20000000
//verif:thorough preempt=0 merge=0 maporder=3 steps=20000000 budget=900s
func P06Order() {
	modules(sym.Choose("path", 2), 1, false, sym.Choose("stale", 2))
}

// modules generates the modules of a plugin.
func modules(path, place int, sub bool, stale int) {
	h := start()
	defer h.fs.Close()
	b := &mod{path: []string{"n.io/two", "m.io/m/two", "m.io/m-two", "a.io/two"}[path]}
	b.dir = []string{"src/two", "go/pkg/mod/two@v1.0.0", "go/pkgs/two", "src/m/two"}[place]
	b.local = place != 1
	b.gomod = "module " + b.path + "\n\ngo 1.24\n\nrequire ext.io/e v1.2.3\n"
	h.add(b)
	a := &mod{path: "m.io/m", dir: "src/m", local: true}
	a.gomod = "module m.io/m\n\ngo 1.24\n\nrequire (\n\t" + b.path + " v1.0.0\n\text.io/e v1.2.3\n)\n\nreplace ext.io/e => ../ext\n\nreplace (\n\tk.io/k => l.io/l v1.0.0\n\tk.io/k v1.1.0 => l.io/l v1.1.0\n\tk.io/k v1.2.0 => ../k\n)\n"
	h.add(a)
	if b.dir == "src/two" && sym.Choose("replaced", 2) == 1 {
		r := *b.m
		b.m.Replace = &r
		b.m.GoMod = ""
		r.Path = "../two"
	}
	h.pkgs = append(h.pkgs,
		&pkg{path: b.path, mod: b, file: "b.go", src: "package two\n\nimport (\n\t\"fmt\"\n\n\tx \"m.io/m/sub\"\n)\n\n// X is m.io/m/sub.\nvar X = fmt.Sprint(x.X, \"m.io/m\")\n"},
		&pkg{path: "m.io/m", mod: a, file: "a.go", ctor: true, src: "// Package m is a package.\npackage m\n\nimport (\n\t\"m.io/m/other\"\n\t_ \"" + b.path + "\" // two\n)\n\nvar X = other.X\n"},
	)
	if sub {
		h.pkgs = append(h.pkgs, &pkg{path: "m.io/m/sub", mod: a, file: "sub/s.go", ctor: true, src: "package sub\n\nvar X = 1\n"})
	}
	if stale == 1 {
		h.fs.Write(out(a)+"/stale.go", "package m\n")
	}
	_, err := h.generate()
	sym.Assert(err == nil, "the modules are generated")
	if stale == 2 {
		// the build of another version
		h.fs.Write(out(b)+"/stale.go", "package two\n")
		_, err := h.generate()
		sym.Assert(err == nil, "the modules are generated again")
	}
	h.verify()
	sym.Cover("end")
}

// P06Import generates the module of a package with any import.
//
//verif:prop P06
//verif:bounds one module with two packages; the last letter of an import is arbitrary
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func P06Import() {
	h := start()
	defer h.fs.Close()
	a := h.add(&mod{path: "m.io/m", dir: "src/m", local: true, gomod: "module m.io/m\n\ngo 1.24\n"})
	c := sym.StringN("letter", 1)
	sym.Assume(c[0] >= 'a' && c[0] <= 'z')
	h.pkgs = append(h.pkgs,
		&pkg{path: "m.io/m", mod: a, file: "a.go", src: "package m\n\nimport x \"m.io/m/su" + c + "\"\n\nvar X = x.X\n"},
		&pkg{path: "m.io/m/sub", mod: a, file: "sub/s.go", ctor: true, src: "package sub\n\nvar X = 1\n"},
	)
	_, err := h.generate()
	sym.Assert(err == nil, "the modules are generated")
	h.verify()
	sym.Cover("end")
}

// P06Fail has packages and modules which cannot be built, and cleans up.
//
//verif:prop P06
//verif:bounds one module with a package and 5 failures
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func P06Fail() {
	h := start()
	defer h.fs.Close()
	a := h.add(&mod{path: "m.io/m", dir: "src/m", local: true, gomod: "module m.io/m\n\ngo 1.24\n"})
	p := &pkg{path: "m.io/m", mod: a, file: "a.go", src: "package m\n\nvar X = 1\n", ctor: true}
	h.pkgs = append(h.pkgs, p)
	k := sym.Choose("failure", 6)
	switch k {
	case 1:
		p.noMod = true
	case 2:
		p.bad = true
	case 3:
		h.fs.Remove("src/m/go.mod")
	case 4:
		h.fs.Write("src/m/go.mod", "modul m.io/m\n")
	case 5:
		build.Default.GOPATH = h.fs.Path("none")
	}
	mc, err := h.generate()
	sym.Assert((err == nil) == (k == 0), "packages which cannot be built are reported")
	mc.Cleanup()
	for _, name := range h.fs.List() {
		sym.Assert(!strings.HasPrefix(name, "out/"+prefix), "cleaning up removes the files of the plugin")
	}
	sym.Assert(h.fs.Has("out/other") && (k == 3 || h.fs.Has("src/m/go.mod")), "cleaning up removes nothing else")
	sym.Cover("end")
}
