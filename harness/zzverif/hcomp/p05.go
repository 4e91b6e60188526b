package hcomp

import (
	"bytes"
	"context"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"slices"
	"strings"

	compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/sirupsen/logrus"
	"golang.org/x/tools/go/packages"
)

// world has the packages which can be imported.
type world struct {
	m    map[string]*types.Package
	le   *logrus.Entry
	info types.Info
	f    *ast.File
}

// Import imports a package.
func (w *world) Import(path string) (*types.Package, error) {
	if p := w.m[path]; p != nil {
		return p, nil
	}
	return nil, io.EOF
}

// check type checks a package.
func (w *world) check(path, src, what string) *types.Package {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	sym.Assert(err == nil, what)
	w.f = f
	w.info = types.Info{Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	p, err := (&types.Config{Importer: w}).Check(path, fset, []*ast.File{f}, &w.info)
	sym.Assert(err == nil, what)
	w.m[path] = p
	return p
}

const cb = "github.com/aperturerobotics/controllerbus/"

// newWorld has the packages which the wrapper needs.
func newWorld() *world {
	l := logrus.New()
	l.SetOutput(io.Discard)
	w := &world{m: map[string]*types.Package{}, le: logrus.NewEntry(l)}
	w.check(cb+"bus", "package bus\ntype Bus interface { B() }", "bus")
	w.check(cb+"controller", "package controller\ntype Factory interface { F() }", "controller")
	w.check(cb+"plugin", "package plugin\nimport (\""+cb+"bus\"\n\""+cb+"controller\")\ntype Plugin interface { P() }\ntype StaticPlugin struct {}\nfunc (*StaticPlugin) P() {}\nfunc NewStaticPlugin(id, version string, f func(bus.Bus) []controller.Factory) *StaticPlugin { return nil }", "plugin")
	return w
}

// factory adds a package which may have a factory.
func (w *world) factory(path, name string, ctor bool) *types.Package {
	src := "package " + name + "\nimport bus \"" + cb + "bus\"\nimport controller \"" + cb + "controller\"\n"
	if ctor {
		src += "func NewFactory(b bus.Bus) controller.Factory { return nil }"
	} else {
		src += "func OldFactory(b bus.Bus) controller.Factory { return nil }"
	}
	return w.check(path, src, "factory")
}

// generate generates the wrapper of packages.
func (w *world) generate(paths []string, id, version string) []byte {
	packages.VerifLoad = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		var out []*packages.Package
		for _, path := range patterns {
			p := w.m[path]
			out = append(out, &packages.Package{Name: p.Name(), PkgPath: path, Types: p, Module: &packages.Module{Path: "m"}})
		}
		return out, nil
	}
	ctx := context.Background()
	an, err := compiler.AnalyzePackages(ctx, w.le, "/w", paths)
	sym.Assert(err == nil, "the packages are analyzed")
	sym.Assert(len(an.GetLoadedPackages()) == len(paths), "every package is known")
	sym.Assert(len(an.GetImportedModules()) == 1, "the module is known once")
	f, err := compiler.GeneratePluginWrapper(ctx, w.le, an, id, version)
	sym.Assert(err == nil, "the wrapper is generated")
	out, err := compiler.FormatFile(f)
	sym.Assert(err == nil, "the wrapper is written")
	return out
}

// verify checks the wrapper of a plugin.
func (w *world) verify(out []byte, factories map[string]bool, id, version string) {
	sym.Assert(bytes.HasPrefix(out, []byte("// +build controllerbus_plugin\n\n")), "the wrapper is built into the plugin only")
	p := w.check("main", string(out), "the wrapper compiles")
	sym.Assert(p.Name() == "main", "the plugin is a program")
	value := func(name string) string {
		c, ok := p.Scope().Lookup(name).(*types.Const)
		if !ok {
			return ""
		}
		return constant.StringVal(c.Val())
	}
	sym.Assert(value("BinaryID") == id, "the plugin has the given id")
	sym.Assert(value("BinaryVersion") == version, "the plugin has the given version")
	v, ok := p.Scope().Lookup("ControllerBusPlugin").(*types.Var)
	sym.Assert(ok && v.Type().String() == cb+"plugin.Plugin", "the loader finds the plugin")
	// the factories which are constructed
	got := map[string]int{}
	n := 0
	ast.Inspect(w.f, func(node ast.Node) bool {
		call, ok := node.(*ast.CallExpr)
		if !ok {
			return true
		}
		sel, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		fn, ok := w.info.Uses[sel.Sel].(*types.Func)
		if !ok || fn.Name() != "NewFactory" {
			return true
		}
		n++
		got[fn.Pkg().Path()]++
		return true
	})
	sym.Assert(n == len(factories), "as many factories are in the plugin as there are packages with a factory")
	for path := range factories {
		sym.Assert(got[path] == 1, "every package with a factory has its factory in the plugin")
	}
}

// P05Wrapper generates the wrapper of a plugin.
//
//verif:prop P05
//verif:bounds 1 to 3 packages in 3 directories, each with one of 4 names (two of them used by the wrapper) and a factory or not
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func P05Wrapper() {
	w := newWorld()
	factories := map[string]bool{}
	var paths []string
	names := []string{"one", "two_2", "bus", "b"}
	n := sym.Choose("packages", 3) + 1
	for i := range n {
		path := []string{"m/one", "m/a/one", "n/bus"}[i]
		ctor := sym.Choose("factory", 2) == 0
		k := len(names)
		if i == 2 {
			k = 2
		}
		w.factory(path, names[sym.Choose("name", k)], ctor)
		paths = append(paths, path)
		if ctor {
			factories[path] = true
		}
	}
	w.verify(w.generate(paths, "id", "ver"), factories, "id", "ver")
	sym.Cover("end")
}

// P05Ident generates the wrapper of a plugin with any identifier and version.
//
//verif:prop P05
//verif:bounds an identifier and a version of one arbitrary byte each next to a constant part
//verif:quick preempt=0 merge=0 budget=60s
//verif:thorough preempt=0 merge=0 budget=300s
func P05Ident() {
	w := newWorld()
	w.factory("m/one", "one", true)
	id, version := "a"+sym.StringN("id", 1), "{buildHash}"
	w.verify(w.generate([]string{"m/one"}, id, version), map[string]bool{"m/one": true}, id, version)
	sym.Cover("end")
}

// P05Order generates the wrapper of a plugin twice.
//
//verif:prop P05
//verif:bounds 2 packages with a factory and the same name; the maps with up to 3 (thorough 4) keys are iterated starting with any key
//verif:quick preempt=0 merge=0 maporder=3
//verif:thorough preempt=0 merge=0 maporder=4 budget=800s
func P05Order() {
	l := logrus.New()
	l.SetOutput(io.Discard)
	w := &world{m: map[string]*types.Package{}, le: logrus.NewEntry(l)}
	paths := []string{"m/one", "m/a/one"}
	for _, path := range paths {
		p := types.NewPackage(path, "one")
		p.Scope().Insert(types.NewTypeName(token.NoPos, p, "NewFactory", types.Typ[types.Int]))
		w.m[path] = p
	}
	sym.Assert(bytes.Equal(w.generate(paths, "id", "ver"), w.generate(paths, "id", "ver")), "the code of a plugin depends on its packages only")
	sym.Cover("end")
}

// P05Files lists the files of packages.
//
//verif:prop P05
//verif:bounds 3 packages with 1 or 2 files, 4 lists of paths and 5 prefixes
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func P05Files() {
	l := logrus.New()
	l.SetOutput(io.Discard)
	w := &world{m: map[string]*types.Package{}, le: logrus.NewEntry(l)}
	paths := []string{"m/one", "m/one/two", "n/m"}
	two := sym.Choose("files", 2) == 1
	files := map[string][]string{}
	packages.VerifLoad = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		var out []*packages.Package
		for i, path := range patterns {
			pp := &packages.Package{Name: "p", PkgPath: path, Types: types.NewPackage(path, "p"), Module: &packages.Module{Path: "m"}}
			for j := range 2 {
				if j == 1 && (!two || i != 1) {
					continue
				}
				name := "/w/" + path + "/" + []string{"a.go", "b.go"}[j]
				f, err := parser.ParseFile(cfg.Fset, name, "package p", 0)
				sym.Assert(err == nil, "the file is parsed")
				pp.Syntax = append(pp.Syntax, f)
				files[path] = append(files[path], name)
			}
			out = append(out, pp)
		}
		return out, nil
	}
	an, err := compiler.AnalyzePackages(context.Background(), w.le, "/w", paths)
	sym.Assert(err == nil, "the packages are analyzed")
	exact := [][]string{nil, {"m/one"}, {"n/m", "m/one/two"}, {"m"}}[sym.Choose("exact", 4)]
	prefix := []string{"", "m", "m/one", "n/", "x"}[sym.Choose("prefix", 5)]
	got := an.GetProgramCodeFiles(exact, prefix)
	n := 0
	for _, path := range paths {
		want := (exact == nil || slices.Contains(exact, path)) && strings.HasPrefix(path, prefix)
		if !want {
			sym.Assert(len(got[path]) == 0, "the files of other packages are not listed")
			continue
		}
		n++
		sym.Assert(slices.Equal(got[path], files[path]), "the files of the packages are listed")
	}
	sym.Assert(len(got) == n, "only packages with files are listed")
	sym.Cover("end")
}
