package hcomp

import (
	"context"
	"errors"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path"
	"slices"
	"strconv"
	"strings"
	"time"

	compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/aperturerobotics/controllerbus/zzverif/hfs"
	"github.com/aperturerobotics/controllerbus/zzverif/model"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/fsnotify/fsnotify"
	"github.com/sirupsen/logrus"
	"golang.org/x/tools/go/packages"
)

var errGo = errors.New("the go tool failed")

// script is a go tool which writes ctl/result to the output.
const script = `#!/bin/sh
cd "$PWD" || exit 2
echo "$PWD $*" >> CTL/log
test -f plugin.go || exit 3
test -f ../go.mod || exit 3
n=$(wc -l < CTL/log)
cp plugin.go CTL/plugin-$((n)).go
test "$((n))" = "$(cat CTL/fail)" && exit 1
test "$1" = build || exit 0
while test "$1" != -o; do shift; done
printf '%s %s' "$(cat CTL/result)" "$PWD" > "$2"
`

// long is the contents of a plugin which is longer than others.
var long = strings.Repeat("old ", 100)

// tool is a go tool.
type tool struct {
	fs *hfs.FS
}

// newTool replaces the go tool.
func newTool(fs *hfs.FS) *tool {
	t := &tool{fs: fs}
	fs.Write("ctl/fail", "0")
	fs.Write("ctl/log", "")
	if !sym.Symbolic() {
		fs.Write("ctl/bin/go", strings.ReplaceAll(script, "CTL", fs.Path("ctl")))
		_ = os.Chmod(fs.Path("ctl/bin/go"), 0o700)
		_ = os.Setenv("PATH", fs.Path("ctl/bin")+":/usr/bin:/bin")
		return t
	}
	model.CmdHook = func(ctx context.Context, dir string, args []string) error {
		log, _ := fs.Read("ctl/log")
		n := strconv.Itoa(strings.Count(log, "\n") + 1)
		fs.Write("ctl/log", log+dir+" "+strings.Join(args[1:], " ")+"\n")
		sym.Assert(args[0] == "go", "the go tool is executed")
		prog, err := model.OsReadFile(dir + "/plugin.go")
		if err != nil {
			return err
		}
		if _, err := model.OsReadFile(dir + "/../go.mod"); err != nil {
			return err
		}
		fs.Write("ctl/plugin-"+n+".go", string(prog))
		if fail, _ := fs.Read("ctl/fail"); fail == n {
			return errGo
		}
		if args[1] == "build" {
			res, _ := fs.Read("ctl/result")
			return model.OsWriteFile(args[slices.Index(args, "-o")+1], []byte(res+" "+dir), 0o600)
		}
		return nil
	}
	return t
}

// runs has the calls of the tool.
func (t *tool) runs() []string {
	log, _ := t.fs.Read("ctl/log")
	return strings.Split(strings.TrimSuffix(log, "\n"), "\n")
}

// result has the result of the last call.
func (t *tool) result() string {
	runs := t.runs()
	dir, _, _ := strings.Cut(runs[len(runs)-1], " ")
	res, _ := t.fs.Read("ctl/result")
	return res + " " + dir
}

// constant has the value of a constant of the program of a call.
func (t *tool) constant(n int, name string) string {
	d, _ := t.fs.Read("ctl/plugin-" + strconv.Itoa(n) + ".go")
	f, err := parser.ParseFile(token.NewFileSet(), "plugin.go", d, 0)
	sym.Assert(err == nil, "the program is valid")
	o := f.Scope.Lookup(name)
	sym.Assert(o != nil, "the program has its id and version")
	s, _ := strconv.Unquote(o.Decl.(*ast.ValueSpec).Values[0].(*ast.BasicLit).Value)
	return s
}

// watch is a plugin which is built and watched.
type watch struct {
	fs     *hfs.FS
	tool   *tool
	tagged bool
	built  []string
	hook   *fsnotify.Hooked
	cbErr  error
}

func newWatch(tagged bool) *watch {
	f := hfs.New()
	w := &watch{fs: f, tool: newTool(f), tagged: tagged}
	f.Mkdir("go/pkg")
	f.Mkdir("gen")
	f.Write("src/go.mod", "module m.io/m\n\ngo 1.24\n")
	f.Write("plugins/p-old1.cbus.so", "old")
	f.Write("plugins/p-old-1.cbus.so", "other")
	f.Write("plugins/q.cbus.so", "other")
	f.Write("ctl/result", "v1")
	if !tagged {
		f.Write("plugins/p.cbus.so", long)
	}
	build.Default.GOPATH = f.Path("go")
	fsnotify.Hook = func(h *fsnotify.Hooked) { w.hook = h }
	packages.VerifLoad = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
		pp := &packages.Package{Name: "m", PkgPath: "m.io/m", Types: types.NewPackage("m.io/m", "m"), Module: &packages.Module{Path: "m.io/m", Dir: f.Path("src"), GoMod: f.Path("src/go.mod")}}
		for _, name := range []string{"a.go", "b.go"} {
			x, err := parser.ParseFile(cfg.Fset, f.Path("src/"+name), "package m\n", parser.ParseComments|parser.SkipObjectResolution)
			sym.Assert(err == nil, "the file is parsed")
			pp.Syntax = append(pp.Syntax, x)
		}
		return []*packages.Package{pp}, nil
	}
	return w
}

// run starts building and watching.
func (w *watch) run(ctx context.Context, pkgs []string, done chan<- error) {
	l := logrus.New()
	l.SetOutput(io.Discard)
	cw := compiler.NewWatcher(logrus.NewEntry(l), w.fs.Path("src"), pkgs)
	name := "plugins/p.cbus.so"
	if w.tagged {
		name = "plugins/p-" + tag + ".cbus.so"
	}
	done <- cw.WatchCompilePlugin(ctx, w.fs.Path("gen"), w.fs.Path(name), "the-id", "v-"+tag, func(pkgs []string, out string) error {
		w.built = append(w.built, out)
		d, ok := w.fs.Read("plugins/" + path.Base(out))
		sym.Assert(ok && d == w.tool.result(), "the plugin is there when the callback is called")
		return w.cbErr
	})
}

// plugin has the name of the current plugin.
func (w *watch) plugin() string {
	var out []string
	for _, name := range w.fs.List() {
		if n, ok := strings.CutPrefix(name, "plugins/"); ok && n != "q.cbus.so" && n != "p-old-1.cbus.so" {
			out = append(out, n)
		}
	}
	if !w.tagged {
		// versions of another name
		sym.Assert(len(out) == 2 && out[0] == "p-old1.cbus.so", "other files are kept")
		return out[1]
	}
	sym.Assert(len(out) == 1, "there is one version of the plugin")
	return out[0]
}

// check checks a build with the given number of calls before it.
func (w *watch) check(before int) {
	runs := w.tool.runs()
	sym.Assert(len(runs) == before+4, "the plugin is compiled in two passes")
	dirs := map[string]bool{}
	name := w.plugin()
	for i := range 2 {
		dir, tidy, _ := strings.Cut(runs[before+2*i], " ")
		dir2, build, _ := strings.Cut(runs[before+2*i+1], " ")
		sym.Assert(dir == dir2 && strings.HasPrefix(dir, w.fs.Path("gen")+"/") && strings.HasSuffix(dir, "/plugin/bin"), "the generated program is compiled")
		sym.Assert(tidy == "mod tidy", "the sums are generated first")
		args := strings.Split(build, " ")
		k := slices.Index(args, "-tags")
		sym.Assert(args[0] == "build" && slices.Contains(args, "-buildmode=plugin") && slices.Contains(args, "-trimpath") && k > 0 && args[k+1] == "controllerbus_plugin" && args[len(args)-1] == ".", "a plugin is compiled")
		dirs[dir] = true
	}
	sym.Assert(len(dirs) == 2, "the plugin has paths of its own")
	hash := ""
	if w.tagged {
		hash = strings.TrimSuffix(strings.TrimPrefix(name, "p-"), ".cbus.so")
		sym.Assert(alnum(hash) && len(hash) >= 8, "the plugin is named by its hash")
		sym.Assert(w.tool.constant(before+4, "BinaryVersion") == "v-"+hash, "the version of the plugin is its hash")
		sym.Assert(strings.Contains(runs[before+3], hash), "the paths of the plugin have its hash")
	} else {
		sym.Assert(name == "p.cbus.so", "the plugin has the given name")
		sym.Assert(!strings.Contains(w.tool.constant(before+4, "BinaryVersion"), tag), "the version of the plugin is its hash")
	}
	sym.Assert(w.tool.constant(before+4, "BinaryID") == "the-id", "the plugin has the given id")
	d, _ := w.fs.Read("plugins/" + name)
	sym.Assert(d == w.tool.result(), "the plugin is the result of the compiler")
	sym.Assert(len(w.built) != 0 && w.built[len(w.built)-1] == w.fs.Path("plugins/"+name), "the callback is called with the path of the plugin")
	w.clean()
}

// clean checks that nothing is left.
func (w *watch) clean() {
	for _, name := range w.fs.List() {
		if strings.HasPrefix(name, "gen/") {
			sym.Assert(path.Dir(name) == "gen/bin", "the generated code is removed")
		}
	}
	sym.Assert(w.fs.Has("plugins/q.cbus.so") && w.fs.Has("plugins/p-old-1.cbus.so"), "other files are kept")
}

// watching checks what is watched.
func (w *watch) watching() {
	sym.Assert(w.hook != nil, "the files are watched")
	sym.Assert(len(w.hook.Paths) == 1 && w.hook.Paths[0] == w.fs.Path("src"), "the directory of the package is watched")
}

func (w *watch) closed() bool {
	select {
	case <-w.hook.Closed:
		return true
	default:
		return false
	}
}

// P07Build builds a plugin once.
//
//verif:prop P07
//verif:bounds a package with 2 files; an output with the hash in its name or not; 4 calls of the compiler and a callback, one of which may fail; then the context is canceled
//verif:quick preempt=0 merge=0 steps=20000000
//verif:thorough preempt=0 merge=0 steps=20000000
func P07Build() {
	w := newWatch(sym.Choose("tagged", 2) == 1)
	defer w.fs.Close()
	k := sym.Choose("failure", 6)
	w.fs.Write("ctl/fail", strconv.Itoa(k))
	if k == 5 {
		w.cbErr = errGo
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go w.run(ctx, []string{"."}, done)
	sym.Quiesce()
	if k != 0 {
		sym.Assert(len(done) == 1 && <-done != nil, "a failure is returned")
		w.clean()
		if k < 5 {
			sym.Assert(len(w.built) == 0, "the callback is called for plugins only")
			sym.Assert(len(w.tool.runs()) == k, "the build ends with the failure")
			for _, name := range w.fs.List() {
				if name == "plugins/p.cbus.so" {
					d, _ := w.fs.Read(name)
					sym.Assert(d == long, "the old plugin is kept")
					continue
				}
				sym.Assert(!strings.HasPrefix(name, "plugins/") || !strings.HasPrefix(path.Base(name), "p") || strings.HasPrefix(path.Base(name), "p-old"), "there is no new plugin")
			}
		}
		if k <= 2 {
			sym.Assert(w.fs.Has("plugins/p-old1.cbus.so"), "the old version is kept")
		}
		sym.Cover("failed")
	} else {
		sym.Assert(len(done) == 0 && len(w.built) == 1, "the plugin is built once")
		w.check(0)
		w.watching()
		cancel()
		sym.Quiesce()
		sym.Assert(len(done) == 1 && <-done == context.Canceled, "the watcher ends with its context")
		sym.Assert(w.closed(), "the files are not watched anymore")
	}
	cancel()
	sym.Cover("end")
}

// P07Watch builds a plugin again when its files are changed.
//
//verif:prop P07
//verif:bounds a package with 2 files given by its path or relatively; 1 of 4 events after the first build, after which the compiler has another result or not; an output with the hash in its name or not
//verif:quick preempt=0 merge=0 steps=20000000
//verif:thorough preempt=0 merge=0 steps=20000000
func P07Watch() {
	w := newWatch(sym.Choose("tagged", 2) == 1)
	defer w.fs.Close()
	pkgs := [][]string{{"m.io/m"}, {"./"}}[sym.Choose("relative", 2)]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan error, 1)
	go w.run(ctx, pkgs, done)
	sym.Quiesce()
	sym.Assert(len(done) == 0 && len(w.built) == 1, "the plugin is built")
	w.check(0)
	w.watching()
	first := w.hook
	old := w.plugin()
	changed := sym.Choose("changed", 2) == 1
	if changed {
		w.fs.Write("ctl/result", "v2")
	}
	k := sym.Choose("event", 4)
	ev := []fsnotify.Event{
		{Name: w.fs.Path("src/a.go"), Op: fsnotify.Write},
		{Name: w.fs.Path("src/b.go"), Op: fsnotify.Remove},
		{Name: w.fs.Path("src/c.txt"), Op: fsnotify.Write},
		{Name: w.fs.Path("src/a.go"), Op: fsnotify.Chmod},
	}[k]
	w.hook.Send(ev)
	if k == 0 && sym.Choose("twice", 2) == 1 {
		w.hook.Send(fsnotify.Event{Name: w.fs.Path("src/b.go"), Op: fsnotify.Create})
	}
	time.Sleep(time.Minute)
	sym.Quiesce()
	sym.Assert(len(done) == 0, "the watcher goes on")
	if k >= 2 {
		sym.Assert(len(w.tool.runs()) == 4 && w.hook == first && !w.closed(), "other events are ignored")
		sym.Cover("ignored")
		return
	}
	sym.Assert(w.hook != first, "the files are watched again")
	w.watching()
	if changed || !w.tagged {
		w.check(4)
		sym.Assert(len(w.built) == 2, "the callback is called for the new plugin")
		sym.Assert(!w.tagged || w.plugin() != old, "the new plugin has another name")
		sym.Cover("changed")
	} else {
		sym.Assert(len(w.tool.runs()) == 6 && len(w.built) == 1 && w.plugin() == old, "a plugin which is the same is not compiled again")
		w.clean()
		sym.Cover("same")
	}
	select {
	case <-first.Closed:
	default:
		sym.Assert(false, "the old watcher is closed")
	}
	sym.Cover("end")
}
