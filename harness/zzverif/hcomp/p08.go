package hcomp

import (
	"context"
	"flag"
	"io"
	"strconv"
	"strings"

	libcli "github.com/aperturerobotics/cli"
	"github.com/aperturerobotics/controllerbus/plugin/cli"
	compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/sirupsen/logrus"
	"golang.org/x/tools/go/packages"
)

// once checks a plugin which was compiled once.
func (w *watch) once(out string) string {
	runs := w.tool.runs()
	sym.Assert(len(runs) == 2, "the plugin is compiled once")
	dir, tidy, _ := strings.Cut(runs[0], " ")
	dir2, build, _ := strings.Cut(runs[1], " ")
	sym.Assert(dir == dir2 && tidy == "mod tidy" && strings.HasPrefix(build, "build "), "the sums are generated first")
	d, ok := w.fs.Read(out)
	sym.Assert(ok && d == w.tool.result(), "the plugin is the result of the compiler")
	return dir
}

// left has the number of files of a directory.
func (w *watch) left(dir string) int {
	n := 0
	for _, name := range w.fs.List() {
		if strings.HasPrefix(name, dir+"/") {
			n++
		}
	}
	return n
}

// P08Once builds a plugin once.
//
//verif:prop P08
//verif:bounds a package with 2 files; a directory for the code or a temporary one; the compiler fails at one of 2 calls or not at all, or the packages cannot be loaded, or the module file is invalid
//verif:quick preempt=0 merge=0 steps=20000000
//verif:thorough preempt=0 merge=0 steps=20000000
func P08Once() {
	w := newWatch(false)
	defer w.fs.Close()
	w.fs.Mkdir("cache")
	w.fs.Enter("src", "cache")
	l := logrus.New()
	l.SetOutput(io.Discard)
	gen := ""
	if sym.Choose("gen", 2) == 1 {
		gen = w.fs.Path("gen")
	}
	k := sym.Choose("failure", 5)
	if k == 4 {
		w.fs.Write("src/go.mod", "modul m.io/m\n")
	} else if k == 3 {
		packages.VerifLoad = func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) { return nil, errGo }
	} else {
		w.fs.Write("ctl/fail", strconv.Itoa(k))
	}
	err := compiler.BuildPlugin(context.Background(), logrus.NewEntry(l), w.fs.Path("src"), w.fs.Path("new/p.cbus.so"), gen, []string{"."})
	sym.Assert((err == nil) == (k == 0), "failures are returned")
	sym.Assert(w.left("cache") == 0, "the temporary code is removed")
	if err != nil {
		sym.Assert(!w.fs.Has("new/p.cbus.so"), "there is no plugin")
		sym.Cover("failed")
		return
	}
	dir := w.once("new/p.cbus.so")
	if gen != "" {
		sym.Assert(strings.HasPrefix(dir, gen+"/"), "the code is generated into the directory")
	} else {
		sym.Assert(strings.HasPrefix(dir, w.fs.Path("cache")+"/"), "the code is generated into a temporary directory")
	}
	sym.Assert(w.fs.Has("src/go.mod") && w.left("plugins") == 4, "other files are kept")
	sym.Cover("end")
}

// P08Command executes the commands for plugins.
//
//verif:prop P08
//verif:bounds the commands compile and codegen with 0 or 1 packages; with the prefix, the identifier, the version and the directory for the code given or not; with cleaning up or not; 2 output paths; the compiler fails at one of 2 calls or not at all
//verif:quick preempt=0 merge=0 steps=20000000
//verif:thorough preempt=0 merge=0 steps=20000000
func P08Command() {
	w := newWatch(false)
	defer w.fs.Close()
	w.fs.Mkdir("cache")
	w.fs.Enter("src", "cache")
	a := &cli.CompilerArgs{OutputPath: "../new/p.cbus.so"}
	id, version, prefix, gen := "", "", "", "cache"
	if sym.Choose("given", 2) == 1 {
		a.PluginBinaryID, a.PluginBinaryVersion, a.BuildPrefix = "the-id", "the-version", "the-prefix"
		id, version, prefix = "the-id", "the-version", "/the-prefix/"
	}
	if sym.Choose("gen", 2) == 1 {
		a.CodegenDir = w.fs.Path("gen")
		gen = "gen"
	}
	a.NoCleanup = sym.Choose("keep", 2) == 1
	compile := sym.Choose("compile", 2) == 1
	k := sym.Choose("failure", 5)
	var args []string
	switch k {
	case 1, 2:
		w.fs.Write("ctl/fail", strconv.Itoa(k))
	case 3:
		a.OutputPath = "../new/p.so"
	}
	if k != 4 {
		args = append(args, ".")
	}
	var cmd *libcli.Command
	for _, c := range a.BuildDevtoolCommand().Subcommands {
		if (c.Name == "compile") == compile {
			cmd = c
		}
	}
	set := flag.NewFlagSet("x", flag.ContinueOnError)
	sym.Assert(set.Parse(args) == nil, "the arguments are parsed")
	err := cmd.Action(libcli.NewContext(nil, set, nil))
	sym.Assert((err == nil) == (k == 0 || (k <= 2 && !compile)), "failures are returned")
	if k >= 3 {
		sym.Assert(w.left(gen) == 0 && w.left("new") == 0, "nothing is generated")
		return
	}
	sym.Assert((w.left(gen) != 0) == a.NoCleanup, "the code is removed unless it is kept")
	if compile && err == nil {
		dir := w.once("new/p.cbus.so")
		sym.Assert(strings.HasPrefix(dir, w.fs.Path(gen)+"/") && strings.Contains(dir, prefix), "the code is generated into the directory with the prefix")
		gid, gver := w.tool.constant(2, "BinaryID"), w.tool.constant(2, "BinaryVersion")
		sym.Assert(gid != "" && (id == "" || gid == id), "the plugin has the given or a generated id")
		sym.Assert(gver != "" && (version == "" || gver == version), "the plugin has the given or a default version")
		sym.Cover("compiled")
	} else {
		sym.Assert(w.left("new") == 0, "there is no plugin")
		sym.Assert(compile || w.tool.runs()[0] == "", "the code is generated only")
	}
	sym.Assert(w.fs.Has("src/go.mod") && w.left("plugins") == 4, "other files are kept")
	sym.Cover("end")
}
