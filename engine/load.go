package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Program is the loaded SSA program, shared by all engines.
type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	order     []*ssa.Package // dependency order
	model     *ssa.Package
	rtErrType types.Type
	mu        sync.Mutex
	overlay   map[string]string // repo path -> verif path
}

// overlayFiles maps harness sources under dir (mirroring the repo layout) into the repo.
func overlayFiles(dir, repo string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		out[filepath.Join(repo, rel)] = p
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, overlayExternal(dir+"_ext", repo, out)
}

// overlayExternal maps the files which replace parts of other packages: ext/IMPORT/PATH/file.go.
func overlayExternal(ext, repo string, out map[string]string) error {
	if _, err := os.Stat(ext); err != nil {
		return nil
	}
	files := map[string][]string{}
	err := filepath.Walk(ext, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(ext, filepath.Dir(p))
			files[rel] = append(files[rel], p)
		}
		return nil
	})
	if err != nil || len(files) == 0 {
		return err
	}
	cmd := exec.Command("go", append([]string{"list", "-e", "-find", "-f", "{{.ImportPath}}\t{{.Dir}}"}, sortedKeys(files)...)...)
	cmd.Dir = repo
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		pkg, pdir, ok := strings.Cut(l, "\t")
		if !ok || pdir == "" {
			continue
		}
		for _, f := range files[pkg] {
			out[filepath.Join(pdir, filepath.Base(f))] = f
		}
	}
	return nil
}

func loadProgram(repo, hdir string, patterns []string) (*Program, error) {
	ov, err := overlayFiles(hdir, repo)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for k, v := range ov {
		if strings.HasSuffix(k, "_test.go") {
			continue
		}
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
		Env:     os.Environ(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(5, len(errs))], "; "))
	}
	prog := ssa.NewProgram(cfg.Fset, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, overlay: ov}
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, imp := range sortedImports(p) {
			visit(imp)
		}
		if p.Types != nil && !p.IllTyped {
			sp := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
			P.pkgs[p.PkgPath] = sp
			P.order = append(P.order, sp)
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	P.model = P.pkgs[modelPkg]
	if P.model == nil {
		return nil, fmt.Errorf("model package not loaded")
	}
	P.rtErrType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.Typ[types.String], nil)
	return P, nil
}

func sortedImports(p *packages.Package) []*packages.Package {
	var ks []string
	for k := range p.Imports {
		ks = append(ks, k)
	}
	sortStrings(ks)
	var out []*packages.Package
	for _, k := range ks {
		out = append(out, p.Imports[k])
	}
	return out
}

func (P *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	ms := P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

// initPkgs are the packages whose initialisers are executed.
func initPkg(path string) bool {
	switch path {
	case "errors", "context", "io", "strconv", "strings", "unicode/utf8", "slices", "bytes", "sort", "cmp", "maps", "math", "math/bits",
		"github.com/pkg/errors", "github.com/blang/semver/v4", "time", "encoding/base64", "encoding/binary", "encoding/hex", "io/fs", "path", "path/filepath", "os", "internal/oserror", "unicode",
		"golang.org/x/mod/modfile", "golang.org/x/mod/module", "golang.org/x/mod/semver", "golang.org/x/mod/internal/lazyregexp", "github.com/mr-tron/base58", "github.com/mr-tron/base58/base58", "encoding/json", "regexp", "regexp/syntax", "go/printer", "go/format", "go/parser", "go/token", "go/scanner", "go/ast", "go/doc/comment", "go/build/constraint", "text/tabwriter", "go/types", "go/constant", "go/build", "go/version", "internal/types/errors":
		return true
	}
	if strings.HasPrefix(path, "github.com/aperturerobotics/") {
		return true
	}
	return false
}
