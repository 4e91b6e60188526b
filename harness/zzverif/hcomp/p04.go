package hcomp

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"strconv"
	"strings"

	compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"golang.org/x/mod/modfile"
)

// target returns the directory a replacement leads to.
func target(dir, p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Join(dir, p)
}

// P04Relocate moves a module.
//
//verif:prop P04
//verif:bounds a module with two replacements, of one module in two versions or of two modules, each a directory of 12 paths or a module, with and without a version, and a requirement, which moves to one of 5 directories and is written and read again
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func P04Relocate() {
	paths := []string{"./", ".", "..", "../", "./x", "../x", "./.hid", "../..sub/y", "./a/../b", "../../x", "/abs/x", "../../../../z"}
	src := "/r/src/mod"
	dst := []string{"/r/src/mod", "/r/src/mod/sub", "/r/src/gen", "/q", "/"}[sym.Choose("target", 5)]
	p1 := paths[sym.Choose("path", len(paths))]
	p2 := []string{"../x", "./..d", "/abs"}[sym.Choose("path", 3)]
	ver := []string{"", " v1.0.0"}[sym.Choose("version", 2)]
	// the same module in another version or another module
	b := "m/b"
	if ver != "" && sym.Choose("module", 2) == 1 {
		b = "m/a v1.1.0"
	}
	text := "module github.com/src\n\nreplace m/a" + ver + " => " + p1 + "\n\nreplace " + b + " => " + p2 + "\n\nreplace m/c => m/d v1.2.3\n\nrequire m/e v1.5.0\n"
	f, err := modfile.Parse(src+"/go.mod", []byte(text), nil)
	sym.Assert(err == nil && len(f.Replace) == 3, "the module is parsed")
	sym.Assert(compiler.VerifRelocate(f, path.Join(dst, "go.mod")) == nil, "the module is relocated")
	// the file which is written
	out, err := f.Format()
	sym.Assert(err == nil, "the module is written")
	f, err = modfile.Parse(path.Join(dst, "go.mod"), out, nil)
	sym.Assert(err == nil, "the written module is parsed")
	sym.Assert(len(f.Replace) == 3 && len(f.Require) == 1 && f.Module.Mod.Path == "github.com/src", "nothing is added or removed")
	seen := 0
	for _, r := range f.Replace {
		name := r.Old.Path
		if name == "m/a" && r.Old.Version == "v1.1.0" {
			name = b
		}
		switch name {
		case "m/a":
			seen |= 1
			sym.Assert(r.Old.Version == strings.TrimSpace(ver) && r.New.Version == "", "the versions are kept")
			sym.Assert(modfile.IsDirectoryPath(r.New.Path), "a directory is still a directory")
			sym.Assert(target(dst, r.New.Path) == target(src, p1), "the replacement leads to the same directory")
		case b:
			seen |= 2
			sym.Assert((r.Old.Version == "") == (b == "m/b") && r.New.Version == "", "the versions are kept")
			sym.Assert(modfile.IsDirectoryPath(r.New.Path), "a directory is still a directory")
			sym.Assert(target(dst, r.New.Path) == target(src, p2), "the replacement leads to the same directory")
		case "m/c":
			seen |= 4
			sym.Assert(r.New.Path == "m/d" && r.New.Version == "v1.2.3", "a replacement with a module is kept")
		}
	}
	sym.Assert(seen == 7, "every replacement is kept")
	sym.Assert(f.Require[0].Mod.Path == "m/e" && f.Require[0].Mod.Version == "v1.5.0", "the requirements are kept")
	sym.Cover("end")
}

// P04Imports writes a generated file.
//
//verif:prop P04
//verif:bounds 4 declarations, each a function, a variable, an import of C or an import of 1 or 2 packages
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func P04Imports() {
	ident := ast.NewIdent
	f := &ast.File{Name: ident("main")}
	var want []string
	n, c, others := 0, 0, 0
	for i := range 4 {
		g := &ast.GenDecl{Tok: token.IMPORT}
		add := func(p string) {
			g.Specs = append(g.Specs, &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: p}})
		}
		name := string(rune('p' + i))
		switch sym.Choose("kind", 5) {
		case 0:
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: ident("f" + name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{}})
			others++
			continue
		case 1:
			add("\"C\"")
			f.Decls = append(f.Decls, g)
			c++
			continue
		case 2:
			add("\"a/" + name + "\"")
			want = append(want, "a/"+name)
		case 3:
			add("\"b/" + name + "\"")
			add("`c/" + name + "`")
			want = append(want, "b/"+name, "c/"+name)
		case 4:
			g.Tok = token.VAR
			g.Specs = []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ident("v" + name)}, Type: ident("int")}}
			f.Decls = append(f.Decls, g)
			others++
			continue
		}
		n++
		f.Decls = append(f.Decls, g)
	}
	out, err := compiler.FormatFile(f)
	sym.Assert(err == nil, "the file is written")
	pf, err := parser.ParseFile(token.NewFileSet(), "x.go", out, parser.SkipObjectResolution)
	// an import after another declaration is an error of the syntax
	sym.Assert(pf != nil, "the written file is parsed")
	_ = err
	decls, got, gotC, gotOthers := 0, map[string]int{}, 0, 0
	for _, d := range pf.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			gotOthers++
			continue
		}
		isC := false
		for _, s := range g.Specs {
			p, err := strconv.Unquote(s.(*ast.ImportSpec).Path.Value)
			sym.Assert(err == nil, "the import is a string")
			if p == "C" {
				isC = true
				gotC++
				continue
			}
			got[p]++
		}
		if isC {
			sym.Assert(len(g.Specs) == 1, "the import of C is on its own")
		} else {
			decls++
		}
	}
	sym.Assert(gotC == c && gotOthers == others, "the other declarations are kept")
	sym.Assert(len(got) == len(want), "every import is written and no other")
	for _, p := range want {
		sym.Assert(got[p] == 1, "every import is written once")
	}
	sym.Assert(decls == min(n, 1), "one declaration has the imports")
	sym.Cover("end")
}
