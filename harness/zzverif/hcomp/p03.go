// Package hcomp has the harnesses of the plugin compiler.
package hcomp

import (
	"strings"
	"time"

	compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/aperturerobotics/controllerbus/zzverif/hfs"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

func alnum(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		digit := sym.And(c >= '0', c <= '9')
		upper := sym.And(c >= 'A', c <= 'Z')
		lower := sym.And(c >= 'a', c <= 'z')
		ok = sym.And(ok, sym.Or(digit, sym.Or(upper, lower)))
	}
	return ok
}

// isVersion says whether a file is a version of the plugin.
func isVersion(name, pre, post string) bool {
	if len(name) < len(pre)+len(post) || !strings.HasPrefix(name, pre) || !strings.HasSuffix(name, post) {
		return false
	}
	return alnum(name[len(pre) : len(name)-len(post)])
}

const tag = "{buildHash}"

// P03Cleanup removes the old versions of a plugin.
//
//verif:prop P03
//verif:bounds 3 patterns of file names; one other file, directory or link whose name has one of 8 prefixes, hashes and suffixes each; besides a version, a directory and a file of another name
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func P03Cleanup() {
	f := hfs.New()
	t := time.Unix(1, 0).UTC()
	pat := sym.Choose("pattern", 3)
	pre := []string{"plugin-", "p.x+", ""}[pat]
	post := []string{".cbus.so", "", "-v.so"}[pat]
	name := []string{pre, "my-" + pre, strings.ReplaceAll(pre, ".", "a"), "plugin"}[sym.Choose("prefix", 4)] +
		[]string{"", "Az09", "a-b", "a.b"}[sym.Choose("hash", 4)] +
		[]string{post, post + ".bak", strings.ReplaceAll(post, ".", "x"), "." + post}[sym.Choose("suffix", 4)]
	sym.Assume(name != "" && name != "." && name != pre+"0"+post && name != "sub"+pre)
	kind := sym.Choose("kind", 3)
	switch kind {
	case 0:
		f.Put(name, 1, t)
	case 1:
		f.Mkdir(name)
	case 2:
		f.Symlink(name, "other_file")
	}
	f.Put(pre+"0"+post, 1, t)
	f.Mkdir("sub" + pre)
	f.Put("other_file", 1, t)
	err := compiler.CleanupOldVersions(hu.Le(), f.Path(pre+tag+post))
	sym.Assert(err == nil, "the old versions are removed")
	sym.Assert(!f.Has(pre+"0"+post), "an old version is removed")
	sym.Assert(f.Has("other_file") && f.Has("sub"+pre), "other files are kept")
	old := kind == 0 && isVersion(name, pre, post)
	sym.Assert(f.Has(name) != old, "exactly the old versions are removed")
	if old {
		sym.Cover("removed")
	} else {
		sym.Cover("kept")
	}
	f.Close()
	sym.Cover("end")
}

// P03Bytes has files with arbitrary names.
//
//verif:prop P03
//verif:bounds a file of 2 arbitrary bytes (thorough 3) between a prefix and a suffix of the pattern, or a part of them
//verif:quick preempt=0
//verif:thorough skip=1
func P03Bytes() { p03bytes(2) }

// P03BytesLong is P03Bytes with longer names.
//
//verif:prop P03
//verif:bounds as before with 3 bytes
//verif:quick skip=1
//verif:thorough preempt=0
func P03BytesLong() { p03bytes(3) }

func p03bytes(n int) {
	f := hfs.New()
	t := time.Unix(1, 0).UTC()
	mid := sym.StringN("name", n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(mid[i] != '/', mid[i] > 32))
		sym.Assume(mid[i] < 127)
	}
	pre := []string{"a.", "a", ""}[sym.Choose("prefix", 3)]
	post := []string{".so", "so", ""}[sym.Choose("suffix", 3)]
	name := pre + mid + post
	sym.Assume(sym.Or(name != "..", name == "x"))
	f.Put(name, 1, t)
	err := compiler.CleanupOldVersions(hu.Le(), f.Path("a."+tag+".so"))
	sym.Assert(err == nil, "the old versions are removed")
	sym.Assert(f.Has(name) != isVersion(name, "a.", ".so"), "exactly the old versions are removed")
	f.Close()
	sym.Cover("end")
}

// P03None uses names without, or with several places for a hash, or a missing directory.
//
//verif:prop P03
//verif:bounds 4 names
//verif:quick preempt=0
//verif:thorough preempt=0
func P03None() {
	f := hfs.New()
	t := time.Unix(1, 0).UTC()
	f.Put("a.so", 1, t)
	f.Put("aa.so", 1, t)
	k := sym.Choose("name", 4)
	dst := f.Path([]string{"a.so", "a" + tag + tag + ".so", "missing/a" + tag + ".so", tag + "/a.so"}[k])
	err := compiler.CleanupOldVersions(hu.Le(), dst)
	sym.Assert((err != nil) == (k == 1 || k == 2), "a name with several hashes and a missing directory are reported")
	sym.Assert(f.Has("a.so") && f.Has("aa.so"), "nothing is removed")
	f.Close()
	sym.Cover("end")
}
