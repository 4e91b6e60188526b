package hsmoke

import (
	"bufio"
	"container/ring"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"hash/fnv"
	"math/rand"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"unicode"
	"unsafe"

	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

type deep struct {
	m map[string][]int
	p *deep
	e error
	b bool
}

// StdReflect uses reflect.DeepEqual.
//
//verif:prop SMOKE
//verif:bounds x
func StdReflect() {
	a, b := any(&myErr{"x"}), any(&myErr{"x"})
	sym.Assert(reflect.DeepEqual([]int{1, 2}, []int{1, 2}) && !reflect.DeepEqual(a, 1) && !reflect.DeepEqual([]int{}, []int(nil)), "deep")
	sym.Assert(reflect.DeepEqual(a, b), "deepptr")
	mk := func(v bool) *deep {
		d := &deep{m: map[string][]int{"a": {1}}, e: &myErr{"z"}, b: v}
		d.p = d
		return d
	}
	x := sym.Bool("x")
	sym.Assert(reflect.DeepEqual(mk(true), mk(x)) == x, "sym")
	sym.Cover("end")
}

// StdHash uses hashes and encodings.
//
//verif:prop SMOKE
//verif:bounds x
func StdHash() {
	h := sha256.New()
	h.Write([]byte("a"))
	s := h.Sum(nil)
	s2 := sha256.Sum256([]byte("a"))
	sym.Assert(hex.EncodeToString(s) == hex.EncodeToString(s2[:]), "sha")
	f := fnv.New32a()
	f.Write([]byte("a"))
	sym.Assert(f.Sum32() != 0, "fnv")
	x := base64.StdEncoding.EncodeToString([]byte("abc"))
	y, err := base64.StdEncoding.DecodeString(x)
	sym.Assert(err == nil && string(y) == "abc", "b64")
	var bb [8]byte
	binary.LittleEndian.PutUint64(bb[:], 5)
	sym.Assert(binary.LittleEndian.Uint64(bb[:]) == 5, "bin")
	sym.Cover("end")
}

// StdText uses text packages.
//
//verif:prop SMOKE
//verif:bounds x
func StdText() {
	sc := bufio.NewScanner(strings.NewReader("a\nb\n"))
	n := 0
	for sc.Scan() {
		n += len(sc.Text())
	}
	sym.Assert(n == 2, "scan")
	re := regexp.MustCompile(`^a[b-c]+$`)
	sym.Assert(re.MatchString("abc") && !re.MatchString("ad"), "re")
	sym.Assert(path.Join("a", "..", "b") == "b" && path.Base("a/b.c") == "b.c" && path.Ext("b.c") == ".c" && path.Dir("a/b") == "a" && filepath.Join("a", "b") == "a/b" && filepath.Base("a/b") == "b" && filepath.Ext("x.so") == ".so" && filepath.Clean("a//b") == "a/b" && filepath.IsAbs("/a"), "path")
	ok, err := path.Match("*.so", "a.so")
	sym.Assert(ok && err == nil, "match")
	ok, err = filepath.Match("*.so", "a.so")
	sym.Assert(ok && err == nil, "match")
	sym.Assert(unicode.IsUpper('A') && unicode.ToLower('A') == 'a' && unicode.IsLetter('x') && unicode.IsDigit('1'), "uni")
	sym.Cover("end")
}

// StdMisc uses others.
//
//verif:prop SMOKE
//verif:bounds x
func StdMisc() {
	r := ring.New(3)
	r.Value = 1
	sym.Assert(r.Len() == 3, "ring")
	x := rand.Intn(3)
	sym.Assert(x >= 0 && x < 3, "rand")
	sym.Cover("end")
}

// StdUnsafe uses unsafe.Sizeof.
//
//verif:prop SMOKE
//verif:bounds x
func StdUnsafe() {
	sym.Assert(unsafe.Sizeof(int64(0)) == 8, "sizeof")
	sym.Cover("end")
}
