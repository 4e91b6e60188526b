package model

import (
	"bytes"
	"encoding/json"
	"errors"
	"net"
	"context"
	"crypto/sha256"
	"hash"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"strconv"

	"github.com/zeebo/blake3"
)

// ---- open files ----

type openFile struct {
	name   string
	off    int
	write  bool
	closed bool
}

var openFiles map[*os.File]*openFile

func newFile(p string, write bool) *os.File {
	if openFiles == nil {
		openFiles = map[*os.File]*openFile{}
	}
	f := &os.File{}
	openFiles[f] = &openFile{name: path.Clean(p), write: write}
	return f
}

// OsOpen is os.Open.
func OsOpen(p string) (*os.File, error) {
	point()
	if files[path.Clean(p)] == nil {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	return newFile(p, false), nil
}

// OsOpenFile is os.OpenFile.
func OsOpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	point()
	c := path.Clean(p)
	f := files[c]
	if f == nil && flag&os.O_CREATE == 0 {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	if f == nil || flag&os.O_TRUNC != 0 {
		if err := OsWriteFile(p, nil, perm); err != nil {
			return nil, err
		}
	}
	out := newFile(p, flag&(os.O_WRONLY|os.O_RDWR) != 0)
	if flag&os.O_APPEND != 0 {
		openFiles[out].off = len(files[c].data)
	}
	return out, nil
}

// OsCreate is os.Create.
func OsCreate(p string) (*os.File, error) {
	return OsOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// FileRead is (*os.File).Read.
func FileRead(f *os.File, b []byte) (int, error) {
	o := openFiles[f]
	if o == nil || o.closed || files[o.name] == nil {
		return 0, fs.ErrClosed
	}
	data := files[o.name].data
	if o.off >= len(data) {
		return 0, io.EOF
	}
	n := copy(b, data[o.off:])
	o.off += n
	return n, nil
}

// FileWrite is (*os.File).Write.
func FileWrite(f *os.File, b []byte) (int, error) {
	o := openFiles[f]
	if o == nil {
		// the standard streams
		return len(b), nil
	}
	if o.closed || !o.write || files[o.name] == nil {
		return 0, fs.ErrClosed
	}
	x := files[o.name]
	data := append(append([]byte(nil), x.data[:o.off]...), b...)
	if len(data) < len(x.data) {
		data = append(data, x.data[len(data):]...)
	}
	x.data = data
	x.size = int64(len(x.data))
	o.off += len(b)
	return len(b), nil
}

// FileWriteTo is (*os.File).WriteTo.
func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	o := openFiles[f]
	if o == nil || o.closed || files[o.name] == nil {
		return 0, fs.ErrClosed
	}
	data := append([]byte(nil), files[o.name].data[o.off:]...)
	o.off += len(data)
	n, err := w.Write(data)
	return int64(n), err
}

// FileReadFrom is (*os.File).ReadFrom.
func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := FileWrite(f, data)
	return int64(n), err
}

// FileSync is (*os.File).Sync.
func FileSync(f *os.File) error { return nil }

// FileClose is (*os.File).Close.
func FileClose(f *os.File) error {
	o := openFiles[f]
	if o == nil || o.closed {
		return fs.ErrClosed
	}
	o.closed = true
	return nil
}

var tempDirs int

// OsMkdirTemp is os.MkdirTemp.
func OsMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tempDirs++
	p := path.Join(dir, pattern+strconv.Itoa(tempDirs))
	return p, OsMkdirAll(p, 0o700)
}

// ---- hash functions: any function which depends on all of the data ----

type hasher struct{ data []byte }

func (h *hasher) Write(b []byte) (int, error) {
	h.data = append(h.data, b...)
	return len(b), nil
}
func (h *hasher) Sum(b []byte) []byte {
	x := hash32(h.data)
	return append(b, x[:]...)
}
func (h *hasher) Reset()         { h.data = nil }
func (h *hasher) Size() int      { return 32 }
func (h *hasher) BlockSize() int { return 64 }

func hash32(data []byte) (out [32]byte) {
	var x uint64 = 14695981039346656037
	for _, c := range data {
		x = (x ^ uint64(c)) * 1099511628211
	}
	for i := range out {
		x = (x ^ uint64(i)) * 1099511628211
		out[i] = byte(x >> 32)
	}
	return
}

// Sha256New is sha256.New.
func Sha256New() hash.Hash { return &hasher{} }

// Sha256Sum is sha256.Sum256.
func Sha256Sum(data []byte) [sha256.Size]byte { return hash32(data) }

var blakes map[*blake3.Hasher]*hasher

// BlakeNewKeyed is blake3.NewKeyed.
func BlakeNewKeyed(key []byte) (*blake3.Hasher, error) {
	if len(key) != 32 {
		return nil, fs.ErrInvalid
	}
	if blakes == nil {
		blakes = map[*blake3.Hasher]*hasher{}
	}
	h := new(blake3.Hasher)
	blakes[h] = &hasher{data: append([]byte(nil), key...)}
	return h, nil
}

// BlakeWrite is (*blake3.Hasher).Write.
func BlakeWrite(h *blake3.Hasher, b []byte) (int, error) { return blakes[h].Write(b) }

// BlakeSum is (*blake3.Hasher).Sum.
func BlakeSum(h *blake3.Hasher, b []byte) []byte { return blakes[h].Sum(b) }

// ---- commands ----

// CmdHook runs a command.
var CmdHook func(ctx context.Context, dir string, args []string) error

var cmdCtx map[*exec.Cmd]context.Context

// CommandContext is exec.CommandContext.
func CommandContext(ctx context.Context, name string, args ...string) *exec.Cmd {
	if cmdCtx == nil {
		cmdCtx = map[*exec.Cmd]context.Context{}
	}
	c := &exec.Cmd{Path: name, Args: append([]string{name}, args...)}
	cmdCtx[c] = ctx
	return c
}

// CmdRun is (*exec.Cmd).Run.
func CmdRun(c *exec.Cmd) error {
	point()
	ctx := cmdCtx[c]
	if err := ctx.Err(); err != nil {
		return err
	}
	return CmdHook(ctx, c.Dir, c.Args)
}

// Environ is os.Environ.
func Environ() []string { return nil }

// OsNewFile is os.NewFile: a standard stream.
func OsNewFile(fd uintptr, name string) *os.File { return &os.File{} }

// WorkDir is the working directory.
var WorkDir = "/"

// CacheDir is the directory of the user for caches.
var CacheDir = "/cache"

// Getwd is os.Getwd.
func Getwd() (string, error) { return WorkDir, nil }

// UserCacheDir is os.UserCacheDir.
func UserCacheDir() (string, error) { return CacheDir, nil }

// NetDial is net.Dial without a network.
func NetDial(network, address string) (net.Conn, error) {
	return nil, errors.New("dial " + address + ": no network")
}

// YAMLToJSON is the function of the yaml package for a compact JSON object with sorted keys, nothing, or invalid data.
func YAMLToJSON(y []byte) ([]byte, error) {
	switch {
	case len(y) == 0:
		return []byte("null"), nil
	case y[0] == '{':
		return append([]byte(nil), y...), nil
	}
	return nil, errors.New("invalid yaml")
}

// JSONMarshalIndent is json.MarshalIndent of a value with a MarshalJSON function.
func JSONMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	m, ok := v.(json.Marshaler)
	if !ok {
		return nil, errors.New("json: unsupported value")
	}
	b, err := m.MarshalJSON()
	if err != nil {
		return nil, err
	}
	var out bytes.Buffer
	if err := json.Indent(&out, b, prefix, indent); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}

// JSONToYAML is the function of the yaml package: JSON is YAML.
func JSONToYAML(j []byte) ([]byte, error) {
	if !json.Valid(j) {
		return nil, errors.New("invalid json")
	}
	return append([]byte(nil), j...), nil
}

// YAMLUnmarshalHook decodes a value which the harness knows.
var YAMLUnmarshalHook func(y []byte, o any) error

// YAMLUnmarshal is the function of the yaml package for a compact JSON object, nothing, or invalid data.
func YAMLUnmarshal(y []byte, o any) error {
	j, err := YAMLToJSON(y)
	if err != nil {
		return err
	}
	if !json.Valid(j) {
		return errors.New("invalid yaml")
	}
	return YAMLUnmarshalHook(j, o)
}

// JSONMarshalHook encodes a value which the harness knows.
var JSONMarshalHook func(v any) ([]byte, error)

// JSONMarshal is json.Marshal of a value with a MarshalJSON function or one which the harness knows.
func JSONMarshal(v any) ([]byte, error) {
	if m, ok := v.(json.Marshaler); ok {
		return m.MarshalJSON()
	}
	return JSONMarshalHook(v)
}

// JSONUnmarshal is json.Unmarshal to a map which is not read, raw data or a value which the harness knows.
func JSONUnmarshal(data []byte, v any) error {
	if !json.Valid(data) {
		return errors.New("invalid json")
	}
	switch m := v.(type) {
	case *map[string]any:
		if data[0] == '{' {
			*m = map[string]any{}
		}
	case *map[string]json.RawMessage:
		if data[0] == '{' {
			*m = map[string]json.RawMessage{}
		}
	default:
		return YAMLUnmarshalHook(data, v)
	}
	if data[0] != '{' && data[0] != 'n' {
		return errors.New("json: cannot unmarshal into a map")
	}
	return nil
}
