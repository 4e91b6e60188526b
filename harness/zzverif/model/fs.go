package model

import (
	"io/fs"
	"os"
	"path"
	"time"
)

// ---- file system ----

// File is a file of the modelled file system.
type File struct {
	name  string
	size  int64
	mtime time.Time
	mode  fs.FileMode
	link  string
	data  []byte
}

func (f *File) Name() string               { return f.name }
func (f *File) Size() int64                { return f.size }
func (f *File) Mode() fs.FileMode          { return f.mode }
func (f *File) ModTime() time.Time         { return f.mtime }
func (f *File) IsDir() bool                { return f.mode.IsDir() }
func (f *File) Sys() any                   { return nil }
func (f *File) Type() fs.FileMode          { return f.mode.Type() }
func (f *File) Info() (fs.FileInfo, error) { return f, nil }
func (f *File) String() string             { return f.name }

var files map[string]*File

// FSPut creates or replaces a file.
func FSPut(p string, size int64, mtime time.Time, mode fs.FileMode) {
	if files == nil {
		files = map[string]*File{}
	}
	p = path.Clean(p)
	files[p] = &File{name: path.Base(p), size: size, mtime: mtime, mode: mode}
}

// FSHas checks if there is a file.
func FSHas(p string) bool { return files[path.Clean(p)] != nil }

// FSLink creates a symbolic link.
func FSLink(p, target string) {
	FSPut(p, int64(len(target)), time.Time{}, fs.ModeSymlink)
	files[path.Clean(p)].link = path.Clean(target)
}

// OsLstat is os.Lstat.
func OsLstat(p string) (os.FileInfo, error) {
	point()
	if f := files[path.Clean(p)]; f != nil {
		// the file may be replaced later
		c := *f
		return &c, nil
	}
	return nil, &fs.PathError{Op: "lstat", Path: p, Err: fs.ErrNotExist}
}

// OsStat is os.Stat.
func OsStat(p string) (os.FileInfo, error) {
	point()
	f := files[path.Clean(p)]
	name := path.Base(p)
	for i := 0; f != nil && f.link != "" && i < 8; i++ {
		f = files[f.link]
	}
	if f != nil {
		c := *f
		c.name = name
		return &c, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: p, Err: fs.ErrNotExist}
}

// OsReadDir is os.ReadDir.
func OsReadDir(p string) ([]os.DirEntry, error) {
	point()
	p = path.Clean(p)
	if f := files[p]; f == nil || !f.IsDir() {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	var names []string
	for q := range files {
		if q != p && path.Dir(q) == p {
			n := path.Base(q)
			i := len(names)
			for i > 0 && names[i-1] > n {
				i--
			}
			names = append(names, "")
			copy(names[i+1:], names[i:])
			names[i] = n
		}
	}
	var out []os.DirEntry
	for _, n := range names {
		c := *files[path.Join(p, n)]
		out = append(out, &c)
	}
	return out, nil
}

// OsRemove is os.Remove.
func OsRemove(p string) error {
	point()
	p = path.Clean(p)
	if files[p] == nil {
		return &fs.PathError{Op: "remove", Path: p, Err: fs.ErrNotExist}
	}
	for q := range files {
		if q != p && path.Dir(q) == p {
			return &fs.PathError{Op: "remove", Path: p, Err: fs.ErrInvalid}
		}
	}
	delete(files, p)
	return nil
}

// OsRemoveAll is os.RemoveAll.
func OsRemoveAll(p string) error {
	point()
	p = path.Clean(p)
	var del []string
	for q := range files {
		if q == p || (len(q) > len(p) && q[:len(p)] == p && q[len(p)] == '/') {
			del = append(del, q)
		}
	}
	for _, q := range del {
		delete(files, q)
	}
	return nil
}

// OsMkdirAll is os.MkdirAll.
func OsMkdirAll(p string, perm os.FileMode) error {
	point()
	p = path.Clean(p)
	for q := p; q != "/" && q != "."; q = path.Dir(q) {
		f := files[q]
		if f == nil {
			FSPut(q, 0, time.Time{}, fs.ModeDir|perm)
		} else if !f.IsDir() {
			return &fs.PathError{Op: "mkdir", Path: p, Err: fs.ErrInvalid}
		}
	}
	return nil
}

// OsWriteFile is os.WriteFile.
func OsWriteFile(p string, data []byte, perm os.FileMode) error {
	point()
	p = path.Clean(p)
	if d := files[path.Dir(p)]; d == nil || !d.IsDir() {
		return &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	if f := files[p]; f != nil && f.IsDir() {
		return &fs.PathError{Op: "open", Path: p, Err: fs.ErrInvalid}
	}
	FSPut(p, int64(len(data)), time.Time{}, perm)
	files[p].data = append([]byte(nil), data...)
	return nil
}

// OsReadFile is os.ReadFile.
func OsReadFile(p string) ([]byte, error) {
	point()
	f := files[path.Clean(p)]
	if f == nil {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	if f.IsDir() {
		return nil, &fs.PathError{Op: "read", Path: p, Err: fs.ErrInvalid}
	}
	return append([]byte(nil), f.data...), nil
}

// FSList has the paths of all files which are not directories.
func FSList() []string {
	var out []string
	for p, f := range files {
		if !f.IsDir() {
			out = append(out, p)
		}
	}
	return out
}
