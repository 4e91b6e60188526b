// Package hfs has a scratch directory: a modelled one for the encoding and a real one natively.
package hfs

import (
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"time"

	"github.com/aperturerobotics/controllerbus/zzverif/model"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// FS is a scratch directory.
type FS struct {
	Dir string
	old string
}

// New creates a scratch directory.
func New() *FS {
	if sym.Symbolic() {
		model.FSPut("/scratch", 0, time.Time{}, fs.ModeDir)
		return &FS{Dir: "/scratch"}
	}
	d, err := os.MkdirTemp("", "verif-fs-")
	if err != nil {
		panic(err)
	}
	return &FS{Dir: d}
}

// Close removes the directory.
func (f *FS) Close() {
	if !sym.Symbolic() {
		if f.old != "" {
			_ = os.Chdir(f.old)
		}
		_ = os.RemoveAll(f.Dir)
	}
}

// Path returns the path of a file.
func (f *FS) Path(name string) string { return path.Join(f.Dir, name) }

// Put creates or replaces a file.
func (f *FS) Put(name string, size int64, mtime time.Time) {
	p := f.Path(name)
	if sym.Symbolic() {
		model.FSPut(p, size, mtime, 0)
		return
	}
	if err := os.WriteFile(p, nil, 0o600); err != nil {
		panic(err)
	}
	if err := os.Truncate(p, size); err != nil {
		panic(err)
	}
	if err := os.Chtimes(p, mtime, mtime); err != nil {
		panic(err)
	}
}

// Mkdir creates a directory.
func (f *FS) Mkdir(name string) {
	p := f.Path(name)
	if sym.Symbolic() {
		if err := model.OsMkdirAll(p, 0o700); err != nil {
			panic(err)
		}
		return
	}
	if err := os.MkdirAll(p, 0o700); err != nil {
		panic(err)
	}
}

// Symlink creates a symbolic link to another file.
func (f *FS) Symlink(name, target string) {
	p := f.Path(name)
	if sym.Symbolic() {
		model.FSLink(p, f.Path(target))
		return
	}
	if err := os.Symlink(target, p); err != nil {
		panic(err)
	}
}

// Has checks if there is a file.
func (f *FS) Has(name string) bool {
	p := f.Path(name)
	if sym.Symbolic() {
		return model.FSHas(p)
	}
	_, err := os.Lstat(p)
	return err == nil
}

// Remove removes a file.
func (f *FS) Remove(name string) {
	p := f.Path(name)
	if sym.Symbolic() {
		_ = model.OsRemoveAll(p)
		return
	}
	_ = os.RemoveAll(p)
}

// Write writes a file and creates its directory.
func (f *FS) Write(name string, data string) {
	p := f.Path(name)
	mkdir, write := os.MkdirAll, os.WriteFile
	if sym.Symbolic() {
		mkdir, write = model.OsMkdirAll, model.OsWriteFile
	}
	if err := mkdir(path.Dir(p), 0o700); err != nil {
		panic(err)
	}
	if err := write(p, []byte(data), 0o600); err != nil {
		panic(err)
	}
}

// Read reads a file.
func (f *FS) Read(name string) (string, bool) {
	read := os.ReadFile
	if sym.Symbolic() {
		read = model.OsReadFile
	}
	d, err := read(f.Path(name))
	return string(d), err == nil
}

// List has the names of all files which are not directories, sorted.
func (f *FS) List() []string {
	var out []string
	if sym.Symbolic() {
		for _, p := range model.FSList() {
			out = append(out, p[len(f.Dir)+1:])
		}
	} else {
		_ = filepath.WalkDir(f.Dir, func(p string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				out = append(out, p[len(f.Dir)+1:])
			}
			return nil
		})
	}
	slices.Sort(out)
	return out
}

// Enter makes the directory name the working directory and the directory cache the one for caches of the user.
func (f *FS) Enter(name, cache string) {
	if sym.Symbolic() {
		model.WorkDir, model.CacheDir = f.Path(name), f.Path(cache)
		return
	}
	f.old, _ = os.Getwd()
	if err := os.Chdir(f.Path(name)); err != nil {
		panic(err)
	}
	_ = os.Setenv("XDG_CACHE_HOME", f.Path(cache))
}
