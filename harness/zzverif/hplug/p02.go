package hplug

import (
	"context"
	"plugin"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	cplugin "github.com/aperturerobotics/controllerbus/plugin"
	filesystem "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/aperturerobotics/controllerbus/zzverif/hfs"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/fsnotify/fsnotify"
)

// lib is a plugin which was opened.
type lib struct {
	name     string
	kind     int
	ctx      context.Context
	fac      *hu.Fac
	res      cplugin.PluginResolver
	mtx      sym.Mutex
	unloaded int // of the plugin
	resUnl   int // of the resolver
	live     bool
}

// GetBinaryID returns the id.
func (l *lib) GetBinaryID() string { return l.name }

// GetBinaryVersion returns the version.
func (l *lib) GetBinaryVersion() string { return "v1" }

// NewPluginResolver starts the plugin.
func (l *lib) NewPluginResolver(ctx context.Context, b bus.Bus) (cplugin.PluginResolver, error) {
	if l.kind == libFail {
		return nil, hu.ErrTest
	}
	l.ctx = ctx
	l.live = true
	l.res = cplugin.NewResolver(ctx, b, l.name, "v1", l.fac)
	return &libRes{l.res, l}, nil
}

// PrePluginUnload counts.
func (l *lib) PrePluginUnload() {
	sym.Assert(l.ctx.Err() != nil, "the context is canceled before the plugin is unloaded")
	l.mtx.Lock()
	sym.Assert(l.resUnl == 1, "the resolver is unloaded before the plugin")
	l.unloaded++
	l.mtx.Unlock()
}

// libRes is the resolver of a plugin.
type libRes struct {
	cplugin.PluginResolver
	l *lib
}

// PrePluginUnload counts.
func (r *libRes) PrePluginUnload() {
	sym.Assert(r.l.ctx.Err() != nil, "the context is canceled before the resolver is unloaded")
	r.l.mtx.Lock()
	r.l.resUnl++
	r.l.mtx.Unlock()
	r.PluginResolver.PrePluginUnload()
}

const (
	libOk     = iota
	libBad    // cannot be opened
	libNoSym  // has no global
	libNil    // has a global which is nil
	libFail   // its resolver fails
	libKinds
)

// libs opens the plugins of a directory.
type libs struct {
	fs    *hfs.FS
	mtx   sym.Mutex
	kind  map[string]int
	all   map[string][]*lib
	opens map[string]int
}

func newLibs() *libs {
	x := &libs{fs: hfs.New(), kind: map[string]int{}, all: map[string][]*lib{}, opens: map[string]int{}}
	plugin.OpenHook = func(name string) (map[string]any, error) {
		x.mtx.Lock()
		defer x.mtx.Unlock()
		sym.Assert(len(name) > len(x.fs.Dir) && name[:len(x.fs.Dir)] == x.fs.Dir, "plugins are opened by their path")
		n := name[len(x.fs.Dir)+1:]
		x.opens[n]++
		k := x.kind[n]
		l := &lib{name: n, kind: k, fac: hu.NewFac("conf-"+n, 1)}
		switch k {
		case libBad:
			return nil, hu.ErrTest
		case libNoSym:
			return map[string]any{}, nil
		case libNil:
			var p cplugin.Plugin
			return map[string]any{cplugin.PluginGlobalVar: &p}, nil
		}
		x.all[n] = append(x.all[n], l)
		var p cplugin.Plugin = l
		return map[string]any{cplugin.PluginGlobalVar: &p}, nil
	}
	return x
}

// live returns the live instance of a plugin.
func (x *libs) live(n string) *lib {
	var out *lib
	for _, l := range x.all[n] {
		if !l.live || l.unloaded != 0 {
			continue
		}
		sym.Assert(out == nil, "a plugin is loaded once")
		out = l
	}
	return out
}

// check checks the instances and the controllers on the bus.
func (x *libs) check(b bus.Bus) {
	n := 0
	for _, ls := range x.all {
		for _, l := range ls {
			if !l.live {
				continue
			}
			sym.Assert(l.unloaded < 2 && l.resUnl == l.unloaded, "a plugin and its resolver are unloaded at most once")
			sym.Assert((l.ctx.Err() != nil) == (l.unloaded != 0), "the context of a plugin is canceled exactly when it is unloaded")
			if l.unloaded == 0 {
				n++
			}
		}
	}
	m := 0
	for _, c := range b.GetControllers() {
		if _, ok := c.(*resolver.Controller); ok {
			m++
		}
	}
	sym.Assert(n == m, "there is a resolver on the bus for every loaded plugin")
}

// finds checks if the bus finds the factory of a plugin.
func finds(b bus.Bus, n string) bool {
	ref := hu.NewRef("factory")
	_, q, err := b.AddDirective(resolver.NewLoadFactoryByConfig(&hu.Conf{ID: "conf-" + n, N: 1}), ref)
	sym.Assert(err == nil, "the directive is added")
	sym.Quiesce()
	found := len(ref.Live) != 0
	q.Release()
	return found
}

// version returns the size and the time of a version of a file.
func version(v int) (int64, time.Time) {
	t := time.Unix(1700000000, 5).UTC()
	switch v {
	case 0:
		return 1, t
	case 1:
		return 1, t.Add(1)
	case 2:
		return 1<<32 + 1, t
	}
	return 2, t.Add(-time.Hour)
}

// p02 changes the directory n times.
func p02(n, versions int, kinds bool) {
	x := newLibs()
	b := hu.NewBus()
	w := filesystem.NewWatcher(hu.Le(), b)
	names := []string{"a.cbus.so", "b.cbus.so"}
	x.fs.Mkdir("dir.cbus.so")
	x.fs.Put("a.cbus.so.old", 1, time.Unix(1, 0).UTC())
	x.fs.Put("c.so", 1, time.Unix(1, 0).UTC())
	x.fs.Symlink("link.cbus.so", "c.so")
	if kinds {
		x.kind[names[0]] = sym.Choose("kind", libKinds)
	}
	file := map[string]int{}   // version + 1
	loaded := map[string]int{} // version + 1
	inst := map[string]*lib{}
	ctx := context.Background()
	for i := range n {
		k := names[sym.Choose("file", 2)]
		switch sym.Choose("op", 4) {
		case 0:
			v := sym.Choose("version", versions)
			size, mtime := version(v)
			x.fs.Put(k, size, mtime)
			file[k] = v + 1
		case 1:
			x.fs.Remove(k)
			file[k] = 0
		case 2:
			w.UnloadPlugin(x.fs.Path(k))
			loaded[k] = 0
			inst[k] = nil
		case 3:
			err := w.LoadPlugin(ctx, x.fs.Path(k))
			ok := file[k] != 0 && x.kind[k] == libOk
			sym.Assert((err == nil) == (ok || loaded[k] != 0), "a plugin is loaded if it exists and is a plugin")
			if ok && loaded[k] == 0 {
				loaded[k] = file[k]
				inst[k] = x.live(k)
			}
		}
		if (i == n-1 && !kinds) || sym.Bool("sync") {
			sym.Assert(w.SyncPlugins(ctx, x.fs.Dir) == nil, "the directory is read")
			for _, k := range names {
				if loaded[k] != file[k] {
					old := inst[k]
					loaded[k] = 0
					inst[k] = nil
					if file[k] != 0 && x.kind[k] == libOk {
						loaded[k] = file[k]
						inst[k] = x.all[k][len(x.all[k])-1]
						sym.Assert(inst[k] != old, "a plugin is loaded again when its file changed")
					}
				}
			}
		}
		for _, k := range names {
			l := x.live(k)
			sym.Assert((l != nil) == (loaded[k] != 0), "exactly the plugins of the directory are loaded")
			sym.Assert(l == inst[k], "a plugin is loaded again exactly when its file changed")
		}
	}
	sym.Quiesce()
	x.check(b)
	sym.Assert(x.opens["dir.cbus.so"]+x.opens["link.cbus.so"]+x.opens["a.cbus.so.old"]+x.opens["c.so"] == 0, "other files are not opened")
	if kinds {
		for _, k := range names {
			sym.Assert(finds(b, k) == (loaded[k] != 0), "the factories of the loaded plugins are found")
		}
	}
	w.UnloadAll()
	sym.Quiesce()
	x.check(b)
	for _, k := range names {
		sym.Assert(x.live(k) == nil, "nothing is loaded anymore")
	}
	sym.Assert(w.SyncPlugins(ctx, x.fs.Path("missing")) != nil, "a missing directory is reported")
	x.fs.Close()
	sym.Cover("end")
}

// P02Sync changes and synchronizes a directory.
//
//verif:prop P02
//verif:bounds 2 plugin files and 4 other entries; 3 operations of writing a file with one of 3 sizes and times, removing it, loading or unloading it, each followed by a synchronization or not
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0
func P02Sync() { p02(3, 3, false) }

// P02SyncLong is P02Sync with more operations.
//
//verif:prop P02
//verif:bounds as before with 4 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 merge=0 budget=700s states=3000000
func P02SyncLong() { p02(4, 2, false) }

// P02Bad has a file which is not a plugin.
//
//verif:prop P02
//verif:bounds as before with 2 sizes or times, 2 operations, one file being a plugin, no library, one without or with an empty global, or one which fails to start
//verif:quick preempt=0 merge=0
//verif:thorough preempt=1
func P02Bad() { p02(2, 2, true) }

// P02Watch watches a directory.
//
//verif:prop P02
//verif:bounds 2 plugin files; 2 changes while the directory is watched, with an event each, at once or one after another, then the end; all schedules up to the preemption bound
//verif:quick preempt=0
//verif:thorough preempt=1
func P02Watch() {
	x := newLibs()
	b := hu.NewBus()
	w := filesystem.NewWatcher(hu.Le(), b)
	var hook *fsnotify.Hooked
	fsnotify.Hook = func(h *fsnotify.Hooked) { hook = h }
	watch := sym.Bool("watch")
	names := []string{"a.cbus.so", "b.cbus.so"}
	file := map[string]int{}
	if sym.Bool("initial") {
		x.fs.Put(names[0], 1, time.Unix(1, 0).UTC())
		file[names[0]] = 1
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- w.Execute(ctx, x.fs.Dir, watch) }()
	sym.Quiesce()
	check := func() {
		for _, k := range names {
			l := x.live(k)
			sym.Assert((l != nil) == (file[k] != 0), "exactly the plugins of the directory are loaded")
		}
		x.check(b)
	}
	check()
	if watch {
		sym.Assert(hook != nil && len(hook.Paths) == 1 && hook.Paths[0] == x.fs.Dir, "the directory is watched")
		for i := range 2 {
			k := names[sym.Choose("file", 2)]
			op := fsnotify.Create
			if file[k] != 0 && sym.Bool("remove") {
				x.fs.Remove(k)
				file[k] = 0
				op = fsnotify.Remove
			} else {
				if file[k] != 0 {
					op = fsnotify.Write
				}
				x.fs.Put(k, int64(i)+2, time.Unix(5, 0).UTC())
				file[k] = i + 2
			}
			hook.Send(fsnotify.Event{Name: x.fs.Path(k), Op: op})
			if sym.Bool("wait") {
				time.Sleep(time.Minute)
				sym.Quiesce()
				check()
				sym.Cover("resynced")
			}
		}
		time.Sleep(time.Minute)
		sym.Quiesce()
		check()
		if sym.Bool("missing") {
			x.fs.Remove("")
			hook.Send(fsnotify.Event{Name: x.fs.Dir, Op: fsnotify.Remove})
			time.Sleep(time.Minute)
			sym.Quiesce()
			sym.Assert(len(done) == 1 && <-done != nil, "an error of reading the directory is returned")
			done <- nil
			sym.Cover("missing")
		}
	}
	cancel()
	sym.Quiesce()
	sym.Assert(len(done) == 1, "the watcher ends when its context is canceled")
	if watch {
		select {
		case <-hook.Closed:
		default:
			sym.Assert(false, "the directory is not watched anymore")
		}
	}
	file = map[string]int{}
	check()
	x.fs.Close()
	sym.Cover("end")
}

// P02Conc uses a watcher concurrently.
//
//verif:prop P02
//verif:bounds 1 plugin file which is changed; 2 goroutines, each synchronizing, loading, unloading the plugin or unloading all; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func P02Conc() {
	x := newLibs()
	b := hu.NewBus()
	w := filesystem.NewWatcher(hu.Le(), b)
	k := "a.cbus.so"
	x.fs.Put(k, 1, time.Unix(1, 0).UTC())
	ctx := context.Background()
	if sym.Bool("loaded") {
		_ = w.SyncPlugins(ctx, x.fs.Dir)
	}
	x.fs.Put(k, 2, time.Unix(1, 0).UTC())
	n := 0
	var mtx sym.Mutex
	for range 2 {
		op := sym.Choose("op", 4)
		go func() {
			switch op {
			case 0:
				sym.Assert(w.SyncPlugins(ctx, x.fs.Dir) == nil, "the directory is read")
			case 1:
				sym.Assert(w.LoadPlugin(ctx, x.fs.Path(k)) == nil, "the plugin is loaded")
			case 2:
				w.UnloadPlugin(x.fs.Path(k))
			case 3:
				w.UnloadAll()
			}
			mtx.Lock()
			n++
			mtx.Unlock()
		}()
	}
	sym.Quiesce()
	sym.Assert(n == 2, "the calls return")
	x.check(b)
	_ = x.live(k)
	sym.Assert(w.SyncPlugins(ctx, x.fs.Dir) == nil, "the directory is read")
	sym.Assert(x.live(k) != nil, "the plugin is loaded")
	w.UnloadAll()
	sym.Quiesce()
	sym.Assert(x.live(k) == nil, "the plugin is unloaded")
	x.check(b)
	x.fs.Close()
	sym.Cover("end")
}
