package hplug

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/plugin"
	filesystem "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// P01Many unloads a plugin with many factories and controllers.
//
//verif:prop P01
//verif:bounds a plugin with 4 factories, of which any 5 controllers are constructed and added, any one removed before; another plugin with one
//verif:quick preempt=0
//verif:thorough preempt=0
func P01Many() {
	b := hu.NewBus()
	other := newPlug(context.Background(), b, "x")
	oc, err := other.find("x").Construct(context.Background(), &hu.Conf{ID: "x"}, controller.ConstructOpts{Logger: hu.Le()})
	sym.Assert(err == nil, "the factory constructs a controller")
	_, err = b.AddController(context.Background(), oc, nil)
	sym.Assert(err == nil, "the controller is added")
	ids := []string{"c", "d", "e", "f"}
	var facs []*hu.Fac
	sp := plugin.NewStaticPlugin("bin", "v1", func(_ bus.Bus) []controller.Factory {
		var out []controller.Factory
		for _, id := range ids {
			f := hu.NewFac(id, 1)
			facs = append(facs, f)
			out = append(out, f)
		}
		return out
	})
	res, err := sp.NewPluginResolver(context.Background(), b)
	sym.Assert(err == nil && res != nil, "the plugin has a resolver")
	p := &plug{res: res}
	for _, id := range ids {
		f := p.find(id)
		sym.Assert(f != nil && f.GetConfigID() == id, "every factory of the plugin is found")
	}
	sym.Assert(p.find("x") == nil, "the factory of another plugin is not found")
	var cs []controller.Controller
	var rel []func()
	for i := 0; i < 5; i++ {
		k := (i*3 + i/4) % 4
		if i >= 3 {
			k = sym.Choose("factory", 4)
		}
		c, err := p.find(ids[k]).Construct(context.Background(), &hu.Conf{ID: ids[k]}, controller.ConstructOpts{Logger: hu.Le()})
		sym.Assert(err == nil && c == controller.Controller(facs[k].Ctrls[len(facs[k].Ctrls)-1]), "the factory constructs a controller")
		r, err := b.AddController(context.Background(), c, nil)
		sym.Assert(err == nil, "the controller is added")
		cs = append(cs, c)
		rel = append(rel, r)
	}
	sym.Quiesce()
	if i := sym.Choose("remove", 6); i < 5 {
		rel[i]()
		sym.Quiesce()
		sym.Assert(len(b.GetControllers()) == 5, "the other controllers stay")
	}
	p.res.PrePluginUnload()
	sym.Quiesce()
	for _, c := range cs {
		sym.Assert(hu.CountCtrl(b, c) == 0, "a controller is on the bus exactly until its plugin is unloaded")
	}
	for _, id := range ids {
		sym.Assert(p.find(id) == nil, "nothing is found in an unloaded plugin")
	}
	sym.Assert(hu.CountCtrl(b, oc) == 1, "the controller of another plugin stays")
	sym.Cover("end")
}

// P02Many has many plugin files.
//
//verif:prop P02
//verif:bounds 5 plugin files, of which any 2 are removed or changed, one of them unloaded or not before; the directory is synchronized twice
//verif:quick preempt=0 delay=1
//verif:thorough preempt=0 delay=1
func P02Many() {
	x := newLibs()
	ctx := context.Background()
	b := hu.NewBus()
	w := filesystem.NewWatcher(hu.Le(), b)
	names := []string{"a.cbus.so", "b.cbus.so", "c.cbus.so", "d.cbus.so", "e.cbus.so"}
	for _, n := range names {
		x.fs.Put(n, 1, time.Unix(1, 0).UTC())
		sym.Assert(w.SyncPlugins(ctx, x.fs.Dir) == nil, "the directory is read")
		sym.Quiesce()
	}
	var inst [5]*lib
	for i, n := range names {
		inst[i] = x.live(n)
		sym.Assert(inst[i] != nil && x.opens[n] == 1, "exactly the plugins of the directory are loaded")
	}
	var what [5]int
	k1 := sym.Choose("file 1", 5)
	k2 := (k1 + 1 + sym.Choose("file 2", 4)) % 5
	for _, k := range []int{k1, k2} {
		what[k] = 1 + sym.Choose("what", 2)
		if what[k] == 1 {
			x.fs.Remove(names[k])
		} else {
			x.fs.Put(names[k], 1, time.Unix(2, 0).UTC())
		}
	}
	if sym.Bool("unload") {
		w.UnloadPlugin(x.fs.Path(names[k2]))
		sym.Assert(x.live(names[k2]) == nil, "an unloaded plugin is not loaded")
	}
	for range 2 {
		sym.Assert(w.SyncPlugins(ctx, x.fs.Dir) == nil, "the directory is read")
		sym.Quiesce()
		for i, n := range names {
			l := x.live(n)
			switch what[i] {
			case 0:
				sym.Assert(l == inst[i], "a plugin is loaded again exactly when its file changed")
			case 1:
				sym.Assert(l == nil, "exactly the plugins of the directory are loaded")
			case 2:
				sym.Assert(l != nil && l != inst[i] && x.opens[n] == 2, "a plugin is loaded again exactly when its file changed")
			}
		}
		x.check(b)
	}
	w.UnloadAll()
	sym.Quiesce()
	x.check(b)
	for _, n := range names {
		sym.Assert(x.live(n) == nil, "nothing is loaded anymore")
	}
	x.fs.Close()
	sym.Cover("end")
}
