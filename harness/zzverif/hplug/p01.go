package hplug

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/plugin"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
)

// plug is a plugin with one factory.
type plug struct {
	fac *hu.Fac
	res plugin.PluginResolver
}

func newPlug(ctx context.Context, b bus.Bus, id string) *plug {
	p := &plug{fac: hu.NewFac(id, 1)}
	sp := plugin.NewStaticPlugin("bin-"+id, "v1", func(_ bus.Bus) []controller.Factory {
		return []controller.Factory{p.fac}
	})
	var err error
	p.res, err = sp.NewPluginResolver(ctx, b)
	sym.Assert(err == nil && p.res != nil, "the plugin has a resolver")
	return p
}

func (p *plug) find(id string) controller.Factory {
	f, err := p.res.GetFactoryMatchingConfig(context.Background(), &hu.Conf{ID: id})
	sym.Assert(err == nil, "looking up a factory does not fail")
	ct, err := p.res.GetConfigCtorByID(context.Background(), id)
	sym.Assert(err == nil && (ct != nil) == (f != nil), "the configuration is found if the factory is found")
	return f
}

// P01Factory uses the factories of two plugins directly.
//
//verif:prop P01
//verif:bounds 2 plugins; 4 operations (thorough 5) of looking up a factory, constructing and adding a controller with a found factory, or unloading a plugin, by its context or not
//verif:quick preempt=0
//verif:thorough preempt=0
func P01Factory() { p01(4) }

// P01FactoryLong is P01Factory with more operations.
//
//verif:prop P01
//verif:bounds as before with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0
func P01FactoryLong() { p01(5) }

func p01(n int) {
	b := hu.NewBus()
	ids := []string{"c", "d"}
	var plugs [2]*plug
	var cancel [2]func()
	for i := range plugs {
		var ctx context.Context
		ctx, cancel[i] = context.WithCancel(context.Background())
		plugs[i] = newPlug(ctx, b, ids[i])
	}
	var unloaded, canceled [2]bool
	var facs [2][]controller.Factory
	for range n {
		k := sym.Choose("plugin", 2)
		p := plugs[k]
		switch sym.Choose("op", 4) {
		case 0:
			f := p.find(ids[k])
			if unloaded[k] {
				sym.Assert(f == nil, "nothing is found in an unloaded plugin")
			} else {
				sym.Assert(f != nil && f.GetConfigID() == ids[k], "the factory is found")
				facs[k] = append(facs[k], f)
			}
			sym.Assert(p.find(ids[1-k]) == nil, "the factory of another plugin is not found")
		case 1:
			if len(facs[k]) != 0 {
				f := facs[k][sym.Choose("factory", len(facs[k]))]
				runs := p.fac.Runs
				c, err := f.Construct(context.Background(), &hu.Conf{ID: ids[k]}, controller.ConstructOpts{Logger: hu.Le()})
				if unloaded[k] || canceled[k] {
					sym.Assert(err != nil && c == nil && p.fac.Runs == runs, "an unloaded plugin constructs nothing")
				} else {
					sym.Assert(err == nil && c == controller.Controller(p.fac.Ctrls[len(p.fac.Ctrls)-1]) && p.fac.Runs == runs+1, "the factory constructs a controller")
					_, err = b.AddController(context.Background(), c, nil)
					sym.Assert(err == nil, "the controller is added")
				}
			}
		case 2:
			p.res.PrePluginUnload()
			unloaded[k] = true
		case 3:
			cancel[k]()
			canceled[k] = true
		}
		sym.Quiesce()
		for j, p := range plugs {
			for _, f := range facs[j] {
				fc, ok := f.(controller.FactoryWithContext)
				sym.Assert(ok && (fc.GetFactoryContext().Err() != nil) == (unloaded[j] || canceled[j]), "the context of a factory is canceled exactly when it is unloaded")
			}
			for _, c := range p.fac.Ctrls {
				want := 1
				if unloaded[j] {
					want = 0
				}
				sym.Assert(hu.CountCtrl(b, c) == want, "a controller is on the bus exactly until its plugin is unloaded")
			}
		}
	}
	sym.Cover("end")
	cancel[0]()
	cancel[1]()
}

// P01Conc constructs controllers while the plugin is unloaded.
//
//verif:prop P01
//verif:bounds 2 goroutines: one looks up the factory and constructs a controller with a slow factory, one unloads the plugin; all schedules up to the preemption bound
//verif:quick preempt=2 delay=1
//verif:thorough preempt=5 delay=1
func P01Conc() {
	b := hu.NewBus()
	ctx, cancel := context.WithCancel(context.Background())
	p := newPlug(ctx, b, "c")
	gate := make(chan struct{})
	slow := sym.Bool("slow")
	var ctrl *hu.Ctrl
	built := 0
	p.fac.New = func(ctx context.Context, conf config.Config, run int) (controller.Controller, error) {
		if slow {
			<-gate
		}
		ctrl = hu.NewCtrl("c")
		built++
		return ctrl, nil
	}
	early := sym.Bool("early")
	var f controller.Factory
	if early {
		f = p.find("c")
	}
	found, failed, unload := false, false, false
	var got controller.Controller
	go func() {
		if !early {
			f, _ = p.res.GetFactoryMatchingConfig(ctx, &hu.Conf{ID: "c"})
		}
		if f != nil {
			found = true
			var err error
			got, err = f.Construct(ctx, &hu.Conf{ID: "c"}, controller.ConstructOpts{Logger: hu.Le()})
			failed = err != nil
			sym.Assert(failed == (got == nil), "a controller or an error is returned")
		}
	}()
	go func() {
		p.res.PrePluginUnload()
		unload = true
	}()
	sym.Quiesce()
	sym.Assert(unload, "unloading does not wait for the factory")
	close(gate)
	sym.Quiesce()
	if found {
		sym.Assert(f.(controller.FactoryWithContext).GetFactoryContext().Err() != nil, "the context of the factory is canceled")
		if slow {
			sym.Assert(failed, "nothing is constructed after the plugin is unloaded")
		}
		if built != 0 && failed {
			sym.Assert(ctrl.Closed == 1, "a controller that is not returned is closed")
			sym.Cover("closed")
		}
		if !failed {
			sym.Assert(built == 1 && ctrl.Closed == 0, "the constructed controller is returned")
			sym.Cover("before")
		}
	} else {
		sym.Cover("not found")
	}
	sym.Assert(p.find("c") == nil, "nothing is found in an unloaded plugin")
	cancel()
}

// P01Load loads a configuration while the plugin is unloaded.
//
//verif:prop P01
//verif:bounds 1 configuration loaded by the resolver and loader controllers before, while, or after the plugin is unloaded; released or not, the resolver of the plugin removed before, after or not at all; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=1 delay=2
func P01Load() {
	b := hu.NewBus()
	ctx, cancel := context.WithCancel(context.Background())
	ld, err := loader.NewController(hu.Le(), b)
	sym.Assert(err == nil, "the loader is constructed")
	relLd, _ := b.AddController(ctx, ld, nil)
	p := newPlug(ctx, b, "c")
	rc := resolver.NewController(hu.Le(), b, p.res)
	relRes, _ := b.AddController(ctx, rc, nil)
	other := newPlug(ctx, b, "d")
	relOther, _ := b.AddController(ctx, resolver.NewController(hu.Le(), b, other.res), nil)
	sym.Quiesce()
	add := func(id string) (*hu.Ref, directive.Reference) {
		r := hu.NewRef("ref")
		_, ref, err := b.AddDirective(resolver.NewLoadControllerWithConfigAndOpts(&hu.Conf{ID: id, N: 1}, directive.ValueOptions{}, func() backoff.BackOff {
			return &hu.Backoff{Durs: []time.Duration{time.Second}}
		}), r)
		sym.Assert(err == nil, "the directive is added")
		return r, ref
	}
	ro, _ := add("d")
	when := sym.Choose("when", 3)
	var r *hu.Ref
	var ref directive.Reference
	done := make(chan struct{})
	if when != 2 {
		r, ref = add("c")
		if when == 0 {
			sym.Quiesce()
			sym.Assert(len(r.Live) == 2 && len(p.fac.Ctrls) == 1 && p.fac.Ctrls[0].Active == 1, "the configuration is loaded")
		}
	}
	go func() {
		p.res.PrePluginUnload()
		close(done)
	}()
	if when == 2 {
		r, ref = add("c")
	}
	if sym.Bool("remove") {
		relRes()
		_ = rc.Close()
	}
	<-done
	sym.Quiesce()
	for _, c := range p.fac.Ctrls {
		sym.Assert(c.Active == 0 && hu.CountCtrl(b, c) == 0 && c.Closed == 1, "no controller of an unloaded plugin is left")
	}
	r.Check()
	sym.Assert(len(r.Live) == 0, "no controller of an unloaded plugin is reported")
	if len(p.fac.Ctrls) != 0 {
		sym.Cover("removed")
	} else {
		sym.Cover("not loaded")
	}
	// the resolver of the unloaded plugin might have loaded it before the one of its plugin did
	act := 0
	for _, c := range other.fac.Ctrls {
		act += c.Active
		sym.Assert(hu.CountCtrl(b, c) == c.Active && c.Closed == 1-c.Active, "the controllers of other plugins are kept")
	}
	sym.Assert(act == 1, "the controllers of other plugins are kept")
	ro.Check()
	sym.Assert(len(ro.Live) != 0, "the controllers of other plugins are reported")
	ref.Release()
	relRes()
	relOther()
	relLd()
	cancel()
	sym.Quiesce()
}
