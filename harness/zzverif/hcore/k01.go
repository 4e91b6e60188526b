package hcore

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	cfgctrl "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	cres "github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// K01Options builds a core bus.
//
//verif:prop K01
//verif:bounds 3 options, each missing, failing, adding one or two factories, or setting a constructor of the factory resolver which succeeds or fails
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 delay=1 merge=0
func K01Options() {
	fs := []*hu.Fac{hu.NewFac("f0", 1), hu.NewFac("f1", 1), hu.NewFac("f2", 1), hu.NewFac("f3", 1), hu.NewFac("f4", 1), hu.NewFac("f5", 1)}
	added := map[string]bool{cfgctrl.ConfigID: true}
	var opts []core.Option
	failed := false
	ctor := 0
	ctors := make([]int, 3)
	var gb bus.Bus
	var gsr *static.Resolver
	var custom controller.FactoryResolver
	var failCtor bool
	failOpt := 0
	for i := 0; i < 3; i++ {
		kind := sym.Choose("option", 6)
		switch kind {
		case 0:
			opts = append(opts, nil)
		case 1:
			opts = append(opts, func(*core.CoreBusConfig) error { failOpt++; return hu.ErrTest })
		case 2:
			opts = append(opts, core.WithControllerFactories(fs[2*i]))
		case 3:
			opts = append(opts, core.WithControllerFactories(fs[2*i], fs[2*i+1]))
		case 4, 5:
			ctor = i + 1
			failCtor = kind == 5
			f := failCtor
			opts = append(opts, core.WithFactoryResolverCtor(func(b bus.Bus, sr *static.Resolver) (controller.FactoryResolver, error) {
				ctors[i]++
				gb, gsr = b, sr
				if f {
					return nil, hu.ErrTest
				}
				custom = static.NewResolver(hu.NewFac("custom", 1))
				return custom, nil
			}))
		}
		failed = failed || kind == 1
		if kind == 2 || kind == 3 {
			added[fs[2*i].ID] = true
		}
		if kind == 3 {
			added[fs[2*i+1].ID] = true
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	b, sr, err := core.NewCoreBus(ctx, hu.Le(), opts...)
	if failed || (ctor != 0 && failCtor) {
		sym.Assert(err == hu.ErrTest && b == nil && sr == nil, "an error of an option or the constructor is returned")
		sym.Assert(!failed || failOpt == 1, "no option is applied after one failed")
		cancel()
		sym.Cover("failed")
		return
	}
	sym.Assert(err == nil && b != nil && sr != nil, "the bus is built")
	for i, n := range ctors {
		sym.Assert(n == sym.IteInt(ctor == i+1, 1, 0), "the last constructor of a factory resolver is used")
	}
	sym.Assert(ctor == 0 || (gb == b && gsr == sr), "the constructor has the bus and the static resolver")
	for _, f := range fs {
		got, _ := sr.GetFactoryMatchingConfig(ctx, &hu.Conf{ID: f.ID})
		sym.Assert((got != nil) == added[f.ID], "exactly the given factories are found")
	}
	got, _ := sr.GetFactoryMatchingConfig(ctx, &cfgctrl.Config{})
	sym.Assert(got != nil, "the factory of the configuration sets is found")
	want := cfgctrl.ConfigID
	if ctor != 0 {
		want = "custom"
	}
	sym.Quiesce()
	av, _, ref, err := bus.ExecOneOff(ctx, b, cres.NewLoadFactoryByConfig(&hu.Conf{ID: want}), bus.ReturnWhenIdle(), nil)
	sym.Assert(err == nil && av != nil, "the factory is found on the bus")
	sym.Assert(av.GetValue().(controller.Factory).GetConfigID() == want, "the factory is found on the bus")
	ref.Release()
	if ctor != 0 {
		av, _, _, err := bus.ExecOneOff(ctx, b, cres.NewLoadFactoryByConfig(&hu.Conf{ID: cfgctrl.ConfigID}), bus.ReturnWhenIdle(), nil)
		sym.Assert(err == nil && av == nil, "the custom resolver replaces the static one")
		sym.Cover("custom")
	}
	cancel()
	sym.Quiesce()
	sym.Assert(sym.NumBlocked() == 0, "nothing is left after the context is canceled")
	sym.Cover("built")
}

// K01Run runs a set of configurations on a core bus.
//
//verif:prop K01
//verif:bounds a set with 1 or 2 configurations, one possibly without a factory that is added later or with a failing constructor, applied before or after the controller of the sets is loaded; ended by releasing the set, the controller of the sets, or cancellation; all schedules with 1 (thorough 2) deviations
//verif:quick preempt=0 delay=1
//verif:thorough preempt=1 delay=1
func K01Run() {
	ctx, cancel := context.WithCancel(context.Background())
	f := hu.NewFac("f", 1)
	g := hu.NewFac("g", 1)
	mode := sym.Choose("second", 3)
	opts := []core.Option{core.WithControllerFactories(f)}
	if mode == 1 {
		opts = append(opts, core.WithControllerFactories(g))
	}
	b, sr, err := core.NewCoreBus(ctx, hu.Le(), opts...)
	sym.Assert(err == nil, "the bus is built")
	set := configset.ConfigSet{"a": configset.NewControllerConfig(1, &hu.Conf{ID: "f", N: 1})}
	if mode != 0 {
		set["b"] = configset.NewControllerConfig(1, &hu.Conf{ID: "g", N: 2})
	}
	apply := func() *hu.Ref {
		r := hu.NewRef("apply")
		_, ref, err := b.AddDirective(configset.NewApplyConfigSet(set), r)
		sym.Assert(err == nil, "the set is applied")
		rels = append(rels, ref.Release)
		return r
	}
	rels = nil
	var r *hu.Ref
	first := sym.Bool("apply first")
	if first {
		r = apply()
	}
	lr := hu.NewRef("configset")
	_, lref, err := b.AddDirective(cres.NewLoadControllerWithConfig(&cfgctrl.Config{}), lr)
	sym.Assert(err == nil, "the controller of the sets is loaded")
	if !first {
		r = apply()
	}
	sym.Quiesce()
	if mode == 2 {
		sr.AddFactory(g)
		sym.Quiesce()
	}
	check := func(fac *hu.Fac, n int) *hu.Ctrl {
		sym.Assert(len(fac.Ctrls) == 1 && fac.Runs == 1, "the controller is constructed once")
		c := fac.Ctrls[0]
		sym.Assert(c.Runs == 1 && c.Active == 1 && c.Closed == 0 && hu.CountCtrl(b, c) == 1, "the controller runs")
		sym.Assert(fac.Confs[0].(*hu.Conf).N == n, "the controller has its configuration")
		return c
	}
	ctrls := []*hu.Ctrl{check(f, 1)}
	r.Check()
	lr.Check()
	if mode == 1 {
		ctrls = append(ctrls, check(g, 2))
	}
	sym.Assert(len(r.Live) == len(set), "every configuration has a state")
	running := 0
	for _, v := range r.Live {
		st := v.(configset.ApplyConfigSetValue)
		if st.GetController() != nil {
			running++
		}
	}
	sym.Assert(running == len(ctrls), "the running controllers are reported")
	switch sym.Choose("end", 3) {
	case 0:
		rels[0]()
	case 1:
		lref.Release()
	case 2:
		cancel()
	}
	sym.Quiesce()
	for _, c := range ctrls {
		sym.Assert(c.Active == 0 && c.Closed == 1 && hu.CountCtrl(b, c) == 0, "the controller is stopped and closed")
	}
	cancel()
	sym.Quiesce()
	sym.Cover("end")
}

var rels []func()
