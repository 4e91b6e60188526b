package hld

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
)

// env is a bus with a loader and a factory which might be unloaded.
type env struct {
	*ld
	fac    *hu.Fac
	unload func()
	rc     *resolver.Controller
	relRes func()
	relEmp func()
}

// newEnv builds the bus. how: 0 is the matching resolver only, 1 has another one without the factory in addition.
func newEnv(how int) *env {
	e := &env{ld: newLd(), fac: hu.NewFac("c", 1)}
	var ctx context.Context
	ctx, e.unload = context.WithCancel(context.Background())
	e.rc = resolver.NewController(hu.Le(), e.b, static.NewResolver(&hu.CtxFac{Fac: e.fac, Ctx: ctx}))
	e.relRes, _ = e.b.AddController(context.Background(), e.rc, nil)
	if how == 1 {
		e.relEmp, _ = e.b.AddController(context.Background(), resolver.NewController(hu.Le(), e.b, static.NewResolver()), nil)
	}
	return e
}

func (e *env) running() (n int) {
	for _, c := range e.fac.Ctrls {
		n += c.Active
	}
	return n
}

// stopped asserts that nothing is left.
func (e *env) stopped() {
	sym.Assert(e.running() == 0, "the controller is stopped")
	for _, c := range e.fac.Ctrls {
		sym.Assert(hu.CountCtrl(e.b, c) == 0 && c.Closed == 1, "the controller is removed and closed once")
	}
}

// L02Seq loads controllers by configuration.
//
//verif:prop L02
//verif:bounds 4 operations (thorough 5) of loading 2 configurations of a known id, one of an unknown id and releasing them, with 1 or 2 resolvers; ending with the factory unloaded, the resolver closed or removed, the loader removed, or all directives released or closed
//verif:quick preempt=0 delay=1
//verif:thorough preempt=0 delay=1
func L02Seq() { l02(4) }

// L02SeqLong runs longer histories.
//
//verif:prop L02
//verif:bounds as before with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=1
func L02SeqLong() { l02(5) }

// L02Short runs shorter histories with more schedules.
//
//verif:prop L02
//verif:bounds as before with 2 operations (thorough 3)
//verif:quick preempt=1 delay=1
//verif:thorough preempt=1 delay=1
func L02Short() { l02(2) }

// L02Short3 runs shorter histories with more schedules.
//
//verif:prop L02
//verif:bounds as before with 3 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=1 delay=1
func L02Short3() { l02(3) }

func l02(nops int) {
	how := sym.Choose("resolvers", 2)
	e := newEnv(how)
	type held struct {
		conf int
		r    *hu.Ref
		di   directive.Instance
		ref  directive.Reference
	}
	var refs []*held
	want := func(n int) int {
		k := 0
		for _, h := range refs {
			if h.conf == n {
				k++
			}
		}
		return k
	}
	perDir := 1 + how
	check := func() {
		sym.Quiesce()
		run := 0
		for n := 0; n < 2; n++ {
			if want(n) > 0 {
				run++
			}
		}
		sym.Assert(e.running() == run, "a controller runs exactly while it is loaded")
		for _, h := range refs {
			h.r.Check()
			if h.conf == 2 {
				sym.Assert(len(h.r.Live) == 0, "nothing is loaded for an unknown id")
				continue
			}
			sym.Assert(len(h.r.Live) == perDir, "every resolver reports the controller")
			for _, v := range h.r.Live {
				c, _ := v.(loader.ExecControllerValue).GetController().(*hu.Ctrl)
				sym.Assert(c != nil && c.Active == 1, "the running controller is reported")
				for i, o := range e.fac.Ctrls {
					if o == c {
						sym.Assert(e.fac.Confs[i].(*hu.Conf).N == h.conf, "the controller of the configuration is reported")
					}
				}
			}
		}
	}
	for i := 0; i < nops; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			n := sym.Choose("conf", 3)
			conf := &hu.Conf{ID: "c", N: n}
			if n == 2 {
				conf.ID = "unknown"
			}
			h := &held{conf: n, r: hu.NewRef("r")}
			h.di, h.ref, _ = e.b.AddDirective(resolver.NewLoadControllerWithConfig(conf), h.r)
			refs = append(refs, h)
		case 1:
			if len(refs) != 0 {
				j := sym.Choose("release", len(refs))
				refs[j].ref.Release()
				refs = append(refs[:j:j], refs[j+1:]...)
			}
		case 2:
		}
		check()
	}
	switch sym.Choose("end", 6) {
	case 0:
		e.unload()
	case 1:
		e.rc.Close()
		sym.Assume(how == 0)
	case 2:
		e.relRes()
		sym.Assume(how == 0)
	case 3:
		e.rel()
	case 4:
		for _, h := range refs {
			h.ref.Release()
		}
		refs = nil
	case 5:
		for _, h := range refs {
			h.di.Close()
		}
	}
	sym.Quiesce()
	e.stopped()
	for _, h := range refs {
		h.r.Check()
		sym.Assert(len(h.r.Live) == 0, "a stopped controller is not reported")
	}
	for _, h := range refs {
		h.ref.Release()
	}
	sym.Quiesce()
	sym.Assert(len(e.b.GetDirectives()) == 0, "no directive is left")
	if len(e.fac.Ctrls) > 0 {
		sym.Cover("loaded")
	}
	sym.Cover("end")
}

// L02Conc stops loading concurrently.
//
//verif:prop L02
//verif:bounds a loaded configuration which is released, loaded again, or whose factory is unloaded, resolver closed or removed, or loader removed at any time, with 1 or 2 resolvers; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=3 delay=1
func L02Conc() {
	how := sym.Choose("resolvers", 2)
	e := newEnv(how)
	dir := func() directive.Directive { return resolver.NewLoadControllerWithConfig(&hu.Conf{ID: "c", N: 1}) }
	r := hu.NewRef("r")
	_, ref, _ := e.b.AddDirective(dir(), r)
	rel := true
	switch sym.Choose("end", 6) {
	case 0:
		e.unload()
	case 1:
		e.rc.Close()
		sym.Assume(how == 0)
	case 2:
		e.relRes()
		sym.Assume(how == 0)
	case 3:
		e.rel()
	case 4:
		ref.Release()
		rel = false
	case 5:
		ref.Release()
		r = hu.NewRef("r2")
		_, ref, _ = e.b.AddDirective(dir(), r)
		sym.Quiesce()
		r.Check()
		sym.Assert(e.running() == 1, "the controller is loaded again")
		sym.Assert(len(r.Live) == 1+how, "every resolver reports the controller")
		for _, v := range r.Live {
			c, _ := v.(loader.ExecControllerValue).GetController().(*hu.Ctrl)
			sym.Assert(c != nil && c.Active == 1, "the running controller is reported")
		}
		ref.Release()
		rel = false
		sym.Cover("again")
	}
	sym.Quiesce()
	e.stopped()
	r.Check()
	sym.Assert(len(r.Live) == 0 || !rel, "a stopped controller is not reported")
	if rel {
		ref.Release()
		sym.Quiesce()
	}
	sym.Assert(len(e.b.GetDirectives()) == 0, "no directive is left")
	if len(e.fac.Ctrls) > 0 {
		sym.Cover("loaded")
	}
	sym.Cover("end")
}

// L02Late loads a configuration before its factory is there, or with failures.
//
//verif:prop L02
//verif:bounds a configuration loaded while no resolver has the factory, which is added later; the controller fails twice with the delay of the directive's backoff
//verif:quick preempt=0 delay=1
//verif:thorough preempt=2 delay=1
func L02Late() {
	x := newLd()
	fac := hu.NewFac("c", 1)
	c := hu.NewCtrl("c")
	fails := sym.Choose("fails", 3)
	c.Body = func(ctx context.Context) error {
		if c.Runs <= fails {
			return hu.ErrTest
		}
		<-ctx.Done()
		return context.Canceled
	}
	fac.New = func(context.Context, config.Config, int) (controller.Controller, error) { return c, nil }
	late := sym.Bool("late")
	add := func() {
		rc := resolver.NewController(hu.Le(), x.b, static.NewResolver(fac))
		_, _ = x.b.AddController(context.Background(), rc, nil)
	}
	_, _ = x.b.AddController(context.Background(), resolver.NewController(hu.Le(), x.b, static.NewResolver()), nil)
	if !late {
		add()
	}
	b := &hu.Backoff{Durs: []time.Duration{time.Hour}}
	r := hu.NewRef("r")
	_, ref, _ := x.b.AddDirective(resolver.NewLoadControllerWithConfigAndOpts(&hu.Conf{ID: "c"}, directive.ValueOptions{}, func() backoff.BackOff { return b }), r)
	sym.Quiesce()
	if late {
		sym.Assert(len(r.Live) == 0, "nothing is loaded without the factory")
		add()
		sym.Quiesce()
	}
	start := time.Now()
	for i := 1; i <= fails; i++ {
		sym.Assert(c.Runs == i && b.Asked == i, "the backoff of the directive is used")
		time.Sleep(time.Hour - time.Second)
		sym.Quiesce()
		sym.Assert(c.Runs == i, "the delay is kept")
		time.Sleep(time.Second)
		sym.Quiesce()
	}
	sym.Assert(time.Since(start) == time.Duration(fails)*time.Hour, "the delays passed")
	r.Check()
	sym.Assert(c.Active == 1 && len(r.Live) == 2, "every resolver reports the controller")
	ref.Release()
	sym.Quiesce()
	sym.Assert(c.Active == 0 && c.Closed == 1 && hu.CountCtrl(x.b, c) == 0, "the controller is stopped")
	sym.Assert(len(x.b.GetDirectives()) == 0, "no directive is left")
	sym.Cover("end")
}

var _ bus.Bus
