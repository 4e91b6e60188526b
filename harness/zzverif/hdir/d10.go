package hdir

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// D10Slow cancels and restarts a resolver several times which returns late from its runs.
//
//verif:prop D10
//verif:bounds value cap of 1; up to 3 runs of a resolver, each returning at an arbitrary time with or without an error after it was canceled; a stale run uses its handler
//verif:quick preempt=0
//verif:thorough preempt=2
func D10Slow() {
	c := hu.NewDC()
	q := &hu.Puppet{}
	gates := []chan error{make(chan error, 1), make(chan error, 1), make(chan error, 1), make(chan error, 1)}
	p := &hu.Puppet{}
	p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		return <-gates[run-1]
	}
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(q, p), nil
	}))
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: 1}}, r)
	sym.Quiesce()
	opened := 0
	open := func() {
		if opened < p.Runs && opened < len(gates) {
			var err error
			if sym.Bool("err") {
				err = hu.ErrTest
			}
			gates[opened] <- err
			opened++
			sym.Quiesce()
		}
	}
	for k := 0; k < 2; k++ {
		id, ok := q.H.AddValue(k)
		sym.Assert(ok, "a value below the cap is accepted")
		sym.Quiesce()
		if sym.Bool("openfull") {
			open()
		}
		sym.Assert(p.MaxAct <= 1, "a resolver runs once at a time")
		_, found := q.H.RemoveValue(id)
		sym.Assert(found, "the value can be removed")
		sym.Quiesce()
		if sym.Bool("openfree") {
			open()
		}
		sym.Assert(p.MaxAct <= 1, "a resolver runs once at a time")
	}
	errs := 0
	if p.Runs == opened {
		// the last run returned by itself
		errs = len(di.GetResolverErrors())
		sym.Assert(errs <= 1, "a resolver has at most one error")
	} else {
		sym.Assert(len(di.GetResolverErrors()) == 0, "the error of a run which was replaced is not reported")
	}
	// what a stale run does has no effect
	hs := p.Handlers
	idle := -1
	di.AddIdleCallback(func(x bool, _ []error) {
		if x {
			idle = 1
		} else {
			idle = 0
		}
	})
	for i, h := range hs {
		if i == len(hs)-1 {
			break
		}
		_, ok := h.AddValue("stale")
		sym.Assert(!ok, "a run which was replaced cannot add values")
		h.MarkIdle(true)
		h.ClearValues()
		called := 0
		h.AddResolver(&hu.Puppet{}, func() { called++ })
		sym.Assert(called == 1, "a run which was replaced cannot add resolvers")
		sym.Cover("stale")
	}
	sym.Quiesce()
	sym.Assert(idle == 0 || opened == p.Runs, "a run which was replaced cannot mark the resolver as idle")
	sym.Assert(len(r.Live) == 0, "no values of replaced runs")
	last := hs[len(hs)-1]
	if p.Runs > opened {
		// the last started run is either current or an old one holding up the current one
		_, ok := last.AddValue("x")
		if ok {
			sym.Cover("current")
		} else {
			sym.Cover("held")
		}
	}
	di.Close()
	for opened < p.Runs {
		open()
	}
	sym.Quiesce()
	sym.Assert(p.Active == 0 && p.MaxAct <= 1, "a resolver runs once at a time and stops with its directive")
}

// D10Conc fills and drains a directive with a cap from two goroutines while a resolver runs.
//
//verif:prop D10
//verif:bounds value cap of 1; 2 goroutines adding and removing a value each, 1 resolver without values; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=2
func D10Conc() {
	c := hu.NewDC()
	q, q2 := &hu.Puppet{}, &hu.Puppet{}
	slow := sym.Bool("slow")
	p := &hu.Puppet{Body: func(ctx context.Context, h directive.ResolverHandler, run int) error {
		<-ctx.Done()
		if slow {
			sym.Yield()
		}
		return ctx.Err()
	}}
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(q, q2, p), nil
	}))
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: 1}}, nil)
	sym.Quiesce()
	done := make(chan struct{}, 1)
	go func() {
		if id, ok := q2.H.AddValue("b"); ok {
			q2.H.RemoveValue(id)
		}
		done <- struct{}{}
	}()
	if id, ok := q.H.AddValue("a"); ok {
		q.H.RemoveValue(id)
	}
	<-done
	sym.Quiesce()
	sym.Assert(p.MaxAct <= 1 && q.MaxAct <= 1 && q2.MaxAct <= 1, "a resolver runs once at a time")
	sym.Assert(p.Active == 1, "the resolver runs while the cap is not reached")
	if p.Runs > 1 {
		sym.Cover("restarted")
	}
	di.Close()
	sym.Quiesce()
	sym.Assert(p.Active == 0, "the resolver stops with its directive")
}
