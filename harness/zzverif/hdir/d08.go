package hdir

import (
	"context"
	"errors"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// idleRec records the reports of an idle callback.
type idleRec struct {
	mtx   sym.Mutex
	n     int
	last  bool
	errs  []error
	twice bool
	first bool
}

func (r *idleRec) cb(idle bool, errs []error) {
	r.mtx.Lock()
	if r.n != 0 && r.last == idle {
		r.twice = true
	}
	if r.n == 0 {
		r.first = idle
	}
	r.n++
	r.last, r.errs = idle, errs
	r.mtx.Unlock()
}

// D08Seq changes the idle states of two resolvers one after another.
//
//verif:prop D08
//verif:bounds 2 resolvers, 3 operations each marking idle, marking busy, returning nil or an error; 3 idle callbacks, one of them released at any point and one added at any point
//verif:quick preempt=0
func D08Seq() {
	c := hu.NewDC()
	errA, errB := errors.New("a"), errors.New("b")
	stop := []chan error{make(chan error, 1), make(chan error, 1)}
	ps := make([]*hu.Puppet, 2)
	for i := range ps {
		ps[i] = &hu.Puppet{Body: func(ctx context.Context, h directive.ResolverHandler, run int) error {
			select {
			case err := <-stop[i]:
				return err
			case <-ctx.Done():
				return ctx.Err()
			}
		}}
	}
	var early idleRec
	_, _ = c.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		di.AddIdleCallback(early.cb)
		sym.Assert(early.n == 1 && !early.last, "a directive is not idle before the handlers were asked")
		return directive.Resolvers(ps[0], ps[1]), nil
	}))
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	recs := []*idleRec{{}, {}, {}}
	rel0 := di.AddIdleCallback(recs[0].cb)
	di.AddIdleCallback(recs[1].cb)
	busy := [2]bool{true, true}
	exited := [2]bool{}
	var errs [2]error
	released := false
	n0 := 0
	added, wasIdle := false, false
	check := func() {
		sym.Quiesce()
		idle := !busy[0] && !busy[1]
		for _, r := range []*idleRec{recs[0], recs[1], recs[2], &early} {
			if r == recs[0] && released {
				sym.Assert(r.n == n0, "a released idle callback is not called")
				continue
			}
			if r == recs[2] && !added {
				continue
			}
			sym.Assert(r.n != 0 && r.last == idle, "the last report is the current state")
			sym.Assert(!r.twice, "only changes are reported")
			if idle && !wasIdle {
				want := 0
				for _, e := range errs {
					if e != nil {
						want++
					}
				}
				sym.Assert(len(r.errs) == want, "becoming idle lists the errors of the resolvers")
			}
		}
		ge := di.GetResolverErrors()
		k := 0
		for _, e := range errs {
			if e != nil {
				sym.Assert(k < len(ge) && ge[k] == e, "the errors returned by the resolvers are listed")
				k++
			}
		}
		sym.Assert(k == len(ge), "only errors returned by the resolvers are listed")
		wasIdle = idle
	}
	check()
	for s := 0; s < 3; s++ {
		k := sym.Choose("resolver", 2)
		switch sym.Choose("op", 6) {
		case 0:
			// what happens after a resolver returned is its own business
			sym.Assume(!exited[k])
			ps[k].H.MarkIdle(true)
			busy[k] = false
		case 1:
			sym.Assume(!exited[k])
			ps[k].H.MarkIdle(false)
			busy[k] = true
		case 2, 3:
			sym.Assume(!exited[k])
			exited[k], busy[k] = true, false
			if sym.Bool("err") {
				errs[k] = errA
				if k == 1 {
					errs[k] = errB
				}
			}
			stop[k] <- errs[k]
		case 4:
			if !released {
				rel0()
				released = true
				n0 = recs[0].n
			}
		case 5:
			if !added {
				added = true
				di.AddIdleCallback(recs[2].cb)
				sym.Assert(recs[2].n == 1, "the current state is reported at once")
			}
		}
		check()
	}
	if !busy[0] && !busy[1] {
		sym.Cover("idle")
	} else {
		sym.Cover("busy")
	}
	n := recs[1].n
	di.Close()
	sym.Quiesce()
	sym.Assert(recs[1].n == n, "a disposed directive reports no idle states")
}

// D08Start adds idle callbacks at any time while a directive without or with one resolver starts.
//
//verif:prop D08
//verif:bounds 0 or 1 resolver which returns at once, waits or fails; idle callbacks added from a handler and from a second goroutine; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=-1
func D08Start() {
	c := hu.NewDC()
	kind := sym.Choose("kind", 4)
	gate := make(chan struct{})
	p := &hu.Puppet{Body: func(ctx context.Context, h directive.ResolverHandler, run int) error {
		if kind == 2 {
			return hu.ErrTest
		}
		if kind == 3 {
			<-gate
		}
		return nil
	}}
	a, b, e := &idleRec{}, &idleRec{}, &idleRec{}
	asked := false
	_, _ = c.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		di.AddIdleCallback(func(idle bool, errs []error) {
			sym.Assert(!idle || asked, "a directive is not idle before all handlers were asked")
			a.cb(idle, errs)
		})
		if kind == 0 {
			return nil, nil
		}
		return directive.Resolvers(p), nil
	}))
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		asked = true
		return nil, nil
	}))
	done := make(chan struct{}, 1)
	go func() {
		for _, di := range c.GetDirectives() {
			di.AddIdleCallback(b.cb)
			sym.Cover("early")
		}
		done <- struct{}{}
	}()
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, nil)
	di.AddIdleCallback(e.cb)
	<-done
	sym.Quiesce()
	for _, r := range []*idleRec{a, b, e} {
		if r == b && r.n == 0 {
			continue
		}
		sym.Assert(r.n >= 1, "the state is reported")
		sym.Assert(!r.twice, "only changes are reported")
		sym.Assert(r.last == (kind != 3), "the last report is the current state")
		sym.Assert(len(r.errs) == 0 || kind == 2, "only failed resolvers have errors")
		sym.Assert(kind != 2 || len(r.errs) == 1, "the errors are listed")
	}
	close(gate)
	sym.Quiesce()
	sym.Assert(a.last && e.last, "the directive becomes idle when its resolvers have returned")
	sym.Assert(!a.twice && !b.twice && !e.twice, "only changes are reported")
	sym.Cover("end")
}

// D08Conc adds an idle callback while a resolver becomes idle or busy.
//
//verif:prop D08
//verif:bounds 1 resolver marking itself idle and possibly busy again in a second goroutine, 1 idle callback added and possibly released meanwhile, initial state arbitrary; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=-1
func D08Conc() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	_, _ = c.AddHandler(hu.Static(p))
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	idle := sym.Bool("initial")
	p.H.MarkIdle(idle)
	again := sym.Bool("again")
	rel := sym.Bool("release")
	done := make(chan struct{}, 1)
	go func() {
		p.H.MarkIdle(!idle)
		if again {
			p.H.MarkIdle(idle)
		}
		done <- struct{}{}
	}()
	r := &idleRec{}
	released := false
	relFn := di.AddIdleCallback(func(i bool, errs []error) {
		r.cb(i, errs)
	})
	if rel {
		relFn()
		released = true
	}
	<-done
	sym.Quiesce()
	sym.Assert(!r.twice, "only changes are reported")
	if !released {
		sym.Assert(r.n >= 1, "the state is reported")
		sym.Assert(r.last == (idle == again), "the last report is the current state")
	}
	n := r.n
	p.H.MarkIdle(true)
	p.H.MarkIdle(false)
	sym.Assert((r.n == n) == released, "a released idle callback is not called")
	sym.Assert(released || !r.last, "the last report is the current state")
	sym.Cover("end")
}
