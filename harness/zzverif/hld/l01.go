// Package hld has the harnesses of the loader and the factory resolvers.
package hld

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
)

type ld struct {
	b   bus.Bus
	rel func()
}

func newLd() *ld {
	x := &ld{b: hu.NewBus()}
	l, _ := loader.NewController(hu.Le(), x.b)
	x.rel, _ = x.b.AddController(context.Background(), l, nil)
	return x
}

// one is the only value of the reference.
func one(r *hu.Ref) loader.ExecControllerValue {
	r.Check()
	sym.Assert(len(r.Live) == 1, "the state of the controller is reported by one value")
	for _, v := range r.Live {
		return v.(loader.ExecControllerValue)
	}
	return nil
}

func end(x *ld, di directive.Instance, ref directive.Reference) {
	switch sym.Choose("end", 3) {
	case 0:
		x.rel()
	case 1:
		di.Close()
	case 2:
		ref.Release()
	}
}

func l01(maxC, maxE int) {
	x := newLd()
	b := &hu.Backoff{}
	f := hu.NewFac("c", 1)
	conf := &hu.Conf{ID: "c", N: 7}
	failC := sym.Choose("construct fails", maxC)
	failE := sym.Choose("execute fails", maxE)
	kinds := make([]error, failE)
	for i := range kinds {
		kinds[i] = []error{hu.ErrTest, hu.ErrPanic, hu.ErrPanicStr, context.Canceled}[sym.Choose("failure", 4)]
	}
	stopAt := -1
	for i := 0; i < failC+failE && stopAt < 0; i++ {
		switch sym.Choose("delay", 3) {
		case 0:
			b.Durs = append(b.Durs, 0)
		case 1:
			b.Durs = append(b.Durs, time.Second)
		case 2:
			b.Durs = append(b.Durs, backoff.Stop)
			stopAt = i
		}
	}
	none := stopAt < 0 && failE == 0 && sym.Bool("none")
	finish := sym.Bool("finish")
	attempt := 0
	try := func() {
		attempt++
		sym.Assert(b.Asked == attempt-1, "the backoff is asked once per failure")
		sym.Assert(b.Resets == 0, "the backoff is not reset by a failure")
		if attempt > 1 {
			sym.Assert(time.Since(b.At) >= b.Last, "the delay of the backoff is kept")
		}
	}
	c := hu.NewCtrl("c")
	f.New = func(_ context.Context, got config.Config, run int) (controller.Controller, error) {
		try()
		sym.Assert(got == config.Config(conf), "the controller is constructed with the configuration")
		if run <= failC {
			return nil, hu.ErrTest
		}
		if none {
			return nil, nil
		}
		return c, nil
	}
	over := false
	c.Body = func(ctx context.Context) error {
		if c.Runs > 1 {
			try()
		}
		over = over || c.Active > 1
		sym.Assert(c.Closed == 0, "a closed controller is not executed")
		sym.Assert(hu.CountCtrl(x.b, c) == 1, "an executed controller is on the bus")
		if c.Runs <= failE {
			err := kinds[c.Runs-1]
			if err == hu.ErrPanic || err == hu.ErrPanicStr {
				panic(err)
			}
			return err
		}
		if finish {
			return nil
		}
		<-ctx.Done()
		return context.Canceled
	}
	r := hu.NewRef("r")
	di, ref, _ := x.b.AddDirective(loader.NewExecControllerWithOpts(f, conf, func() backoff.BackOff { return b }, directive.ValueOptions{}), r)
	idle := false
	var errs []error
	di.AddIdleCallback(func(i bool, e []error) { idle, errs = i, e })
	constructed := func() bool { return f.Runs > failC && !none }
	ended := func() {
		sym.Quiesce()
		time.Sleep(2 * time.Second)
		sym.Quiesce()
		sym.Assert(c.Active == 0, "the controller is stopped")
		sym.Assert(hu.CountCtrl(x.b, c) == 0, "the controller is removed from the bus")
		if constructed() {
			sym.Assert(c.Closed == 1, "the controller is closed once")
		} else {
			sym.Assert(c.Closed == 0, "the controller is closed once")
		}
		sym.Assert(!over, "the executions do not overlap")
	}
	if failC+failE > 0 && b.Durs[0] == time.Second && sym.Bool("early") {
		time.Sleep(500 * time.Millisecond)
		sym.Quiesce()
		v := one(r)
		sym.Assert(v.GetError() != nil && v.GetController() == nil, "the error is reported during the delay")
		sym.Assert(v.GetNextRetryTimestamp().Equal(b.At.Add(time.Second)), "the time of the retry is reported")
		sym.Assert(!idle && attempt == 1, "the controller is not retried before the delay")
		end(x, di, ref)
		ended()
		sym.Assert(attempt == 1, "a stopped controller is not retried")
		sym.Cover("early")
		return
	}
	time.Sleep(10 * time.Second)
	sym.Quiesce()
	r.Check()
	switch {
	case stopAt >= 0:
		sym.Assert(attempt == stopAt+1, "the controller is not retried when the backoff stops")
		sym.Assert(idle && len(errs) == 1 && len(r.Live) == 0, "the error is reported when the backoff stops")
		sym.Assert(c.Active == 0 && hu.CountCtrl(x.b, c) == 0, "a failed controller is removed from the bus")
		sym.Cover("stopped")
	case none:
		sym.Assert(idle && len(errs) == 1 && len(r.Live) == 0, "a factory which constructs nothing is an error")
		sym.Cover("none")
	default:
		sym.Assert(f.Runs == failC+1 && c.Runs == failE+1, "the controller is constructed once and executed until it succeeds")
		v := one(r)
		sym.Assert(v.GetError() == nil && v.GetController() == controller.Controller(c), "the controller is reported")
		sym.Assert(v.GetNextRetryTimestamp().IsZero(), "no retry is reported")
		sym.Assert(hu.CountCtrl(x.b, c) == 1 && c.Closed == 0, "the controller stays on the bus")
		sym.Assert(idle == finish, "the directive is idle when the execution returned")
		if finish {
			sym.Cover("finished")
		} else {
			sym.Assert(c.Active == 1, "the controller is executed")
			sym.Cover("running")
		}
	}
	end(x, di, ref)
	ended()
	sym.Cover("end")
}

// L01Seq executes failing controllers.
//
//verif:prop L01
//verif:bounds up to 2 failures of the constructor and 2 of the controller by an error, cancellation or panic, with delays of 0, 1s or no more retries; a controller which is nil, returns or runs; 3 ways of stopping it at the end or during the first delay
//verif:quick preempt=0 delay=1 merge=0
//verif:thorough preempt=1 delay=1 merge=0
func L01Seq() { l01(3, 3) }

// L01Conc stops a controller concurrently.
//
//verif:prop L01
//verif:bounds a constructor and a controller which fail at most once without delay, then run or return; stopped in 3 ways or restarted with a second equivalent directive at any time; all schedules up to the preemption bound
//verif:quick preempt=2 delay=1
//verif:thorough preempt=4 delay=1
func L01Conc() {
	x := newLd()
	b := &hu.Backoff{Durs: []time.Duration{0}}
	f := hu.NewFac("c", 1)
	failC, failE := sym.Choose("construct fails", 2), sym.Choose("execute fails", 2)
	finish := sym.Bool("finish")
	over := false
	f.New = func(_ context.Context, _ config.Config, run int) (controller.Controller, error) {
		if run == 1 && failC == 1 {
			return nil, hu.ErrTest
		}
		c := hu.NewCtrl("c")
		f.Mtx.Lock()
		for _, o := range f.Ctrls {
			over = over || o.Active != 0
		}
		first := len(f.Ctrls) == 0
		f.Ctrls = append(f.Ctrls, c)
		f.Mtx.Unlock()
		c.Body = func(ctx context.Context) error {
			c.Mtx.Lock()
			over = over || c.Active > 1
			c.Mtx.Unlock()
			if first && c.Runs <= failE {
				return hu.ErrTest
			}
			if finish {
				return nil
			}
			<-ctx.Done()
			return context.Canceled
		}
		return c, nil
	}
	dir := func() directive.Directive {
		return loader.NewExecControllerWithOpts(f, &hu.Conf{ID: "c", N: 1}, func() backoff.BackOff { return b }, directive.ValueOptions{})
	}
	r := hu.NewRef("r")
	di, ref, _ := x.b.AddDirective(dir(), r)
	again := false
	var r2 *hu.Ref
	var ref2 directive.Reference
	switch sym.Choose("end", 4) {
	case 0:
		x.rel()
	case 1:
		di.Close()
	case 2:
		ref.Release()
	case 3:
		// another reference follows the first one
		r2 = hu.NewRef("r2")
		var di2 directive.Instance
		di2, ref2, _ = x.b.AddDirective(dir(), r2)
		ref.Release()
		again = true
		sym.Assert(di2 == di, "equivalent directives are executed once")
	}
	sym.Quiesce()
	r.Check()
	sym.Assert(!over, "the executions do not overlap")
	if again {
		v := one(r2)
		sym.Assert(v.GetError() == nil && len(f.Ctrls) == 1 && v.GetController() == controller.Controller(f.Ctrls[0]), "the controller is reported")
		sym.Assert(f.Ctrls[0].Active == 1 || finish, "the controller is executed")
		ref2.Release()
		sym.Quiesce()
		sym.Cover("again")
	}
	for _, c := range f.Ctrls {
		sym.Assert(c.Active == 0, "the controller is stopped")
		sym.Assert(hu.CountCtrl(x.b, c) == 0, "the controller is removed from the bus")
		sym.Assert(c.Closed == 1, "the controller is closed once")
		sym.Cover("constructed")
	}
	sym.Cover("end")
}

// L01Supersede executes several versions of a factory.
//
//verif:prop L01
//verif:bounds 2 directives for factories of 2 ids, 3 versions and 2 configurations, the first one running, failing or finished when the second one is added
//verif:quick preempt=0 delay=1
//verif:thorough preempt=2 delay=1
func L01Supersede() {
	x := newLd()
	state := sym.Choose("state", 3)
	mk := func(i int) (*hu.Fac, *hu.Conf, directive.Directive) {
		f := hu.NewFac([]string{"c", "d"}[sym.Choose("id", 2)], uint64(1+sym.Choose("version", 3)))
		conf := &hu.Conf{ID: f.ID, N: sym.Choose("conf", 2)}
		f.New = func(_ context.Context, _ config.Config, run int) (controller.Controller, error) {
			c := hu.NewCtrl(f.ID)
			f.Ctrls = append(f.Ctrls, c)
			c.Body = func(ctx context.Context) error {
				if i == 0 && state == 1 {
					return nil
				}
				if i == 0 && state == 2 {
					return hu.ErrTest
				}
				<-ctx.Done()
				return context.Canceled
			}
			return c, nil
		}
		b := &hu.Backoff{Durs: []time.Duration{time.Hour}}
		return f, conf, loader.NewExecControllerWithOpts(f, conf, func() backoff.BackOff { return b }, directive.ValueOptions{})
	}
	f1, c1, d1 := mk(0)
	f2, c2, d2 := mk(1)
	r1, r2 := hu.NewRef("r1"), hu.NewRef("r2")
	di1, ref1, _ := x.b.AddDirective(d1, r1)
	sym.Quiesce()
	di2, ref2, _ := x.b.AddDirective(d2, r2)
	sym.Quiesce()
	same := f1.ID == f2.ID && c1.N == c2.N
	newer := same && f2.Ver.Major > f1.Ver.Major
	switch {
	case newer:
		sym.Assert(di1 != di2 && len(f2.Ctrls) == 1 && f2.Ctrls[0].Active == 1, "a newer version of the factory is executed")
		sym.Assert(f1.Ctrls[0].Active == 0 && f1.Ctrls[0].Closed == 1 && hu.CountCtrl(x.b, f1.Ctrls[0]) == 0, "the controller of the older version is stopped")
		sym.Assert(r1.Disposed == 1 && r2.Disposed == 0, "the directive of the older version is disposed")
		sym.Cover("newer")
	case same:
		sym.Assert(di1 == di2 && f2.Runs == 0, "equivalent directives are executed once")
		sym.Assert(one(r2) == one(r1), "the controller is reported")
		sym.Cover("same")
	default:
		sym.Assert(di1 != di2 && f1.Runs == 1 && f2.Runs == 1 && f2.Ctrls[0].Active == 1, "different configurations are executed")
		sym.Assert(f1.Ctrls[0].Closed == 0, "different configurations do not stop each other")
		sym.Assert(one(r2).GetController() == controller.Controller(f2.Ctrls[0]), "the controller is reported")
		sym.Cover("different")
	}
	ref1.Release()
	sym.Quiesce()
	if same && !newer {
		sym.Assert(f1.Ctrls[0].Closed == 0, "the controller runs while it is referenced")
	} else {
		sym.Assert(f1.Ctrls[0].Closed == 1, "the controller is closed once")
		sym.Assert(f2.Ctrls[0].Active == 1, "the controller runs while it is referenced")
	}
	ref2.Release()
	sym.Quiesce()
	for _, c := range append(append([]*hu.Ctrl{}, f1.Ctrls...), f2.Ctrls...) {
		sym.Assert(c.Active == 0 && c.Closed == 1 && hu.CountCtrl(x.b, c) == 0, "the controller is stopped")
	}
	sym.Cover("end")
}

// L01Wait waits for a running controller.
//
//verif:prop L01
//verif:bounds a constructor and controller which fail at most once, with no delay or 1s, or restarting 1s later; waited for with a context canceled before or after, the controller failing, the loader removed, or the directive closed or released afterwards; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=3 delay=1
func L01Wait() {
	x := newLd()
	delay := []time.Duration{0, time.Second}[sym.Choose("delay", 2)]
	failC, failE := sym.Choose("construct fails", 2), sym.Choose("execute fails", 2)
	b := &hu.Backoff{Durs: []time.Duration{delay}}
	f := hu.NewFac("c", 1)
	c := hu.NewCtrl("c")
	f.New = func(_ context.Context, _ config.Config, run int) (controller.Controller, error) {
		if run <= failC {
			return nil, hu.ErrTest
		}
		return c, nil
	}
	c.Body = func(ctx context.Context) error {
		if c.Runs <= failE {
			return hu.ErrTest
		}
		select {
		case <-ctx.Done():
			return context.Canceled
		case err := <-c.Exit:
			return err
		}
	}
	var mtx sym.Mutex
	disposed := 0
	ctx, cancel := context.WithCancel(context.Background())
	finished := false
	var got controller.Controller
	var di directive.Instance
	var ref directive.Reference
	var err error
	go func() {
		g, d, r, e := loader.WaitExecControllerRunning(ctx, x.b, loader.NewExecControllerWithOpts(f, &hu.Conf{ID: "c", N: 1}, func() backoff.BackOff { return b }, directive.ValueOptions{}), func() {
			mtx.Lock()
			disposed++
			mtx.Unlock()
		})
		mtx.Lock()
		got, di, ref, err, finished = g, d, r, e, true
		mtx.Unlock()
	}()
	early := sym.Bool("early")
	if early {
		// while it waits
		cancel()
	}
	sym.Quiesce()
	if delay != 0 && !finished && !early {
		time.Sleep(3 * time.Second)
		sym.Quiesce()
	}
	sym.Assert(finished, "waiting ends")
	if err != nil {
		sym.Assert(got == nil && ref == nil, "nothing is returned with an error")
		sym.Assert(failC+failE != 0 || early, "no error without a failure")
		time.Sleep(2 * time.Second)
		sym.Quiesce()
		sym.Assert(disposed == 0 && len(x.b.GetDirectives()) == 0, "the reference is released with an error")
		sym.Assert(c.Active == 0 && hu.CountCtrl(x.b, c) == 0, "nothing runs after an error")
		sym.Cover("error")
		return
	}
	sym.Assert(got == controller.Controller(c) && ref != nil && len(x.b.GetDirectives()) == 1, "the controller and a reference are returned")
	if delay != 0 && failC+failE != 0 {
		// the controller might have failed after it was returned
		sym.Assert(failC == 0, "the first failure ends waiting")
		sym.Assert(disposed == 1, "the callback is called when the controller is not running anymore")
		sym.Cover("failed")
	}
	before := disposed
	sym.Assert(before == 0 || failE != 0, "the callback is not called while the controller is running")
	switch sym.Choose("end", 5) {
	case 0:
		x.rel()
		sym.Quiesce()
		sym.Assert(disposed == 1, "the callback is called when the loader is removed")
	case 1:
		di.Close()
		sym.Quiesce()
		sym.Assert(disposed == 1, "the callback is called when the directive is disposed")
	case 2:
		cancel()
		sym.Quiesce()
		sym.Assert(disposed == before && len(x.b.GetDirectives()) == 1, "the context is for waiting only")
	case 3:
		sym.Assume(c.Active == 1)
		c.Exit <- hu.ErrTest
		sym.Quiesce()
		sym.Assert(disposed == 1, "the callback is called when the controller failed")
		time.Sleep(2 * time.Second)
		sym.Quiesce()
		sym.Assert(c.Active == 1, "the controller is executed again")
	case 4:
		sym.Assume(c.Active == 1)
		c.Exit <- nil
		sym.Quiesce()
		sym.Assert(disposed == before, "the callback is not called when the execution returned")
	}
	before = disposed
	ref.Release()
	time.Sleep(2 * time.Second)
	sym.Quiesce()
	sym.Assert(disposed == before, "the callback is not called after the reference was released")
	sym.Assert(c.Active == 0 && c.Closed == 1 && hu.CountCtrl(x.b, c) == 0, "the controller is stopped")
	sym.Cover("end")
}

// L01Cap executes a controller on two loaders for a directive which accepts one value.
//
//verif:prop L01
//verif:bounds a directive with one value resolved by 2 loaders, whose controllers run or return at once; ended by releasing or closing the directive, or removing one loader; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func L01Cap() {
	x := newLd()
	l2, _ := loader.NewController(hu.Le(), x.b)
	_, _ = x.b.AddController(context.Background(), l2, nil)
	f := hu.NewFac("c", 1)
	f.New = func(_ context.Context, _ config.Config, run int) (controller.Controller, error) {
		c := hu.NewCtrl("c")
		f.Mtx.Lock()
		f.Ctrls = append(f.Ctrls, c)
		f.Mtx.Unlock()
		if sym.Bool("finish") {
			c.Body = func(ctx context.Context) error { return nil }
		}
		return c, nil
	}
	hard := sym.Bool("hard")
	r := hu.NewRef("r")
	di, ref, _ := x.b.AddDirective(loader.NewExecControllerWithOpts(f, &hu.Conf{ID: "c", N: 1}, nil, directive.ValueOptions{MaxValueCount: 1, MaxValueHardCap: hard}), r)
	sym.Quiesce()
	r.Check()
	sym.Assert(len(r.Live) >= 1 && (!hard || len(r.Live) == 1), "the directive has a value")
	for _, v := range r.Live {
		on := 0
		for _, c := range f.Ctrls {
			if v.(loader.ExecControllerValue).GetController() == controller.Controller(c) {
				on = hu.CountCtrl(x.b, c)
				sym.Assert(c.Closed == 0, "a reported controller is not closed")
			}
		}
		sym.Assert(on == 1, "a reported controller is on the bus")
	}
	if sym.Bool("remove") {
		x.rel()
		sym.Quiesce()
	}
	if sym.Bool("close") {
		di.Close()
	} else {
		ref.Release()
	}
	sym.Quiesce()
	for _, c := range f.Ctrls {
		sym.Assert(c.Active == 0 && c.Closed == 1 && hu.CountCtrl(x.b, c) == 0, "the controllers are stopped, removed and closed once")
	}
	sym.Cover("end")
}

// L01WaitValues waits for one of several controllers.
//
//verif:prop L01
//verif:bounds a directive with up to 3 values, each a controller of 2 types, none or an error, which are added before or while it is waited for the controller of any type or one type, and removed afterwards in any order; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func L01WaitValues() {
	b := hu.NewBus()
	p := &hu.Puppet{}
	_, _ = b.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p), nil
	}))
	dir := &hu.PlainDir{ID: 1}
	typed := sym.Bool("typed")
	var mtx sym.Mutex
	disposed, finished := 0, false
	var got controller.Controller
	var ref directive.Reference
	var err error
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		cb := func() {
			mtx.Lock()
			disposed++
			mtx.Unlock()
		}
		var g controller.Controller
		var r directive.Reference
		var e error
		if typed {
			var c *hu.Ctrl
			c, _, r, e = loader.WaitExecControllerRunningTyped[*hu.Ctrl](ctx, b, dir, cb)
			if c != nil {
				g = c
			}
		} else {
			g, _, r, e = loader.WaitExecControllerRunning(ctx, b, dir, cb)
		}
		mtx.Lock()
		got, ref, err, finished = g, r, e, true
		mtx.Unlock()
	}()
	sym.Quiesce()
	n := 1 + sym.Choose("values", 3)
	kinds := make([]int, n)
	ctrls := make([]controller.Controller, n)
	ids := make([]uint32, n)
	anyErr, anyOk, anyOther := false, false, false
	for i := range kinds {
		var e error
		kinds[i] = sym.Choose("value", 4)
		switch kinds[i] {
		case 0:
			ctrls[i] = hu.NewCtrl("c")
			anyOk = true
		case 1:
			ctrls[i] = hu.NewLoads()
			anyOther = true
		case 2:
		case 3:
			e = hu.ErrTest
			anyErr = true
		}
		ids[i], _ = p.H.AddValue(loader.NewExecControllerValue(time.Time{}, time.Time{}, ctrls[i], e))
		if sym.Bool("remove at once") {
			_, _ = p.H.RemoveValue(ids[i])
			kinds[i] = 4
		}
	}
	sym.Quiesce()
	if !finished {
		sym.Assert(!(kinds[n-1] <= 1 || kinds[n-1] == 3), "waiting ends with a controller or an error")
		cancel()
		sym.Quiesce()
		sym.Assert(finished && err == context.Canceled && len(b.GetDirectives()) == 0, "waiting ends when the context is canceled")
		sym.Cover("canceled")
		return
	}
	if err != nil {
		if err == hu.ErrTest {
			sym.Assert(anyErr, "no error without a failure")
			sym.Cover("failed")
		} else {
			sym.Assert(typed && anyOther, "a controller of another type is an error")
			sym.Cover("other type")
		}
		sym.Assert(got == nil && len(b.GetDirectives()) == 0, "nothing is left after an error")
		cancel()
		return
	}
	at := -1
	for i, c := range ctrls {
		if c != nil && c == got {
			at = i
		}
	}
	sym.Assert(at >= 0 && ref != nil && (anyOk || anyOther), "one of the controllers is returned")
	if typed {
		_, ok := got.(*hu.Ctrl)
		sym.Assert(ok, "a controller of the type is returned")
	}
	// a value which was removed at once may have been returned before
	sym.Assert((disposed != 0) == (kinds[at] == 4), "the callback is called when the controller is not running anymore")
	if disposed == 0 {
		for i := range kinds {
			if i != at && kinds[i] != 4 {
				_, _ = p.H.RemoveValue(ids[i])
			}
		}
		sym.Quiesce()
		sym.Assert(disposed == 0, "the callback is not called for another value")
		_, _ = p.H.RemoveValue(ids[at])
		sym.Quiesce()
		sym.Cover("removed")
	}
	sym.Assert(disposed == 1, "the callback is called when the controller is not running anymore")
	ref.Release()
	cancel()
	sym.Quiesce()
	sym.Assert(disposed == 1 && len(b.GetDirectives()) == 0, "nothing is left")
	sym.Cover("end")
}
