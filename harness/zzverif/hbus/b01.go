// Package hbus has the harnesses of the bus and of the lookup helpers.
package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

type b01ctl struct {
	c        *hu.Ctrl
	rel      func()
	cancel   context.CancelFunc
	attached bool
	running  bool
	cbs      int
	cbErr    error
	wantErr  error
	execMode bool
	offered  int
	returned bool
	retErr   error
}

func b01seq(nops int) {
	b := hu.NewBus()
	// the controllers share the id: several of a kind can be attached
	ctls := []*b01ctl{{c: hu.NewCtrl("a")}, {c: hu.NewCtrl("a")}}
	other := hu.NewCtrl("a")
	_, err := b.AddController(context.Background(), other, nil)
	sym.Assert(err == nil, "a controller can be added")
	ndirs := 0
	sym.Quiesce()
	for i := 0; i < nops; i++ {
		op := sym.Choose("op", 6)
		x := ctls[0]
		if op < 5 {
			x = ctls[sym.Choose("ctl", 2)]
		}
		switch op {
		case 0: // add
			if x.attached || x.c.Runs != 0 {
				return
			}
			ctx, cancel := context.WithCancel(context.Background())
			x.cancel = cancel
			x.attached, x.running = true, true
			x.offered = ndirs
			if sym.Bool("exec") {
				x.execMode = true
				go func() {
					x.retErr = b.ExecuteController(ctx, x.c)
					x.returned = true
				}()
			} else {
				rel, err := b.AddController(ctx, x.c, func(err error) { x.cbs++; x.cbErr = err })
				sym.Assert(err == nil && rel != nil, "a controller can be added")
				x.rel = rel
			}
		case 1: // release or cancel
			if x.cancel == nil {
				return
			}
			if x.rel != nil && sym.Bool("rel") {
				x.rel()
			} else {
				x.cancel()
				if !x.running {
					// a controller which is done is not affected
					break
				}
			}
			x.attached, x.running = false, false
		case 2: // remove
			if x.cancel == nil {
				return
			}
			b.RemoveController(x.c)
			x.attached = false
		case 3: // exit with an error
			if !x.running {
				return
			}
			x.c.Exit <- hu.ErrTest
			x.wantErr = hu.ErrTest
			x.attached, x.running = false, false
		case 4: // exit without error
			if !x.running {
				return
			}
			x.c.Exit <- nil
			x.running = false
		case 5:
			_, _, err := b.AddDirective(&hu.PlainDir{ID: i}, nil)
			sym.Assert(err == nil, "a directive can be added")
			ndirs++
			for _, y := range ctls {
				if y.attached {
					y.offered++
				}
			}
		}
		sym.Quiesce()
		n := 1
		for _, y := range ctls {
			want := 0
			if y.attached {
				want = 1
				n++
			}
			sym.Assert(hu.CountCtrl(b, y.c) == want, "exactly the attached controllers are listed")
			sym.Assert(y.c.Total == y.offered, "a controller is asked about every directive while it is attached and about none afterwards")
			if y.cancel != nil {
				sym.Assert(y.c.Runs == 1, "a controller is executed once")
				sym.Assert(hu.Done(y.c.Ctx) || y.running || y.c.Active == 0, "the execution of a released controller is canceled")
				wantAct := 0
				if y.running {
					wantAct = 1
				}
				sym.Assert(y.c.Active == wantAct, "a controller runs until it returns, is released or its context is canceled")
			}
			if y.wantErr != nil {
				if y.execMode {
					sym.Assert(y.returned && y.retErr == y.wantErr, "the error of the controller is returned")
				} else {
					sym.Assert(y.cbs == 1 && y.cbErr == y.wantErr, "the error of the controller is told once")
				}
			} else if y.running {
				sym.Assert(y.cbs == 0 && !y.returned, "no exit is reported while the controller runs")
			}
		}
		sym.Assert(len(b.GetControllers()) == n && hu.CountCtrl(b, other) == 1 && other.Active == 1, "the other controllers are not affected")
	}
	sym.Cover("end")
}

// B01Seq runs arbitrary histories.
//
//verif:prop B01
//verif:bounds histories of 4 operations (add or execute, release or cancel, remove, exit with an error, exit without, add a directive) on 2 controllers next to a third
//verif:quick preempt=0 delay=0
//verif:thorough preempt=0 delay=1
func B01Seq() { b01seq(4) }

// B01SeqLong runs longer histories.
//
//verif:prop B01
//verif:bounds as before, with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0
func B01SeqLong() { b01seq(5) }

// B01Exit has a controller exit after or without the cancellation of its context.
//
//verif:prop B01
//verif:bounds a controller added or executed which returns no error, its own error or the one of its context, after the cancellation of the context or before; added again from inside its callback or not; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=3
func B01Exit() {
	b := hu.NewBus()
	x, y := hu.NewCtrl("x"), hu.NewCtrl("x")
	_, err := b.AddController(context.Background(), y, nil)
	sym.Assert(err == nil, "a controller can be added")
	how := sym.Choose("exit", 3)
	canceled := sym.Bool("canceled")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fail := hu.ErrTest
	x.Body = func(ctx context.Context) error {
		if x.Runs > 1 {
			<-ctx.Done()
			return nil
		}
		if canceled {
			<-ctx.Done()
		}
		switch how {
		case 0:
			return nil
		case 1:
			return fail
		}
		return context.Canceled
	}
	var want error
	if how == 1 {
		want = fail
	} else if how == 2 {
		want = context.Canceled
	}
	exec := sym.Bool("exec")
	again := sym.Bool("again")
	n := 0
	check := func(err error) {
		n++
		sym.Assert(err == want, "the error of the controller is reported")
		if want != nil {
			sym.Assert(hu.CountCtrl(b, x) == 0, "a failed controller is removed when its error is reported")
		}
		if again && want != nil {
			_, err = b.AddController(context.Background(), x, nil)
			sym.Assert(err == nil, "a controller can be added again when its error is reported")
		}
	}
	if exec {
		go func() { check(b.ExecuteController(ctx, x)) }()
	} else {
		_, err = b.AddController(ctx, x, check)
		sym.Assert(err == nil, "a controller can be added")
	}
	if canceled {
		go cancel()
	}
	sym.Quiesce()
	if want != nil || exec {
		sym.Assert(n == 1, "the result of the controller is reported once")
	} else {
		sym.Assert(n == 0, "no error is reported for a controller without one")
	}
	at := 1
	if want != nil && !again {
		at = 0
	}
	sym.Assert(hu.CountCtrl(b, x) == at, "a controller without an error stays, a failed one does not")
	sym.Assert(hu.CountCtrl(b, y) == 1 && y.Active == 1, "the other controllers are not affected")
	_, _, err = b.AddDirective(&hu.PlainDir{ID: 1}, nil)
	sym.Assert(err == nil, "a directive can be added")
	sym.Quiesce()
	sym.Assert(x.Total == at && y.Total == 1, "exactly the attached controllers are asked about a directive")
	sym.Cover("end")
}

// B01Conc races the exit of a controller with its removal, directives and other controllers.
//
//verif:prop B01
//verif:bounds one controller exiting with an error, without one or when canceled; released or removed concurrently; a directive and a second controller added concurrently; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func B01Conc() {
	b := hu.NewBus()
	x, y := hu.NewCtrl("x"), hu.NewCtrl("y")
	how := sym.Choose("exit", 3)
	x.Body = func(ctx context.Context) error {
		switch how {
		case 0:
			return hu.ErrTest
		case 1:
			return nil
		}
		<-ctx.Done()
		return ctx.Err()
	}
	cbs := 0
	rel, err := b.AddController(context.Background(), x, func(err error) {
		sym.Assert(err != nil, "the exit error is told")
		cbs++
	})
	sym.Assert(err == nil, "a controller can be added")
	remove := sym.Bool("remove")
	go func() {
		if remove {
			b.RemoveController(x)
		} else {
			rel()
		}
	}()
	go func() {
		_, _ = b.AddController(context.Background(), y, nil)
	}()
	_, _, _ = b.AddDirective(&hu.PlainDir{ID: 1}, nil)
	sym.Quiesce()
	sym.Assert(hu.CountCtrl(b, x) == 0, "a removed controller is not listed")
	sym.Assert(hu.CountCtrl(b, y) == 1 && len(b.GetControllers()) == 1, "the other controller is listed once")
	sym.Assert(x.Runs == 1 && y.Runs == 1, "every controller is executed once")
	sym.Assert(x.Total <= 1 && y.Total == 1, "a controller is asked once about a directive")
	if how == 0 {
		sym.Assert(cbs == 1, "the error is told once")
	} else if how == 1 {
		sym.Assert(cbs == 0, "a normal exit is no error")
	} else if !remove {
		sym.Assert(x.Active == 0, "a released controller is canceled")
	}
	seen := x.Total
	_, _, _ = b.AddDirective(&hu.PlainDir{ID: 2}, nil)
	sym.Quiesce()
	sym.Assert(x.Total == seen && y.Total == 2, "a removed controller is not asked anymore")
	sym.Cover("end")
}

// B01Reenter uses the bus from inside the callbacks of a controller.
//
//verif:prop B01
//verif:bounds one of 5 operations on the bus from inside HandleDirective, while the controller is added or afterwards
//verif:quick preempt=1
//verif:thorough preempt=2
func B01Reenter() {
	b := hu.NewBus()
	x, y, z := hu.NewCtrl("x"), hu.NewCtrl("y"), hu.NewCtrl("z")
	relZ, _ := b.AddController(context.Background(), z, nil)
	op := sym.Choose("op", 5)
	done := 0
	x.Fn = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if done != 0 {
			return nil, nil
		}
		done++
		switch op {
		case 0:
			sym.Assert(hu.CountCtrl(b, z) == 1, "the bus can be used from inside a callback")
		case 1:
			_, err := b.AddController(context.Background(), y, nil)
			sym.Assert(err == nil, "the bus can be used from inside a callback")
		case 2:
			relZ()
		case 3:
			_, _, err := b.AddDirective(&hu.PlainDir{ID: 2}, nil)
			sym.Assert(err == nil, "the bus can be used from inside a callback")
		case 4:
			b.RemoveController(x)
		}
		return nil, nil
	}
	first := sym.Bool("first")
	if first {
		_, _, _ = b.AddDirective(&hu.PlainDir{ID: 1}, nil)
	}
	_, _ = b.AddController(context.Background(), x, nil)
	if !first {
		_, _, _ = b.AddDirective(&hu.PlainDir{ID: 1}, nil)
	}
	sym.Quiesce()
	sym.Assert(done == 1, "the controller is asked")
	want := 2
	switch op {
	case 1:
		want = 3
		sym.Assert(hu.CountCtrl(b, y) == 1 && y.Runs == 1 && y.Total == 1, "the added controller is attached")
	case 2:
		want = 1
		sym.Assert(z.Active == 0, "the released controller is stopped")
	case 3:
		sym.Assert(x.Total == 2 && z.Total == 2, "all controllers are asked about the new directive")
	case 4:
		// a controller which is being added may stay, but it is listed if it is asked
		want = 1 + hu.CountCtrl(b, x)
		sym.Assert(first || want == 1, "the controller is removed from inside its callback")
		_, _, _ = b.AddDirective(&hu.PlainDir{ID: 2}, nil)
		sym.Quiesce()
		sym.Assert(x.Total == want, "a controller is asked exactly while it is listed")
		b.RemoveController(x)
		_, _, _ = b.AddDirective(&hu.PlainDir{ID: 3}, nil)
		sym.Quiesce()
		sym.Assert(x.Total == want && z.Total == 3, "a removed controller is not asked anymore")
		want = 1
	}
	sym.Assert(len(b.GetControllers()) == want, "exactly the attached controllers are listed")
	sym.Cover("end")
}

// B01RemoveCascade releases a controller from inside a notification caused by the removal of another one.
//
//verif:prop B01
//verif:bounds a controller whose removal, by any of 4 ways, removes a value, in whose removal callback another controller is released or added or the list is read
//verif:quick preempt=1
//verif:thorough preempt=2
func B01RemoveCascade() {
	b := hu.NewBus()
	x, y := hu.NewCtrl("x"), hu.NewCtrl("y")
	x.Fn = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(directive.NewValueResolver([]string{"v"})), nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rel, _ := b.AddController(ctx, x, nil)
	what := sym.Choose("what", 3)
	var relY func()
	n := 0
	_, ref, err := bus.ExecWatchEffect(func(directive.TypedAttachedValue[string]) func() {
		if what != 1 {
			relY, _ = b.AddController(context.Background(), y, nil)
		}
		return func() {
			n++
			switch what {
			case 0:
				relY()
			case 1:
				_, _ = b.AddController(context.Background(), y, nil)
			case 2:
				sym.Assert(hu.CountCtrl(b, y) == 1, "the bus can be used from inside a callback")
			}
		}
	}, b, &hu.PlainDir{ID: 1})
	sym.Assert(err == nil && ref != nil, "the directive is added")
	sym.Quiesce()
	switch sym.Choose("how", 4) {
	case 0:
		rel()
	case 1:
		b.RemoveController(x)
	case 2:
		x.Exit <- hu.ErrTest
	case 3:
		cancel()
	}
	sym.Quiesce()
	sym.Assert(n == 1, "the value of the removed controller is removed")
	sym.Assert(hu.CountCtrl(b, x) == 0, "the removed controller is not listed")
	want := 1
	if what == 0 {
		want = 0
	}
	sym.Assert(hu.CountCtrl(b, y) == want && y.Active == want, "the other controller is released or added")
	sym.Cover("end")
}

// B02Panic lets controllers panic.
//
//verif:prop B02
//verif:bounds a controller added or executed which panics with an error or another value at once, later, or in HandleDirective, next to a second controller; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=2
func B02Panic() {
	b := hu.NewBus()
	x, y := hu.NewCtrl("x"), hu.NewCtrl("y")
	p := &hu.Puppet{}
	y.Fn = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p), nil
	}
	x.Fn = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(directive.NewValueResolver([]string{"v"})), nil
	}
	_, _ = b.AddController(context.Background(), y, nil)
	var perr error = hu.ErrPanic
	if sym.Bool("string") {
		perr = hu.ErrPanicStr
	}
	if sym.Bool("early") {
		x.Exit <- perr
		perr = nil
	}
	cbs, rets := 0, 0
	var gerr error
	if sym.Bool("exec") {
		go func() {
			gerr = b.ExecuteController(context.Background(), x)
			rets++
		}()
	} else {
		_, err := b.AddController(context.Background(), x, func(err error) { cbs++; gerr = err })
		sym.Assert(err == nil, "a controller can be added")
	}
	r := hu.NewRef("r")
	_, _, _ = b.AddDirective(&hu.PlainDir{ID: 1}, r)
	if perr != nil {
		sym.Quiesce()
		sym.Assert(len(r.Live) == 1, "the controller resolves the directive")
		x.Exit <- perr
	}
	sym.Quiesce()
	sym.Assert(cbs+rets == 1 && gerr != nil, "the panic is reported as an error once")
	sym.Assert(hu.CountCtrl(b, x) == 0, "the controller which panicked is removed")
	sym.Assert(len(r.Live) == 0, "the values of the controller which panicked are removed")
	sym.Assert(y.Active == 1 && hu.CountCtrl(b, y) == 1 && p.Active == 1, "the other controller keeps running")
	sym.Cover("end")
}
