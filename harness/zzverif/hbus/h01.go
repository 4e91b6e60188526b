package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// lookup is a one-shot lookup which runs in its own goroutine.
type lookup struct {
	mtx      sym.Mutex
	ctx      context.Context
	cancel   context.CancelFunc
	started  bool
	returned bool
	val      any
	id       uint32
	hasVal   bool
	di       directive.Instance
	ref      directive.Reference
	err      error
	disposed int
}

const (
	vOk  = "ok"
	vNo  = "no"
	vErr = "err"
)

// start runs the lookup; api selects the function, idle the idle callback.
func (l *lookup) start(b bus.Bus, dir directive.Directive, api, idle int) {
	l.started = true
	l.ctx, l.cancel = context.WithCancel(context.Background())
	var icb bus.ExecIdleCallback
	switch idle {
	case 1:
		icb = bus.ReturnWhenIdle()
	case 2:
		icb = bus.WaitWhenIdle(true)
	case 3:
		icb = bus.ReturnIfIdle(false)
	case 4:
		icb = bus.ReturnIfIdle(true)
	}
	disp := func() {
		l.mtx.Lock()
		l.disposed++
		l.mtx.Unlock()
	}
	str := func(s string) (bool, error) {
		if s == vErr {
			// the error decides whatever comes with it
			return idle%2 == 0, hu.ErrTest
		}
		return s != vNo, nil
	}
	anyf := func(v any) (bool, error) {
		s, ok := v.(string)
		if !ok {
			return false, nil
		}
		return str(s)
	}
	go func() {
		switch api {
		case 0:
			av, di, ref, err := bus.ExecOneOffWithFilter(l.ctx, b, dir, icb, disp, func(v directive.AttachedValue) (bool, error) {
				return anyf(v.GetValue())
			})
			if av != nil {
				l.val, l.id, l.hasVal = av.GetValue(), av.GetValueID(), true
			}
			l.di, l.ref, l.err = di, ref, err
		case 1:
			av, di, ref, err := bus.ExecOneOffWithFilterTyped(l.ctx, b, dir, icb, disp, func(v directive.TypedAttachedValue[string]) (bool, error) {
				return str(v.GetValue())
			})
			if av != nil {
				l.val, l.id, l.hasVal = av.GetValue(), av.GetValueID(), true
			}
			l.di, l.ref, l.err = di, ref, err
		case 2:
			v, di, ref, err := bus.ExecWaitValue(l.ctx, b, dir, icb, disp, func(v string) (bool, error) { return str(v) })
			if v != "" {
				l.val, l.hasVal = v, true
			}
			l.di, l.ref, l.err = di, ref, err
		case 3:
			x, av, di, ref, err := bus.ExecOneOffWithXfrm(l.ctx, b, dir, icb, disp, func(v directive.AttachedValue) (directive.Value, bool, error) {
				ok, err := anyf(v.GetValue())
				return v.GetValueID(), ok, err
			})
			if av != nil {
				l.val, l.id, l.hasVal = av.GetValue(), av.GetValueID(), true
				sym.Assert(x == l.id, "the transformed value belongs to the returned value")
			} else {
				sym.Assert(x == nil, "no transformed value is returned without a value")
			}
			l.di, l.ref, l.err = di, ref, err
		case 4:
			x, av, di, ref, err := bus.ExecOneOffWithXfrmTyped(l.ctx, b, dir, icb, disp, func(v directive.TypedAttachedValue[string]) (uint32, bool, error) {
				ok, err := str(v.GetValue())
				return v.GetValueID(), ok, err
			})
			if av != nil {
				l.val, l.id, l.hasVal = av.GetValue(), av.GetValueID(), true
				sym.Assert(x == l.id, "the transformed value belongs to the returned value")
			} else {
				sym.Assert(x == 0, "no transformed value is returned without a value")
			}
			l.di, l.ref, l.err = di, ref, err
		case 5:
			av, di, ref, err := bus.ExecOneOffTyped[string](l.ctx, b, dir, icb, disp)
			if av != nil {
				l.val, l.id, l.hasVal = av.GetValue(), av.GetValueID(), true
			}
			l.di, l.ref, l.err = di, ref, err
		case 6:
			av, di, ref, err := bus.ExecOneOff(l.ctx, b, dir, icb, disp)
			if av != nil {
				l.val, l.id, l.hasVal = av.GetValue(), av.GetValueID(), true
			}
			l.di, l.ref, l.err = di, ref, err
		}
		l.returned = true
	}()
}

type h01val struct {
	id uint32
	v  any
}

func h01seq(nops, napi, nidle int) {
	b := hu.NewBus()
	p := &hu.Puppet{}
	stop := make(chan error, 1)
	p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		select {
		case <-ctx.Done():
			return context.Canceled
		case err := <-stop:
			return err
		}
	}
	_, _ = b.AddHandler(hu.Static(p))
	dir := &hu.Dir{Key: 1}
	api, idleMode := sym.Choose("api", napi), sym.Choose("idle", nidle)
	l := &lookup{}
	var keep directive.Reference
	di, keep, _ := b.AddDirective(dir, nil)
	sym.Quiesce()
	var live []h01val
	idle, exited, closed, canceled := false, false, false, false
	var resErr error
	// expected outcome
	done, wantNone := false, false
	var wantErr error
	accept := func(v any) int {
		if api == 6 {
			return 1
		}
		s, ok := v.(string)
		if !ok {
			return 0
		}
		if api == 5 {
			return 1
		}
		if s == vErr {
			return -1
		}
		if s == vNo {
			return 0
		}
		return 1
	}
	nerr, nok := 0, 0
	for i := 0; i <= nops; i++ {
		op := sym.Choose("op", 7)
		if i == nops {
			op = 0
		}
		switch op {
		case 0: // start the lookup
			if l.started {
				if i == nops {
					continue
				}
				return
			}
			l.start(b, &hu.Dir{Key: 1}, api, idleMode)
			for _, v := range live {
				switch accept(v.v) {
				case 1:
					nok++
				case -1:
					nerr++
				}
			}
		case 1: // add a value
			if closed || exited {
				return
			}
			var v any
			switch sym.Choose("val", 4) {
			case 0:
				v = vOk
			case 1:
				v = vNo
			case 2:
				v = vErr
			case 3:
				v = 7
			}
			id, ok := p.H.AddValue(v)
			sym.Assert(ok, "the value is accepted")
			live = append(live, h01val{id, v})
			if l.started && !done {
				switch accept(v) {
				case 1:
					nok++
				case -1:
					nerr++
				}
			}
		case 2: // remove the first value
			if closed || len(live) == 0 {
				return
			}
			p.H.RemoveValue(live[0].id)
			live = live[1:]
		case 3: // idle
			if closed || exited {
				return
			}
			idle = !idle
			p.H.MarkIdle(idle)
		case 4: // the resolver returns
			if closed || exited {
				return
			}
			var err error
			if sym.Bool("fail") {
				err = hu.ErrTest
			}
			if !idle || !l.started {
				// otherwise the idle state does not change and nothing is reported
				resErr = err
			}
			exited, idle = true, true
			stop <- err
		case 5: // cancel
			if !l.started || canceled {
				return
			}
			l.cancel()
			canceled = true
		case 6:
			if closed {
				return
			}
			di.Close()
			closed = true
			live = nil
		}
		sym.Quiesce()
		if !l.started || closed && i == 0 {
			if closed {
				return
			}
			continue
		}
		if !done {
			// what must have happened
			returnsErr := idleMode != 2 && resErr != nil
			returnsIdle := (idleMode == 1 || idleMode == 4) && idle
			switch {
			case nok > 0 && nerr > 0:
				done = true
				sym.Assert(l.returned && (l.hasVal || l.err == hu.ErrTest), "the lookup returns a value or the error of the filter")
			case nok > 0:
				done = true
				sym.Assert(l.returned && l.hasVal && l.err == nil, "the lookup returns an accepted value")
			case nerr > 0:
				done = true
				sym.Assert(l.returned && l.err == hu.ErrTest, "the lookup returns the error of the filter")
			case returnsErr:
				done, wantErr = true, resErr
			case returnsIdle:
				done, wantNone = true, true
			case closed:
				done, wantErr = true, directive.ErrDirectiveDisposed
			case canceled:
				done, wantErr = true, context.Canceled
			default:
				sym.Assert(!l.returned, "the lookup waits until a value is accepted or it has to end")
			}
			if wantNone {
				sym.Assert(l.returned && !l.hasVal && l.err == nil, "the lookup returns without a value when the directive is idle")
			}
			if wantErr != nil {
				sym.Assert(l.returned && l.err == wantErr, "the lookup returns the error")
			}
			if done {
				sym.Assert((l.ref != nil) == l.hasVal && (l.di != nil) == l.hasVal, "a reference is returned with a value only")
				sym.Assert(!l.hasVal || l.err == nil, "no value is returned with an error")
				if l.hasVal {
					sym.Assert(accept(l.val) == 1, "the returned value was accepted by the filter")
					sym.Assert(l.di == di, "the instance of the directive is returned")
					sym.Cover("value")
				} else {
					sym.Cover("none")
				}
			}
		}
	}
	if !done || api == 2 {
		sym.Cover("end")
		return
	}
	if l.hasVal {
		stillLive := false
		for _, v := range live {
			if v.id == l.id {
				stillLive = true
				sym.Assert(v.v == l.val, "the returned value is a value of the directive")
			}
		}
		sym.Assert((l.disposed > 0) == !stillLive, "the dispose callback is called exactly if the returned value is removed")
		if !closed {
			keep.Release()
			sym.Quiesce()
			sym.Assert(hu.Has(b, di), "the returned reference keeps the directive")
			n := l.disposed
			l.ref.Release()
			sym.Quiesce()
			sym.Assert(l.disposed == n, "nothing is told after the reference was released")
			sym.Assert(!hu.Has(b, di), "the directive is released with the returned reference")
		}
	} else if !closed {
		keep.Release()
		sym.Quiesce()
		sym.Assert(!hu.Has(b, di), "a lookup which returns no value holds no reference")
	}
	sym.Cover("end")
}

// H01Seq runs the lookup with a filter against arbitrary histories of its directive.
//
//verif:prop H01
//verif:bounds histories of 4 operations (start, add a value of 4 kinds, remove, change the idle state, return or fail the resolver, cancel, close) and 5 idle callbacks
//verif:quick preempt=0 delay=0
//verif:thorough preempt=0 delay=0
func H01Seq() { h01seq(4, 1, 5) }

// H01SeqLong runs longer histories.
//
//verif:prop H01
//verif:bounds histories of 6 operations, 5 idle callbacks
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0
func H01SeqLong() { h01seq(6, 1, 5) }

// H01Api runs all variants of the lookup.
//
//verif:prop H01
//verif:bounds histories of 3 operations, 7 variants of the lookup (filter, typed, wait, transform), 3 idle callbacks
//verif:quick preempt=0 delay=0
//verif:thorough preempt=1
func H01Api() { h01seq(3, 7, 3) }

// H01Conc races a lookup with the values, the idle state, cancellation and disposal.
//
//verif:prop H01
//verif:bounds a lookup racing a resolver with 2 values (rejected, failing or accepted) which is marked idle or fails, and the removal of the value, cancellation or disposal; 3 idle callbacks; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func H01Conc() {
	b := hu.NewBus()
	p := &hu.Puppet{}
	second := sym.Choose("second", 3)
	end := sym.Choose("end", 3)
	if second == 2 {
		end = 0
	}
	p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		h.AddValue(vNo)
		var id uint32
		switch second {
		case 0:
			id, _ = h.AddValue(vOk)
		case 1:
			id, _ = h.AddValue(vErr)
		}
		if end == 1 {
			h.RemoveValue(id)
		} else if end == 2 {
			return hu.ErrTest
		}
		h.MarkIdle(true)
		<-ctx.Done()
		return context.Canceled
	}
	_, _ = b.AddHandler(hu.Static(p))
	l := &lookup{}
	api, idleMode := sym.Choose("api", 2), sym.Choose("idle", 3)
	l.start(b, &hu.Dir{Key: 1}, api, idleMode)
	ev := sym.Choose("event", 3)
	switch ev {
	case 1:
		l.cancel()
	case 2:
		for _, d := range b.GetDirectives() {
			d.Close()
		}
	}
	sym.Quiesce()
	if l.returned {
		sym.Assert((l.ref != nil) == l.hasVal && (l.di != nil) == l.hasVal, "a reference is returned with a value only")
		sym.Assert(!l.hasVal || l.err == nil && l.val == vOk, "the returned value was accepted by the filter")
		switch l.err {
		case nil:
			sym.Assert(l.hasVal || idleMode == 1, "the lookup waits for a value unless told otherwise")
		case context.Canceled:
			sym.Assert(ev == 1, "the error tells what happened")
		case directive.ErrDirectiveDisposed:
			sym.Assert(ev == 2, "the error tells what happened")
		default:
			sym.Assert(l.err == hu.ErrTest && (second == 1 || end == 2 && idleMode != 2), "the error tells what happened")
		}
	} else {
		sym.Assert(ev != 1 && idleMode != 1 && (idleMode == 2 || end != 2) && (second == 2 || end == 1 || ev == 2), "the lookup returns once there is a value, an error or it has to end")
		sym.Cover("waiting")
	}
	if l.hasVal {
		gone := end == 1 || len(b.GetDirectives()) == 0
		if gone || ev != 2 {
			sym.Assert((l.disposed != 0) == gone, "the dispose callback is called exactly if the returned value is removed")
		}
		l.ref.Release()
		sym.Cover("value")
	} else if l.returned {
		sym.Cover("none")
	}
	if l.returned {
		sym.Quiesce()
		sym.Assert(len(b.GetDirectives()) == 0, "a lookup which returned holds no other reference")
	}
	sym.Cover("end")
}
