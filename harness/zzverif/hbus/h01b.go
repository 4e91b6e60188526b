package hbus

import (
	"context"
	"errors"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

var h01err2 = errors.New("second error")

func h01idle(nops int) {
	b := hu.NewBus()
	ps := []*hu.Puppet{{}, {}}
	stops := []chan error{make(chan error, 1), make(chan error, 1)}
	for i := range ps {
		i := i
		ps[i].Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
			select {
			case <-ctx.Done():
				return context.Canceled
			case err := <-stops[i]:
				return err
			}
		}
	}
	_, _ = b.AddHandler(hu.Static(ps[0]))
	_, _ = b.AddHandler(hu.Static(ps[1]))
	di, keep, _ := b.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	mode := sym.Choose("idle", 7)
	start := sym.Choose("start", nops)
	started, returned := false, false
	var gotVal directive.AttachedValue
	var gotErr error
	var mtx sym.Mutex
	done := false
	var wantErr error
	// decide is the meaning of the idle callback of the mode
	decide := func(isIdle bool, errs []error) (bool, error) {
		var first error
		n := 0
		for _, err := range errs {
			if err != nil {
				n++
				if first == nil {
					first = err
				}
			}
		}
		switch mode {
		case 0, 3:
			return first != nil, first
		case 1, 4:
			return isIdle, first
		case 6:
			return isIdle && n == 2, nil
		}
		return false, nil
	}
	var calls, wantCalls int
	var told, wantTold bool
	custom := func(isIdle bool, errs []error) (bool, error) {
		mtx.Lock()
		calls++
		told = isIdle
		mtx.Unlock()
		if mode == 5 {
			return isIdle, nil
		}
		ret, _ := decide(isIdle, errs)
		return !ret, nil
	}
	exited := []bool{false, false}
	idle := []bool{false, false}
	for i := 0; i < nops; i++ {
		if i == start {
			started = true
			var cb bus.ExecIdleCallback
			switch mode {
			case 1:
				cb = bus.ReturnWhenIdle()
			case 2:
				cb = bus.WaitWhenIdle(true)
			case 3:
				cb = bus.ReturnIfIdle(false)
			case 4:
				cb = bus.ReturnIfIdle(true)
			case 5, 6:
				cb = custom
			}
			go func() {
				gotVal, _, _, gotErr = bus.ExecOneOff(context.Background(), b, &hu.Dir{Key: 1}, cb, nil)
				returned = true
			}()
			sym.Quiesce()
			di.AddIdleCallback(func(isIdle bool, errs []error) {
				mtx.Lock()
				defer mtx.Unlock()
				if done {
					return
				}
				wantCalls++
				wantTold = isIdle
				if ret, err := decide(isIdle, errs); ret {
					done, wantErr = true, err
				}
			})
			sym.Quiesce()
		} else {
			k := sym.Choose("resolver", 2)
			if exited[k] {
				return
			}
			switch sym.Choose("op", 3) {
			case 0:
				idle[k] = !idle[k]
				ps[k].H.MarkIdle(idle[k])
			case 1:
				exited[k] = true
				stops[k] <- nil
			case 2:
				exited[k] = true
				if k == 0 {
					stops[k] <- hu.ErrTest
				} else {
					stops[k] <- h01err2
				}
			}
			sym.Quiesce()
		}
		if !started {
			continue
		}
		sym.Assert(returned == done, "the lookup returns exactly when its idle callback or an error ends it")
		if done {
			sym.Assert(gotVal == nil && gotErr == wantErr, "the lookup returns the error which ended it, or nothing")
			break
		}
		if mode >= 5 {
			sym.Assert(told == wantTold, "the idle callback is told the current idle state")
			sym.Assert(calls == wantCalls, "the idle callback is told about every change of the idle state and of the errors")
		}
	}
	if started {
		keep.Release()
		sym.Quiesce()
		sym.Assert(hu.Has(b, di) == !done, "the lookup holds a reference while it waits and none afterwards")
	}
	if done {
		sym.Cover("ended")
	}
	sym.Cover("end")
}

// H01Idle compares the lookup with the idle state and the errors of two resolvers.
//
//verif:prop H01
//verif:bounds histories of 4 operations (start, change the idle state, return or fail) on 2 resolvers, 7 idle callbacks
//verif:quick preempt=0 delay=0 merge=0
//verif:thorough preempt=0 delay=1 merge=0
func H01Idle() { h01idle(4) }

// H01IdleLong runs longer histories.
//
//verif:prop H01
//verif:bounds as before with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0 merge=0
func H01IdleLong() { h01idle(5) }
