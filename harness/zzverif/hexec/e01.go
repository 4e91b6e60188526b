package hexec

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	cexec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	cres "github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

const (
	unknown     = cexec.ControllerStatus_ControllerStatus_UNKNOWN
	configuring = cexec.ControllerStatus_ControllerStatus_CONFIGURING
	running     = cexec.ControllerStatus_ControllerStatus_RUNNING
	failed      = cexec.ControllerStatus_ControllerStatus_ERROR
)

// loadBus has a puppet resolver for the load directives.
func loadBus() (bus.Bus, *hu.Puppet) {
	b := hu.NewBus()
	p := &hu.Puppet{}
	_, _ = b.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if _, ok := di.GetDirective().(cres.LoadControllerWithConfig); !ok {
			return nil, nil
		}
		return directive.Resolvers(p), nil
	}))
	return b, p
}

func val(ctrl controller.Controller, err error) directive.Value {
	return loader.NewExecControllerValue(time.Time{}, time.Time{}, ctrl, err)
}

// e01 executes a controller whose state changes nops times.
func e01(nops int, blockCb bool) {
	b, p := loadBus()
	ctx, cancel := context.WithCancel(context.Background())
	var mtx sym.Mutex
	var states []cexec.ControllerStatus
	var rerr error
	returned := false
	go func() {
		err := cexec.ExecuteController(ctx, b, &hu.Conf{ID: "c", N: 1}, func(s cexec.ControllerStatus) {
			mtx.Lock()
			states = append(states, s)
			mtx.Unlock()
		})
		mtx.Lock()
		rerr, returned = err, true
		mtx.Unlock()
	}()
	sym.Quiesce()
	sym.Assert(p.Runs == 1 && len(states) == 0, "the controller is loaded once and nothing is reported before")
	ctrl := hu.NewCtrl("c")
	id := uint32(0)
	cur := unknown
	ever := false
	for i := 0; i < nops; i++ {
		if id != 0 {
			_, _ = p.H.RemoveValue(id)
			id = 0
			if cur == running {
				cur = configuring
			}
		}
		ok := true
		switch sym.Choose("value", 4) {
		case 0:
		case 1:
			id, ok = p.H.AddValue(val(ctrl, nil))
			cur, ever = running, true
		case 2:
			id, ok = p.H.AddValue(val(nil, nil))
			cur, ever = configuring, true
		case 3:
			id, _ = p.H.AddValue(val(nil, hu.ErrTest))
			cur, ever = failed, true
		}
		sym.Assert(ok, "the value is accepted")
		if cur == failed {
			break
		}
		if sym.Bool("wait") {
			sym.Quiesce()
			last := unknown
			if len(states) != 0 {
				last = states[len(states)-1]
			}
			sym.Assert(last == cur, "the last reported status is the current one")
		}
	}
	sym.Quiesce()
	last := unknown
	for i, s := range states {
		sym.Assert(i == 0 || states[i-1] != s, "a status is reported when it changes")
		last = s
	}
	sym.Assert(last == cur, "the last reported status is the current one")
	sym.Assert(ever || len(states) == 0, "nothing is reported before there is a value")
	if cur == failed {
		sym.Assert(returned && rerr == hu.ErrTest, "an error of the controller ends the execution and is returned")
		sym.Cover("failed")
	} else {
		sym.Assert(!returned, "the execution continues while there is no error")
		if sym.Bool("close") {
			for _, d := range b.GetDirectives() {
				d.Close()
			}
			sym.Quiesce()
			sym.Assert(returned && rerr == context.Canceled, "the execution ends when the directive is closed")
		} else {
			cancel()
			sym.Quiesce()
			sym.Assert(returned && (rerr == nil || rerr == context.Canceled), "the execution ends when it is canceled")
		}
	}
	cancel()
	sym.Quiesce()
	sym.Assert(len(b.GetDirectives()) == 0 && p.Active == 0, "nothing is left after the execution")
	sym.Cover("end")
}

// E01Single executes a controller.
//
//verif:prop E01
//verif:bounds 2 changes of the state of the controller (none, running, not running, failed) with or without waiting in between, ended by an error, cancellation or closing the directive; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=3 delay=1
func E01Single() { e01(2, false) }
