package hcfg

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	cc "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// C02Lookup looks up a key while it is pushed and released.
//
//verif:prop C02
//verif:bounds a goroutine adding a reference to a key with a callback and releasing it at once or keeping it, concurrently with pushing a configuration for the key, which is released at once or kept; all schedules up to the preemption bound
//verif:quick preempt=2 delay=1
//verif:thorough preempt=4 delay=1
func C02Lookup() {
	x := newCs()
	keepLook, keepPush := sym.Bool("keep lookup"), sym.Bool("keep push")
	var mtx sym.Mutex
	var look, push configset.Reference
	var st configset.State
	released, late := false, false
	done := 0
	go func() {
		ref, err := x.c.AddConfigSetReference(context.Background(), "a")
		sym.Assert(err == nil, "a reference is added")
		ref.AddStateCallback(func(s configset.State) {
			mtx.Lock()
			st = s
			late = late || released
			mtx.Unlock()
		})
		if !keepLook {
			ref.Release()
			mtx.Lock()
			released = true
			mtx.Unlock()
			ref.Release()
		}
		look = ref
		done++
	}()
	ref, err := x.c.PushControllerConfig(context.Background(), "a", configset.NewControllerConfig(1, &hu.Conf{ID: "c", N: 1}))
	sym.Assert(err == nil, "the configuration is pushed")
	if !keepPush {
		ref.Release()
	}
	push = ref
	sym.Quiesce()
	sym.Assert(done == 1, "looking up and releasing does not block")
	sym.Assert(!late, "a released reference does not report states")
	if keepPush {
		sym.Assert(x.loads.Total() == 1, "a referenced configuration runs")
	}
	if !keepPush && !keepLook {
		sym.Assert(x.loads.Total() == 0, "nothing runs without references")
		sym.Cover("none")
	}
	if keepLook {
		cur := look.GetState()
		sym.Assert(cur.GetId() == "a" && st != nil, "the state of the key is reported")
		sym.Assert(st.GetController() == cur.GetController() && st.GetControllerConfig() == cur.GetControllerConfig(), "the last reported state is the current one")
		if x.loads.Total() == 1 {
			sym.Assert(cur.GetController() == x.loads.Ctrls[1], "the running controller is reported")
			sym.Cover("looked up")
		} else {
			sym.Assert(cur.GetController() == nil, "no controller is reported")
			sym.Cover("not running")
		}
		look.Release()
	}
	push.Release()
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}

// C02Unload removes and adds what runs the configurations.
//
//verif:prop C02
//verif:bounds a pushed configuration, failing or not, with up to 2 changes: what runs it is removed and added again, or its value replaced
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func C02Unload() {
	x := &cs{b: hu.NewBus(), loads: hu.NewLoads()}
	relLoads, _ := x.b.AddController(context.Background(), x.loads, nil)
	x.c, _ = cc.NewController(hu.Le(), x.b)
	x.rel, _ = x.b.AddController(context.Background(), x.c, nil)
	x.loads.Err[1] = sym.Bool("fails")
	conf := configset.NewControllerConfig(1, &hu.Conf{ID: "c", N: 1})
	ref, _ := x.c.PushControllerConfig(context.Background(), "a", conf)
	var st configset.State
	ref.AddStateCallback(func(s configset.State) { st = s })
	check := func(on bool) {
		sym.Quiesce()
		for _, s := range []configset.State{st, ref.GetState()} {
			sym.Assert(s.GetControllerConfig() == conf, "the configuration is reported")
			if on {
				sym.Assert(s.GetController() == x.loads.Ctrls[1] && s.GetError() != nil == x.loads.Err[1], "the running controller or its error is reported")
			} else {
				sym.Assert(s.GetController() == nil && s.GetError() == nil, "a controller or error which is gone is not reported")
			}
		}
		sym.Assert(x.loads.Total() == map[bool]int{true: 1}[on], "the configuration runs when it can")
	}
	check(true)
	on := true
	for range sym.Choose("changes", 3) {
		if on {
			relLoads()
		} else {
			x.loads.Err[1] = sym.Bool("fails again")
			relLoads, _ = x.b.AddController(context.Background(), x.loads, nil)
		}
		on = !on
		check(on)
		sym.Cover("changed")
	}
	ref.Release()
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}

// C02Fail refuses the directive which runs a configuration.
//
//verif:prop C02
//verif:bounds the bus refuses the directive of the first configuration, and it is replaced by a second one which is accepted or not
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func C02Fail() {
	x := &cs{b: hu.NewBus(), loads: hu.NewLoads()}
	_, _ = x.b.AddController(context.Background(), x.loads, nil)
	fb := &hu.FailBus{Bus: x.b, Err: hu.ErrTest}
	x.c, _ = cc.NewController(hu.Le(), fb)
	x.rel, _ = x.b.AddController(context.Background(), x.c, nil)
	var _ bus.Bus = fb
	ref, _ := x.c.PushControllerConfig(context.Background(), "a", configset.NewControllerConfig(1, &hu.Conf{ID: "c", N: 1}))
	var st configset.State
	ref.AddStateCallback(func(s configset.State) { st = s })
	sym.Quiesce()
	sym.Assert(st.GetController() == nil && st.GetError() != nil && ref.GetState().GetError() == st.GetError(), "an error of the bus is reported")
	if sym.Bool("replace") {
		again := sym.Bool("fails again")
		if !again {
			fb.Err = nil
		}
		ref2, _ := x.c.PushControllerConfig(context.Background(), "a", configset.NewControllerConfig(2, &hu.Conf{ID: "c", N: 2}))
		sym.Quiesce()
		sym.Assert(st.GetControllerConfig().GetRev() == 2, "the new configuration is reported")
		if again {
			sym.Assert(st.GetError() != nil, "an error of the bus is reported")
		} else {
			sym.Assert(x.loads.Total() == 1 && st.GetController() == x.loads.Ctrls[2] && st.GetError() == nil, "the new configuration runs")
			sym.Cover("runs")
		}
		ref2.Release()
	}
	ref.Release()
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}

// C02Change changes what a running configuration reports.
//
//verif:prop C02
//verif:bounds a running configuration with 3 callbacks whose controller is 2 times replaced by another one, the same one, an error or nothing, at once or with waiting in between, or whose directive is closed; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func C02Change() {
	x := newCs()
	conf := configset.NewControllerConfig(1, &hu.Conf{ID: "c", N: 1})
	ref, _ := x.c.PushControllerConfig(context.Background(), "a", conf)
	var st [3]configset.State
	for i := range st {
		ref.AddStateCallback(func(s configset.State) { st[i] = s })
	}
	sym.Quiesce()
	ctrls := []controller.Controller{x.loads.Ctrls[1], hu.NewCtrl("other")}
	check := func(ctrl controller.Controller, err error) {
		for _, s := range []configset.State{st[0], st[1], st[2], ref.GetState()} {
			sym.Assert(s.GetControllerConfig() == conf, "the configuration is reported")
			sym.Assert(s.GetController() == ctrl && s.GetError() == err, "exactly the current controller or error is reported")
		}
	}
	check(ctrls[0], nil)
	for range 2 {
		if sym.Bool("close") {
			for _, d := range x.b.GetDirectives() {
				d.Close()
			}
			sym.Quiesce()
			sym.Assert(x.loads.Total() == 1, "the configuration is started again when its directive is closed")
			ctrls[0] = x.loads.Ctrls[1]
			check(ctrls[0], nil)
			sym.Cover("closed")
			continue
		}
		h := x.loads.H[1]
		h.ClearValues()
		if sym.Bool("wait") {
			sym.Quiesce()
			check(nil, nil)
		}
		var ctrl controller.Controller
		var err error
		switch sym.Choose("value", 4) {
		case 0:
			ctrl = ctrls[0]
		case 1:
			ctrl = ctrls[1]
		case 2:
			err = hu.ErrTest
		case 3:
			sym.Quiesce()
			check(nil, nil)
			continue
		}
		h.AddValue(loader.NewExecControllerValue(time.Time{}, time.Time{}, ctrl, err))
		sym.Quiesce()
		check(ctrl, err)
		sym.Cover("changed")
	}
	ref.Release()
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}

// C02Restart stops the controller and starts it again.
//
//verif:prop C02
//verif:bounds a configuration which is pushed and looked up with up to 2 callbacks, the controller is stopped and started again, and another configuration with an arbitrary revision is pushed for the key or another one; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func C02Restart() {
	x := newCs()
	push, _ := x.c.PushControllerConfig(context.Background(), "a", configset.NewControllerConfig(sym.Uint64("rev"), &hu.Conf{ID: "c", N: 1}))
	look, _ := x.c.AddConfigSetReference(context.Background(), "a")
	var st [2]configset.State
	for i := range st {
		look.AddStateCallback(func(s configset.State) { st[i] = s })
	}
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 1 && look.GetState().GetController() == x.loads.Ctrls[1], "the configuration runs")
	early := sym.Bool("release before")
	if early {
		push.Release()
	}
	x.rel()
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs after the controller was stopped")
	for _, s := range []configset.State{st[0], st[1], look.GetState()} {
		sym.Assert(s.GetController() == nil, "the controller is not reported anymore")
	}
	if !early {
		push.Release()
	}
	x.rel, _ = x.b.AddController(context.Background(), x.c, nil)
	sym.Quiesce()
	key := []string{"a", "b"}[sym.Choose("key", 2)]
	push, _ = x.c.PushControllerConfig(context.Background(), key, configset.NewControllerConfig(sym.Uint64("rev"), &hu.Conf{ID: "c", N: 2}))
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 1 && x.loads.Running[2] == 1, "the pushed configuration runs")
	sym.Assert(push.GetState().GetController() == x.loads.Ctrls[2], "the running controller is reported")
	for _, s := range []configset.State{st[0], st[1], look.GetState()} {
		if key == "a" {
			sym.Assert(s.GetController() == x.loads.Ctrls[2], "the running controller is reported")
		} else {
			sym.Assert(s.GetController() == nil, "no other controller is reported")
		}
	}
	look.Release()
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 1, "a referenced configuration runs")
	push.Release()
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}
