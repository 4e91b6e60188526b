package hdir

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// D07Seq fills a directive with a value cap and takes values away again.
//
//verif:prop D07
//verif:bounds value cap 1 or 2, hard or soft; one resolver with up to 3 values, one without values, one which failed, one attached while the cap is reached
//verif:quick preempt=0
func D07Seq() {
	c := hu.NewDC()
	pv, pe, pl := &hu.Puppet{}, &hu.Puppet{}, &hu.Puppet{}
	pf := &hu.Puppet{Body: func(ctx context.Context, h directive.ResolverHandler, run int) error {
		if run == 1 {
			return hu.ErrTest
		}
		<-ctx.Done()
		return ctx.Err()
	}}
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(pv, pe, pf), nil
	}))
	maxv := sym.Choose("max", 2) + 1
	hard := sym.Bool("hard")
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: maxv, MaxValueHardCap: hard}}, r)
	sym.Quiesce()
	sym.Assert(pv.Runs == 1 && pe.Runs == 1 && pf.Runs == 1, "all resolvers run while the cap is not reached")
	var ids []uint32
	for i := 0; i < maxv; i++ {
		sym.Assert(pe.Active == 1, "the resolvers are not canceled before the cap is reached")
		id, ok := pv.H.AddValue(i)
		sym.Assert(ok, "a value below the cap is accepted")
		ids = append(ids, id)
		sym.Quiesce()
	}
	sym.Assert(pe.Active == 0, "a resolver without values is canceled when the cap is reached")
	sym.Assert(pv.Active == 1 && !hu.Done(pv.Ctx), "a resolver with values keeps running when the cap is reached")
	_, ok := pe.H.AddValue("late")
	sym.Assert(!ok, "a canceled resolver cannot add values")
	id, ok := pv.H.AddValue("extra")
	sym.Assert(ok == !hard, "a value beyond the cap is accepted exactly if the cap is soft")
	if ok {
		ids = append(ids, id)
	} else {
		sym.Cover("rejected")
		sym.Assert(len(r.Live) == maxv, "a rejected value is not delivered")
	}
	late := sym.Bool("attach")
	if late {
		_, _ = c.AddHandler(hu.Static(pl))
		sym.Quiesce()
		sym.Assert(pl.Runs == 0, "a resolver attached while the cap is reached is not started")
	}
	sym.Assert(pe.Runs == 1 && pf.Runs == 1, "no resolver is restarted while the cap is reached")
	// take values away until the count is below the cap
	all := sym.Bool("clear")
	if all {
		pv.H.ClearValues()
	} else {
		for i := 0; len(ids)-i >= maxv; i++ {
			_, found := pv.H.RemoveValue(ids[i])
			sym.Assert(found, "a value can be removed")
		}
	}
	sym.Quiesce()
	sym.Assert(pe.Runs == 2 && pe.Active == 1, "a resolver canceled for the cap is started again below the cap")
	sym.Assert(pf.Runs == 2 && pf.Active == 1, "a failed resolver is started again below the cap")
	sym.Assert(pv.Runs == 1 && pv.Active == 1, "a running resolver is not disturbed")
	if late {
		sym.Assert(pl.Runs == 1 && pl.Active == 1, "a resolver attached at the cap is started below the cap")
		sym.Cover("late")
	}
	_, ok = pe.H.AddValue("again")
	sym.Assert(ok, "a value below the cap is accepted")
	di.Close()
	sym.Quiesce()
	sym.Assert(pe.Active == 0 && pf.Active == 0 && pv.Active == 0 && pl.Active == 0, "closing stops all resolvers")
	sym.Assert(pe.Runs == 2 && pf.Runs == 2 && pv.Runs == 1, "closing starts no resolver")
	r.Check()
}

// D07Conc has resolvers race for the last places of a hard cap.
//
//verif:prop D07
//verif:bounds hard cap of 1 or 2, 3 resolvers adding one value each, one of them removing its value again; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func D07Conc() {
	c := hu.NewDC()
	acc := 0
	max := 0
	var mtx sym.Mutex
	r := hu.NewRef("r")
	maxv := sym.Choose("max", 2) + 1
	r.OnAdd = func(directive.AttachedValue) {
		mtx.Lock()
		if len(r.Live) > max {
			max = len(r.Live)
		}
		mtx.Unlock()
	}
	remove := sym.Bool("remove")
	ps := make([]directive.Resolver, 3)
	pp := make([]*hu.Puppet, 3)
	for i := range ps {
		pp[i] = &hu.Puppet{Body: func(ctx context.Context, h directive.ResolverHandler, run int) error {
			id, ok := h.AddValue(i)
			mtx.Lock()
			if ok {
				acc++
			}
			mtx.Unlock()
			if ok && i == 0 && remove && run == 1 {
				if _, found := h.RemoveValue(id); found {
					mtx.Lock()
					acc--
					mtx.Unlock()
				}
			}
			<-ctx.Done()
			return nil
		}}
		ps[i] = pp[i]
	}
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return ps, nil
	}))
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: maxv, MaxValueHardCap: true}}, r)
	sym.Quiesce()
	r.Check()
	sym.Assert(max <= maxv, "a hard cap is never exceeded")
	sym.Assert(len(r.Live) == acc, "exactly the accepted values are delivered")
	sym.Assert(remove || len(r.Live) == maxv, "the places below the cap are filled")
	sym.Assert(len(r.Live) >= maxv-1, "the places below the cap are filled again")
	act := 0
	for i := range pp {
		act += pp[i].Active
		sym.Assert(pp[i].MaxAct <= 1, "a resolver runs once at a time")
	}
	sym.Assert(act <= maxv+1, "the resolvers without values are canceled")
	di.Close()
	sym.Quiesce()
	for i := range pp {
		sym.Assert(pp[i].Active == 0, "closing stops all resolvers")
	}
	sym.Cover("end")
}

// D07Reenter changes the directive from inside the idle callback while resolvers are stopped or started for the cap.
//
//verif:prop D07
//verif:bounds cap of 1, 3 handlers with 1 resolver each, one of which has the value, one failed or not and is idle or not; when the cap is reached or not reached any more, the 1st or 2nd idle callback adds or removes a value, removes a handler or closes the directive; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=3
func D07Reenter() {
	c := hu.NewDC()
	fails := sym.Bool("fails")
	pf := &hu.Puppet{}
	pf.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		if fails && run == 1 {
			return hu.ErrTest
		}
		<-ctx.Done()
		return ctx.Err()
	}
	ps := [3]*hu.Puppet{{}, pf, {}}
	var rel [3]func()
	for i := range ps {
		rel[i], _ = c.AddHandler(hu.Static(ps[i]))
	}
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: 1}}, r)
	sym.Quiesce()
	if fails {
		errs := di.GetResolverErrors()
		sym.Assert(len(errs) == 1 && errs[0] == hu.ErrTest, "the error of a resolver is reported")
	}
	op := sym.Choose("op", 5)
	at := sym.Choose("at", 2)
	down := sym.Bool("down")
	vh := ps[0].H
	n := -1
	armed := false
	var gone [3]bool
	closed := false
	fire := func(idle bool, _ []error) {
		if !armed || idle == down {
			return
		}
		if n++; n != at {
			return
		}
		sym.Cover("reentered")
		switch op {
		case 0:
			_, _ = vh.AddValue("more")
		case 1:
			vh.ClearValues()
		case 2:
			gone[1] = true
			rel[1]()
		case 3:
			gone[2] = true
			rel[2]()
		case 4:
			closed = true
			di.Close()
		}
	}
	rc := di.AddIdleCallback(fire)
	ps[0].H.MarkIdle(true)
	armed = !down
	_, ok := vh.AddValue("one")
	sym.Assert(ok, "a value is accepted")
	if down {
		sym.Quiesce()
		armed = true
		vh.ClearValues()
	}
	sym.Quiesce()
	armed = false
	r.Check()
	full := len(r.Live) != 0
	for i, p := range ps {
		switch {
		case closed || gone[i]:
			sym.Assert(p.Active == 0, "a removed resolver does not run")
		case i == 0:
			sym.Assert(p.Active == 1 && p.Runs == 1, "the resolver with the value keeps running")
		case full:
			sym.Assert(p.Active == 0, "a resolver without values is canceled while the cap is reached")
		default:
			sym.Assert(p.Active == 1, "a resolver is started again below the cap")
		}
	}
	if !closed && !full {
		sym.Assert(len(di.GetResolverErrors()) == 0, "a resolver which was started again has no error")
	}
	rc()
	di.Close()
	sym.Quiesce()
	for _, p := range ps {
		sym.Assert(p.Active == 0 && p.MaxAct <= 1, "closing stops all resolvers")
	}
}
