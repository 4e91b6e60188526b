package hdir

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// D09Seq removes one of two handlers from three directives while the notifications change the
// set of directives, handlers and values.
//
//verif:prop D09
//verif:bounds 3 directives, 2 handlers with 2 resolvers and 1 value each per directive; either handler removed; one arbitrary operation from inside one of the notifications of the removal
//verif:quick preempt=0 delay=1
func D09Seq() {
	c := hu.NewDC()
	type key struct {
		k uint32
		h int
		r int
	}
	pup := map[key]*hu.Puppet{}
	mk := func(hi int) *hu.Handler {
		return hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
			k := di.GetDirective().(*hu.Dir).Key
			a, b := &hu.Puppet{}, &hu.Puppet{}
			pup[key{k, hi, 0}], pup[key{k, hi, 1}] = a, b
			return directive.Resolvers(a, b), nil
		})
	}
	hnd := []*hu.Handler{mk(0), mk(1)}
	var rel [2]func()
	rel[0], _ = c.AddHandler(hnd[0])
	rel[1], _ = c.AddHandler(hnd[1])
	var dis [3]directive.Instance
	var refs [3]*hu.Ref
	for i := range dis {
		refs[i] = hu.NewRef("r")
		dis[i], _, _ = c.AddDirective(&hu.Dir{Key: uint32(i)}, refs[i])
	}
	sym.Quiesce()
	for i := uint32(0); i < 3; i++ {
		for h := 0; h < 2; h++ {
			for r := 0; r < 2; r++ {
				_, ok := pup[key{i, h, r}].H.AddValue(r)
				sym.Assert(ok, "a value is accepted")
			}
		}
	}
	which := sym.Choose("which", 2)
	at := sym.Choose("at", 3)
	op := sym.Choose("op", 5)
	n := 0
	closed := [3]bool{}
	otherGone := false
	for i := range refs {
		refs[i].OnRemove = func(directive.AttachedValue) {
			n++
			if n != at+1 {
				return
			}
			switch op {
			case 1:
				closed[0] = true
				dis[0].Close()
			case 2:
				closed[1] = true
				dis[1].Close()
			case 3:
				otherGone = true
				rel[1-which]()
			case 4:
				rel[which]()
			}
		}
	}
	rel[which]()
	if sym.Bool("again") {
		rel[which]()
	}
	sym.Quiesce()
	for i := uint32(0); i < 3; i++ {
		cnt := 0
		for h := 0; h < 2; h++ {
			for r := 0; r < 2; r++ {
				p := pup[key{i, h, r}]
				gone := h == which || otherGone || closed[i]
				if gone {
					sym.Assert(p.Active == 0 && hu.Done(p.Ctx), "the resolvers of a removed handler are canceled")
					_, ok := p.H.AddValue("late")
					sym.Assert(!ok, "a canceled resolver cannot add values")
				} else {
					cnt++
					sym.Assert(p.Active == 1 && p.Runs == 1 && !hu.Done(p.Ctx), "the resolvers of other handlers are not disturbed")
				}
			}
		}
		sym.Assert(len(refs[i].Live) == cnt, "exactly the values of the removed handler are removed")
		refs[i].Check()
		sym.Assert(hu.Has(c, dis[i]) == !closed[i], "the directives are kept")
	}
	if n > at && op != 0 {
		sym.Cover("reentered")
	}
	// the removed handler is not asked any more
	t0, t1 := hnd[which].Total, hnd[1-which].Total
	_, _, _ = c.AddDirective(&hu.Dir{Key: 9}, nil)
	sym.Assert(hnd[which].Total == t0, "a removed handler is not asked again")
	if !otherGone {
		sym.Assert(hnd[1-which].Total == t1+1, "other handlers are asked")
	}
}

// D09Conc removes a handler from two goroutines while its resolvers add values and a directive is added.
//
//verif:prop D09
//verif:bounds 2 goroutines removing the same handler, 1 resolver adding a value, 1 directive added; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func D09Conc() {
	c := hu.NewDC()
	p := &hu.Puppet{Body: func(ctx context.Context, h directive.ResolverHandler, run int) error {
		h.AddValue("a")
		<-ctx.Done()
		return nil
	}}
	q := &hu.Puppet{Body: func(ctx context.Context, h directive.ResolverHandler, run int) error {
		h.AddValue("b")
		<-ctx.Done()
		return nil
	}}
	rel, _ := c.AddHandler(hu.Static(p))
	_, _ = c.AddHandler(hu.Static(q))
	done := make(chan struct{}, 2)
	r := hu.NewRef("r")
	go func() {
		_, _, _ = c.AddDirective(&hu.Dir{Key: 1}, r)
		done <- struct{}{}
	}()
	if sym.Bool("twice") {
		go func() {
			rel()
			done <- struct{}{}
		}()
	} else {
		done <- struct{}{}
	}
	rel()
	<-done
	<-done
	sym.Quiesce()
	sym.Assert(p.Active == 0, "the resolvers of a removed handler are canceled")
	sym.Assert(q.Active == 1, "the resolvers of other handlers are not disturbed")
	sym.Assert(len(r.Live) == 1, "only the values of the other handler remain")
	r.Check()
	if p.Runs == 1 {
		sym.Cover("ran")
	} else {
		sym.Cover("never")
	}
}

// D09Idle removes a handler or closes a directive from inside an idle callback, while resolvers
// are being started, stopped or restarted.
//
//verif:prop D09 D10
//verif:bounds 2 handlers, 1 directive with a value cap of 1; the removal happens in any of the first 5 idle reports
//verif:quick preempt=0
//verif:thorough preempt=1
func D09Idle() {
	c := hu.NewDC()
	p, q := &hu.Puppet{}, &hu.Puppet{}
	var rel [2]func()
	rel[0], _ = c.AddHandler(hu.Static(p))
	at := sym.Choose("at", 5)
	op := sym.Choose("op", 3)
	n := 0
	var di directive.Instance
	fired := false
	r := hu.NewRef("r")
	di, _, _ = c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: 1}}, r)
	di.AddIdleCallback(func(idle bool, _ []error) {
		n++
		if n != at+1 {
			return
		}
		fired = true
		switch op {
		case 0:
			rel[0]()
		case 1:
			if rel[1] != nil {
				rel[1]()
			} else {
				di.Close()
			}
		case 2:
			di.Close()
		}
	})
	sym.Quiesce()
	if h := p.H; h != nil {
		h.MarkIdle(true)
	}
	rel[1], _ = c.AddHandler(hu.Static(q))
	sym.Quiesce()
	if h := p.H; h != nil {
		id, ok := h.AddValue("a")
		sym.Quiesce()
		if ok {
			h.RemoveValue(id)
			sym.Quiesce()
		}
		h.MarkIdle(false)
	}
	rel[0]()
	rel[1]()
	sym.Quiesce()
	sym.Assert(p.Active == 0 && q.Active == 0, "no resolver runs when its handler was removed")
	sym.Assert(p.MaxAct <= 1 && q.MaxAct <= 1, "a resolver runs once at a time")
	sym.Assert(len(r.Live) == 0, "no values remain")
	r.Check()
	if fired {
		sym.Cover("fired")
	}
}

// D09Pending removes a handler which was added while a directive was still offered to the handlers.
//
//verif:prop D09 D02
//verif:bounds 2 handlers; while the first is asked about a directive, the second is added (its resolver adds a value) and removed in any of 3 places: before the first returns, right after the directive was added, later
//verif:quick preempt=1
func D09Pending() {
	c := hu.NewDC()
	a, b := &hu.Puppet{}, &hu.Puppet{}
	when := sym.Choose("when", 3)
	value := sym.Bool("value")
	b.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		if value {
			h.AddValue("b")
		}
		<-ctx.Done()
		return ctx.Err()
	}
	hb := hu.Static(b)
	var relB func()
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		relB, _ = c.AddHandler(hb)
		if sym.Bool("wait") {
			sym.Quiesce()
			sym.Assert(b.Active == 1, "the resolver of a handler which was added runs")
		}
		if when == 0 {
			relB()
		}
		return directive.Resolvers(a), nil
	}))
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	if when == 2 {
		sym.Quiesce()
		sym.Assert(b.Active == 1 && a.Active == 1, "the resolvers of both handlers run")
		sym.Assert(len(r.Live) == 1 == value, "the value is attached")
	}
	relB()
	sym.Quiesce()
	sym.Assert(hb.Total == 1, "a handler is asked once about a directive")
	sym.Assert(b.Active == 0, "the resolvers of a removed handler are canceled")
	sym.Assert(len(r.Live) == 0, "exactly the values of the removed handler are removed")
	sym.Assert(a.Active == 1 && a.Runs == 1, "the resolvers of other handlers are not disturbed")
	r.Check()
	di.Close()
	sym.Cover("end")
}
