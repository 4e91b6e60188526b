package hdir

import (
	"context"
	"errors"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// D02Conc adds two handlers from one goroutine and a directive from another; one handler
// declines, fails, panics or returns a resolver.
//
//verif:prop D02
//verif:bounds 2 handlers, 1 directive, 2 goroutines and the resolvers; the outcome of either the first or the second handler is arbitrary; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func D02Conc() {
	c := hu.NewDC()
	outcome := sym.Choose("outcome", 4)
	mk := func(o int) (*hu.Handler, *hu.Puppet) {
		p := &hu.Puppet{}
		p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
			h.AddValue("v")
			return nil
		}
		return hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
			switch o {
			case 0:
				return directive.Resolvers(p), nil
			case 1:
				return nil, nil
			case 2:
				return directive.Resolvers(p), hu.ErrTest
			}
			panic("handler panic")
		}), p
	}
	h1, p1 := mk(outcome)
	h2, p2 := mk(0)
	d1 := &hu.Dir{Key: 1}
	r1 := hu.NewRef("r1")
	done := make(chan struct{})
	go func() {
		a, b := h1, h2
		if sym.Bool("swap") {
			a, b = h2, h1
		}
		_, err := c.AddHandler(a)
		sym.Assert(err == nil, "adding a handler succeeds")
		_, err = c.AddHandler(b)
		sym.Assert(err == nil, "adding a handler succeeds")
		close(done)
	}()
	_, _, err := c.AddDirective(d1, r1)
	sym.Assert(err == nil, "adding a directive succeeds")
	<-done
	sym.Quiesce()
	for _, h := range []*hu.Handler{h1, h2} {
		sym.Assert(h.Offer[directive.Directive(d1)] == 1, "every handler is asked once about every directive")
	}
	sym.Assert(p2.Runs == 1, "the resolvers of a handler run once per directive, whatever the other handler does")
	want := 1
	if outcome == 0 {
		want = 2
		sym.Assert(p1.Runs == 1, "the resolver runs once per directive")
		sym.Cover("both")
	} else {
		sym.Assert(p1.Runs == 0, "no resolver of a handler which declined or failed runs")
		sym.Cover("one")
	}
	sym.Assert(len(r1.Live) == want, "the values of all resolvers are delivered")
	r1.Check()
}

// D02Remove removes a handler (possibly twice) and adds it again between directives.
//
//verif:prop D02
//verif:bounds 4 arbitrary steps out of: add or remove either of 2 handlers, add or release either of 2 directives
//verif:quick preempt=0
//verif:thorough preempt=0
func D02Remove() {
	c := hu.NewDC()
	var hs [2]*hu.Handler
	var rel [2]func()
	var want [2][2]int
	var ds [2]*hu.Dir
	var refs [2]directive.Reference
	for i := range hs {
		hs[i] = hu.NewHandler(nil)
		ds[i] = &hu.Dir{Key: uint32(i)}
	}
	for n := 0; n < 5; n++ {
		i := sym.Choose("which", 2)
		switch sym.Choose("op", 3) {
		case 0:
			if rel[i] == nil {
				var err error
				rel[i], err = c.AddHandler(hs[i])
				sym.Assert(err == nil && rel[i] != nil, "adding a handler returns its removal function")
				for j := range ds {
					if refs[j] != nil {
						want[i][j]++
					}
				}
			} else {
				rel[i]()
				rel[i]()
				rel[i] = nil
				sym.Cover("removed")
			}
		case 1:
			if refs[i] == nil {
				_, refs[i], _ = c.AddDirective(ds[i], nil)
				for j := range hs {
					if rel[j] != nil {
						want[j][i]++
					}
				}
			} else {
				refs[i].Release()
				refs[i] = nil
			}
		case 2:
			// an equivalent directive does not ask again
			if refs[i] != nil {
				_, r, _ := c.AddDirective(&hu.Dir{Key: uint32(i)}, nil)
				r.Release()
				sym.Cover("equivalent")
			}
		}
		for a := range hs {
			for b := range ds {
				sym.Assert(hs[a].Offer[directive.Directive(ds[b])] == want[a][b], "a handler is asked about a directive exactly when both become present")
			}
		}
	}
}

// D02Late removes a handler while it is being asked about a directive or while another handler
// is asked: no resolver of the removed handler may stay attached.
//
//verif:prop D02 D09
//verif:bounds 2 handlers; the removal happens inside either offer or concurrently; directive added before or after the handlers
//verif:quick preempt=2
//verif:thorough preempt=-1
func D02Late() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		h.AddValue("v")
		<-ctx.Done()
		return errors.New("canceled")
	}
	var rel1 func()
	mode := sym.Choose("mode", 4) // 0: removed in own offer, 1: removed in the other offer, 2: concurrently, 3: handler added to an existing directive which is released meanwhile
	h1 := hu.NewHandler(nil)
	h2 := hu.NewHandler(nil)
	d := &hu.Dir{Key: 1}
	r := hu.NewRef("r")
	var ref directive.Reference
	h1.Fn = func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		if mode == 0 {
			rel1()
		}
		if mode == 3 {
			ref.Release()
		}
		return directive.Resolvers(p), nil
	}
	h2.Fn = func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		if mode == 1 {
			rel1()
		}
		return nil, nil
	}
	if mode == 3 {
		_, ref, _ = c.AddDirective(d, r)
		_, _ = c.AddHandler(h1)
		sym.Quiesce()
		sym.Assert(len(r.Live) == 0, "a released reference sees no values of a resolver attached later")
		sym.Assert(p.Active == 0, "no resolver is left running for a released directive")
		sym.Cover("released")
		return
	}
	rel1, _ = c.AddHandler(h1)
	_, _ = c.AddHandler(h2)
	if mode == 2 {
		go rel1()
	}
	_, _, _ = c.AddDirective(d, r)
	sym.Quiesce()
	sym.Assert(len(r.Live) == 0, "no value of a removed handler remains")
	sym.Assert(p.Active == 0, "no resolver of a removed handler is left running")
	r.Check()
	sym.Cover("end")
}

// D02Close closes the directive while the handlers are asked about it.
//
//verif:prop D02
//verif:bounds 2 handlers with 1 resolver each, asked when the directive or the second handler is added; the directive is closed or its reference released by one of the handlers or another goroutine; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=4
func D02Close() {
	c := hu.NewDC()
	who := sym.Choose("closer", 3)
	late := sym.Bool("late")
	viaRef := sym.Bool("reference")
	var ref directive.Reference
	gone := false
	released := false
	stop := func(di directive.Instance) {
		if viaRef && ref != nil {
			released = true
			ref.Release()
		} else {
			di.Close()
		}
		gone = true
	}
	var ps [2]hu.Puppet
	started := false
	mk := func(i int) *hu.Handler {
		return hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
			if who == i && (!late || i == 1) {
				stop(di)
			}
			return directive.Resolvers(&ps[i]), nil
		})
	}
	_, _ = c.AddHandler(mk(0))
	if !late {
		_, _ = c.AddHandler(mk(1))
	}
	r := hu.NewRef("r")
	di, rf, err := c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Assert(err == nil && di != nil && rf != nil, "the directive is added")
	ref = rf
	sym.Quiesce()
	started = ps[0].Runs != 0
	sym.Assert(started == !gone, "the resolvers are started unless the directive was closed before")
	if who == 2 {
		go func() { stop(di) }()
	}
	if late {
		_, _ = c.AddHandler(mk(1))
	}
	sym.Quiesce()
	if gone {
		sym.Assert(ps[0].Active == 0 && ps[1].Active == 0, "the resolvers of a closed directive are canceled")
		sym.Assert(who == 2 || ps[1].Runs == 0, "no resolver is started for a closed directive")
		sym.Assert(who != 0 || late || ps[0].Runs == 0, "no resolver is started for a closed directive")
		sym.Assert((r.Disposed == 1) == !released && len(c.GetDirectives()) == 0, "the directive is disposed")
		sym.Cover("closed")
	} else {
		sym.Assert(ps[0].Runs == 1 && ps[1].Runs == 1, "the resolvers are started once")
		di.Close()
	}
	r.Check()
	sym.Quiesce()
}
