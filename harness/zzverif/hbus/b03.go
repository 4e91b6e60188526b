package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// b03dirs checks a list of directives: keep is listed, gone is not, nothing is listed twice.
func b03dirs(ds []directive.Instance, keep []directive.Instance, gone directive.Instance) {
	for i, d := range ds {
		sym.Assert(d != nil && d != gone, "only current directives are listed")
		for _, o := range ds[:i] {
			sym.Assert(o != d, "a directive is listed once")
		}
	}
	for _, k := range keep {
		n := 0
		for _, d := range ds {
			if d == k {
				n++
			}
		}
		sym.Assert(n == 1, "a directive is listed from its addition to its removal")
	}
}

func b03ctrls(cs []controller.Controller, keep []controller.Controller, gone controller.Controller) {
	for i, d := range cs {
		sym.Assert(d != nil && d != gone, "only current controllers are listed")
		for _, o := range cs[:i] {
			sym.Assert(o != d, "a controller is listed once")
		}
	}
	for _, k := range keep {
		n := 0
		for _, d := range cs {
			if d == k {
				n++
			}
		}
		sym.Assert(n == 1, "a controller is listed from its addition to its removal")
	}
}

// B03Read reads the state of the bus while it is changed.
//
//verif:prop B03
//verif:bounds 2 controllers and 2 directives present throughout, 1 of each removed before; a goroutine adds, releases or closes a directive, adds or removes a controller, or adds, removes or fails in a resolver, while another lists directives, lists controllers, or reads errors, identity, context and number of values; all schedules up to the preemption bound, the snapshot is checked again afterwards
//verif:quick preempt=2 maporder=0
//verif:thorough preempt=4 maporder=0
func B03Read() {
	b := hu.NewBus()
	ctx := context.Background()
	p := &hu.Puppet{}
	fail := make(chan struct{})
	p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		select {
		case <-ctx.Done():
		case <-fail:
		}
		return hu.ErrTest
	}
	cs := []*hu.Ctrl{hu.NewCtrl("a"), hu.NewCtrl("b"), hu.NewCtrl("c"), hu.NewCtrl("d")}
	cs[0].Fn = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if di.GetDirective().(*hu.PlainDir).ID == 1 {
			return directive.Resolvers(p), nil
		}
		return nil, nil
	}
	gc := sym.Choose("removed controller first", 2) == 0
	if gc {
		_, _ = b.AddController(ctx, cs[2], nil)
	}
	_, _ = b.AddController(ctx, cs[0], nil)
	_, _ = b.AddController(ctx, cs[1], nil)
	if !gc {
		_, _ = b.AddController(ctx, cs[2], nil)
	}
	d0, r0, _ := b.AddDirective(&hu.PlainDir{ID: 0}, nil)
	d1, r1, _ := b.AddDirective(&hu.PlainDir{ID: 1}, nil)
	d2, r2, _ := b.AddDirective(&hu.PlainDir{ID: 2}, nil)
	sym.Quiesce()
	b.RemoveController(cs[2])
	r0.Release()
	sym.Quiesce()
	keepD := []directive.Instance{d1, d2}
	keepC := []controller.Controller{cs[0], cs[1]}
	w := sym.Choose("write", 9)
	rd := sym.Choose("read", 3)
	var rel func()
	var d3 directive.Instance
	var r3 directive.Reference
	if w == 1 || w == 2 {
		d3, r3, _ = b.AddDirective(&hu.PlainDir{ID: 3}, nil)
		sym.Quiesce()
	}
	if w == 4 || w == 8 {
		rel, _ = b.AddController(ctx, cs[3], nil)
		sym.Quiesce()
	}
	go func() {
		switch w {
		case 0:
			d3, r3, _ = b.AddDirective(&hu.PlainDir{ID: 3}, nil)
		case 1:
			r3.Release()
		case 2:
			d3.Close()
		case 3:
			rel, _ = b.AddController(ctx, cs[3], nil)
		case 4:
			rel()
		case 5:
			_, _ = p.H.AddValue(1)
		case 6:
			p.H.MarkIdle(true)
		case 7:
			close(fail)
		case 8:
			b.RemoveController(cs[1])
		}
	}()
	var ds []directive.Instance
	var l []controller.Controller
	go func() {
		switch rd {
		case 0:
			ds = b.GetDirectives()
			b03dirs(ds, keepD, d0)
		case 1:
			l = b.GetControllers()
			if w == 8 {
				b03ctrls(l, keepC[:1], cs[2])
			} else {
				b03ctrls(l, keepC, cs[2])
			}
		case 2:
			e := d1.GetResolverErrors()
			sym.Assert(len(e) == 0 || w == 7 && len(e) == 1 && e[0] == hu.ErrTest, "the errors are those of the failed resolvers")
			sym.Assert(d1.GetDirectiveIdent() == "plain" && d1.GetDirective().(*hu.PlainDir).ID == 1, "the directive is the added one")
			sym.Assert(!hu.Done(d1.GetContext()), "the context of a live directive is not canceled")
			n := p.H.CountValues(true)
			sym.Assert(n == 0 || w == 5 && n == 1, "the number of values is that of the live ones")
		}
	}()
	sym.Quiesce()
	// the snapshot is not changed by later operations
	n, m := len(ds), len(l)
	cd, cl := append([]directive.Instance(nil), ds...), append([]controller.Controller(nil), l...)
	_, r4, _ := b.AddDirective(&hu.PlainDir{ID: 4}, nil)
	c4 := hu.NewCtrl("e")
	_, _ = b.AddController(ctx, c4, nil)
	r2.Release()
	b.RemoveController(cs[0])
	sym.Quiesce()
	sym.Assert(len(ds) == n && len(l) == m, "a list is a snapshot")
	for i := range ds {
		sym.Assert(ds[i] == cd[i], "a list of directives is a snapshot")
	}
	for i := range l {
		sym.Assert(l[i] == cl[i], "a list of controllers is a snapshot")
	}
	for i := range ds {
		ds[i] = nil
	}
	for i := range l {
		l[i] = nil
	}
	b03dirs(b.GetDirectives(), keepD[:1], d2)
	cur := []controller.Controller{c4}
	if w != 8 {
		cur = append(cur, cs[1])
	}
	b03ctrls(b.GetControllers(), cur, cs[0])
	sym.Assert(hu.Done(d2.GetContext()) && hu.Done(d0.GetContext()), "the context of a removed directive is canceled")
	if w == 7 {
		e := d1.GetResolverErrors()
		sym.Assert(len(e) == 1 || len(e) == 0, "the errors are those of the failed resolvers")
	}
	r1.Release()
	r4.Release()
	if r3 != nil {
		r3.Release()
	}
	sym.Quiesce()
	sym.Assert(len(b.GetDirectives()) == 0, "no directive is left")
	sym.Cover("end")
}

// B03Pairs calls every pair of the operations of one directive instance concurrently.
//
//verif:prop B03
//verif:bounds every pair of 16 operations (add or release a reference, idle callback or dispose callback, errors, close, close if unreferenced, add, remove, clear and count values, idle marks, value and resolver callbacks) on one directive in 2 goroutines; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=3
func B03Pairs() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	_, _ = c.AddHandler(hu.Static(p))
	r := hu.NewRef("r")
	di, ref, _ := c.AddDirective(&hu.PlainDir{ID: 1}, r)
	sym.Quiesce()
	id, _ := p.H.AddValue(7)
	ref2 := di.AddReference(nil, true)
	var idle, disp int
	var mtx sym.Mutex
	inc := func(n *int) {
		mtx.Lock()
		*n++
		mtx.Unlock()
	}
	relIdle := di.AddIdleCallback(func(bool, []error) { inc(&idle) })
	relDisp := di.AddDisposeCallback(func() { inc(&disp) })
	sym.Quiesce()
	ops := []int{sym.Choose("op", 16), sym.Choose("op", 16)}
	sym.Assume(ops[0] <= ops[1])
	refs := make([]directive.Reference, 2)
	for i, o := range ops {
		go func() {
			switch o {
			case 0:
				refs[i] = di.AddReference(hu.NewRef("x"), false)
			case 1:
				ref2.Release()
			case 2:
				di.AddIdleCallback(func(bool, []error) { inc(&idle) })()
			case 3:
				relIdle()
			case 4:
				di.AddDisposeCallback(func() {})()
			case 5:
				relDisp()
			case 6:
				_ = di.GetResolverErrors()
				_ = di.GetDirectiveIdent()
			case 7:
				_ = di.CloseIfUnreferenced(true)
			case 8:
				di.Close()
			case 9:
				_, _ = p.H.AddValue(8)
			case 10:
				_, _ = p.H.RemoveValue(id)
			case 11:
				_ = p.H.ClearValues()
			case 12:
				_ = p.H.CountValues(true)
				_ = p.H.CountValues(false)
			case 13:
				p.H.MarkIdle(true)
			case 14:
				p.H.AddValueRemovedCallback(id, func() { inc(&disp) })()
			case 15:
				p.H.AddResolverRemovedCallback(func() { inc(&disp) })()
				_ = c.GetDirectives()
			}
		}()
	}
	sym.Quiesce()
	r.Check()
	ref.Release()
	for _, x := range refs {
		if x != nil {
			x.Release()
		}
	}
	ref2.Release()
	sym.Quiesce()
	sym.Assert(len(c.GetDirectives()) == 0 && p.Active == 0, "nothing is left after the last release")
	sym.Cover("end")
}

// B03Factories lists and looks up factories while others are added.
//
//verif:prop B03
//verif:bounds a goroutine adds a factory with an arbitrary 32 bit version while another lists the factories or looks up one of 2 ids; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=-1
func B03Factories() {
	ctx := context.Background()
	f0 := hu.NewFac("c", 1)
	f1 := hu.NewFac("d", 1)
	r := static.NewResolver(f0, f1)
	n := hu.NewFac([]string{"c", "d", "e"}[sym.Choose("id", 3)], 0)
	n.Ver.Major = uint64(sym.Uint32("version"))
	go r.AddFactory(n)
	go func() {
		switch sym.Choose("read", 3) {
		case 0:
			l := r.GetFactories()
			sym.Assert(len(l) == 2 || n.ID == "e" && len(l) == 3, "every id is listed once")
			for i, f := range l {
				sym.Assert(f != nil && (i == 0 || l[i-1].GetConfigID() < f.GetConfigID()), "the factories are listed once and sorted")
			}
		case 1:
			f, err := r.GetFactoryMatchingConfig(ctx, &hu.Conf{ID: "c"})
			sym.Assert(err == nil && (f == controller.Factory(f0) || n.ID == "c" && f == controller.Factory(n)), "the factory of the id is found")
		case 2:
			f, err := r.GetConfigCtorByID(ctx, "d")
			sym.Assert(err == nil && f.GetConfigID() == "d", "the constructor of the id is found")
		}
	}()
	sym.Quiesce()
	sym.Assert(len(r.GetFactories()) == 2 || n.ID == "e", "every id is listed once")
	sym.Cover("end")
}
