package hres

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	dc "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// r02 transforms the values of a source directive to the values of a target directive.
type r02 struct {
	mtx   sym.Mutex
	c     *dc.Controller
	src   *hu.Puppet
	relH  func()
	tdi   directive.Instance
	ref   directive.Reference
	r     *hu.Ref
	sdir  *hu.Dir
	mode  map[int]int
	held  map[int]int
	xerr  bool
	idle  bool
	ierrs []error
	typed bool
	unknown int
	// before is called in the transformation
	before func(v int)
}

func (x *r02) xfrm(v int) (int, func(), bool, error) {
	if x.before != nil {
		x.before(v)
	}
	x.mtx.Lock()
	x.held[v]++
	x.mtx.Unlock()
	rel := func() {
		x.mtx.Lock()
		sym.Assert(x.held[v] > 0, "a transformed value is released once")
		x.held[v]--
		x.mtx.Unlock()
	}
	switch x.mode[v] {
	case 1:
		return 0, rel, false, nil
	case 2:
		x.xerr = true
		return 0, rel, false, hu.ErrTest
	}
	return v + 100, rel, true, nil
}

func newR02(typed bool, opts directive.ValueOptions, body func(context.Context, directive.ResolverHandler, int) error) *r02 {
	x := &r02{c: hu.NewDC(), src: &hu.Puppet{Body: body}, r: hu.NewRef("t"), held: map[int]int{}, mode: map[int]int{}, typed: typed}
	x.sdir = &hu.Dir{Key: 2}
	var res directive.Resolver
	if typed {
		res = directive.NewTypedTransformResolver(x.c, x.sdir, func(ctx context.Context, v directive.TypedAttachedValue[int]) (int, func(), bool, error) {
			return x.xfrm(v.GetValue())
		}, directive.NewCallbackHandler(func(v directive.AttachedValue) {
			sym.Assert(v.GetValue() == "other", "the value of another type is passed on")
			x.unknown++
		}, func(v directive.AttachedValue) {
			sym.Assert(v.GetValue() == "other", "the value of another type is passed on")
			x.unknown--
		}, nil))
	} else {
		res = directive.NewTransformResolver(x.c, x.sdir, func(ctx context.Context, v directive.AttachedValue) (int, func(), bool, error) {
			return x.xfrm(v.GetValue().(int))
		})
	}
	_, _ = x.c.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if di.GetDirective().(*hu.Dir).Key == 2 {
			return directive.Resolvers(x.src), nil
		}
		return nil, nil
	}))
	x.relH, _ = x.c.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if di.GetDirective().(*hu.Dir).Key == 1 {
			return directive.Resolvers(res), nil
		}
		return nil, nil
	}))
	x.tdi, x.ref, _ = x.c.AddDirective(&hu.Dir{Key: 1, Opts: opts}, x.r)
	x.tdi.AddIdleCallback(func(idle bool, errs []error) { x.idle, x.ierrs = idle, errs })
	return x
}

func (x *r02) out() int {
	n := 0
	for _, h := range x.held {
		n += h
	}
	return n
}

func (x *r02) end() {
	switch sym.Choose("end", 3) {
	case 0:
		x.relH()
	case 1:
		x.tdi.Close()
	case 2:
		x.ref.Release()
	}
}

func (x *r02) checkEnd() {
	sym.Quiesce()
	sym.Assert(x.out() == 0, "the transformed values are released when the resolver is stopped")
	for _, di := range x.c.GetDirectives() {
		sym.Assert(di.GetDirective().(*hu.Dir).Key != 2, "the source directive is released")
	}
	x.r.Check()
}

// R02Seq adds and removes values of the source in arbitrary order.
//
//verif:prop R02
//verif:bounds 4 operations (thorough 5) of adding (up to 3 values; transformed, skipped or failing) and removing values of the source and marking it idle; a value of another resolver of the target shifts the ids; plain and typed
//verif:quick preempt=0 delay=0
//verif:thorough skip=1
func R02Seq() { r02seq(4) }

// R02SeqLong runs longer histories.
//
//verif:prop R02
//verif:bounds as before with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0
func R02SeqLong() { r02seq(5) }

func r02seq(nops int) {
	x := newR02(sym.Bool("typed"), directive.ValueOptions{}, nil)
	live := map[int]uint32{}
	next := 1
	sym.Quiesce()
	sym.Assert(x.src.H != nil, "the source directive is added")
	if sym.Bool("shift") {
		id, _ := x.src.H.AddValue(50)
		x.src.H.RemoveValue(id)
		sym.Quiesce()
	}
	if sym.Bool("unknown") && x.typed {
		id, _ := x.src.H.AddValue("other")
		sym.Quiesce()
		sym.Assert(x.unknown == 1, "a value of another type is reported")
		if sym.Bool("remove") {
			x.src.H.RemoveValue(id)
			sym.Quiesce()
			sym.Assert(x.unknown == 0, "the removal of a value of another type is reported")
		}
	}
	wasIdle := false
	for i := 0; i < nops && !x.xerr; i++ {
		wasIdle = x.idle
		switch op := sym.Choose("op", 3); op {
		case 0:
			if next <= 3 {
				x.mode[next] = sym.Choose("mode", 3)
				id, _ := x.src.H.AddValue(next)
				live[next] = id
				next++
			}
		case 1:
			v := 1 + sym.Choose("remove", 3)
			if id, ok := live[v]; ok {
				x.src.H.RemoveValue(id)
				delete(live, v)
			}
		case 2:
			x.src.H.MarkIdle(sym.Bool("idle"))
		}
		sym.Quiesce()
		x.r.Check()
		if x.xerr {
			break
		}
		want, inst := 0, 0
		for v := 1; v < next; v++ {
			_, ok := live[v]
			ok = ok && x.mode[v] == 0
			n := 0
			for _, t := range x.r.Live {
				if t == v+100 {
					n++
				}
			}
			if ok {
				want++
				sym.Assert(n == 1, "every value of the source is transformed")
				sym.Assert(x.held[v] == 1, "a transformed value is held while the value exists")
				inst++
			} else {
				sym.Assert(n == 0, "the transformed value is removed with the value")
				sym.Assert(x.held[v] == 0, "a transformed value is released when its value is removed")
			}
		}
		sym.Assert(len(x.r.Live) == want, "no other values are emitted")
	}
	if x.xerr {
		sym.Quiesce()
		sym.Assert(len(x.r.Live) == 0 && x.out() == 0, "nothing is left after an error")
		if !wasIdle {
			sym.Assert(x.idle && len(x.ierrs) == 1 && x.ierrs[0] == hu.ErrTest, "the error is reported")
		}
		sym.Cover("error")
	}
	x.end()
	x.checkEnd()
	sym.Cover("end")
}

// R02Idle follows the idle state and the errors of the source.
//
//verif:prop R02
//verif:bounds the source marks idle and not idle 3 times or fails; plain and typed
//verif:quick preempt=0 delay=0
//verif:thorough preempt=1
func R02Idle() {
	ch := make(chan error, 1)
	x := newR02(sym.Bool("typed"), directive.ValueOptions{}, func(ctx context.Context, h directive.ResolverHandler, _ int) error {
		select {
		case <-ctx.Done():
			return context.Canceled
		case err := <-ch:
			return err
		}
	})
	sym.Quiesce()
	sym.Assert(!x.idle, "the target is not idle while its source is not")
	for i := 0; i < 3; i++ {
		switch sym.Choose("op", 3) {
		case 0, 1:
			want := sym.Bool("idle")
			x.src.H.MarkIdle(want)
			sym.Quiesce()
			sym.Assert(x.idle == want, "the target is idle if the source is idle")
			continue
		case 2:
			id, _ := x.src.H.AddValue(1)
			_ = id
			x.src.H.MarkIdle(false)
			sym.Quiesce()
			var err error
			if sym.Bool("fail") {
				err = hu.ErrTest
			}
			ch <- err
			sym.Quiesce()
			sym.Assert(x.idle, "the target is idle if the source is idle")
			if err != nil {
				sym.Assert(len(x.ierrs) == 1 && x.ierrs[0] == hu.ErrTest, "the error of the source is reported")
				sym.Assert(x.out() == 0 && len(x.r.Live) == 0, "nothing is left after an error of the source")
			} else {
				sym.Assert(len(x.r.Live) == 1 && len(x.ierrs) == 0, "the values stay when the source is done")
			}
			sym.Cover("done")
		}
		break
	}
	x.end()
	x.checkEnd()
	sym.Cover("end")
}

// R02Conc stops the resolver, removes or adds values concurrently.
//
//verif:prop R02
//verif:bounds one value exists; it is removed, another one is added or the source directive is closed, concurrently with one of 3 ways of stopping or none; plain and typed; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=2
func R02Conc() {
	x := newR02(sym.Bool("typed"), directive.ValueOptions{}, nil)
	sym.Quiesce()
	h := x.src.H
	id, _ := h.AddValue(1)
	op := sym.Choose("op", 3)
	change := func() {
		switch op {
		case 0:
			h.RemoveValue(id)
		case 1:
			h.AddValue(2)
		case 2:
			for _, di := range x.c.GetDirectives() {
				if di.GetDirective().(*hu.Dir).Key == 2 {
					di.Close()
				}
			}
		}
	}
	switch sym.Choose("stop", 3) {
	case 1:
		go change()
		x.end()
	case 2:
		go x.end()
		change()
	case 0:
		go change()
		sym.Quiesce()
		x.r.Check()
		n := 0
		for _, v := range x.r.Live {
			n++
			sym.Assert(v == 101 || v == 102, "the transformed values are emitted")
		}
		sym.Assert(n == x.out(), "a transformed value is held while the value exists")
		switch op {
		case 0:
			sym.Assert(n == 0, "the transformed value is removed with the value")
		case 1:
			sym.Assert(n == 2, "every value of the source is transformed")
		case 2:
			sym.Assert(n == 0, "nothing is left when the source is disposed")
			sym.Assert(x.idle && len(x.ierrs) == 1 && x.ierrs[0] == directive.ErrDirectiveDisposed, "the disposal of the source is reported")
		}
		x.end()
	}
	x.checkEnd()
	sym.Cover("end")
}

// failAdder cannot add directives.
type failAdder struct{}

func (failAdder) AddDirective(directive.Directive, directive.ReferenceHandler) (directive.Instance, directive.Reference, error) {
	return nil, nil, hu.ErrTest
}

// R02Refused runs the resolvers if the source directive is refused, and with no transformation.
//
//verif:prop R02
//verif:bounds plain and typed; an adder which refuses the directive, or a resolver without a transformation and a source with values of 2 types
//verif:quick preempt=0 delay=0
//verif:thorough preempt=1
func R02Refused() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	var add directive.DirectiveAdder = c
	refuse := sym.Bool("refuse")
	if refuse {
		add = failAdder{}
	}
	var res directive.Resolver = directive.NewTransformResolver[int](add, &hu.Dir{Key: 2}, nil)
	if refuse && sym.Bool("typed") {
		res = directive.NewTypedTransformResolver(add, &hu.Dir{Key: 2}, func(ctx context.Context, v directive.TypedAttachedValue[int]) (int, func(), bool, error) {
			return 0, nil, true, nil
		}, nil)
	}
	_, _ = c.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if di.GetDirective().(*hu.Dir).Key == 2 {
			return directive.Resolvers(p), nil
		}
		return directive.Resolvers(res), nil
	}))
	r := hu.NewRef("r")
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	var errs []error
	idle := false
	di.AddIdleCallback(func(i bool, e []error) { idle, errs = i, e })
	sym.Quiesce()
	if refuse {
		sym.Assert(idle && len(errs) == 1 && errs[0] == hu.ErrTest, "the refusal is reported")
		sym.Cover("refused")
		return
	}
	v := int(sym.Uint32("v"))
	id, _ := p.H.AddValue(v)
	_, _ = p.H.AddValue("other")
	sym.Quiesce()
	r.Check()
	sym.Assert(len(r.Live) == 1, "the values of the type are emitted")
	for _, x := range r.Live {
		sym.Assert(x == v, "the values of the type are emitted")
	}
	p.H.RemoveValue(id)
	sym.Quiesce()
	sym.Assert(len(r.Live) == 0, "the value is removed")
	ref.Release()
	sym.Quiesce()
	sym.Assert(len(c.GetDirectives()) == 0, "the source directive is released")
	sym.Cover("end")
}

// R02Cap rejects transformed values of a full directive.
//
//verif:prop R02
//verif:bounds a target with a hard cap of 1 and two source values added before or after the resolver is started; plain and typed
//verif:quick preempt=1
//verif:thorough preempt=2
func R02Cap() {
	x := newR02(sym.Bool("typed"), directive.ValueOptions{MaxValueCount: 1, MaxValueHardCap: true}, func(ctx context.Context, h directive.ResolverHandler, run int) error {
		if run == 1 {
			h.AddValue(1)
			h.AddValue(2)
		}
		<-ctx.Done()
		return context.Canceled
	})
	sym.Quiesce()
	x.r.Check()
	sym.Assert(len(x.r.Live) == 1, "the cap is kept")
	sym.Assert(x.out() <= 1, "a rejected value is released")
	x.end()
	x.checkEnd()
	sym.Cover("end")
}
