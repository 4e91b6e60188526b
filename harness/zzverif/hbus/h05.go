package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	bus_bridge "github.com/aperturerobotics/controllerbus/bus/bridge"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// fwd forwards the values of a source directive to another one.
type fwd struct {
	*valSrc
	out  bus.Bus
	dst  *hu.Ref
	ddi  directive.Instance
	ref  directive.Reference
	disp int
	sref directive.Reference
}

// newFwd builds the forwarding: 0 pass-through, 1 transform, 2 transform without a function, 3 bridge.
func newFwd(form int, filter bool) *fwd {
	f := &fwd{valSrc: newValSrc(), dst: hu.NewRef("dst")}
	f.out = hu.NewBus()
	if form == 3 {
		var fn bus_bridge.FilterFn
		if filter {
			fn = func(di directive.Instance) (bool, error) {
				d, ok := di.GetDirective().(*hu.Dir)
				if ok && d.Ver == 7 {
					return d.Key == 5, hu.ErrTest
				}
				return ok && d.Ver == 0, nil
			}
		}
		_, _ = f.out.AddController(context.Background(), bus_bridge.NewBusBridge(f.b, fn), nil)
	} else {
		_, _ = f.out.AddHandler(hu.NewHandler(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			return directive.Resolvers(directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
				var rh directive.ReferenceHandler
				switch form {
				case 0:
					rh = bus.NewPassThruHandler(h, func() { f.disp++ })
				case 1:
					rh = bus.NewTransformHandler(h, func(v directive.AttachedValue) (directive.Value, bool) {
						s, ok := v.GetValue().(string)
						return "x" + s, ok
					}, func() { f.disp++ })
				case 2:
					rh = bus.NewTransformHandler(h, nil, func() { f.disp++ })
				}
				_, ref, err := f.b.AddDirective(f.dir(), rh)
				if err != nil {
					return err
				}
				f.sref = ref
				<-ctx.Done()
				ref.Release()
				return context.Canceled
			})), nil
		}))
	}
	return f
}

// start adds the outer directive.
func (f *fwd) start() {
	f.ddi, f.ref, _ = f.out.AddDirective(f.dir(), f.dst)
}

func (f *fwd) check(form int) {
	f.dst.Check()
	var want []h01val
	for _, l := range f.live {
		switch form {
		case 1:
			if s, ok := l.v.(string); ok {
				want = append(want, h01val{l.id, "x" + s})
			}
		default:
			want = append(want, l)
		}
	}
	sym.Assert(len(want) == len(f.dst.Live), "exactly the live values of the source are forwarded")
	used := map[uint32]bool{}
	for _, w := range want {
		found := false
		for id := uint32(1); id <= f.dst.LastID; id++ {
			v, ok := f.dst.Live[id]
			if ok && !used[id] && v == w.v {
				used[id], found = true, true
				break
			}
		}
		sym.Assert(found, "exactly the live values of the source are forwarded")
	}
}

func h05seq(nops int) {
	form := sym.Choose("form", 4)
	f := newFwd(form, false)
	for i := 0; i < nops; i++ {
		if f.ddi == nil && sym.Bool("start") {
			if f.closed {
				return
			}
			f.start()
		} else if !f.step("a", "b", 7) {
			return
		}
		sym.Quiesce()
		if f.ddi != nil {
			f.check(form)
		}
	}
	if f.ddi == nil {
		return
	}
	if f.closed {
		if form == 3 {
			idle := false
			f.ddi.AddIdleCallback(func(isIdle bool, _ []error) { idle = isIdle })
			sym.Assert(idle, "the forwarding to another bus ends when the source is disposed")
		}
		sym.Assert(form == 3 || f.disp == 1, "the disposal of the source is told once")
		sym.Assert(len(f.dst.Live) == 0, "no value is left when the source is disposed")
	} else {
		f.keep.Release()
		sym.Quiesce()
		sym.Assert(hu.Has(f.b, f.di), "the source is kept while it is forwarded")
		f.ref.Release()
		sym.Quiesce()
		sym.Assert(!hu.Has(f.b, f.di), "the source is released with the forwarding")
	}
	sym.Cover("end")
}

// H05Seq forwards values during arbitrary histories of the source.
//
//verif:prop H05
//verif:bounds histories of 4 operations (start, add a value of 3 kinds by one of 2 resolvers, remove any, close the source); pass-through, transformation with and without a function, bridge to another bus
//verif:quick preempt=0 delay=0
//verif:thorough skip=1
func H05Seq() { h05seq(4) }

// H05SeqLong runs longer histories.
//
//verif:prop H05
//verif:bounds as before with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0
func H05SeqLong() { h05seq(5) }

// H05Conc changes the source while the forwarding starts or ends.
//
//verif:prop H05
//verif:bounds a value added and possibly removed or the source closed, and another one added, while the forwarding is started and possibly released; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=2
func H05Conc() {
	form := sym.Choose("form", 4)
	f := newFwd(form, false)
	release := sym.Bool("release")
	done := false
	go func() {
		f.start()
		if release {
			f.ref.Release()
		}
		done = true
	}()
	f.add("a", false)
	switch sym.Choose("event", 3) {
	case 0:
		f.remove(0)
		f.add("b", true)
	case 1:
		f.add("b", true)
	case 2:
		f.close()
	}
	sym.Quiesce()
	sym.Assert(done, "the directive is added")
	if release {
		if !f.closed {
			f.keep.Release()
			sym.Quiesce()
		}
		sym.Assert(len(f.out.GetDirectives()) == 0, "the directive is released")
		sym.Assert(len(f.b.GetDirectives()) == 0, "the source is released with the forwarding")
	} else {
		f.check(form)
	}
	sym.Cover("end")
}

// H05Bridge checks which directives are bridged.
//
//verif:prop H05
//verif:bounds 3 directives which are accepted, declined or fail in the filter, with or without a filter, added in any order, one released and added again
//verif:quick preempt=0 delay=0
//verif:thorough preempt=1
func H05Bridge() {
	filter := sym.Bool("filter")
	f := newFwd(3, filter)
	f.keep.Release()
	sym.Quiesce()
	sym.Assert(len(f.b.GetDirectives()) == 0, "nothing is bridged before it is added")
	d := &hu.Dir{Key: 2}
	switch sym.Choose("ver", 4) {
	case 1:
		d.Ver = 1
	case 2:
		d.Ver = 7
	case 3:
		d.Key, d.Ver = 5, 7
	}
	di, ref, err := f.out.AddDirective(d, nil)
	sym.Assert(err == nil, "the directive is added")
	sym.Quiesce()
	want := 1
	if filter && d.Ver != 0 {
		want = 0
	}
	sym.Assert(len(f.b.GetDirectives()) == want, "exactly the accepted directives are bridged")
	_, ref2, _ := f.out.AddDirective(&hu.Dir{Key: 3}, nil)
	sym.Quiesce()
	sym.Assert(len(f.b.GetDirectives()) == want+1, "exactly the accepted directives are bridged")
	ref.Release()
	sym.Quiesce()
	sym.Assert(len(f.b.GetDirectives()) == 1, "a released directive is not bridged anymore")
	r := hu.NewRef("r")
	di2, _, _ := f.out.AddDirective(d, r)
	sym.Quiesce()
	sym.Assert(di2 != di, "a new instance is made")
	sym.Assert(len(f.b.GetDirectives()) == want+1, "a directive which is added again is bridged again")
	ref2.Release()
	sym.Quiesce()
	sym.Assert(len(f.b.GetDirectives()) == want, "a released directive is not bridged anymore")
	if want == 1 {
		// the resolver was started last for the directive which was added again
		f.p1.H.AddValue("v")
		sym.Quiesce()
		sym.Assert(len(r.Live) == 1, "the values of a directive which is added again are forwarded")
	}
	sym.Cover("end")
}

// H05BridgeAgain adds a directive again while it is released.
//
//verif:prop H05
//verif:bounds the same directive added twice in succession by one goroutine, or released while added by another; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=2
func H05BridgeAgain() {
	f := newFwd(3, false)
	f.keep.Release()
	sym.Quiesce()
	d := &hu.Dir{Key: 2}
	_, ref, _ := f.out.AddDirective(d, nil)
	if sym.Bool("settle") {
		sym.Quiesce()
	}
	if sym.Bool("conc") {
		go ref.Release()
	} else {
		ref.Release()
	}
	_, ref2, _ := f.out.AddDirective(d, nil)
	sym.Quiesce()
	sym.Assert(len(f.b.GetDirectives()) == 1, "a directive which is added again is bridged")
	ref2.Release()
	sym.Quiesce()
	sym.Assert(len(f.b.GetDirectives()) == 0, "a released directive is not bridged anymore")
	sym.Cover("end")
}

// H05Loop bridges two buses to each other.
//
//verif:prop H05
//verif:bounds two buses with a bridge each way, a directive without equivalence added once or twice in succession and released, possibly concurrently; all schedules up to the preemption bound
//verif:quick preempt=0 delay=1
//verif:thorough preempt=1
func H05Loop() {
	a, b := hu.NewBus(), hu.NewBus()
	_, _ = a.AddController(context.Background(), bus_bridge.NewBusBridge(b, nil), nil)
	back := bus_bridge.NewBusBridge(nil, nil)
	back.SetDirectiveBridgeTarget(a)
	_, _ = b.AddController(context.Background(), back, nil)
	asked := 0
	_, _ = b.AddHandler(hu.NewHandler(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		asked++
		sym.Assert(asked <= 2, "a directive is not bridged endlessly")
		return nil, nil
	}))
	d := &hu.PlainDir{ID: 1}
	_, ref, _ := a.AddDirective(d, nil)
	if sym.Bool("settle") {
		sym.Quiesce()
	}
	if sym.Bool("again") {
		ref.Release()
		_, ref, _ = a.AddDirective(d, nil)
	}
	sym.Quiesce()
	sym.Assert(len(b.GetDirectives()) == 1, "a directive is bridged once to each bus")
	// an instance which is added again is not necessarily bridged back while the previous one ends
	sym.Assert(len(a.GetDirectives()) <= 2, "a directive is bridged once to each bus")
	ref.Release()
	sym.Quiesce()
	sym.Assert(len(a.GetDirectives()) == 0 && len(b.GetDirectives()) == 0, "a released directive is not bridged anymore")
	sym.Cover("end")
}
