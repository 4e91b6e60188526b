package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/routine"
)

// cbRec records the events of function callbacks.
type cbRec struct {
	live           map[uint32]any
	adds, removes  int
	disposed       int
	hasAdd, hasRem bool
	hasDisp        bool
}

func newCbRec() *cbRec {
	return &cbRec{live: map[uint32]any{}, hasAdd: sym.Bool("add"), hasRem: sym.Bool("rem"), hasDisp: sym.Bool("disp")}
}

func (r *cbRec) add(id uint32, v any) {
	_, dup := r.live[id]
	sym.Assert(!dup && r.disposed == 0, "a value is told once")
	r.live[id] = v
	r.adds++
}

func (r *cbRec) remove(id uint32, v any) {
	if r.hasAdd {
		was, ok := r.live[id]
		sym.Assert(ok && was == v && r.disposed == 0, "a removed value was told before")
	}
	delete(r.live, id)
	r.removes++
}

// H07Handlers records the events told to all kinds of handlers.
//
//verif:prop H07
//verif:bounds histories of 3 operations (add a value of 2 kinds by one of 2 resolvers, remove any, close) on a directive with a value of either kind from before or none; function, typed (with a handler for other values or none) and log handlers, with any subset of their functions
//verif:quick preempt=0 delay=0 merge=0
//verif:thorough preempt=0 delay=1 merge=0
func H07Handlers() {
	s := newValSrc()
	switch sym.Choose("before", 3) {
	case 1:
		s.add("s", false)
	case 2:
		s.add(7, false)
	}
	sym.Quiesce()
	r := newCbRec()
	form := sym.Choose("form", 4)
	var other *hu.Ref
	var oh directive.ReferenceHandler
	if form >= 1 && sym.Bool("other") {
		other = hu.NewRef("other")
		oh = other
	}
	var h directive.ReferenceHandler
	var disp func()
	if r.hasDisp {
		disp = func() { r.disposed++ }
	}
	typed, untyped := true, false
	switch form {
	case 0:
		untyped = true
		var a, d func(directive.AttachedValue)
		if r.hasAdd {
			a = func(v directive.AttachedValue) { r.add(v.GetValueID(), v.GetValue()) }
		}
		if r.hasRem {
			d = func(v directive.AttachedValue) { r.remove(v.GetValueID(), v.GetValue()) }
		}
		h = bus.NewCallbackHandler(a, d, disp)
	case 1:
		var a, d func(directive.TypedAttachedValue[string])
		if r.hasAdd {
			a = func(v directive.TypedAttachedValue[string]) { r.add(v.GetValueID(), v.GetValue()) }
		}
		if r.hasRem {
			d = func(v directive.TypedAttachedValue[string]) { r.remove(v.GetValueID(), v.GetValue()) }
		}
		h = directive.NewTypedCallbackHandler(a, d, disp, oh)
	default:
		typed = false
		if form == 2 {
			h = directive.NewLogHandler(hu.Le(), oh)
		} else {
			h = directive.NewLogHandler(nil, oh)
		}
	}
	_, ref, err := s.b.AddDirective(s.dir(), h)
	sym.Assert(err == nil && ref != nil, "the directive is added")
	nadd, nrem := map[bool]int{}, map[bool]int{}
	seen := map[uint32]bool{}
	var prev []h01val
	for i := 0; ; i++ {
		sym.Quiesce()
		nlive := map[bool]int{}
		for _, l := range s.live {
			_, isStr := l.v.(string)
			nlive[isStr]++
			if !seen[l.id] {
				seen[l.id] = true
				nadd[isStr]++
			}
		}
		for _, l := range prev {
			if !s.has(l.id, l.v) {
				_, isStr := l.v.(string)
				nrem[isStr]++
			}
		}
		prev = append([]h01val(nil), s.live...)
		check := func(f map[bool]int) int {
			n := 0
			if typed {
				n += f[true]
			}
			if untyped {
				n += f[false]
			}
			return n
		}
		if r.hasAdd {
			sym.Assert(r.adds == check(nadd), "every value of the type is told once")
			if r.hasRem {
				sym.Assert(len(r.live) == check(nlive), "exactly the live values are known")
				for id, v := range r.live {
					sym.Assert(s.has(id, v), "exactly the live values are known")
				}
			}
		}
		if r.hasRem {
			sym.Assert(r.removes == check(nrem), "every removal of a value of the type is told once")
		}
		closed := 0
		if s.closed {
			closed = 1
		}
		sym.Assert(r.disposed == closed || !r.hasDisp || !typed, "the disposal is told once")
		if other != nil {
			other.Check()
			wantA, wantL := nadd[false], nlive[false]
			if !typed {
				wantA, wantL = wantA+nadd[true], wantL+nlive[true]
			}
			sym.Assert(other.Added == wantA && len(other.Live) == wantL, "the other handler is told everything else")
			sym.Assert(other.Disposed == closed, "the disposal is told the other handler once")
		}
		if i == 3 {
			break
		}
		if !s.step("a", 7) {
			return
		}
	}
	if !s.closed {
		adds := r.adds
		ref.Release()
		s.add("z", false)
		sym.Quiesce()
		sym.Assert(r.adds == adds, "nothing is told after the release")
	}
	sym.Cover("end")
}

// H07Forward drives the forwarding handlers directly.
//
//verif:prop H07 H05
//verif:bounds histories of 4 events (add a value of 2 kinds, remove any, dispose), also a disposal without the removal of the values; a destination which accepts values, only some or is missing; pass-through and transformation, with or without their functions
//verif:quick preempt=0 delay=0 merge=0
//verif:thorough preempt=0 delay=0 merge=0
func H07Forward() {
	dst := newDst(sym.Choose("dst", 3))
	var rh directive.ResolverHandler
	if dst.mode < 2 {
		rh = dst
	}
	disposed := 0
	var disp func()
	hasDisp := sym.Bool("disp")
	if hasDisp {
		disp = func() {
			sym.Assert(len(dst.live) == 0, "the values are removed before the disposal is told")
			disposed++
		}
	}
	var h directive.ReferenceHandler
	form := sym.Choose("form", 3)
	switch form {
	case 0:
		h = bus.NewPassThruHandler(rh, disp)
	case 1:
		h = bus.NewTransformHandler(rh, nil, disp)
	case 2:
		h = bus.NewTransformHandler(rh, func(v directive.AttachedValue) (directive.Value, bool) {
			s, ok := v.GetValue().(string)
			return "x" + s, ok
		}, disp)
	}
	var live []h01val
	next := uint32(sym.Choose("first", 2)) + 1
	for i := 0; i < 4; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			var v any = "a"
			if sym.Bool("int") {
				v = 7
			}
			h.HandleValueAdded(nil, directive.NewAttachedValue(next, v))
			live = append(live, h01val{next, v})
			next++
		case 1:
			if len(live) == 0 {
				return
			}
			k := sym.Choose("which", len(live))
			l := live[k]
			live = append(append([]h01val(nil), live[:k]...), live[k+1:]...)
			h.HandleValueRemoved(nil, directive.NewAttachedValue(l.id, l.v))
		case 2:
			h.HandleInstanceDisposed(nil)
			sym.Assert(disposed == 1 || !hasDisp, "the disposal is told once")
			sym.Assert(len(dst.live) == 0, "no value is left after the disposal")
			sym.Cover("end")
			return
		}
		sym.Assert(disposed == 0, "the disposal is told once")
		n := 0
		for _, l := range live {
			v := l.v
			str, isStr := v.(string)
			if form == 2 {
				if !isStr {
					continue
				}
				v = "x" + str
			}
			if !dst.accepts(v) {
				continue
			}
			n++
			cnt := 0
			for _, d := range dst.live {
				if d == v {
					cnt++
				}
			}
			sym.Assert(cnt > 0, "the live values are forwarded")
		}
		sym.Assert(len(dst.live) == n, "exactly the live values are forwarded")
	}
	sym.Cover("end")
}

// dst is a destination of forwarded values.
type dst struct {
	directive.ResolverHandler
	mode int
	live map[uint32]any
	next uint32
}

func newDst(mode int) *dst { return &dst{mode: mode, live: map[uint32]any{}, next: 50} }

func (d *dst) accepts(v any) bool {
	_, isStr := v.(string)
	return d.mode == 0 || d.mode == 1 && isStr
}

// AddValue records.
func (d *dst) AddValue(v directive.Value) (uint32, bool) {
	if !d.accepts(v) {
		return 0, false
	}
	d.next++
	d.live[d.next] = v
	return d.next, true
}

// RemoveValue records.
func (d *dst) RemoveValue(id uint32) (directive.Value, bool) {
	v, ok := d.live[id]
	delete(d.live, id)
	return v, ok
}

// H07Errors sends the errors of resolvers to a channel.
//
//verif:prop H07
//verif:bounds 2 changes of the idle state with up to 2 errors, cancellations or none each; waiting until the directive is idle or not; a channel of size 0 to 2
//verif:quick preempt=0 delay=0 merge=0
//verif:thorough preempt=0 delay=0 merge=0
func H07Errors() {
	wait := sym.Bool("wait")
	size := sym.Choose("size", 3)
	ch := make(chan error, size)
	cb := directive.NewErrChIdleCallback(ch, wait)
	all := []error{nil, context.Canceled, hu.ErrTest, h01err2}
	for n := 0; n < 2; n++ {
		idle := sym.Bool("idle")
		var errs []error
		want := map[error]bool{}
		for k := sym.Choose("errors", 3); k > 0; k-- {
			e := all[sym.Choose("error", 4)]
			errs = append(errs, e)
			if e != nil && e != context.Canceled && (idle || !wait) {
				want[e] = true
			}
		}
		cb(idle, errs)
		got := 0
		for drained := false; !drained; {
			select {
			case err := <-ch:
				sym.Assert(want[err], "the errors of the resolvers are sent, no cancellation, and if told so only while idle")
				got++
			default:
				drained = true
			}
		}
		sym.Assert(got > 0 || len(want) == 0 || size == 0, "the error of a resolver is sent")
		if size == 2 && len(want) == 2 {
			sym.Assert(got == 2, "all errors are sent if there is room")
		}
	}
	sym.Cover("end")
}

// H07Refused runs all lookups and watches on a bus which refuses the directive.
//
//verif:prop H07 H01 H02 H03 H04
//verif:bounds all 16 lookups and watches, a bus which refuses the directive
//verif:quick preempt=0 delay=0
//verif:thorough preempt=1
func H07Refused() {
	b := &hu.FailBus{Bus: hu.NewBus(), Err: hu.ErrTest}
	ctx := context.Background()
	dir := &hu.Dir{Key: 1}
	n := 0
	told := func() { n++ }
	var di directive.Instance
	var ref directive.Reference
	var err error
	hasVal := false
	rel := func(directive.TypedAttachedValue[string]) func() { n++; return nil }
	xf := func(context.Context, directive.TypedAttachedValue[string]) (string, bool, error) { n++; return "", true, nil }
	xe := func(directive.TransformedAttachedValue[string, string]) func() { n++; return nil }
	switch sym.Choose("call", 16) {
	case 0:
		var v directive.AttachedValue
		v, di, ref, err = bus.ExecOneOff(ctx, b, dir, nil, told)
		hasVal = v != nil
	case 1:
		var v directive.AttachedValue
		v, di, ref, err = bus.ExecOneOffWithFilter(ctx, b, dir, bus.ReturnWhenIdle(), told, nil)
		hasVal = v != nil
	case 2:
		var v directive.TypedAttachedValue[string]
		v, di, ref, err = bus.ExecOneOffTyped[string](ctx, b, dir, nil, told)
		hasVal = v != nil
	case 3:
		var v string
		v, di, ref, err = bus.ExecWaitValue[string](ctx, b, dir, nil, told, nil)
		hasVal = v != ""
	case 4:
		var v directive.AttachedValue
		_, v, di, ref, err = bus.ExecOneOffWithXfrm(ctx, b, dir, nil, told, func(directive.AttachedValue) (directive.Value, bool, error) { n++; return nil, true, nil })
		hasVal = v != nil
	case 5:
		var v directive.TypedAttachedValue[string]
		_, v, di, ref, err = bus.ExecOneOffWithXfrmTyped(ctx, b, dir, nil, told, func(directive.TypedAttachedValue[string]) (string, bool, error) { n++; return "", true, nil })
		hasVal = v != nil
	case 6:
		var v []string
		v, di, ref, err = bus.ExecCollectValues[string](ctx, b, dir, sym.Bool("one"), told)
		hasVal = len(v) != 0
	case 7:
		_, ref, err = bus.ExecOneOffWatchCb(func(directive.TypedAttachedValue[string]) bool { n++; return true }, b, dir)
	case 8:
		ctr := ccontainer.NewCContainer("x")
		_, ref, err = bus.ExecOneOffWatchCtr(ctr, b, dir)
		hasVal = ctr.GetValue() != "x"
	case 9:
		_, ref, err = bus.ExecOneOffWatchSelectCb(b, dir, nil, func(directive.TypedAttachedValue[string]) { n++ })
	case 10:
		rc := routine.NewStateRoutineContainer[string](nil)
		_, ref, err = bus.ExecOneOffWatchRoutine(rc, b, dir)
	case 11:
		var ch <-chan directive.TypedAttachedValue[string]
		ch, di, ref, err = bus.ExecOneOffWatchCh[string](b, dir)
		hasVal = ch != nil
	case 12:
		err = bus.ExecOneOffWatchLatestCb(ctx, b, dir, func(directive.Instance, directive.Reference) error { n++; return nil }, func(directive.TypedAttachedValue[string]) error { n++; return nil })
	case 13:
		_, ref, err = bus.ExecWatchEffect(rel, b, dir)
	case 14:
		_, ref, err = bus.ExecOneOffWatchEffect(rel, b, dir)
	case 15:
		if sym.Bool("one") {
			_, ref, err = bus.ExecOneOffWatchTransformEffect(ctx, xf, nil, xe, b, dir)
		} else {
			_, ref, err = bus.ExecWatchTransformEffect(ctx, xf, xe, b, dir)
		}
	}
	sym.Quiesce()
	sym.Assert(err == hu.ErrTest, "the error of the bus is returned")
	sym.Assert(di == nil && ref == nil && !hasVal && n == 0, "nothing is returned or told with an error of the bus")
	sym.Cover("end")
}
