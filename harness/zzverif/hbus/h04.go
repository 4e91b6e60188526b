package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// effects records the active effects.
type effects struct {
	mtx    sym.Mutex
	active map[uint32]any
	max    int
	starts int
}

func newEffects() *effects { return &effects{active: map[uint32]any{}} }

func (e *effects) start(id uint32, v any) func() {
	e.mtx.Lock()
	_, dup := e.active[id]
	sym.Assert(!dup, "an effect is started once per value")
	e.active[id] = v
	e.starts++
	if len(e.active) > e.max {
		e.max = len(e.active)
	}
	e.mtx.Unlock()
	done := false
	return func() {
		e.mtx.Lock()
		sym.Assert(!done, "the effect of a value is released once")
		done = true
		delete(e.active, id)
		e.mtx.Unlock()
	}
}

// xfrmKinds: "ok" is transformed, "no" rejected, "err" fails, 7 has another type.
func h04seq(nops int) {
	s := newValSrc()
	form := sym.Choose("form", 2)
	oneOff := sym.Bool("oneoff")
	sel := 0
	if oneOff && form == 1 {
		sel = sym.Choose("select", 5)
	}
	e := newEffects()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	started := false
	transform := func(ctx context.Context, v directive.TypedAttachedValue[string]) (uint32, bool, error) {
		switch v.GetValue() {
		case vNo:
			return 0, false, nil
		case vErr:
			return 0, false, hu.ErrTest
		}
		return v.GetValueID() + 100, true, nil
	}
	xeff := func(v directive.TransformedAttachedValue[string, uint32]) func() {
		sym.Assert(v != nil, "the effect is called with a value")
		sym.Assert(v.GetTransformedValue() == v.GetValueID()+100, "the transformed value belongs to the value")
		return e.start(v.GetValueID(), v.GetValue())
	}
	eff := func(v directive.TypedAttachedValue[string]) func() {
		sym.Assert(v != nil, "the effect is called with a value")
		return e.start(v.GetValueID(), v.GetValue())
	}
	choose := func(vals []directive.TransformedAttachedValue[string, uint32]) int {
		for i, v := range vals {
			sym.Assert(i == 0 || vals[i-1].GetValueID() < v.GetValueID(), "the values are sorted by their ids")
		}
		switch sel {
		case 1:
			return len(vals) - 1
		case 2:
			return -1
		case 4:
			// none of two, otherwise the first
			if len(vals) == 2 {
				return -1
			}
			return 0
		}
		return len(vals)
	}
	if sel == 0 {
		choose = nil
	}
	for i := 0; i < nops; i++ {
		if !started && sym.Bool("start") {
			if s.closed {
				return
			}
			started = true
			var err error
			var ref directive.Reference
			switch {
			case form == 0 && !oneOff:
				_, ref, err = bus.ExecWatchEffect(eff, s.b, s.dir())
			case form == 0:
				_, ref, err = bus.ExecOneOffWatchEffect(eff, s.b, s.dir())
			case !oneOff:
				_, ref, err = bus.ExecWatchTransformEffect(ctx, transform, xeff, s.b, s.dir())
			default:
				_, ref, err = bus.ExecOneOffWatchTransformEffect(ctx, transform, choose, xeff, s.b, s.dir())
			}
			sym.Assert(err == nil && ref != nil, "the watch is started")
			if form == 0 && sym.Bool("only") {
				// the watch holds the only reference
				s.keep.Release()
			}
		} else {
			kinds := []any{vOk, 7}
			if form == 1 {
				kinds = []any{vOk, vNo, vErr}
			}
			if !s.step(kinds...) {
				return
			}
		}
		sym.Quiesce()
		if !started {
			sym.Assert(e.starts == 0, "no effect is started without a watch")
			continue
		}
		var want []h01val
		for _, l := range s.live {
			if str, ok := l.v.(string); ok && (form == 0 || str == vOk) {
				want = append(want, l)
			}
		}
		if !oneOff {
			sym.Assert(len(e.active) == len(want), "every live value has an effect and no other")
			for _, w := range want {
				sym.Assert(e.active[w.id] == w.v, "every live value has an effect and no other")
			}
			continue
		}
		switch {
		case len(want) == 0 || sel == 2 || sel == 3 || sel == 4 && len(want) == 2:
			sym.Assert(len(e.active) == 0, "there is no effect without a selected value")
		case form == 0:
			sym.Assert(len(e.active) == 1, "the selected value has an effect and no other")
			ok := false
			for _, w := range want {
				ok = ok || e.active[w.id] == w.v
			}
			sym.Assert(ok, "the selected value is a live one")
		default:
			w := want[0]
			if sel == 1 {
				w = want[len(want)-1]
			}
			sym.Assert(len(e.active) == 1 && e.active[w.id] == w.v, "the selected value has an effect and no other")
		}
	}
	if oneOff {
		sym.Assert(e.max <= 1, "the effect of the previous value is released before the next one is started")
	}
	if !s.closed {
		s.close()
		sym.Quiesce()
	}
	sym.Assert(len(e.active) == 0, "all effects are released when the directive is disposed")
	sym.Cover("end")
}

// H04Seq runs the four kinds of effects against arbitrary histories of the directive.
//
//verif:prop H04
//verif:bounds histories of 4 operations (start the watch, add a value of up to 4 kinds by one of 2 resolvers, remove any, close); effects of all values or one, with or without transformation, 5 ways of selecting
//verif:quick preempt=0 delay=0 maporder=4
//verif:thorough skip=1
func H04Seq() { h04seq(4) }

// H04SeqLong runs longer histories.
//
//verif:prop H04
//verif:bounds as before with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0 maporder=4
func H04SeqLong() { h04seq(5) }

// H04Conc has values appear and disappear while they are transformed.
//
//verif:prop H04
//verif:bounds 2 values, transformed concurrently with their removal, the disposal of the directive or the cancellation of the context; effect of one value or all; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=2
func H04Conc() {
	s := newValSrc()
	e := newEffects()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	oneOff := sym.Bool("oneoff")
	transform := func(ctx context.Context, v directive.TypedAttachedValue[string]) (uint32, bool, error) {
		sym.Yield()
		return v.GetValueID() + 100, true, nil
	}
	xeff := func(v directive.TransformedAttachedValue[string, uint32]) func() {
		sym.Assert(v != nil, "the effect is called with a value")
		return e.start(v.GetValueID(), v.GetValue())
	}
	if oneOff {
		_, _, _ = bus.ExecOneOffWatchTransformEffect(ctx, transform, nil, xeff, s.b, s.dir())
	} else {
		_, _, _ = bus.ExecWatchTransformEffect(ctx, transform, xeff, s.b, s.dir())
	}
	id1 := s.add("a", false)
	id2 := s.add("b", true)
	ev := sym.Choose("event", 4)
	switch ev {
	case 0:
		s.remove(0)
	case 1:
		s.remove(1)
	case 2:
		s.close()
	}
	sym.Quiesce()
	switch {
	case ev == 2:
		sym.Assert(len(e.active) == 0, "all effects are released when the directive is disposed")
	case ev == 0:
		sym.Assert(len(e.active) == 1 && e.active[id2] == "b", "exactly the live value has an effect")
	case ev == 1:
		sym.Assert(len(e.active) == 1 && e.active[id1] == "a", "exactly the live value has an effect")
	case oneOff:
		sym.Assert(len(e.active) == 1 && e.active[id1] == "a", "the lowest value has an effect")
	default:
		sym.Assert(len(e.active) == 2, "every live value has an effect")
	}
	if oneOff {
		sym.Assert(e.max <= 1, "the effect of the previous value is released before the next one is started")
	}
	cancel()
	sym.Quiesce()
	if !s.closed {
		s.close()
	}
	sym.Quiesce()
	sym.Assert(len(e.active) == 0, "all effects are released when the directive is disposed")
	sym.Cover("end")
}

// H04Cancel cancels the context of the transformations at any time.
//
//verif:prop H04
//verif:bounds one value, the context canceled and the value removed concurrently with its transformation; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func H04Cancel() {
	s := newValSrc()
	e := newEffects()
	ctx, cancel := context.WithCancel(context.Background())
	canceled := false
	transform := func(ctx context.Context, v directive.TypedAttachedValue[string]) (uint32, bool, error) {
		sym.Yield()
		return v.GetValueID() + 100, true, nil
	}
	xeff := func(v directive.TransformedAttachedValue[string, uint32]) func() {
		sym.Yield()
		return e.start(v.GetValueID(), v.GetValue())
	}
	if sym.Bool("oneoff") {
		_, _, _ = bus.ExecOneOffWatchTransformEffect(ctx, transform, nil, xeff, s.b, s.dir())
	} else {
		_, _, _ = bus.ExecWatchTransformEffect(ctx, transform, xeff, s.b, s.dir())
	}
	s.add("a", false)
	go func() {
		canceled = true
		cancel()
	}()
	s.remove(0)
	sym.Quiesce()
	sym.Assert(canceled && len(e.active) == 0, "the effect of a removed value is released")
	if e.starts > 0 {
		sym.Cover("started")
	}
	sym.Cover("end")
}

// H04Removed removes values while they are transformed.
//
//verif:prop H04
//verif:bounds 2 values whose transformations are running; any of them removed, the directive closed or the context canceled before the transformations end, with a value, without or with an error; the effect of one value or all
//verif:quick preempt=1
//verif:thorough preempt=2
func H04Removed() {
	s := newValSrc()
	e := newEffects()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	res := sym.Choose("result", 3)
	gate := make(chan struct{})
	ctxs := map[uint32]context.Context{}
	transform := func(ctx context.Context, v directive.TypedAttachedValue[string]) (uint32, bool, error) {
		e.mtx.Lock()
		ctxs[v.GetValueID()] = ctx
		e.mtx.Unlock()
		<-gate
		switch res {
		case 1:
			return 7, false, nil
		case 2:
			return 7, true, hu.ErrTest
		}
		return v.GetValueID() + 100, true, nil
	}
	xeff := func(v directive.TransformedAttachedValue[string, uint32]) func() {
		sym.Assert(v.GetTransformedValue() == v.GetValueID()+100, "the transformed value belongs to the value")
		return e.start(v.GetValueID(), v.GetValue())
	}
	oneOff := sym.Bool("oneoff")
	if oneOff {
		_, _, _ = bus.ExecOneOffWatchTransformEffect(ctx, transform, nil, xeff, s.b, s.dir())
	} else {
		_, _, _ = bus.ExecWatchTransformEffect(ctx, transform, xeff, s.b, s.dir())
	}
	id1 := s.add("a", false)
	id2 := s.add("b", true)
	sym.Quiesce()
	sym.Assert(ctxs[id1] != nil && ctxs[id2] != nil, "the values are transformed concurrently")
	gone1, gone2 := false, false
	switch sym.Choose("event", 4) {
	case 0:
		s.remove(0)
		gone1 = true
	case 1:
		s.remove(1)
		gone2 = true
	case 2:
		s.close()
		gone1, gone2 = true, true
	case 3:
		cancel()
		gone1, gone2 = true, true
	}
	sym.Quiesce()
	sym.Assert(hu.Done(ctxs[id1]) == gone1 && hu.Done(ctxs[id2]) == gone2, "exactly the transformations of removed values are canceled")
	close(gate)
	sym.Quiesce()
	want := 0
	if res == 0 {
		if !gone1 {
			want++
			sym.Assert(e.active[id1] == "a", "a live value has an effect")
		}
		if !gone2 && (!oneOff || gone1) {
			want++
			sym.Assert(e.active[id2] == "b", "a live value has an effect")
		}
	}
	sym.Assert(len(e.active) == want, "every live value has an effect and no other")
	sym.Assert(e.starts == want || oneOff && want == 1 && e.starts == 2, "a removed value gets no effect")
	sym.Cover("end")
}
