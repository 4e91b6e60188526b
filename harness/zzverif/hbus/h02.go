package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

type collect struct {
	mtx      sym.Mutex
	cancel   context.CancelFunc
	started  bool
	returned bool
	vals     []string
	di       directive.Instance
	ref      directive.Reference
	err      error
	disposed int
}

func (l *collect) start(b bus.Bus, dir directive.Directive, waitOne bool) {
	l.started = true
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	go func() {
		l.vals, l.di, l.ref, l.err = bus.ExecCollectValues[string](ctx, b, dir, waitOne, func() {
			l.mtx.Lock()
			l.disposed++
			l.mtx.Unlock()
		})
		l.returned = true
	}()
}

// sameVals compares the values regardless of their order.
func sameVals(vals []string, live []h01val) bool {
	n := 0
	used := make([]bool, len(vals))
	for _, l := range live {
		s, ok := l.v.(string)
		if !ok {
			continue
		}
		n++
		found := false
		for i, v := range vals {
			if !used[i] && v == s {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return n == len(vals)
}

func h02seq(nops int) {
	b := hu.NewBus()
	p := &hu.Puppet{}
	stop := make(chan error, 1)
	p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		select {
		case <-ctx.Done():
			return context.Canceled
		case err := <-stop:
			return err
		}
	}
	_, _ = b.AddHandler(hu.Static(p))
	waitOne := sym.Bool("waitOne")
	l := &collect{}
	di, keep, _ := b.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	var live []h01val
	idle, exited, closed, canceled := false, false, false, false
	var resErr error
	done, ok := false, false
	var wantErr error
	var got []h01val
	wantDisp := 0
	strs := func() int {
		n := 0
		for _, v := range live {
			if _, ok := v.v.(string); ok {
				n++
			}
		}
		return n
	}
	for i := 0; i <= nops; i++ {
		op := sym.Choose("op", 7)
		if i == nops {
			op = 0
		}
		switch op {
		case 0:
			if l.started {
				if i == nops {
					continue
				}
				return
			}
			l.start(b, &hu.Dir{Key: 1}, waitOne)
		case 1:
			if closed || exited {
				return
			}
			var v any = 7
			if k := sym.Choose("val", 3); k == 0 {
				v = vOk
			} else if k == 1 {
				v = vNo
			}
			id, ok := p.H.AddValue(v)
			sym.Assert(ok, "the value is accepted")
			live = append(live, h01val{id, v})
		case 2:
			if closed || len(live) == 0 {
				return
			}
			k := sym.Choose("which", len(live))
			p.H.RemoveValue(live[k].id)
			if ok {
				for _, g := range got {
					if _, isStr := g.v.(string); isStr && g.id == live[k].id {
						wantDisp = 1
					}
				}
			}
			live = append(append([]h01val(nil), live[:k]...), live[k+1:]...)
		case 3:
			if closed || exited {
				return
			}
			idle = !idle
			p.H.MarkIdle(idle)
		case 4:
			if closed || exited {
				return
			}
			var err error
			if sym.Bool("fail") {
				err = hu.ErrTest
			}
			if !idle || !l.started {
				resErr = err
			}
			exited, idle = true, true
			stop <- err
		case 5:
			if !l.started || canceled {
				return
			}
			l.cancel()
			canceled = true
		case 6:
			if closed {
				return
			}
			di.Close()
			closed = true
			live = nil
			if ok {
				wantDisp = 1
			}
		}
		sym.Quiesce()
		if !l.started {
			if closed {
				return
			}
			continue
		}
		if !done {
			switch {
			case closed:
				done, wantErr = true, directive.ErrDirectiveDisposed
			case resErr != nil:
				done, wantErr = true, resErr
			case idle && (!waitOne || strs() > 0):
				done, ok = true, true
			case canceled:
				done, wantErr = true, context.Canceled
			default:
				sym.Assert(!l.returned, "the values are collected until the directive is idle")
			}
			if done {
				sym.Assert(l.returned && l.err == wantErr, "the collected values or the error are returned when the directive is idle, fails, is disposed or the context is canceled")
				sym.Assert((l.ref != nil) == ok, "a reference is returned without an error only")
				if ok {
					got = append([]h01val(nil), live...)
					sym.Assert(sameVals(l.vals, live), "exactly the live values of the type are returned")
					if len(l.vals) > 1 {
						sym.Cover("two")
					}
				}
			}
		}
		sym.Assert(l.disposed == wantDisp, "the dispose callback is called once when a returned value is removed and not otherwise")
	}
	if done && !closed {
		keep.Release()
		sym.Quiesce()
		sym.Assert(hu.Has(b, di) == ok, "the returned reference keeps the directive and no other is held")
		if ok {
			snap := append([]string(nil), l.vals...)
			l.ref.Release()
			sym.Quiesce()
			sym.Assert(!hu.Has(b, di) && l.disposed == wantDisp, "the directive is released with the returned reference")
			sym.Assert(len(snap) == len(l.vals), "the returned values are not changed")
		}
	}
	if ok {
		sym.Assert(sameVals(l.vals, got), "the returned values are not changed afterwards")
	}
	sym.Cover("end")
}

// H02Seq collects values during arbitrary histories of the directive.
//
//verif:prop H02
//verif:bounds histories of 5 operations (start, add a value of 3 kinds, remove any, change the idle state, return or fail the resolver, cancel, close), waiting for a value or not
//verif:quick preempt=0 delay=0
//verif:thorough preempt=1
func H02Seq() { h02seq(5) }

// H02SeqLong runs longer histories.
//
//verif:prop H02
//verif:bounds as before with 6 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0
func H02SeqLong() { h02seq(6) }

// H02Conc collects values of two resolvers which add and remove values, return or fail.
//
//verif:prop H02
//verif:bounds two resolvers with up to 2 values, one of them removed, failing or not; cancellation or disposal; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func H02Conc() {
	b := hu.NewBus()
	p1, p2 := &hu.Puppet{}, &hu.Puppet{}
	how := sym.Choose("how", 4)
	p1.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		id, _ := h.AddValue("a")
		switch how {
		case 1:
			h.RemoveValue(id)
		case 2:
			h.AddValue("b")
		case 3:
			return hu.ErrTest
		}
		return nil
	}
	p2.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		h.AddValue("c")
		h.MarkIdle(true)
		<-ctx.Done()
		return nil
	}
	_, _ = b.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p1, p2), nil
	}))
	l := &collect{}
	l.start(b, &hu.Dir{Key: 1}, sym.Bool("waitOne"))
	ev := sym.Choose("event", 3)
	switch ev {
	case 1:
		l.cancel()
	case 2:
		for _, d := range b.GetDirectives() {
			d.Close()
		}
	}
	sym.Quiesce()
	sym.Assert(l.returned || ev == 2, "the values are returned when the directive is idle")
	if l.returned && l.err == nil {
		sym.Assert(l.ref != nil && how != 3, "a reference is returned with the values")
		var want []h01val
		switch how {
		case 1:
			want = []h01val{{0, "c"}}
		case 2:
			want = []h01val{{0, "a"}, {0, "b"}, {0, "c"}}
		default:
			want = []h01val{{0, "a"}, {0, "c"}}
		}
		gone := len(b.GetDirectives()) == 0
		// values are removed one after another while the directive is disposed
		sym.Assert(sameVals(l.vals, want) || gone && len(l.vals) < len(want), "exactly the values of the idle directive are returned")
		if gone {
			sym.Assert(ev == 2 && l.disposed == 1, "the dispose callback is called once when a returned value is removed")
		} else {
			sym.Assert(l.disposed == 0, "the dispose callback is not called while the values are valid")
		}
		l.ref.Release()
		sym.Quiesce()
		sym.Assert(len(b.GetDirectives()) == 0, "the directive is released with the returned reference")
		sym.Cover("values")
	} else if l.returned {
		sym.Assert(l.ref == nil, "a reference is returned without an error only")
		switch l.err {
		case hu.ErrTest:
			sym.Assert(how == 3, "the error tells what happened")
		case context.Canceled:
			sym.Assert(ev == 1, "the error tells what happened")
		default:
			sym.Assert(ev == 2 && l.err == directive.ErrDirectiveDisposed, "the error tells what happened")
		}
		sym.Assert(len(b.GetDirectives()) == 0, "no reference is held after an error")
		sym.Cover("error")
	}
	sym.Cover("end")
}

// H02Removals removes some of many values before and after the collection.
//
//verif:prop H02
//verif:bounds 4 values of which any 2 are removed in any order and another is added, before or after the start; a returned value or none is removed afterwards
//verif:quick preempt=0 delay=0 merge=0
//verif:thorough preempt=1 merge=0
func H02Removals() {
	b := hu.NewBus()
	p := &hu.Puppet{}
	_, _ = b.AddHandler(hu.Static(p))
	di, keep, _ := b.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	l := &collect{}
	start := sym.Choose("start", 3)
	var live []h01val
	add := func(s string) {
		id, ok := p.H.AddValue(s)
		sym.Assert(ok, "the value is accepted")
		live = append(live, h01val{id, s})
	}
	remove := func() uint32 {
		k := sym.Choose("which", len(live))
		id := live[k].id
		p.H.RemoveValue(id)
		live = append(append([]h01val(nil), live[:k]...), live[k+1:]...)
		return id
	}
	at := func(k int) {
		if k == start {
			l.start(b, &hu.Dir{Key: 1}, false)
		}
		sym.Quiesce()
	}
	at(0)
	add("a")
	add("b")
	add("c")
	add("d")
	at(1)
	remove()
	sym.Quiesce()
	remove()
	if sym.Bool("more") {
		add("e")
		sym.Quiesce()
		remove()
	}
	at(2)
	sym.Assert(!l.returned, "the values are collected until the directive is idle")
	p.H.MarkIdle(true)
	sym.Quiesce()
	sym.Assert(l.returned && l.err == nil && l.ref != nil && l.di == di, "the collected values are returned when the directive is idle")
	sym.Assert(sameVals(l.vals, live), "exactly the live values of the type are returned")
	got := append([]h01val(nil), live...)
	switch sym.Choose("after", 3) {
	case 0:
		add("x")
		p.H.RemoveValue(live[len(live)-1].id)
		sym.Quiesce()
		sym.Assert(l.disposed == 0, "values which were not returned are not told about")
	case 1:
		remove()
		sym.Quiesce()
		remove()
		sym.Quiesce()
		sym.Assert(l.disposed == 1, "the dispose callback is called once when returned values are removed")
	}
	sym.Assert(sameVals(l.vals, got), "the returned values are not changed afterwards")
	keep.Release()
	sym.Quiesce()
	sym.Assert(hu.Has(b, di), "the returned reference keeps the directive")
	sym.Cover("end")
}
