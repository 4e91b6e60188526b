package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// nMany is the number of elements of the harnesses with many elements.
const nMany = 5

// two chooses two different elements, in order.
func two(name string) (int, int) {
	a := sym.Choose(name+" 1", nMany)
	b := sym.Choose(name+" 2", nMany-1)
	if b >= a {
		b++
	}
	return a, b
}

// B01Many removes two of many controllers.
//
//verif:prop B01
//verif:bounds 5 controllers added or executed, any 2 of which end in any order, each in one of 4 ways; directives before and afterwards
//verif:quick preempt=0
//verif:thorough preempt=0
func B01Many() {
	b := hu.NewBus()
	var cs [nMany]*hu.Ctrl
	var rel [nMany]func()
	var cancel [nMany]func()
	var errs [nMany]int
	for i := range cs {
		cs[i] = hu.NewCtrl("c")
		var ctx context.Context
		ctx, cancel[i] = context.WithCancel(context.Background())
		if i == 2 {
			go func() {
				err := b.ExecuteController(ctx, cs[i])
				sym.Assert(err == hu.ErrTest || err == context.Canceled, "the result of a controller is returned")
				errs[i]++
			}()
			rel[i] = cancel[i]
			sym.Quiesce()
			continue
		}
		var err error
		rel[i], err = b.AddController(ctx, cs[i], func(err error) {
			sym.Assert(err == hu.ErrTest || err == context.Canceled, "the error of a controller is reported")
			errs[i]++
		})
		sym.Assert(err == nil, "a controller can be added")
	}
	_, _, _ = b.AddDirective(&hu.PlainDir{ID: 1}, nil)
	sym.Quiesce()
	x, y := two("remove")
	failed := [nMany]bool{}
	for _, i := range []int{x, y} {
		switch sym.Choose("how", 3) {
		case 0:
			rel[i]()
		case 1:
			// detaches only, the controller is stopped by its context
			b.RemoveController(cs[i])
			sym.Quiesce()
			sym.Assert(hu.CountCtrl(b, cs[i]) == 0, "a removed controller is detached")
			cancel[i]()
		case 2:
			failed[i] = true
			cs[i].Exit <- hu.ErrTest
		}
		sym.Quiesce()
	}
	_, _, _ = b.AddDirective(&hu.PlainDir{ID: 2}, nil)
	sym.Quiesce()
	for i, c := range cs {
		gone := i == x || i == y
		sym.Assert(hu.CountCtrl(b, c) == sym.IteInt(gone, 0, 1), "exactly the removed controllers are detached")
		sym.Assert(c.Active == sym.IteInt(gone, 0, 1) && c.Runs == 1, "exactly the removed controllers are stopped")
		sym.Assert(c.Total == sym.IteInt(gone, 1, 2), "exactly the attached controllers are asked about a directive")
		if failed[i] || i == 2 {
			sym.Assert(errs[i] == sym.IteInt(gone, 1, 0), "the result of a controller is reported once")
		}
		sym.Assert(gone || errs[i] == 0, "no error is reported for a running controller")
	}
	sym.Assert(len(b.GetControllers()) == nMany-2, "exactly the attached controllers are listed")
	sym.Cover("end")
}

// H02Many collects what is left of many values.
//
//verif:prop H02
//verif:bounds 5 values of 2 resolvers, some added before the start; any 3 of them removed in any order and another added before the directive is idle, any value removed or another added afterwards
//verif:quick preempt=0
//verif:thorough preempt=0
func H02Many() {
	s := newValSrc()
	s.p1.H.MarkIdle(false)
	s.p2.H.MarkIdle(false)
	l := &collect{}
	start := sym.Choose("start", 3) * 2
	for i := 0; i < nMany; i++ {
		if i == start {
			l.start(s.b, s.dir(), false)
			sym.Quiesce()
		}
		s.add(string(rune('a'+i)), i%2 == 1)
	}
	for k := 0; k < 3; k++ {
		s.remove(sym.Choose("remove", len(s.live)))
	}
	if sym.Bool("another") {
		s.add("z", true)
	}
	sym.Quiesce()
	sym.Assert(!l.returned, "nothing is returned before the directive is idle")
	s.p1.H.MarkIdle(true)
	s.p2.H.MarkIdle(true)
	sym.Quiesce()
	sym.Assert(l.returned && l.err == nil && l.ref != nil, "the values are returned when the directive is idle")
	sym.Assert(sameVals(l.vals, s.live), "exactly the live values are returned")
	got := append([]h01val(nil), s.live...)
	want := 0
	if k := sym.Choose("after", len(s.live)+1); k < len(s.live) {
		s.remove(k)
		want = 1
	} else {
		s.add("y", false)
		s.remove(len(s.live) - 1)
	}
	sym.Quiesce()
	sym.Assert(l.disposed == want, "the dispose callback is called exactly if a returned value is removed")
	sym.Assert(sameVals(l.vals, got), "the returned values are not changed")
	l.ref.Release()
	sym.Cover("end")
}

// H04Many removes two of many values with effects.
//
//verif:prop H04
//verif:bounds 5 values of 2 resolvers, some added before the start; any 2 removed in any order and another added; effects of all values or one
//verif:quick preempt=0
//verif:thorough preempt=0
func H04Many() {
	s := newValSrc()
	e := newEffects()
	one := sym.Bool("one")
	start := sym.Choose("start", 3) * 2
	var sref directive.Reference
	for i := 0; i < nMany; i++ {
		if i == start {
			eff := func(v directive.TypedAttachedValue[string]) func() { return e.start(v.GetValueID(), v.GetValue()) }
			if one {
				_, sref, _ = bus.ExecOneOffWatchEffect(eff, s.b, s.dir())
			} else {
				_, sref, _ = bus.ExecWatchEffect(eff, s.b, s.dir())
			}
		}
		s.add(string(rune('a'+i)), i%2 == 1)
	}
	check := func() {
		sym.Quiesce()
		if one {
			sym.Assert(len(e.active) == 1 && e.max == 1, "one value has an effect")
		} else {
			sym.Assert(len(e.active) == len(s.live), "every live value has an effect and no other")
		}
		n := 0
		for _, l := range s.live {
			v, ok := e.active[l.id]
			if ok {
				n++
				sym.Assert(v == l.v, "the effect belongs to the value")
			}
		}
		sym.Assert(n == len(e.active), "every live value has an effect and no other")
	}
	check()
	for k := 0; k < 2; k++ {
		s.remove(sym.Choose("remove", len(s.live)))
		check()
	}
	s.add("z", true)
	check()
	s.close()
	sym.Quiesce()
	sym.Assert(len(e.active) == 0, "the effects are released with the values")
	sref.Release()
	sym.Cover("end")
}

// H05Many removes two of many forwarded values.
//
//verif:prop H05
//verif:bounds 5 values of 2 resolvers, some added before the start; any 2 removed in any order and another added; pass-through, transformation and bridge
//verif:quick preempt=0
//verif:thorough preempt=0
func H05Many() {
	form := sym.Choose("form", 4)
	f := newFwd(form, false)
	start := sym.Choose("start", 3) * 2
	for i := 0; i < nMany; i++ {
		if i == start {
			f.start()
			sym.Quiesce()
		}
		f.add(string(rune('a'+i)), i%2 == 1)
	}
	sym.Quiesce()
	f.check(form)
	for k := 0; k < 2; k++ {
		f.remove(sym.Choose("remove", len(f.live)))
		sym.Quiesce()
		f.check(form)
	}
	f.add("z", true)
	sym.Quiesce()
	f.check(form)
	f.ref.Release()
	sym.Quiesce()
	sym.Assert(len(f.dst.Live) == 0 || f.dst.Disposed == 0, "the values are removed with the forwarding")
	sym.Cover("end")
}

// H06Many has many references to a looked up value.
//
//verif:prop H06
//verif:bounds 5 references and 4 values, of which any 2 each are released and removed, and another reference is added
//verif:quick preempt=0
//verif:thorough preempt=0
func H06Many() {
	b := hu.NewBus()
	p := &hu.Puppet{}
	_, _ = b.AddHandler(hu.Static(p))
	rc := bus.NewOneOffRefCount(context.Background(), b, &hu.PlainDir{ID: 1}, nil, func(v directive.TypedAttachedValue[string]) (bool, error) {
		return v.GetValue() != vNo, nil
	}, false, nil, nil)
	var mtx sym.Mutex
	var refs []*holder
	add := func() {
		h := &holder{}
		refs = append(refs, h)
		h.ref = rc.AddRef(func(resolved bool, val string, err error) {
			mtx.Lock()
			h.resolved, h.val, h.err = resolved, val, err
			mtx.Unlock()
		})
		sym.Quiesce()
	}
	for range nMany {
		add()
	}
	live := map[uint32]string{}
	var ids []uint32
	for _, v := range []string{"a", "b", "c", "d"} {
		id, ok := p.H.AddValue(v)
		sym.Assert(ok, "the value is accepted")
		live[id] = v
		ids = append(ids, id)
	}
	check := func() {
		sym.Quiesce()
		val := ""
		for _, h := range refs {
			if h == nil {
				continue
			}
			sym.Assert(h.resolved && h.err == nil, "every reference sees a live accepted value")
			sym.Assert(val == "" || val == h.val, "all references see the same value")
			val = h.val
		}
		ok := false
		for _, v := range live {
			ok = ok || v == val
		}
		sym.Assert(ok, "every reference sees a live accepted value")
		sym.Assert(len(b.GetDirectives()) == 1 && p.Active == 1, "the value is looked up while there is a reference")
	}
	check()
	x, y := two("release")
	refs[x].ref.Release()
	refs[x] = nil
	check()
	if k := sym.Choose("remove", 4); k != 0 {
		// another value than the current one
		cur := ""
		for _, h := range refs {
			if h != nil {
				cur = h.val
			}
		}
		for i, id := range ids {
			if live[id] != cur && i == k {
				p.H.RemoveValue(id)
				delete(live, id)
			}
		}
		check()
	}
	refs[y].ref.Release()
	refs[y] = nil
	add()
	check()
	for _, h := range refs {
		if h != nil {
			sym.Assert(len(b.GetDirectives()) == 1, "the value is looked up while there is a reference")
			h.ref.Release()
		}
	}
	sym.Quiesce()
	sym.Assert(len(b.GetDirectives()) == 0 && p.Active == 0, "nothing is looked up without a reference")
	sym.Cover("end")
}
