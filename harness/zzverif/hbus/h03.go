package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/routine"
)

// valSrc adds and removes values of one directive.
type valSrc struct {
	b      bus.Bus
	p1, p2 *hu.Puppet
	di     directive.Instance
	keep   directive.Reference
	live   []h01val
	maxID  uint32
	closed bool
}

func (s *valSrc) has(id uint32, v any) bool {
	for _, l := range s.live {
		if l.id == id && l.v == v {
			return true
		}
	}
	return false
}

func newValSrc() *valSrc {
	s := &valSrc{b: hu.NewBus(), p1: &hu.Puppet{}, p2: &hu.Puppet{}}
	_, _ = s.b.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(s.p1, s.p2), nil
	}))
	s.di, s.keep, _ = s.b.AddDirective(s.dir(), nil)
	sym.Quiesce()
	return s
}

func (s *valSrc) dir() directive.Directive { return &hu.Dir{Key: 1} }

// add adds a value to the given resolver.
func (s *valSrc) add(v any, second bool) uint32 {
	p := s.p1
	if second {
		p = s.p2
	}
	id, ok := p.H.AddValue(v)
	sym.Assert(ok, "the value is accepted")
	s.live = append(s.live, h01val{id, v})
	s.maxID = id
	return id
}

// remove removes the kth live value.
func (s *valSrc) remove(k int) {
	id := s.live[k].id
	s.live = append(append([]h01val(nil), s.live[:k]...), s.live[k+1:]...)
	if _, ok := s.p1.H.RemoveValue(id); !ok {
		s.p2.H.RemoveValue(id)
	}
}

func (s *valSrc) close() {
	s.closed = true
	s.live = nil
	s.di.Close()
}

// step runs one arbitrary operation, reporting whether it was possible.
func (s *valSrc) step(kinds ...any) bool {
	if s.closed {
		return false
	}
	switch sym.Choose("op", 3) {
	case 0:
		v := kinds[sym.Choose("val", len(kinds))]
		s.add(v, sym.Bool("second"))
	case 1:
		if len(s.live) == 0 {
			return false
		}
		s.remove(sym.Choose("which", len(s.live)))
	case 2:
		s.close()
	}
	return true
}

func h03watch(nops int) {
	s := newValSrc()
	var sel directive.TypedAttachedValue[string]
	rejected := map[uint32]bool{}
	start := sym.Choose("start", 3)
	var ref directive.Reference
	calls := 0
	for i := 0; i < nops; i++ {
		if i == start {
			var err error
			_, ref, err = bus.ExecOneOffWatchCb(func(v directive.TypedAttachedValue[string]) bool {
				calls++
				if v == nil {
					sym.Assert(sel != nil, "no value is told only when the selected one was removed")
					sel = nil
					return true
				}
				if sel != nil {
					for _, l := range s.live {
						sym.Assert(l.id != sel.GetValueID(), "the selected value is not changed while it is valid")
					}
				}
				sym.Assert(s.closed || v.GetValueID() > s.maxID || s.has(v.GetValueID(), v.GetValue()), "the callback is told values of the directive")
				sym.Assert(!rejected[v.GetValueID()], "a rejected value is not offered again")
				if v.GetValue() == vNo {
					rejected[v.GetValueID()] = true
					return false
				}
				sel = v
				return true
			}, s.b, s.dir())
			sym.Assert(err == nil && ref != nil, "the watch is started")
		} else if !s.step(vOk, vNo, 7) {
			return
		}
		sym.Quiesce()
		if ref == nil {
			continue
		}
		found, avail := false, false
		for _, l := range s.live {
			found = found || sel != nil && sel.GetValueID() == l.id && sel.GetValue() == l.v
			if _, ok := l.v.(string); ok && l.v != vNo {
				avail = true
			}
		}
		sym.Assert((sel != nil) == avail, "a value is selected exactly if one is available and not rejected")
		sym.Assert(sel == nil || found, "the selected value is a live value")
	}
	if ref != nil && !s.closed {
		n := calls
		ref.Release()
		for len(s.live) > 0 {
			s.remove(0)
		}
		sym.Quiesce()
		sym.Assert(calls == n, "nothing is told after the release")
		s.keep.Release()
		sym.Quiesce()
		sym.Assert(!hu.Has(s.b, s.di), "the directive is released with the watch")
	}
	sym.Cover("end")
}

// H03Watch watches one value of a directive with a callback which rejects some.
//
//verif:prop H03
//verif:bounds the watch started after 0 to 2 of 4 operations (thorough 5) on the directive with 2 resolvers: add an accepted, rejected or mistyped value, remove any, close
//verif:quick preempt=0 delay=0 maporder=6
//verif:thorough skip=1
func H03Watch() { h03watch(5) }

// H03WatchLong runs longer histories.
//
//verif:prop H03
//verif:bounds as before with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0 maporder=6
func H03WatchLong() { h03watch(6) }

func h03select(nops int) {
	s := newValSrc()
	mode := sym.Choose("select", 5)
	var sel directive.TypedAttachedValue[string]
	calls := 0
	strs := func() []h01val {
		var out []h01val
		for _, l := range s.live {
			if _, ok := l.v.(string); ok {
				out = append(out, l)
			}
		}
		return out
	}
	var last []directive.TypedAttachedValue[string]
	choose := func(vals []directive.TypedAttachedValue[string]) int {
		last = append([]directive.TypedAttachedValue[string](nil), vals...)
		for i, v := range vals {
			sym.Assert(i == 0 || vals[i-1].GetValueID() < v.GetValueID(), "the values are sorted by their ids")
		}
		switch mode {
		case 1:
			return len(vals) - 1
		case 2:
			for i, v := range vals {
				if v.GetValue() == vOk {
					return i
				}
			}
			return -1
		case 3:
			return len(vals)
		}
		return 0
	}
	if mode == 0 {
		choose = nil
	}
	start := sym.Choose("start", 4)
	var ref directive.Reference
	for i := 0; i < nops; i++ {
		if i == start {
			var err error
			_, ref, err = bus.ExecOneOffWatchSelectCb(s.b, s.dir(), choose, func(v directive.TypedAttachedValue[string]) {
				calls++
				if v == nil {
					sym.Assert(sel != nil, "the callback is called when the selected value changes only")
				} else {
					sym.Assert(sel == nil || sel.GetValueID() != v.GetValueID(), "the callback is called when the selected value changes only")
				}
				sel = v
			})
			sym.Assert(err == nil && ref != nil, "the watch is started")
		} else if !s.step(vOk, vNo, 7) {
			return
		}
		sym.Quiesce()
		if ref == nil {
			continue
		}
		vals := strs()
		want := -1
		switch mode {
		case 0, 4:
			if len(vals) > 0 {
				want = 0
			}
		case 1:
			want = len(vals) - 1
		case 2:
			for i, v := range vals {
				if v.v == vOk {
					want = i
					break
				}
			}
		}
		if want < 0 {
			sym.Assert(sel == nil, "no value is selected")
		} else {
			sym.Assert(sel != nil && sel.GetValueID() == vals[want].id && sel.GetValue() == vals[want].v, "the selected value is the one chosen from the live values")
		}
		if choose != nil && len(vals) > 0 {
			sym.Assert(len(last) == len(vals), "the choice is made from the live values")
		}
	}
	if ref != nil && !s.closed {
		n := calls
		ref.Release()
		for len(s.live) > 0 {
			s.remove(0)
		}
		sym.Quiesce()
		sym.Assert(calls == n, "nothing is told after the release")
	}
	sym.Cover("end")
}

// H03Select watches the value chosen by a function.
//
//verif:prop H03
//verif:bounds the watch started after 0 to 3 of 4 operations (thorough 5) as for H03Watch; no choice function, the lowest id, the highest id, the first value of a kind or an invalid index
//verif:quick preempt=0 delay=0
//verif:thorough skip=1
func H03Select() { h03select(5) }

// H03SelectLong runs longer histories.
//
//verif:prop H03
//verif:bounds as before with 5 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=0
func H03SelectLong() { h03select(6) }

// H03Forms checks the other forms of watching a value: container, routine, channel and the serial callback.
//
//verif:prop H03
//verif:bounds 4 forms, started at any time among 3 operations with 2 kinds of values
//verif:quick preempt=0 delay=0 maporder=2
//verif:thorough preempt=1 maporder=4
func H03Forms() {
	s := newValSrc()
	form := sym.Choose("form", 4)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cur := ""
	var ref directive.Reference
	ctr := ccontainer.NewCContainer("")
	rc := routine.NewStateRoutineContainer[string](nil)
	var ch <-chan directive.TypedAttachedValue[string]
	active, maxActive := 0, 0
	start := sym.Choose("start", 4)
	for i := 0; i < 4; i++ {
		if i == start {
			if s.closed {
				return
			}
			var err error
			switch form {
			case 0:
				_, ref, err = bus.ExecOneOffWatchCtr(ctr, s.b, s.dir())
			case 1:
				rc.SetStateRoutine(func(ctx context.Context, st string) error {
					cur = st
					active++
					if active > maxActive {
						maxActive = active
					}
					<-ctx.Done()
					cur = ""
					active--
					return context.Canceled
				})
				rc.SetContext(ctx, true)
				_, ref, err = bus.ExecOneOffWatchRoutine(rc, s.b, s.dir())
			case 2:
				ch, _, ref, err = bus.ExecOneOffWatchCh[string](s.b, s.dir())
			case 3:
				got := make(chan directive.Reference, 1)
				go func() {
					err := bus.ExecOneOffWatchLatestCb(ctx, s.b, s.dir(), func(di directive.Instance, ref directive.Reference) error {
						sym.Assert(di == s.di, "the instance is told")
						got <- ref
						return nil
					}, func(v directive.TypedAttachedValue[string]) error {
						active++
						if active > maxActive {
							maxActive = active
						}
						cur = ""
						if v != nil {
							cur = v.GetValue()
						}
						sym.Yield()
						active--
						return nil
					})
					sym.Assert(err == context.Canceled, "the watch runs until it is canceled")
				}()
				ref = <-got
			}
			sym.Assert(err == nil && ref != nil, "the watch is started")
		} else if !s.step("a", "b") {
			return
		}
		sym.Quiesce()
		if ref == nil {
			continue
		}
		switch form {
		case 0:
			cur = ctr.GetValue()
		case 2:
			select {
			case v := <-ch:
				cur = ""
				if v != nil {
					cur = v.GetValue()
				}
			default:
			}
		}
		if len(s.live) == 0 {
			sym.Assert(cur == "", "no value is held when there is none")
		} else {
			ok := false
			for _, l := range s.live {
				ok = ok || l.v == cur
			}
			sym.Assert(ok, "the value which is held is a live value")
		}
		sym.Assert(maxActive <= 1, "the callback or routine is not run concurrently")
	}
	if s.closed || ref == nil {
		sym.Cover("end")
		return
	}
	s.keep.Release()
	sym.Quiesce()
	sym.Assert(hu.Has(s.b, s.di), "the watch keeps the directive")
	if form == 3 {
		cancel()
	} else {
		ref.Release()
	}
	sym.Quiesce()
	sym.Assert(!hu.Has(s.b, s.di), "the directive is released with the watch")
	sym.Cover("end")
}

// H03Conc has values changing on two goroutines while a watch is started.
//
//verif:prop H03
//verif:bounds two resolvers adding one value each and removing one or both, the watch started concurrently; 4 kinds of watches; all schedules up to the preemption bound
//verif:quick preempt=1 maporder=2
//verif:thorough preempt=2 maporder=2
func H03Conc() {
	b := hu.NewBus()
	p1, p2 := &hu.Puppet{}, &hu.Puppet{}
	rem := sym.Choose("remove", 3)
	var id2 uint32
	p1.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		id, _ := h.AddValue("a")
		if rem > 0 {
			h.RemoveValue(id)
		}
		return nil
	}
	p2.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		id2, _ = h.AddValue("b")
		if rem > 1 {
			h.RemoveValue(id2)
		}
		return nil
	}
	_, _ = b.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p1, p2), nil
	}))
	_, _, _ = b.AddDirective(&hu.Dir{Key: 1}, nil)
	form := sym.Choose("form", 4)
	var sel directive.TypedAttachedValue[string]
	ctr := ccontainer.NewCContainer("")
	var ch <-chan directive.TypedAttachedValue[string]
	switch form {
	case 0:
		_, _, _ = bus.ExecOneOffWatchCb(func(v directive.TypedAttachedValue[string]) bool { sel = v; return true }, b, &hu.Dir{Key: 1})
	case 1:
		_, _, _ = bus.ExecOneOffWatchSelectCb(b, &hu.Dir{Key: 1}, nil, func(v directive.TypedAttachedValue[string]) { sel = v })
	case 2:
		_, _, _ = bus.ExecOneOffWatchCtr(ctr, b, &hu.Dir{Key: 1})
	case 3:
		ch, _, _, _ = bus.ExecOneOffWatchCh[string](b, &hu.Dir{Key: 1})
	}
	sym.Quiesce()
	got := ""
	switch form {
	case 2:
		got = ctr.GetValue()
	case 3:
		select {
		case sel = <-ch:
		default:
		}
	}
	if sel != nil {
		got = sel.GetValue()
	}
	switch rem {
	case 0:
		sym.Assert(got == "a" || got == "b", "one of the live values is selected")
	case 1:
		sym.Assert(got == "b", "the remaining value is selected")
	case 2:
		sym.Assert(got == "", "no value is selected when all were removed")
	}
	sym.Cover("end")
}
