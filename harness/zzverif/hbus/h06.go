package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/refcount"
)

// holder is a reference to the container.
type holder struct {
	ref      *refcount.Ref[string]
	resolved bool
	val      string
	err      error
}

// h06 applies n operations to a container of a looked up value.
func h06(n int, keep, withTarget bool) {
	b := hu.NewBus()
	p := &hu.Puppet{}
	_, _ = b.AddHandler(hu.Static(p))
	idle := sym.Choose("idle", 2)
	icb := []bus.ExecIdleCallback{nil, bus.ReturnIfIdle(true)}[idle]
	var target *ccontainer.CContainer[string]
	var targetErr *ccontainer.CContainer[*error]
	if withTarget {
		target = ccontainer.NewCContainer("")
		targetErr = ccontainer.NewCContainer[*error](nil)
	}
	ctx, cancel := context.WithCancel(context.Background())
	rc := bus.NewOneOffRefCount(ctx, b, &hu.PlainDir{ID: 1}, icb, func(v directive.TypedAttachedValue[string]) (bool, error) {
		return v.GetValue() != vNo, nil
	}, keep, target, targetErr)
	var mtx sym.Mutex
	var refs []*holder
	live := map[uint32]string{}
	ids := []uint32{}
	add := func() {
		h := &holder{}
		h.ref = rc.AddRef(func(resolved bool, val string, err error) {
			mtx.Lock()
			h.resolved, h.val, h.err = resolved, val, err
			mtx.Unlock()
		})
		refs = append(refs, h)
	}
	kept, run := false, 0
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 4) {
		case 0:
			add()
		case 1:
			if len(refs) != 0 {
				j := sym.Choose("release", len(refs))
				refs[j].ref.Release()
				refs = append(refs[:j:j], refs[j+1:]...)
			}
		case 2:
			if p.Active != 0 {
				v := []string{vOk, vNo, "other"}[sym.Choose("value", 3)]
				id, ok := p.H.AddValue(v)
				if ok {
					live[id] = v
					ids = append(ids, id)
				}
			}
		case 3:
			if len(ids) != 0 {
				j := sym.Choose("remove", len(ids))
				_, _ = p.H.RemoveValue(ids[j])
				delete(live, ids[j])
				ids = append(ids[:j:j], ids[j+1:]...)
			}
		}
		sym.Quiesce()
		if p.Active == 0 || p.Runs != run {
			// the values went with the directive, which is added again after the value was removed
			live, ids, run = map[uint32]string{}, nil, p.Runs
		}
		acc := 0
		for _, v := range live {
			if v != vNo {
				acc++
			}
		}
		if len(refs) != 0 {
			sym.Assert(len(b.GetDirectives()) == 1 && p.Active == 1, "the value is looked up while there is a reference")
		} else if !keep {
			sym.Assert(len(b.GetDirectives()) == 0 && p.Active == 0, "nothing is looked up without a reference")
		}
		for _, h := range refs {
			if acc != 0 {
				ok := false
				for _, v := range live {
					if v == h.val && v != vNo {
						ok = true
					}
				}
				sym.Assert(h.resolved && h.err == nil && ok, "every reference sees a live accepted value")
				sym.Assert(h.val == refs[0].val, "all references see the same value")
				kept = true
			} else {
				sym.Assert(!h.resolved && h.val == "" && h.err == nil, "a reference sees no value if there is none")
			}
		}
		if acc == 0 {
			kept = false
		}
		if keep && len(refs) == 0 {
			sym.Assert(len(b.GetDirectives()) == 0 == !kept || p.Active == 0 == !kept, "a value is kept without references if configured")
		}
		if withTarget {
			if len(refs) != 0 && acc != 0 {
				sym.Assert(target.GetValue() == refs[0].val, "the container has the value")
			} else if !kept || !keep {
				sym.Assert(target.GetValue() == "", "the container is empty without a value")
			}
			sym.Assert(targetErr.GetValue() == nil, "there is no error")
		}
	}
	sym.Cover("end")
	for _, h := range refs {
		h.ref.Release()
	}
	cancel()
	rc.ClearContext()
	sym.Quiesce()
	sym.Assert(len(b.GetDirectives()) == 0 && p.Active == 0, "nothing is looked up after the context was cleared")
}

// H06Seq applies a sequence of operations.
//
//verif:prop H06
//verif:bounds 3 operations (add or release a reference, add or remove an accepted or refused value), with the default or an idle callback
//verif:quick preempt=0
//verif:thorough preempt=0
func H06Seq() { h06(3, false, true) }

// H06Long is H06Seq with more operations.
//
//verif:prop H06
//verif:bounds 5 operations (add or release a reference, add or remove an accepted or refused value), with the default or an idle callback, without a container
//verif:quick preempt=0
//verif:thorough preempt=0
func H06Long() { h06(5, false, false) }

// H06Keep keeps the value without references.
//
//verif:prop H06
//verif:bounds 4 operations (add or release a reference, add or remove an accepted or refused value), the value is kept without references
//verif:quick preempt=0
//verif:thorough preempt=0
func H06Keep() { h06(4, true, true) }

// H06Conc changes the values and the references concurrently.
//
//verif:prop H06
//verif:bounds a reference with a value; 2 goroutines, one removes the value and adds another or fails or marks the resolver idle, the other adds a reference, releases the first or both, or changes the context; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func H06Conc() {
	b := hu.NewBus()
	p := &hu.Puppet{}
	stop := make(chan struct{})
	p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		select {
		case <-ctx.Done():
			return context.Canceled
		case <-stop:
			return hu.ErrTest
		}
	}
	_, _ = b.AddHandler(hu.Static(p))
	ctx, cancel := context.WithCancel(context.Background())
	ctx2, cancel2 := context.WithCancel(context.Background())
	rc := bus.NewOneOffRefCount[string](ctx, b, &hu.PlainDir{ID: 1}, bus.ReturnIfIdle(true), nil, false, nil, nil)
	var mtx sym.Mutex
	hold := func() *holder {
		h := &holder{}
		h.ref = rc.AddRef(func(resolved bool, val string, err error) {
			mtx.Lock()
			h.resolved, h.val, h.err = resolved, val, err
			mtx.Unlock()
		})
		return h
	}
	h1 := hold()
	sym.Quiesce()
	h := p.H
	id, _ := h.AddValue("one")
	early := sym.Bool("early")
	if early {
		sym.Quiesce()
		sym.Assert(h1.resolved && h1.val == "one" && h1.err == nil, "the value is found")
	}
	w := sym.Choose("change", 4)
	o := sym.Choose("other", 4)
	var h2 *holder
	done := false
	go func() {
		switch w {
		case 0:
			_, _ = h.RemoveValue(id)
		case 1:
			_, _ = h.RemoveValue(id)
			_, _ = h.AddValue("two")
		case 2:
			_, _ = h.AddValue("two")
			_, _ = h.RemoveValue(id)
		case 3:
			_, _ = h.RemoveValue(id)
			close(stop)
		}
	}()
	go func() {
		switch o {
		case 0:
			h2 = hold()
		case 1:
			h1.ref.Release()
		case 2:
			h2 = hold()
			h1.ref.Release()
		case 3:
			rc.SetContext(ctx2)
			cancel()
		}
		done = true
	}()
	sym.Quiesce()
	sym.Assert(done, "no operation blocks")
	var cur *holder
	switch o {
	case 0, 3:
		cur = h1
	case 2:
		cur = h2
	}
	if h2 != nil && o == 0 {
		sym.Assert(*h2 == holder{h2.ref, h1.resolved, h1.val, h1.err}, "all references see the same value")
	}
	if cur == nil {
		sym.Assert(len(b.GetDirectives()) == 0 && p.Active == 0, "nothing is looked up without a reference")
		sym.Cover("released")
	} else {
		sym.Assert(p.H != h, "the lookup is repeated after its value was removed")
		if w == 3 {
			sym.Assert(cur.resolved && cur.val == "" && cur.err == hu.ErrTest, "every reference sees the error")
			sym.Assert(len(b.GetDirectives()) == 0, "nothing is looked up after an error")
			sym.Cover("error")
		} else {
			sym.Assert(!cur.resolved && cur.val == "" && cur.err == nil, "a reference sees no value if there is none")
			sym.Assert(p.Active == 1, "the value is looked up while there is a reference")
			_, _ = p.Cur().AddValue("three")
			sym.Quiesce()
			sym.Assert(cur.resolved && cur.val == "three" && cur.err == nil, "every reference sees the new value")
			sym.Cover("repeated")
		}
	}
	rc.ClearContext()
	cancel()
	cancel2()
	sym.Quiesce()
	sym.Assert(len(b.GetDirectives()) == 0 && p.Active == 0, "nothing is looked up after the context was cleared")
	sym.Cover("end")
}
