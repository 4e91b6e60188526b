package hdir

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// D04Seq disposes a directive in one of five ways; some of its references and dispose callbacks
// were released before, some are added from inside the notifications, one notification panics.
//
//verif:prop D04
//verif:bounds 3 references, 3 dispose callbacks, any subset released before or panicking; 5 ways of disposal; one reference or callback added during or after the disposal
//verif:quick preempt=0
func D04Seq() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	_, _ = c.AddHandler(hu.Static(p))
	r := []*hu.Ref{hu.NewRef("a"), hu.NewRef("b"), hu.NewRef("c")}
	var refs []directive.Reference
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1, Ver: 1}, r[0])
	refs = append(refs, ref, di.AddReference(r[1], false), di.AddReference(r[2], true))
	sym.Quiesce()
	h0 := p.H
	id, ok := h0.AddValue("v")
	sym.Assert(ok && id == 1, "the value is accepted")
	var cbs [3]int
	var rel [3]func()
	var relRef, relCb [3]bool
	for i := range cbs {
		rel[i] = di.AddDisposeCallback(func() {
			cbs[i]++
			sym.Assert(hu.Done(di.GetContext()), "the context is canceled before the dispose callbacks are called")
			for k, x := range r {
				sym.Assert(relRef[k] || len(x.Live) == 0, "the values are removed before the dispose callbacks are called")
			}
		})
	}
	mode := sym.Choose("mode", 5)
	for i := 0; i < 3; i++ {
		relRef[i] = sym.Bool("relref")
		if i == 0 && mode != 0 && mode != 1 {
			relRef[0] = false
		}
		relCb[i] = sym.Bool("relcb")
		if relCb[i] {
			rel[i]()
			rel[i]()
		}
	}
	late := hu.NewRef("late")
	lateCb := 0
	switch sym.Choose("reenter", 4) {
	case 1:
		r[0].OnDisp = func() { panic("callback panic") }
	case 2:
		r[0].OnDisp = func() { di.AddReference(late, false) }
	case 3:
		r[0].OnDisp = func() { di.AddDisposeCallback(func() { lateCb++ }) }
	}
	// at least one strong reference must remain until the disposal
	for i := 1; i < 3; i++ {
		if relRef[i] {
			refs[i].Release()
		}
	}
	switch mode {
	case 0:
		di.Close()
		relRef[0] = false
	case 1:
		relRef[0] = true
		refs[0].Release()
		if !relRef[1] {
			relRef[1] = true
			refs[1].Release()
		}
	case 2:
		di.Close()
		di.Close()
	case 3:
		_, _, _ = c.AddDirective(&hu.Dir{Key: 1, Ver: 2}, nil)
	case 4:
		di.Close()
		refs[0].Release()
		refs[1].Release()
		sym.Assert(di.CloseIfUnreferenced(false), "a closed directive is reported as closed")
	}
	sym.Quiesce()
	for i := range r {
		want := 1
		if relRef[i] {
			want = 0
		}
		sym.Assert(r[i].Disposed == want, "every reference held at the disposal is told once, a released one is not")
		wc := 1
		if relCb[i] {
			wc = 0
		}
		sym.Assert(cbs[i] == wc, "every dispose callback is called once unless it was released")
		r[i].Check()
	}
	if r[0].OnDisp != nil && !relRef[0] {
		sym.Cover("reentered")
	}
	sym.Assert(late.Disposed <= 1 && lateCb <= 1, "a late listener is told at most once")
	// listeners added after the disposal
	x := hu.NewRef("after")
	di.AddReference(x, sym.Bool("weak"))
	n := 0
	di.AddDisposeCallback(func() { n++ })
	sym.Quiesce()
	sym.Assert(x.Disposed == 1 && x.Added == 0, "a reference to a disposed directive is told at once and sees no values")
	sym.Assert(n == 1, "a dispose callback added to a disposed directive is called")
	wantAct := 0
	if mode == 3 {
		wantAct = 1 // the one of the superseding directive
	}
	sym.Assert(p.Active == wantAct, "the resolvers are stopped")
	sym.Assert(!hu.Has(c, di), "the directive is not listed any more")
	_, ok = h0.AddValue("late")
	sym.Assert(!ok, "no value is accepted after the disposal")
	if mode == 1 {
		sym.Cover("unreferenced")
	}
}

// D04Conc disposes a directive from two goroutines while a third adds a reference and a dispose callback.
//
//verif:prop D04
//verif:bounds 3 goroutines; disposal by closing and by the release of the last reference; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=-1
func D04Conc() {
	c := hu.NewDC()
	r0, r1 := hu.NewRef("r0"), hu.NewRef("r1")
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1}, r0)
	n0, n1 := 0, 0
	di.AddDisposeCallback(func() { n0++ })
	done := make(chan struct{}, 2)
	go func() {
		if sym.Bool("close") {
			di.Close()
		} else {
			di.CloseIfUnreferenced(sym.Bool("incl"))
		}
		done <- struct{}{}
	}()
	weak := sym.Bool("weak")
	var rel1 func()
	go func() {
		di.AddReference(r1, weak)
		rel1 = di.AddDisposeCallback(func() { n1++ })
		done <- struct{}{}
	}()
	ref.Release()
	<-done
	<-done
	sym.Quiesce()
	disposed := !hu.Has(c, di)
	sym.Assert(n0 <= 1 && n1 <= 1 && r0.Disposed <= 1 && r1.Disposed <= 1, "nobody is told twice")
	sym.Assert((n0 == 1) == disposed && (n1 == 1) == disposed, "the dispose callbacks are called exactly when the directive is disposed")
	sym.Assert((r1.Disposed == 1) == disposed, "the held reference is told exactly when the directive is disposed")
	sym.Assert(hu.Done(di.GetContext()) == disposed, "the context is canceled exactly when the directive is disposed")
	if disposed {
		sym.Cover("disposed")
		rel1()
	} else {
		sym.Cover("kept")
	}
	_ = context.Canceled
}
