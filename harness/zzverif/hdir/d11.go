package hdir

import (
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// D11Values registers removal callbacks on values and on the resolver and removes them in every way.
//
//verif:prop D11
//verif:bounds 2 values, 3 value callbacks for arbitrary ids (one released before), 2 resolver callbacks (one released before); 6 ways of removal, possibly after an earlier removal of one value
//verif:quick preempt=0 delay=1
func D11Values() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	rel, _ := c.AddHandler(hu.Static(p))
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	h := p.H
	id1, _ := h.AddValue("a")
	id2, _ := h.AddValue("b")
	ids := []uint32{id1, id2, sym.Uint32("id")}
	var cnt [3]int
	var rels [3]func()
	for i := range ids {
		rels[i] = h.AddValueRemovedCallback(ids[i], func() { cnt[i]++ })
		sym.Assert(rels[i] != nil, "a release function is returned")
		if ids[i] == id1 || ids[i] == id2 {
			sym.Assert(cnt[i] == 0, "the callback of a live value is not called")
		} else {
			sym.Assert(cnt[i] == 1, "the callback of a value which does not exist is called at once")
			sym.Cover("absent")
		}
	}
	var rcnt [2]int
	var rrel [2]func()
	for i := range rcnt {
		rrel[i] = h.AddResolverRemovedCallback(func() { rcnt[i]++ })
		sym.Assert(rcnt[i] == 0, "the callback of an attached resolver is not called")
	}
	relV, relR := sym.Bool("relv"), sym.Bool("relr")
	if relV {
		rels[0]()
		rels[0]()
	}
	if relR {
		rrel[0]()
		rrel[0]()
	}
	gone := func(id uint32, live bool) {
		for i := range ids {
			want := 0
			if ids[i] != id1 && ids[i] != id2 {
				want = 1
			} else if !live || id != 0 && ids[i] == id {
				want = 1
			}
			if i == 0 && relV {
				want = 0
			}
			sym.Assert(cnt[i] == want, "the callbacks are called once when their value is removed, unless they were released")
		}
	}
	first := sym.Bool("first")
	if first {
		_, ok := h.RemoveValue(id2)
		sym.Assert(ok, "the value can be removed")
		gone(id2, true)
	} else {
		gone(0, true)
	}
	resGone := true
	switch sym.Choose("how", 6) {
	case 0:
		h.RemoveValue(id1)
		h.RemoveValue(id2)
		resGone = false
	case 1:
		h.ClearValues()
		h.ClearValues()
		resGone = false
	case 2:
		rel()
	case 3:
		di.Close()
	case 4:
		ref.Release()
	case 5:
		_, _, _ = c.AddDirective(&hu.Dir{Key: 1, Ver: 1}, nil)
	}
	sym.Quiesce()
	gone(0, false)
	for i := range rcnt {
		want := 1
		if i == 0 && relR || !resGone {
			want = 0
		}
		sym.Assert(rcnt[i] == want, "the callbacks are called once when the resolver is removed, unless they were released")
	}
	late := 0
	h.AddValueRemovedCallback(id1, func() { late++ })()
	sym.Assert(late == 1, "the callback of a removed value is called at once")
	lateR := 0
	h.AddResolverRemovedCallback(func() { lateR++ })
	sym.Assert((lateR == 1) == resGone, "the callback of a removed resolver is called at once")
	di.Close()
	rel()
	sym.Quiesce()
	gone(0, false)
	if !resGone {
		sym.Assert(lateR == 1 && rcnt[1] == 1, "the callbacks of the resolver are called when the directive is closed")
	}
}

// D11Sub attaches resolvers to a resolver and removes them in every way.
//
//verif:prop D11
//verif:bounds a resolver with 2 child resolvers, one of which has a child, each with a value; 6 ways of removal, once or twice
//verif:quick preempt=0 delay=1
//verif:thorough preempt=1 delay=0
func D11Sub() {
	c := hu.NewDC()
	top, a, b, aa := &hu.Puppet{}, &hu.Puppet{}, &hu.Puppet{}, &hu.Puppet{}
	rel, _ := c.AddHandler(hu.Static(top))
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	var na, nb, naa int
	relA := top.H.AddResolver(a, func() { na++ })
	relB := top.H.AddResolver(b, func() { nb++ })
	sym.Quiesce()
	relAA := a.H.AddResolver(aa, func() { naa++ })
	sym.Quiesce()
	for _, p := range []*hu.Puppet{top, a, b, aa} {
		sym.Assert(p.Runs == 1 && p.Active == 1, "a child resolver runs")
		_, ok := p.H.AddValue(p)
		sym.Assert(ok, "a child resolver can add values")
	}
	sym.Assert(len(r.Live) == 4, "the values of the children are values of the directive")
	sym.Assert(na == 0 && nb == 0 && naa == 0, "the removal callback of an attached child is not called")
	how := sym.Choose("how", 6)
	again := sym.Bool("again")
	gone := []bool{true, true, true, true} // top a b aa
	switch how {
	case 0:
		relA()
		gone = []bool{false, true, false, true}
		if again {
			relA()
		}
	case 1:
		relB()
		gone = []bool{false, false, true, false}
		if again {
			relB()
		}
	case 2:
		relAA()
		gone = []bool{false, false, false, true}
		if again {
			relAA()
		}
	case 3:
		rel()
		if again {
			relA()
			relAA()
		}
	case 4:
		di.Close()
		if again {
			relB()
		}
	case 5:
		relAA()
		if again {
			relA()
			gone = []bool{false, true, false, true}
		} else {
			gone = []bool{false, false, false, true}
		}
	}
	sym.Quiesce()
	live := 0
	for i, p := range []*hu.Puppet{top, a, b, aa} {
		if gone[i] {
			sym.Assert(p.Active == 0, "a removed resolver is stopped, with its children")
			n := 0
			p.H.AddResolver(&hu.Puppet{}, func() { n++ })
			sym.Assert(n == 1, "a child of a removed resolver is refused")
		} else {
			live++
			sym.Assert(p.Active == 1 && p.Runs == 1, "other resolvers are not disturbed")
		}
	}
	sym.Assert(len(r.Live) == live, "the values of removed resolvers are removed")
	for i, n := range []int{na, nb, naa} {
		want := 0
		if gone[i+1] {
			want = 1
		}
		sym.Assert(n == want, "the removal callback is called once")
	}
	r.Check()
	di.Close()
	sym.Quiesce()
	sym.Assert(na == 1 && nb == 1 && naa == 1, "the removal callback is called once")
	n := 0
	top.H.AddResolver(nil, func() { n++ })()
	sym.Assert(n == 1, "adding no resolver calls the removal callback")
	sym.Cover("end")
}

// D11Conc removes a value, the handler and the directive from different goroutines.
//
//verif:prop D11
//verif:bounds 3 goroutines: one removing the value, one removing the handler or closing the directive, one registering a value and a resolver callback; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=-1
func D11Conc() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	rel, _ := c.AddHandler(hu.Static(p))
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	h := p.H
	id, _ := h.AddValue("a")
	nv, nr, nl, nc := 0, 0, 0, 0
	var mtx sym.Mutex
	inc := func(n *int) func() {
		return func() {
			mtx.Lock()
			*n++
			mtx.Unlock()
		}
	}
	h.AddValueRemovedCallback(id, inc(&nv))
	done := make(chan struct{}, 2)
	which := sym.Bool("close")
	go func() {
		if which {
			di.Close()
		} else {
			rel()
		}
		done <- struct{}{}
	}()
	found := false
	go func() {
		var v directive.Value
		v, found = h.RemoveValue(id)
		sym.Assert(!found || v == "a", "removing a value returns it")
		done <- struct{}{}
	}()
	h.AddValueRemovedCallback(id, inc(&nl))
	h.AddResolverRemovedCallback(inc(&nr))
	h.AddResolver(&hu.Puppet{}, inc(&nc))
	<-done
	<-done
	sym.Quiesce()
	sym.Assert(nv == 1 && nl == 1, "every value callback is called exactly once")
	sym.Assert(nr == 1, "every resolver callback is called exactly once")
	sym.Assert(nc == 1, "the removal callback of a child is called exactly once")
	if found {
		sym.Cover("found")
	} else {
		sym.Cover("notfound")
	}
}

// D11Race registers and releases callbacks while values and resolvers are removed and the state is read.
//
//verif:prop D11
//verif:bounds 1 resolver with 1 value; 2 of 6 concurrent operations: register and release a value callback, register and release a resolver callback, remove the value, read the state, add and release a child, remove the handler; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func D11Race() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	rel, _ := c.AddHandler(hu.Static(p))
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	h := p.H
	id, _ := h.AddValue("one")
	_ = h.AddValueRemovedCallback(id, func() {})
	_ = h.AddResolverRemovedCallback(func() {})
	a := sym.Choose("a", 6)
	b := sym.Choose("b", 6)
	var cnt [2]int
	var relBefore [2]bool
	run := func(i, op int) {
		// a callback must not be called after its release returned
		done := false
		var mtx sym.Mutex
		cb := func() {
			mtx.Lock()
			sym.Assert(!done || relBefore[i], "a released callback is not called")
			cnt[i]++
			mtx.Unlock()
		}
		var rl func()
		switch op {
		case 0:
			rl = h.AddValueRemovedCallback(id, cb)
		case 1:
			rl = h.AddResolverRemovedCallback(cb)
		case 2:
			_, _ = h.RemoveValue(id)
		case 3:
			sym.Assert(len(di.GetResolverErrors()) == 0, "there is no error")
			sym.Assert(len(c.GetDirectives()) == 1, "the directive is listed")
			n := h.CountValues(true)
			sym.Assert(n == 0 || n == 1, "the number of values is counted")
		case 4:
			rl = h.AddResolver(&hu.Puppet{}, cb)
		case 5:
			rel()
		}
		if rl != nil {
			rl()
		}
	}
	go run(0, a)
	go run(1, b)
	sym.Quiesce()
	for i, op := range []int{a, b} {
		sym.Assert(cnt[i] <= 1, "a callback is called at most once")
		if op == 4 {
			sym.Assert(cnt[i] == 1, "the removal of a child is told once")
		}
	}
	r.Check()
	di.Close()
	sym.Quiesce()
	for _, n := range cnt {
		sym.Assert(n <= 1, "a callback is called at most once")
	}
	sym.Cover("end")
}

// D11Nil uses the handler without callbacks and resolvers.
//
//verif:prop D11
//verif:bounds all combinations of missing callbacks and resolvers, before and after the handler is removed
//verif:quick preempt=0
func D11Nil() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	rel, _ := c.AddHandler(hu.Static(p))
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	h := p.H
	id, _ := h.AddValue("one")
	after := sym.Bool("after")
	if after {
		rel()
	}
	switch sym.Choose("op", 4) {
	case 0:
		h.AddValueRemovedCallback(id, nil)()
	case 1:
		h.AddResolverRemovedCallback(nil)()
	case 2:
		n := 0
		h.AddResolver(nil, func() { n++ })()
		sym.Assert(n == 1, "a missing child is told to be removed at once")
	case 3:
		ch := &hu.Puppet{}
		var child directive.Resolver
		if sym.Bool("child") {
			child = ch
		}
		rl := h.AddResolver(child, nil)
		sym.Quiesce()
		sym.Assert(ch.Active == 1 == (child != nil && !after), "a child without a callback runs")
		rl()
		sym.Quiesce()
		sym.Assert(ch.Active == 0, "a child is stopped when it is released")
	}
	sym.Quiesce()
	sym.Assert(p.Active == 1 == !after, "the resolver is not disturbed")
	r.Check()
	di.Close()
	sym.Quiesce()
	sym.Assert(r.Disposed == 1 && p.Active == 0, "the directive is disposed")
}

// D11Callbacks registers and releases callbacks in any order before their value or resolver is removed.
//
//verif:prop D11
//verif:bounds 5 operations on the value callbacks or the resolver callbacks of one resolver with 2 values: register, release any of the last 3; then one value, all values or the resolver are removed
//verif:quick preempt=0 merge=0
func D11Callbacks() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	rel, _ := c.AddHandler(hu.Static(p))
	_, _, _ = c.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	h := p.H
	id1, _ := h.AddValue("a")
	id2, _ := h.AddValue("b")
	type reg struct {
		id       uint32
		n        int
		rel      func()
		released bool
	}
	var regs []*reg
	onRes := sym.Bool("resolver")
	for s := 0; s < 5; s++ {
		op := sym.Choose("op", 4)
		if op == 0 {
			r := &reg{}
			if onRes {
				r.rel = h.AddResolverRemovedCallback(func() { r.n++ })
			} else {
				r.id = id1
				if len(regs) == 3 {
					r.id = id2
				}
				r.rel = h.AddValueRemovedCallback(r.id, func() { r.n++ })
			}
			regs = append(regs, r)
		} else {
			sym.Assume(len(regs) >= op)
			r := regs[len(regs)-op]
			sym.Assume(!r.released)
			r.rel()
			r.released = true
		}
	}
	how := sym.Choose("how", 3)
	switch how {
	case 0:
		h.RemoveValue(id1)
	case 1:
		h.ClearValues()
	case 2:
		rel()
	}
	for _, r := range regs {
		want := 1
		if r.released || how == 0 && r.id != id1 || how == 1 && onRes {
			want = 0
		}
		sym.Assert(r.n == want, "the callbacks are called once when their value or resolver is removed, unless they were released")
	}
	sym.Cover("end")
}
