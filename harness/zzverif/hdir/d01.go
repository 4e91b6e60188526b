// Package hdir has the harnesses of the directive controller.
package hdir

import (
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

type live struct {
	d   *hu.Dir
	di  directive.Instance
	ref *hu.Ref
	dsp int
}

// D01Seq adds three directives with arbitrary keys, versions and wildcard flags one after the
// other and compares the instances with a reference list: an equivalent live directive is
// shared unless the new one supersedes it, and then the old one is disposed.
//
//verif:prop D01
//verif:bounds 3 directives (key, version: all of uint32; the last one may match everything), no concurrency
//verif:quick preempt=0
func D01Seq() {
	c := hu.NewDC()
	h := hu.NewHandler(nil)
	_, err := c.AddHandler(h)
	sym.Assert(err == nil, "the handler is added")
	var lv []*live
	created := 0
	for n := 0; n < 3; n++ {
		d := &hu.Dir{Key: sym.Uint32("key"), Ver: sym.Uint32("ver")}
		if n == 2 {
			d.Wild = sym.Bool("wild")
		}
		r := hu.NewRef("r")
		di, ref, err := c.AddDirective(d, r)
		sym.Assert(err == nil && di != nil && ref != nil, "adding a directive succeeds")
		// reference model
		var share *live
		var rest, gone []*live
		for _, l := range lv {
			if share == nil && d.IsEquivalent(l.d) {
				if d.Superceeds(l.d) {
					gone = append(gone, l)
					continue
				}
				share = l
			}
			rest = append(rest, l)
		}
		lv = rest
		for _, l := range gone {
			sym.Assert(l.ref.Disposed == 1, "a superseded directive is disposed once and its references are told")
			sym.Assert(hu.Done(l.di.GetContext()), "the context of a superseded directive is canceled")
			sym.Assert(l.di != di, "a superseded directive is not returned")
			sym.Cover("superseded")
		}
		if share != nil {
			sym.Assert(di == share.di, "an equivalent live directive is shared")
			sym.Assert(di.GetDirective() == directive.Directive(share.d), "the shared instance keeps its directive")
			sym.Cover("shared")
		} else {
			for _, l := range lv {
				sym.Assert(di != l.di, "directives that are not equivalent get their own instance")
			}
			sym.Assert(di.GetDirective() == directive.Directive(d), "the new instance has the added directive")
			lv = append(lv, &live{d: d, di: di, ref: r})
			created++
			sym.Cover("created")
		}
		sym.Assert(h.Total == created, "a handler is asked once per instance")
		ds := c.GetDirectives()
		sym.Assert(len(ds) == len(lv), "the listed directives are the live ones")
		for i, l := range lv {
			sym.Assert(l.ref.Disposed == 0, "a live directive is not disposed")
			sym.Assert(!hu.Done(l.di.GetContext()), "the context of a live directive is not canceled")
			sym.Assert(ds[i] == l.di, "the listed directives are in the order in which they were added")
		}
	}
}

// D01Conc adds directives from three goroutines: two that are equivalent if their keys are
// equal, and one goroutine which adds the first key and releases it again.
//
//verif:prop D01
//verif:bounds 3 goroutines, symbolic keys, all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=-1
func D01Conc() {
	c := hu.NewDC()
	k1, k2 := sym.Uint32("key"), sym.Uint32("key")
	d1, d2, d3 := &hu.Dir{Key: k1}, &hu.Dir{Key: k2}, &hu.Dir{Key: k1}
	r1, r2 := hu.NewRef("r1"), hu.NewRef("r2")
	var di1, di2 directive.Instance
	done := make(chan struct{}, 3)
	go func() {
		di1, _, _ = c.AddDirective(d1, r1)
		done <- struct{}{}
	}()
	go func() {
		di2, _, _ = c.AddDirective(d2, r2)
		done <- struct{}{}
	}()
	go func() {
		_, ref, _ := c.AddDirective(d3, nil)
		ref.Release()
		done <- struct{}{}
	}()
	for i := 0; i < 3; i++ {
		<-done
	}
	sym.Quiesce()
	sym.Assert((di1 == di2) == (k1 == k2), "equivalent directives held at the same time share one instance, others do not")
	n := 2
	if k1 == k2 {
		n = 1
		sym.Cover("equal")
	}
	sym.Assert(len(c.GetDirectives()) == n, "only the held directives remain")
	sym.Assert(r1.Disposed == 0 && r2.Disposed == 0, "a held directive is not disposed")
	sym.Assert(hu.Has(c, di1) && hu.Has(c, di2), "the returned instances are live")
}

// D01Plain adds directives without an equivalence check next to ones that match everything.
//
//verif:prop D01
//verif:bounds 4 directives, each a new or the same plain one or one with an arbitrary key; no concurrency
//verif:quick preempt=0
func D01Plain() {
	c := hu.NewDC()
	pd := &hu.PlainDir{ID: 1}
	var seen []directive.Instance
	var keyed []directive.Instance
	var keys []uint32
	for i := 0; i < 4; i++ {
		switch sym.Choose("kind", 3) {
		case 0:
			di, _, err := c.AddDirective(pd, nil)
			sym.Assert(err == nil, "adding a directive succeeds")
			for _, x := range seen {
				sym.Assert(x != di, "a directive without an equivalence check gets its own instance")
			}
			seen = append(seen, di)
		case 1:
			di, _, _ := c.AddDirective(&hu.PlainDir{ID: 1}, nil)
			for _, x := range seen {
				sym.Assert(x != di, "a directive without an equivalence check gets its own instance")
			}
			seen = append(seen, di)
		case 2:
			k := sym.Uint32("key")
			di, _, _ := c.AddDirective(&hu.Dir{Key: k}, nil)
			found := false
			for j, x := range keyed {
				if keys[j] == k {
					sym.Assert(x == di, "an equivalent directive is shared")
					found = true
				} else {
					sym.Assert(x != di, "a directive which is not equivalent is not shared")
				}
			}
			if !found {
				seen = append(seen, di)
			}
			keyed, keys = append(keyed, di), append(keys, k)
		}
	}
	sym.Assert(len(c.GetDirectives()) == len(seen), "exactly the live instances are listed")
	for _, x := range seen {
		sym.Assert(hu.Has(c, x), "every live instance is listed")
	}
	sym.Cover("end")
}
