package hdir

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// D05Conc has two resolvers which add and remove values while references come and go.
//
//verif:prop D05
//verif:bounds 2 resolvers with 2 and 1 values (one of them removed or cleared again), 2 references, one of them added at any time; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=4
func D05Conc() {
	c := hu.NewDC()
	p1, p2 := &hu.Puppet{}, &hu.Puppet{}
	how := sym.Choose("how", 3)
	var ids []uint32
	p1.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		id1, _ := h.AddValue("a")
		id2, _ := h.AddValue("b")
		ids = append(ids, id1, id2)
		switch how {
		case 0:
			v, ok := h.RemoveValue(id1)
			sym.Assert(ok && v == "a", "a value can be removed once by its id")
		case 1:
			h.ClearValues()
		}
		return nil
	}
	p2.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		h.AddValue("c")
		return nil
	}
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p1, p2), nil
	}))
	r0, r1 := hu.NewRef("r0"), hu.NewRef("r1")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, r0)
	di.AddReference(r1, sym.Bool("weak"))
	sym.Quiesce()
	want := 3 - how
	if how == 0 {
		want = 2
	} else if how == 1 {
		want = 1
	} else {
		want = 3
	}
	for _, r := range []*hu.Ref{r0, r1} {
		r.Check()
		sym.Assert(len(r.Live) == want, "every held reference ends up with exactly the live values")
		sym.Assert(r.Added-r.Removed == want, "additions and removals are paired")
		sym.Assert(r.Disposed == 0, "the directive is not disposed")
	}
	for id, v := range r0.Live {
		sym.Assert(r1.Live[id] == v, "all references see the same values under the same ids")
	}
	if r1.Added < 3 {
		sym.Cover("late")
	}
	late := hu.NewRef("late")
	di.AddReference(late, false)
	sym.Assert(len(late.Live) == want && late.Removed == 0, "a new reference is told about exactly the live values")
	di.Close()
	for _, r := range []*hu.Ref{r0, r1, late} {
		r.Check()
		sym.Assert(len(r.Live) == 0 && r.Disposed == 1, "all values are removed when the directive is disposed")
	}
	sym.Cover("end")
}

// D05Reenter changes the values and references from inside the notifications of a reference.
//
//verif:prop D05
//verif:bounds 3 values; one arbitrary operation from inside one of the notifications (add, remove, clear, new reference, released reference, removed handler, closed directive, panic)
//verif:quick preempt=0
func D05Reenter() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	relH, _ := c.AddHandler(hu.Static(p))
	r0, r1, r2 := hu.NewRef("r0"), hu.NewRef("r1"), hu.NewRef("r2")
	di, ref0, _ := c.AddDirective(&hu.Dir{Key: 1}, r0)
	ref1 := di.AddReference(r1, false)
	sym.Quiesce()
	at := sym.Choose("at", 4)
	op := sym.Choose("op", 8)
	n := 0
	rel0, rel1, closed, panicked := false, false, false, false
	act := func(directive.AttachedValue) {
		n++
		if n != at+1 {
			return
		}
		switch op {
		case 0:
			p.H.AddValue("x")
		case 1:
			p.H.RemoveValue(1)
		case 2:
			p.H.ClearValues()
		case 3:
			di.AddReference(r2, false)
		case 4:
			ref0.Release()
			rel0 = true
		case 5:
			relH()
			closed = true
		case 6:
			di.Close()
			closed = true
		case 7:
			panicked = true
			panic("callback panic")
		}
	}
	r0.OnAdd, r0.OnRemove = act, act
	id1, ok1 := p.H.AddValue("a")
	id2, ok2 := p.H.AddValue("b")
	sym.Assert(!ok1 || id1 >= 1, "ids start at one")
	if ok1 && ok2 {
		sym.Assert(id2 > id1, "ids increase")
	}
	p.H.RemoveValue(id2)
	p.H.AddValue("c")
	sym.Quiesce()
	r1.Check()
	r2.Check()
	if !rel0 && !panicked {
		r0.Check()
	}
	late := hu.NewRef("late")
	di.AddReference(late, false)
	sym.Quiesce()
	sym.Assert(len(late.Live) == len(r1.Live), "every held reference has the live values")
	for id, v := range late.Live {
		sym.Assert(r1.Live[id] == v, "every held reference has the live values")
		if !rel0 && !panicked {
			sym.Assert(r0.Live[id] == v, "every held reference has the live values")
		}
		if op == 3 && n > at {
			sym.Assert(r2.Live[id] == v, "a reference added during a notification has the live values")
		}
	}
	if !rel0 && !panicked {
		sym.Assert(len(r0.Live) == len(r1.Live), "every held reference has the live values")
	}
	if closed {
		sym.Assert(len(r1.Live) == 0, "no values remain after the removal")
		sym.Cover("closed")
	}
	sym.Assert(r1.Added >= 1, "the first value is delivered")
	_ = ref1
	_ = rel1
	sym.Cover("end")
}
