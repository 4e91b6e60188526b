package hdir

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// nMany is the number of elements of the harnesses with many elements.
const nMany = 5

// two chooses two different elements, in order.
func two(name string) (int, int) {
	a := sym.Choose(name+" 1", nMany)
	b := sym.Choose(name+" 2", nMany-1)
	if b >= a {
		b++
	}
	return a, b
}

// D01Many adds many directives, releases two of them and adds all of them again.
//
//verif:prop D01
//verif:bounds 5 directives with different keys, any 2 of which are released in any order; then all are added again in any rotation
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func D01Many() {
	c := hu.NewDC()
	var dis [nMany]directive.Instance
	var refs [nMany]directive.Reference
	for i := range dis {
		dis[i], refs[i], _ = c.AddDirective(&hu.Dir{Key: uint32(i)}, nil)
	}
	a, b := two("release")
	refs[a].Release()
	refs[b].Release()
	sym.Assert(len(c.GetDirectives()) == nMany-2, "exactly the referenced directives are listed")
	for i := range dis {
		sym.Assert(hu.Has(c, dis[i]) == (i != a && i != b), "exactly the referenced directives are listed")
	}
	start := sym.Choose("start", nMany)
	for k := range dis {
		i := (start + k) % nMany
		di, _, err := c.AddDirective(&hu.Dir{Key: uint32(i)}, nil)
		sym.Assert(err == nil, "a directive can be added")
		sym.Assert((di == dis[i]) == (i != a && i != b), "an equivalent directive has the same instance, a released one a new one")
		sym.Assert(hu.Done(di.GetContext()) == false, "the instance is alive")
	}
	sym.Assert(len(c.GetDirectives()) == nMany, "exactly the referenced directives are listed")
	sym.Cover("end")
}

// D02Many removes two of many handlers and adds one of them again.
//
//verif:prop D02
//verif:bounds 5 handlers and 5 directives, any 2 handlers are removed in any order, one is added again; directives in between
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func D02Many() {
	c := hu.NewDC()
	var hs [nMany]*hu.Handler
	var rel [nMany]func()
	var want [nMany]int
	nd := 0
	add := func() {
		_, _, _ = c.AddDirective(&hu.PlainDir{ID: nd}, nil)
		nd++
		for i := range hs {
			if rel[i] != nil {
				want[i]++
			}
		}
	}
	check := func() {
		sym.Quiesce()
		for i, h := range hs {
			sym.Assert(h.Total == want[i], "exactly the handlers which are added are asked")
			for _, n := range h.Offer {
				sym.Assert(n == 1 || want[i] > nd, "every handler is asked once about every directive")
			}
		}
	}
	for i := range hs {
		hs[i] = hu.NewHandler(nil)
	}
	for i := range hs {
		add()
		rel[i], _ = c.AddHandler(hs[i])
		want[i] += nd
	}
	check()
	a, b := two("remove")
	for _, i := range []int{a, b} {
		rel[i]()
		rel[i] = nil
	}
	add()
	check()
	if sym.Bool("again") {
		rel[a], _ = c.AddHandler(hs[a])
		want[a] += nd
		add()
		check()
	}
	sym.Cover("end")
}

// D03Many releases many references in many orders.
//
//verif:prop D03
//verif:bounds 5 references, each weak or not but the first, released forwards or backwards starting with any of them
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func D03Many() {
	c := hu.NewDC()
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1}, nil)
	refs := []directive.Reference{ref}
	strong := []bool{true}
	n := 1
	for i := 1; i < nMany; i++ {
		w := sym.Bool("weak")
		refs = append(refs, di.AddReference(nil, w))
		strong = append(strong, !w)
		if !w {
			n++
		}
	}
	start, back := sym.Choose("start", nMany), sym.Bool("backwards")
	for k := range refs {
		i := (start + k) % nMany
		if back {
			i = (start + nMany - k) % nMany
		}
		sym.Assert(hu.Has(c, di) == (n != 0) && hu.Done(di.GetContext()) == (n == 0), "a directive lives exactly as long as it has a strong reference")
		refs[i].Release()
		refs[i].Release()
		if strong[i] {
			n--
		}
		sym.Quiesce()
	}
	sym.Assert(!hu.Has(c, di) && hu.Done(di.GetContext()), "a directive lives exactly as long as it has a strong reference")
	sym.Cover("end")
}

// D04Many disposes a directive with many references and callbacks.
//
//verif:prop D04
//verif:bounds 5 references and 5 dispose callbacks of which any 2 are released in any order, then the directive is closed
//verif:quick preempt=0
//verif:thorough preempt=0
func D04Many() {
	c := hu.NewDC()
	var rs [nMany]*hu.Ref
	var refs [nMany]directive.Reference
	var cbs [nMany]int
	var rel [nMany]func()
	var di directive.Instance
	for i := range rs {
		rs[i] = hu.NewRef("r")
		if i == 0 {
			di, refs[0], _ = c.AddDirective(&hu.Dir{Key: 1}, rs[0])
		} else {
			refs[i] = di.AddReference(rs[i], i == 3)
		}
		rel[i] = di.AddDisposeCallback(func() { cbs[i]++ })
	}
	a, b := two("release")
	refs[a].Release()
	rel[b]()
	rel[a]()
	refs[b].Release()
	di.Close()
	sym.Quiesce()
	for i := range rs {
		want := sym.IteInt(i == a || i == b, 0, 1)
		sym.Assert(rs[i].Disposed == want, "every reference held at the disposal is told once, a released one is not")
		sym.Assert(cbs[i] == want, "every dispose callback is called once unless it was released")
	}
	sym.Cover("end")
}

// D05Many changes many values with many references.
//
//verif:prop D05
//verif:bounds 5 references and 5 values of 3 resolvers; any 2 values are removed and any 2 references released, then a value and a reference are added; a resolver is cleared or its handler removed or neither
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func D05Many() {
	c := hu.NewDC()
	ps := []*hu.Puppet{{}, {}, {}}
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(ps[0], ps[1]), nil
	}))
	relh, _ := c.AddHandler(hu.Static(ps[2]))
	var rs [nMany + 1]*hu.Ref
	var refs [nMany + 1]directive.Reference
	var di directive.Instance
	live := map[uint32]directive.Value{}
	var ids [nMany]uint32
	for i := range rs {
		rs[i] = hu.NewRef("r")
		if i == 0 {
			di, refs[0], _ = c.AddDirective(&hu.Dir{Key: 1}, rs[0])
			sym.Quiesce()
		} else if i < nMany {
			refs[i] = di.AddReference(rs[i], i == 2)
		}
		if i < nMany {
			ids[i], _ = ps[i%3].H.AddValue(i)
			live[ids[i]] = i
		}
	}
	sym.Assert(len(live) == nMany, "the ids of the values are different")
	check := func(skip ...int) {
		sym.Quiesce()
		for i, r := range rs {
			gone := false
			for _, s := range skip {
				gone = gone || s == i
			}
			r.Check()
			if gone || refs[i] == nil {
				continue
			}
			sym.Assert(len(r.Live) == len(live), "every reference has exactly the live values")
			for id, v := range live {
				sym.Assert(r.Live[id] == v, "every reference has exactly the live values")
			}
		}
	}
	check()
	a, b := two("remove")
	x, y := two("release")
	rm := func(i int) {
		v, ok := ps[i%3].H.RemoveValue(ids[i])
		sym.Assert(ok && v == i, "a value can be removed")
		delete(live, ids[i])
	}
	rm(a)
	check()
	refs[x].Release()
	rm(b)
	refs[y].Release()
	check(x, y)
	switch sym.Choose("more", 3) {
	case 1:
		ps[1].H.ClearValues()
		delete(live, ids[1])
		delete(live, ids[4])
	case 2:
		relh()
		delete(live, ids[2])
	}
	check(x, y)
	id, ok := ps[0].H.AddValue("new")
	sym.Assert(ok && id > ids[nMany-1], "a new value has a new id")
	live[id] = "new"
	refs[nMany] = di.AddReference(rs[nMany], false)
	check(x, y)
	sym.Cover("end")
}

// D08Many has many resolvers become idle in many orders.
//
//verif:prop D08
//verif:bounds 5 resolvers marked idle forwards or backwards starting with any of them, one of them busy again; 5 idle callbacks of which any 2 are released
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func D08Many() {
	c := hu.NewDC()
	var ps [nMany]*hu.Puppet
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(ps[0], ps[1]), nil
	}))
	for i := range ps {
		ps[i] = &hu.Puppet{}
		if i > 1 {
			_, _ = c.AddHandler(hu.Static(ps[i]))
		}
	}
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, nil)
	sym.Quiesce()
	var recs [nMany]idleRec
	var rel [nMany]func()
	for i := range recs {
		rel[i] = di.AddIdleCallback(recs[i].cb)
	}
	a, b := two("release")
	rel[a]()
	rel[b]()
	check := func(idle bool) {
		sym.Quiesce()
		for i := range recs {
			if i == a || i == b {
				sym.Assert(recs[i].n == 1, "a released idle callback is not called")
				continue
			}
			sym.Assert(recs[i].n != 0 && recs[i].last == idle && !recs[i].twice, "the last report is the current state")
		}
	}
	start, back := sym.Choose("start", nMany), sym.Bool("backwards")
	last := 0
	for k := range ps {
		check(false)
		last = (start + k) % nMany
		if back {
			last = (start + nMany - k) % nMany
		}
		ps[last].H.MarkIdle(true)
	}
	check(true)
	ps[start].H.MarkIdle(false)
	check(false)
	ps[start].H.MarkIdle(true)
	check(true)
	sym.Cover("end")
}

// D09Many removes two of many handlers.
//
//verif:prop D09
//verif:bounds 5 handlers with 1 or 2 resolvers and 2 values each, any 2 are removed in any order
//verif:quick preempt=0
//verif:thorough preempt=0
func D09Many() {
	c := hu.NewDC()
	var ps, qs [nMany]*hu.Puppet
	var rel [nMany]func()
	for i := range ps {
		ps[i], qs[i] = &hu.Puppet{}, &hu.Puppet{}
		rel[i], _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
			if i == 1 {
				return directive.Resolvers(ps[i]), nil
			}
			return directive.Resolvers(ps[i], qs[i]), nil
		}))
	}
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	live := map[uint32]int{}
	for i := range ps {
		q := qs[i]
		if i == 1 {
			q = ps[i]
		}
		for _, p := range []*hu.Puppet{ps[i], q} {
			id, ok := p.H.AddValue(i)
			sym.Assert(ok, "a value is accepted")
			live[id] = i
		}
	}
	a, b := two("remove")
	for _, x := range []int{a, b} {
		rel[x]()
		sym.Quiesce()
		for id, i := range live {
			if i == x {
				delete(live, id)
			}
		}
		sym.Assert(len(r.Live) == len(live), "exactly the values of the removed handler are removed")
		for id, i := range live {
			sym.Assert(r.Live[id] == i, "exactly the values of the removed handler are removed")
		}
	}
	for i := range ps {
		want := sym.IteInt(i == a || i == b, 0, 1)
		sym.Assert(ps[i].Active == want && ps[i].Runs == 1, "exactly the resolvers of the removed handler are stopped")
		if i != 1 {
			sym.Assert(qs[i].Active == want && qs[i].Runs == 1, "exactly the resolvers of the removed handler are stopped")
		}
	}
	sym.Assert(hu.Has(c, di), "the directive stays")
	r.Check()
	sym.Cover("end")
}

// D07Many fills a directive with many resolvers.
//
//verif:prop D07
//verif:bounds 5 resolvers, hard or soft cap of 3; 3 of them add a value, starting with any; the value of any of them is removed and another one added
//verif:quick preempt=0
//verif:thorough preempt=0
func D07Many() {
	c := hu.NewDC()
	var ps [nMany]*hu.Puppet
	for i := range ps {
		ps[i] = &hu.Puppet{}
		_, _ = c.AddHandler(hu.Static(ps[i]))
	}
	r := hu.NewRef("r")
	hard := sym.Bool("hard")
	_, _, _ = c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: 3, MaxValueHardCap: hard}}, r)
	sym.Quiesce()
	start := sym.Choose("start", nMany)
	has := [nMany]bool{}
	ids := [nMany]uint32{}
	for k := 0; k < 3; k++ {
		for _, p := range ps {
			sym.Assert(p.Active == 1 && !hu.Done(p.Ctx), "the resolvers run while the cap is not reached")
		}
		i := (start + 2*k) % nMany
		var ok bool
		ids[i], ok = ps[i].H.AddValue(i)
		sym.Assert(ok, "a value below the cap is accepted")
		has[i] = true
		sym.Quiesce()
	}
	check := func(runs int) {
		sym.Quiesce()
		for i, p := range ps {
			if has[i] {
				sym.Assert(p.Active == 1 && p.Runs == 1, "a resolver with values keeps running when the cap is reached")
			} else {
				sym.Assert(p.Active == runs, "a resolver without values runs exactly while the cap is not reached")
			}
		}
	}
	check(0)
	x := (start + 2*sym.Choose("remove", 3)) % nMany
	v, ok := ps[x].H.RemoveValue(ids[x])
	sym.Assert(ok && v == x, "a value can be removed")
	check(1)
	sym.Assert(len(r.Live) == 2, "the values of the directive are delivered")
	y := (start + 1) % nMany
	_, ok = ps[y].Cur().AddValue(y)
	sym.Assert(ok, "a value below the cap is accepted")
	sym.Quiesce()
	sym.Assert(ps[y].Active == 1 && ps[y].Runs == 2, "a resolver with values keeps running when the cap is reached")
	sym.Assert(len(r.Live) == 3, "the values of the directive are delivered")
	sym.Assert(ps[(start+3)%nMany].Active == 0, "a resolver without values is canceled when the cap is reached")
	r.Check()
	sym.Cover("end")
}

// D11Many releases two of many removal callbacks.
//
//verif:prop D11
//verif:bounds 5 callbacks of a value, 5 of a resolver and 5 children with a value each; any 2 of each are released; then the value, the resolver or the directive is removed
//verif:quick preempt=0
//verif:thorough preempt=0
func D11Many() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	rel, _ := c.AddHandler(hu.Static(p))
	r := hu.NewRef("r")
	di, _, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	h := p.H
	id, _ := h.AddValue("v")
	id2, _ := h.AddValue("w")
	var vals, ress, vals2, subs [nMany]int
	var kids [nMany]*hu.Puppet
	var relv, relr, rels [nMany]func()
	for i := range vals {
		relv[i] = h.AddValueRemovedCallback(id, func() { vals[i]++ })
		h.AddValueRemovedCallback(id2, func() { vals2[i]++ })
		relr[i] = h.AddResolverRemovedCallback(func() { ress[i]++ })
		kids[i] = &hu.Puppet{}
		rels[i] = h.AddResolver(kids[i], func() { subs[i]++ })
	}
	sym.Quiesce()
	for i := range kids {
		_, ok := kids[i].H.AddValue(i)
		sym.Assert(ok, "the value of a child is accepted")
	}
	a, b := two("release")
	var goneV, goneR, goneS [nMany]bool
	switch sym.Choose("which", 3) {
	case 0:
		relv[a]()
		relv[b]()
		goneV[a], goneV[b] = true, true
	case 1:
		relr[a]()
		relr[b]()
		goneR[a], goneR[b] = true, true
	case 2:
		rels[a]()
		rels[b]()
		sym.Quiesce()
		goneS[a], goneS[b] = true, true
		for i := range kids {
			sym.Assert(subs[i] == sym.IteInt(goneS[i], 1, 0) && kids[i].Active == sym.IteInt(goneS[i], 0, 1), "exactly the removed children are stopped")
		}
		sym.Assert(len(r.Live) == nMany, "exactly the values of the removed children are removed")
	}
	how := sym.Choose("how", 3)
	switch how {
	case 0:
		_, ok := h.RemoveValue(id)
		sym.Assert(ok, "a value can be removed")
	case 1:
		rel()
	case 2:
		di.Close()
	}
	sym.Quiesce()
	for i := range vals {
		sym.Assert(vals[i] == sym.IteInt(goneV[i], 0, 1), "the callbacks of a removed value are called once unless they were released")
		sym.Assert(vals2[i] == sym.IteInt(how == 0, 0, 1), "the callbacks of a value are called when it is removed")
		sym.Assert(ress[i] == sym.IteInt(how == 0 || goneR[i], 0, 1), "the callbacks of a removed resolver are called once unless they were released")
		sym.Assert(subs[i] == sym.IteInt(how == 0 && !goneS[i], 0, 1), "the callback of a removed child is called once")
		sym.Assert(kids[i].Active == sym.IteInt(how == 0 && !goneS[i], 1, 0), "the children are stopped with their resolver")
	}
	r.Check()
	sym.Cover("end")
}

// D05Order checks the order in which the values of a resolver are told.
//
//verif:prop D05
//verif:bounds 5 values of a resolver, of which the first notification of any of 2 references adds up to 2; any 2 removed and another added, then another reference
//verif:quick preempt=0
//verif:thorough preempt=1
func D05Order() {
	c := hu.NewDC()
	p := &hu.Puppet{}
	_, _ = c.AddHandler(hu.Static(p))
	var ids []uint32
	n := 0
	add := func() {
		n++
		id, ok := p.H.AddValue(n)
		sym.Assert(ok, "the value is accepted")
		ids = append(ids, id)
	}
	record := func(r *hu.Ref) *[]uint32 {
		var got []uint32
		r.OnAdd = func(v directive.AttachedValue) { got = append(got, v.GetValueID()) }
		return &got
	}
	ra, rb, rc := hu.NewRef("a"), hu.NewRef("b"), hu.NewRef("c")
	di, refA, _ := c.AddDirective(&hu.Dir{Key: 1}, ra)
	refB := di.AddReference(rb, false)
	sym.Quiesce()
	ga, gb, gc := record(ra), record(rb), record(rc)
	nest := sym.Choose("nest", 3)
	who := ra
	if sym.Bool("who") {
		who = rb
	}
	old := who.OnAdd
	who.OnAdd = func(v directive.AttachedValue) {
		old(v)
		for ; nest > 0; nest-- {
			add()
		}
	}
	for n < nMany {
		add()
	}
	sym.Quiesce()
	ordered := func(got []uint32, want int) {
		for i := 1; i < len(got); i++ {
			sym.Assert(got[i-1] < got[i], "the values of a resolver are told in the order they were added")
		}
		sym.Assert(len(got) == want, "every value is told")
	}
	a, b := two("remove")
	for _, i := range []int{a, b} {
		_, ok := p.H.RemoveValue(ids[i])
		sym.Assert(ok, "a value can be removed")
	}
	add()
	refC := di.AddReference(rc, false)
	sym.Quiesce()
	ordered(*ga, nMany+1)
	ordered(*gb, nMany+1)
	ordered(*gc, nMany-1)
	for _, r := range []directive.Reference{refA, refB, refC} {
		r.Release()
	}
	sym.Cover("end")
}
