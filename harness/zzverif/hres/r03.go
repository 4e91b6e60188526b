package hres

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/aperturerobotics/util/ccontainer"
)

// item is a keyed value. Items are the same if their values differ in the lowest bit only.
type item struct{ K, V uint32 }

func itemKey(v item) uint32                { return v.K }
func itemCmp(k uint32, a, b item) bool     { return a.V>>1 == b.V>>1 }
func itemXfrm(k uint32, v item) (any, bool) { return v.V + 3, v.V >= 4 }

// ul are the operations of the unique resolvers.
type ul struct {
	set, app func(a ...item)
	remove   func(k uint32)
	xfrm     bool
}

func asMap(a []item) map[uint32]item {
	m := map[uint32]item{}
	for _, v := range a {
		m[v.K] = v
	}
	return m
}

func newUl(form int, h directive.ValueHandler) *ul {
	switch form {
	case 0:
		l := directive.NewUniqueListResolver(itemKey, itemCmp, h)
		return &ul{set: l.SetValues, app: l.AppendValues, remove: func(k uint32) {
			if sym.Bool("byvalue") {
				l.RemoveValues(item{K: k})
			} else {
				l.RemoveKeys(k)
			}
		}}
	case 1:
		l := directive.NewUniqueListXfrmResolver(itemKey, itemCmp, itemXfrm, h)
		return &ul{set: l.SetValues, app: l.AppendValues, remove: func(k uint32) { l.RemoveKeys(k) }, xfrm: true}
	case 2:
		l := directive.NewUniqueMapResolver(itemCmp, h)
		return &ul{set: func(a ...item) { l.SetValues(asMap(a)) }, app: func(a ...item) { l.AppendValues(asMap(a)) }, remove: func(k uint32) { l.RemoveKeys(k) }}
	default:
		l := directive.NewUniqueMapXfrmResolver(itemCmp, itemXfrm, h)
		return &ul{set: func(a ...item) { l.SetValues(asMap(a)) }, app: func(a ...item) { l.AppendValues(asMap(a)) }, remove: func(k uint32) { l.RemoveKeys(k) }, xfrm: true}
	}
}

func r03unique(nops, keys int) {
	form := sym.Choose("form", 4)
	c := hu.NewDC()
	p := &hu.Puppet{}
	_, _ = c.AddHandler(hu.Static(p))
	r := hu.NewRef("r")
	_, _, _ = c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	u := newUl(form, p.H)
	model := make([]*item, keys)
	for i := 0; i < nops; i++ {
		added, removed := r.Added, r.Removed
		op := 0
		if i > 0 {
			op = sym.Choose("op", 3)
		}
		changes := 0
		upd := func(v item) {
			m := model[v.K]
			if m == nil || m.V>>1 != v.V>>1 {
				model[v.K] = &v
				changes++
			}
		}
		switch op {
		case 0:
			n := sym.Choose("n", 3)
			var a []item
			seen := make([]bool, keys)
			for j := 0; j < n; j++ {
				v := item{K: uint32(sym.Choose("key", keys)), V: sym.Uint32("val")}
				if seen[v.K] {
					continue
				}
				seen[v.K] = true
				a = append(a, v)
			}
			u.set(a...)
			for _, v := range a {
				upd(v)
			}
			for k := range model {
				if !seen[k] && model[k] != nil {
					model[k] = nil
					changes++
				}
			}
		case 1:
			v := item{K: uint32(sym.Choose("key", keys)), V: sym.Uint32("val")}
			u.app(v)
			upd(v)
		case 2:
			k := uint32(sym.Choose("key", keys))
			u.remove(k)
			if model[k] != nil {
				model[k] = nil
				changes++
			}
		}
		sym.Quiesce()
		r.Check()
		want := 0
		for _, m := range model {
			if m == nil {
				continue
			}
			var exp any = *m
			if u.xfrm {
				x, ok := itemXfrm(m.K, *m)
				if !ok {
					continue
				}
				exp = x
			}
			n, dup := 0, 0
			for _, v := range r.Live {
				if v == exp {
					n++
				}
			}
			for _, o := range model {
				if o == nil {
					continue
				}
				var oe any = *o
				if u.xfrm {
					x, ok := itemXfrm(o.K, *o)
					if !ok {
						continue
					}
					oe = x
				}
				if oe == exp {
					dup++
				}
			}
			sym.Assert(n == dup, "every keyed value is emitted once")
			want++
		}
		sym.Assert(len(r.Live) == want, "no other values are emitted")
		sym.Assert(r.Added-added <= changes && r.Removed-removed <= changes, "an unchanged value is kept")
	}
	sym.Cover("end")
}

// R03Unique changes keyed values.
//
//verif:prop R03
//verif:bounds a set of up to 2 values and 2 operations (set up to 2, append, remove) on 2 keys with arbitrary 32 bit values; list and map, with and without transformation which drops values
//verif:quick preempt=0 delay=0 merge=0
//verif:thorough skip=1
func R03Unique() { r03unique(3, 2) }

// R03UniqueLong uses more keys.
//
//verif:prop R03
//verif:bounds as before with 3 keys
//verif:quick skip=1 merge=0
//verif:thorough skip=0 preempt=0 delay=0
func R03UniqueLong() { r03unique(3, 3) }

// R03UniqueCap fills the directive.
//
//verif:prop R03
//verif:bounds a hard cap of 1 value and 2 keys with arbitrary values: appended, changed, removed and appended again
//verif:quick preempt=0 delay=0
//verif:thorough preempt=0 delay=0
func R03UniqueCap() {
	form := sym.Choose("form", 4)
	c := hu.NewDC()
	p := &hu.Puppet{}
	_, _ = c.AddHandler(hu.Static(p))
	r := hu.NewRef("r")
	_, _, _ = c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: 1, MaxValueHardCap: true}}, r)
	sym.Quiesce()
	u := newUl(form, p.H)
	a, b, b2 := item{1, 4 + sym.Uint32("a")>>1}, item{2, 4 + sym.Uint32("b")>>1}, item{2, 4 + sym.Uint32("b2")>>1}
	u.app(a)
	sym.Quiesce()
	sym.Assert(len(r.Live) == 1, "the first value is emitted")
	u.app(b)
	sym.Quiesce()
	sym.Assert(len(r.Live) == 1 && r.Removed == 0, "a rejected value has no effect")
	u.remove(1)
	sym.Quiesce()
	sym.Assert(len(r.Live) == 0, "the value is removed")
	u.app(b2)
	sym.Quiesce()
	same := b.V>>1 == b2.V>>1
	if same {
		sym.Assert(len(r.Live) == 0, "an unchanged value is kept")
		u.remove(2)
		u.app(b2)
		sym.Quiesce()
	}
	sym.Assert(len(r.Live) == 1, "the value is emitted")
	var exp any = b2
	if u.xfrm {
		exp, _ = itemXfrm(2, b2)
	}
	for _, v := range r.Live {
		sym.Assert(v == exp, "the latest value is emitted")
	}
	r.Check()
	sym.Cover("end")
}

// watchX transforms the watched values.
func watchX(ctx context.Context, v uint32) (any, bool, error) {
	if v == 7 {
		return nil, false, hu.ErrTest
	}
	return v + 3, v >= 4, nil
}

func r03exp(xfrm bool, v uint32) (any, bool) {
	if v == 0 {
		return nil, false
	}
	if !xfrm {
		return v, true
	}
	x, ok, _ := watchX(nil, v)
	return x, ok
}

func r03watch(nops int, conc bool) {
	xfrm := sym.Bool("xfrm")
	ctr := ccontainer.NewCContainer(sym.Uint32("initial"))
	var res directive.Resolver
	if xfrm {
		res = directive.NewWatchableTransformResolver[uint32, any](ctr, watchX)
	} else {
		res = directive.NewWatchableResolver[uint32](ctr)
	}
	c := hu.NewDC()
	relH, _ := c.AddHandler(hu.Static(res))
	r := hu.NewRef("r")
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	var errs []error
	di.AddIdleCallback(func(idle bool, e []error) {
		if idle {
			errs = e
		}
	})
	failed := false
	check := func() {
		sym.Quiesce()
		r.Check()
		v := ctr.GetValue()
		failed = failed || xfrm && v == 7
		exp, ok := r03exp(xfrm, v)
		if failed {
			sym.Assert(len(r.Live) == 0, "no value is emitted after an error")
			sym.Assert(len(errs) == 1 && errs[0] == hu.ErrTest, "the error is reported")
			return
		}
		if !ok {
			sym.Assert(len(r.Live) == 0, "no value is emitted if there is none")
			return
		}
		sym.Assert(len(r.Live) == 1, "one value is emitted")
		for _, x := range r.Live {
			sym.Assert(x == exp, "the current value is emitted")
		}
	}
	if conc {
		v := sym.Uint32("next")
		w := sym.Uint32("last")
		if xfrm {
			sym.Assume(v != 7 && w != 7 && ctr.GetValue() != 7)
		}
		go func() {
			ctr.SetValue(v)
			ctr.SetValue(w)
		}()
		check()
	} else {
		check()
		for i := 0; i < nops && !failed; i++ {
			ctr.SetValue(sym.Uint32("next"))
			check()
		}
	}
	end := sym.Choose("end", 3)
	switch end {
	case 0:
		relH()
	case 1:
		di.Close()
	case 2:
		ref.Release()
	}
	sym.Quiesce()
	sym.Assert(len(r.Live) == 0 || end == 2, "the value is removed with the resolver")
	sym.Cover("end")
}

// R03Watch changes a watched value.
//
//verif:prop R03
//verif:bounds an arbitrary initial value and 2 arbitrary changes (thorough 3), with and without a transformation which drops values and fails; 3 ways of stopping
//verif:quick preempt=0 delay=0
//verif:thorough skip=1
func R03Watch() { r03watch(2, false) }

// R03WatchLong changes a watched value more often.
//
//verif:prop R03
//verif:bounds 3 changes
//verif:quick skip=1
//verif:thorough skip=0 preempt=1
func R03WatchLong() { r03watch(3, false) }

// R03WatchConc changes a watched value while the resolver is started and running.
//
//verif:prop R03
//verif:bounds an arbitrary initial value and 2 arbitrary changes by another goroutine, with and without transformation; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=3
func R03WatchConc() { r03watch(0, true) }

// R03Value emits a static list of values.
//
//verif:prop R03
//verif:bounds up to 3 values; the resolver is restarted by reaching and leaving a value cap
//verif:quick preempt=1
//verif:thorough preempt=2
func R03Value() {
	n := sym.Choose("n", 4)
	vals := []string{"a", "b", "c"}[:n]
	c := hu.NewDC()
	p := &hu.Puppet{}
	res := directive.NewValueResolver(vals)
	relH, _ := c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p, res), nil
	}))
	r := hu.NewRef("r")
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: directive.ValueOptions{MaxValueCount: 4}}, r)
	sym.Quiesce()
	check := func(extra int) {
		sym.Quiesce()
		r.Check()
		sym.Assert(len(r.Live) == n+extra, "the values are emitted once")
		for _, v := range vals {
			k := 0
			for _, x := range r.Live {
				if x == v {
					k++
				}
			}
			sym.Assert(k == 1, "every value is emitted once")
		}
	}
	check(0)
	m := 1 + sym.Choose("fill", 4)
	var ids []uint32
	for i := 0; i < m; i++ {
		id, _ := p.H.AddValue(i)
		ids = append(ids, id)
	}
	check(m)
	for _, id := range ids {
		p.H.RemoveValue(id)
	}
	check(0)
	switch sym.Choose("end", 3) {
	case 0:
		relH()
	case 1:
		di.Close()
	case 2:
		ref.Release()
	}
	sym.Quiesce()
	sym.Cover("end")
}
