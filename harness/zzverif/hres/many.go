package hres

import (
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// R02Many removes two of many transformed values.
//
//verif:prop R02
//verif:bounds 5 values, one of them possibly skipped, any 2 removed in any order and another added; plain and typed
//verif:quick preempt=0
//verif:thorough preempt=0
func R02Many() {
	x := newR02(sym.Bool("typed"), directive.ValueOptions{}, nil)
	sym.Quiesce()
	type val struct {
		v  int
		id uint32
	}
	var live []val
	add := func(v int) {
		id, ok := x.src.H.AddValue(v)
		sym.Assert(ok, "the value is accepted")
		live = append(live, val{v, id})
	}
	check := func() {
		sym.Quiesce()
		want := 0
		for _, l := range live {
			if x.mode[l.v] != 0 {
				continue
			}
			want++
			n := 0
			for _, v := range x.r.Live {
				if v == l.v+100 {
					n++
				}
			}
			sym.Assert(n == 1, "every value of the source is transformed")
			sym.Assert(x.held[l.v] == 1, "a transformed value is held")
		}
		sym.Assert(len(x.r.Live) == want, "no other value is emitted")
		x.r.Check()
	}
	if skip := sym.Choose("skip", 6); skip != 0 {
		x.mode[skip] = 1
	}
	for v := 1; v <= 5; v++ {
		add(v)
		if v%2 == 0 {
			check()
		}
	}
	check()
	for k := 0; k < 2; k++ {
		i := sym.Choose("remove", len(live))
		v, ok := x.src.H.RemoveValue(live[i].id)
		sym.Assert(ok && v == live[i].v, "the value is removed")
		live = append(append([]val(nil), live[:i]...), live[i+1:]...)
		check()
	}
	add(6)
	check()
	x.end()
	x.checkEnd()
	sym.Cover("end")
}

// R03Many changes sets of many values.
//
//verif:prop R03
//verif:bounds a set of 5 keys is replaced by another one with up to 2 keys missing and up to one changed, then a key is appended and another one removed; list and map, with and without transformation
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func R03Many() {
	form := sym.Choose("form", 4)
	c := hu.NewDC()
	p := &hu.Puppet{}
	_, _ = c.AddHandler(hu.Static(p))
	r := hu.NewRef("r")
	_, _, _ = c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	u := newUl(form, p.H)
	model := map[uint32]item{}
	check := func(added, removed int) {
		sym.Quiesce()
		sym.Assert(r.Added == added && r.Removed == removed, "only changed values are removed and added")
		sym.Assert(len(r.Live) == len(model), "exactly the current values are emitted")
		for _, m := range model {
			var exp any = m
			if u.xfrm {
				exp, _ = itemXfrm(m.K, m)
			}
			n := 0
			for _, v := range r.Live {
				if v == exp {
					n++
				}
			}
			sym.Assert(n == 1, "exactly the current values are emitted")
		}
		r.Check()
	}
	var a []item
	for k := uint32(0); k < 5; k++ {
		v := item{k, 10 * (k + 1)}
		a = append(a, v)
		model[k] = v
	}
	u.set(a...)
	check(5, 0)
	var b []item
	changed := uint32(sym.Choose("changed", 6))
	added, removed := 5, 0
	miss1, miss2 := uint32(sym.Choose("missing 1", 5)), uint32(sym.Choose("missing 2", 6))
	for k := uint32(0); k < 5; k++ {
		if miss2 != 5 && (k == miss1 || k == miss2) {
			delete(model, k)
			removed++
			continue
		}
		v := model[k]
		if k == changed {
			v.V += 2
			model[k] = v
			added++
			removed++
		}
		b = append(b, v)
	}
	u.set(b...)
	check(added, removed)
	k := uint32(sym.Choose("append", 6))
	v := item{k, 100 + 10*k}
	if _, ok := model[k]; ok {
		removed++
	}
	added++
	model[k] = v
	u.app(v)
	check(added, removed)
	k = (k + 2) % 6
	if _, ok := model[k]; ok {
		removed++
		delete(model, k)
	}
	u.remove(k)
	check(added, removed)
	sym.Cover("end")
}
