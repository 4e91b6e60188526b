package hdir

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// d06run applies n arbitrary value operations of two resolvers and compares every result with a model.
func d06run(n int) {
	c := hu.NewDC()
	p := []*hu.Puppet{{}, {}}
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p[0], p[1]), nil
	}))
	r := hu.NewRef("r")
	_, _, _ = c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	// model
	type ent struct {
		id    uint32
		owner int
		val   uint32
	}
	var live []ent
	last := uint32(0)
	for s := 0; s < n; s++ {
		k := sym.Choose("resolver", 2)
		h := p[k].H
		switch sym.Choose("op", 3) {
		case 0:
			v := sym.Uint32("val")
			id, ok := h.AddValue(v)
			sym.Assert(ok, "a value is accepted when there is no value cap")
			sym.Assert(id > last, "value ids increase and are never used again")
			sym.Assert(last != 0 || id == 1, "the first value id is one")
			last = id
			live = append(live, ent{id, k, v})
		case 1:
			id := sym.Uint32("id")
			v, found := h.RemoveValue(id)
			exp := false
			for i, e := range live {
				if e.id == id {
					if e.owner == k {
						exp = true
						sym.Assert(found && v == directive.Value(e.val), "removing a value returns that value")
						live = append(append([]ent(nil), live[:i]...), live[i+1:]...)
						sym.Cover("removed")
					}
					break
				}
			}
			sym.Assert(found == exp, "a value is found exactly when this resolver has it")
			if !found {
				sym.Assert(v == nil, "no value is returned if it was not found")
			}
		case 2:
			ids := h.ClearValues()
			var rest []ent
			cnt := 0
			for _, e := range live {
				if e.owner == k {
					sym.Assert(cnt < len(ids) && ids[cnt] == e.id, "clearing returns the ids of the values of the resolver")
					cnt++
				} else {
					rest = append(rest, e)
				}
			}
			sym.Assert(cnt == len(ids), "clearing removes the values of this resolver only")
			live = rest
		}
		own := 0
		for _, e := range live {
			if e.owner == k {
				own++
			}
			sym.Assert(r.Live[e.id] == directive.Value(e.val), "the reference sees the live values under their ids")
		}
		sym.Assert(h.CountValues(true) == len(live), "the count over all resolvers is the number of live values")
		sym.Assert(h.CountValues(false) == own, "the count of a resolver is the number of its live values")
		sym.Assert(len(r.Live) == len(live), "the reference sees exactly the live values")
	}
	r.Check()
	sym.Cover("end")
}

// D06Seq compares arbitrary sequences of value operations with a model.
//
//verif:prop D06
//verif:bounds 2 resolvers of one directive, 3 operations each add (any value), remove (any id) or clear
//verif:quick preempt=0
func D06Seq() { d06run(3) }

// D06SeqLong is D06Seq with more operations.
//
//verif:prop D06
//verif:bounds 2 resolvers of one directive, 5 operations each add (any value), remove (any id) or clear
//verif:quick skip=1
//verif:thorough preempt=0 skip=0
func D06SeqLong() { d06run(5) }

// D06Conc adds and removes values from three goroutines.
//
//verif:prop D06
//verif:bounds 3 goroutines adding 2, 1 and 1 values through two resolvers, one of them removing an arbitrary id; all schedules up to the preemption bound
//verif:quick preempt=2
//verif:thorough preempt=-1
func D06Conc() {
	c := hu.NewDC()
	p := []*hu.Puppet{{}, {}}
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p[0], p[1]), nil
	}))
	r := hu.NewRef("r")
	_, _, _ = c.AddDirective(&hu.Dir{Key: 1}, r)
	sym.Quiesce()
	var ids [4]uint32
	done := make(chan struct{}, 2)
	go func() {
		ids[0], _ = p[0].H.AddValue(0)
		ids[1], _ = p[0].H.AddValue(1)
		done <- struct{}{}
	}()
	go func() {
		ids[2], _ = p[1].H.AddValue(2)
		done <- struct{}{}
	}()
	ids[3], _ = p[0].H.AddValue(3)
	rid := sym.Uint32("id")
	v, found := p[0].H.RemoveValue(rid)
	<-done
	<-done
	for i := range ids {
		sym.Assert(ids[i] >= 1 && ids[i] <= 4, "ids are given out from one on")
		for j := 0; j < i; j++ {
			sym.Assert(ids[i] != ids[j], "no id is given out twice")
		}
	}
	sym.Assert(ids[0] < ids[1], "ids increase")
	cnt := 4
	if found {
		cnt = 3
		sym.Cover("found")
		sym.Assert(rid != ids[2], "a value of another resolver cannot be removed")
		sym.Assert(ids[v.(int)] == rid, "the removed value is the one with that id")
	}
	sym.Quiesce()
	sym.Assert(p[1].H.CountValues(true) == cnt, "the count is the number of live values")
	sym.Assert(p[1].H.CountValues(false) == 1, "the count of a resolver is the number of its values")
	sym.Assert(len(r.Live) == cnt, "the reference sees the live values")
	for i := range ids {
		if !(found && ids[i] == rid) {
			sym.Assert(r.Live[ids[i]] == directive.Value(i), "the values are attached under the returned ids")
		}
	}
}
