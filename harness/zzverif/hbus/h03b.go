package hbus

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// H03Reselect removes the selected value until none is left.
//
//verif:prop H03
//verif:bounds 4 values of 3 kinds (accepted, rejected, another type), the watch started before or after they are added; the selected value is removed until there is none; every order of the remaining values
//verif:quick preempt=0 delay=0 maporder=6 merge=0
//verif:thorough preempt=1 maporder=6 merge=0
func H03Reselect() {
	s := newValSrc()
	var sel directive.TypedAttachedValue[string]
	offered := map[uint32]int{}
	watch := func() {
		_, _, err := bus.ExecOneOffWatchCb(func(v directive.TypedAttachedValue[string]) bool {
			if v == nil {
				sym.Assert(sel != nil, "no value is told only when the selected one was removed")
				sel = nil
				return true
			}
			offered[v.GetValueID()]++
			sym.Assert(offered[v.GetValueID()] == 1, "a value is offered once")
			if v.GetValue() == vNo {
				return false
			}
			sel = v
			return true
		}, s.b, s.dir())
		sym.Assert(err == nil, "the watch is started")
		sym.Quiesce()
	}
	first := sym.Bool("first")
	if first {
		watch()
	}
	n := 0
	for i := 0; i < 4; i++ {
		k := 0
		if i > 0 {
			k = sym.Choose("kind", 3)
		}
		switch k {
		case 0:
			s.add(vOk, false)
			n++
		case 1:
			s.add(vNo, false)
		case 2:
			s.add(7, false)
		}
	}
	sym.Quiesce()
	if !first {
		watch()
	}
	for n > 0 {
		sym.Assert(sel != nil && s.has(sel.GetValueID(), vOk), "a live value is selected while there is one which was not rejected")
		for k, l := range s.live {
			if l.id == sel.GetValueID() {
				s.remove(k)
				break
			}
		}
		n--
		sym.Quiesce()
	}
	sym.Assert(sel == nil, "no value is selected when there is none which was not rejected")
	sym.Cover("end")
}

// H03Latest ends the serial form in all ways.
//
//verif:prop H03
//verif:bounds the serial form with or without each of its callbacks; the first one or the second one fails at the first or the second value, or the context is canceled; the directive closed or not; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=3
func H03Latest() {
	s := newValSrc()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	how := sym.Choose("how", 4)
	var initCb func(di directive.Instance, ref directive.Reference) error
	var valCb func(v directive.TypedAttachedValue[string]) error
	ninit, nval := 0, 0
	if how == 0 || sym.Bool("init") {
		initCb = func(di directive.Instance, ref directive.Reference) error {
			sym.Assert(di == s.di && ref != nil && nval == 0, "the instance and the reference are told first")
			ninit++
			if how == 0 {
				return hu.ErrTest
			}
			return nil
		}
	}
	if how == 1 || how == 2 || sym.Bool("val") {
		valCb = func(v directive.TypedAttachedValue[string]) error {
			nval++
			if how == 1 && nval == 1 || how == 2 && nval == 2 {
				return hu.ErrTest
			}
			return nil
		}
	}
	returned := false
	var err error
	go func() {
		err = bus.ExecOneOffWatchLatestCb(ctx, s.b, s.dir(), initCb, valCb)
		returned = true
	}()
	s.add("a", false)
	sym.Quiesce()
	sym.Assert(returned == (how <= 1), "the watch runs until it fails or is canceled")
	s.remove(0)
	sym.Quiesce()
	if how <= 1 || how == 2 && nval >= 2 {
		sym.Assert(returned && err == hu.ErrTest, "the error of a callback is returned")
	} else {
		sym.Assert(!returned, "the watch runs until it fails or is canceled")
		if sym.Bool("close") {
			s.close()
		}
		cancel()
		sym.Quiesce()
		sym.Assert(returned && err == context.Canceled, "the watch runs until it is canceled")
	}
	n := nval
	if !s.closed {
		s.add("b", false)
		sym.Quiesce()
		s.keep.Release()
		sym.Quiesce()
		sym.Assert(!hu.Has(s.b, s.di), "the directive is released when the watch ends")
	}
	sym.Assert(nval == n && ninit <= 1, "nothing is told after the watch ended")
	sym.Cover("end")
}
