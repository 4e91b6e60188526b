package hcfg

import (
	"github.com/aperturerobotics/controllerbus/controller/configset"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// stOf finds the state of a key among the values of a reference.
func stOf(r *hu.Ref, key string) (configset.State, int) {
	var st configset.State
	n := 0
	for _, v := range r.Live {
		if s := v.(configset.State); s.GetId() == key {
			st = s
			n++
		}
	}
	return st, n
}

// looker is a status directive.
type looker struct {
	ref  directive.Reference
	r    *hu.Ref
	keys []string
}

func c04(nops int) {
	x := newCs()
	model := map[string]*pushed{"a": {}, "b": {}}
	keys := []string{"a", "b"}
	type applied struct {
		*looker
		set configset.ConfigSet
	}
	var sets []*applied
	var looks []*looker
	held := func(key string) bool {
		for _, l := range looks {
			for _, k := range l.keys {
				if k == key {
					return true
				}
			}
		}
		return false
	}
	next := 1
	for i := 0; i < nops; i++ {
		switch sym.Choose("op", 4) {
		case 0:
			set := configset.ConfigSet{}
			a := &applied{looker: &looker{r: hu.NewRef("set")}, set: set}
			for j, k := range keys {
				if which := sym.Choose("keys", 3); i == 0 && which == j || i != 0 && which != j {
					rev := uint64(sym.Choose("rev", 2))
					set[k] = configset.NewControllerConfig(rev, &hu.Conf{ID: "c", N: next})
					if model[k].refs == 0 && held(k) && model[k].n != 0 {
						// a lookup keeps the configuration
						model[k].refs++
						model[k].push(rev, next, false, set[k])
						model[k].refs--
					} else {
						model[k].push(rev, next, false, set[k])
					}
					a.keys = append(a.keys, k)
					next++
				}
			}
			_, ref, err := x.b.AddDirective(configset.NewApplyConfigSet(set), a.r)
			sym.Assert(err == nil, "the configuration set is applied")
			a.ref = ref
			sets = append(sets, a)
		case 1:
			if len(sets) != 0 {
				j := sym.Choose("release", len(sets))
				sets[j].ref.Release()
				for _, k := range sets[j].keys {
					model[k].refs--
				}
				sets = append(sets[:j:j], sets[j+1:]...)
			}
		case 2:
			l := &looker{r: hu.NewRef("look"), keys: []string{keys[sym.Choose("key", 2)]}}
			if sym.Bool("both") {
				l.keys = []string{"a", "b"}
			}
			_, ref, err := x.b.AddDirective(configset.NewLookupConfigSet(l.keys), l.r)
			sym.Assert(err == nil, "the configuration is looked up")
			l.ref = ref
			looks = append(looks, l)
		case 3:
			if len(looks) != 0 {
				j := sym.Choose("release", len(looks))
				looks[j].ref.Release()
				looks = append(looks[:j:j], looks[j+1:]...)
			}
		}
		sym.Quiesce()
		want := 0
		for _, k := range keys {
			if model[k].n != 0 && (model[k].refs > 0 || held(k)) {
				want++
				sym.Assert(x.loads.Running[model[k].n] == 1, "the configuration runs while it is applied or looked up")
			} else {
				*model[k] = pushed{}
			}
		}
		sym.Assert(x.loads.Total() == want, "no other configuration runs")
		check := func(l *looker) {
			l.r.Check()
			sym.Assert(len(l.r.Live) == len(l.keys), "there is a state for every key")
			for _, k := range l.keys {
				st, n := stOf(l.r, k)
				sym.Assert(n == 1, "there is one state per key")
				m := model[k]
				if m.n == 0 {
					sym.Assert(st.GetController() == nil && st.GetControllerConfig() == nil && st.GetError() == nil, "nothing is reported for an unknown key")
					sym.Cover("unknown")
				} else {
					sym.Assert(st.GetControllerConfig() == m.conf, "the current configuration is reported")
					sym.Assert(st.GetController() == x.loads.Ctrls[m.n] && st.GetError() == nil, "the running controller is reported")
				}
			}
		}
		for _, a := range sets {
			check(a.looker)
		}
		for _, l := range looks {
			check(l)
		}
	}
	for _, a := range sets {
		a.ref.Release()
	}
	for _, l := range looks {
		l.ref.Release()
	}
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}

// C04Seq applies and looks up configurations with directives.
//
//verif:prop C04
//verif:bounds 3 operations (thorough 4) of applying sets of up to 2 configurations with 2 revisions, looking up 1 or 2 keys, and releasing them
//verif:quick preempt=0 delay=1
//verif:thorough preempt=1 delay=1
func C04Seq() { c04(3) }

// C04SeqLong runs longer histories.
//
//verif:prop C04
//verif:bounds as before with 4 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=1
func C04SeqLong() { c04(4) }

// C04Conc changes a configuration which is applied and looked up.
//
//verif:prop C04
//verif:bounds an applied key which runs; 2 concurrent operations out of looking it up, releasing the set, applying a new revision, and looking it up and releasing the lookup at once; all schedules up to the preemption bound
//verif:quick preempt=2 delay=1
//verif:thorough preempt=3 delay=1
func C04Conc() { c04conc(true) }

// C04ConcStart does the same while the configuration is applied.
//
//verif:prop C04
//verif:bounds as before, concurrently with applying the first set
//verif:quick preempt=1 delay=1
//verif:thorough preempt=3 delay=1
func C04ConcStart() { c04conc(false) }

func c04conc(before bool) {
	x := newCs()
	set := &looker{r: hu.NewRef("set"), keys: []string{"a"}}
	conf := configset.NewControllerConfig(1, &hu.Conf{ID: "c", N: 1})
	conf2 := configset.NewControllerConfig(2, &hu.Conf{ID: "c", N: 2})
	look := &looker{r: hu.NewRef("look"), keys: []string{"a"}}
	set2 := &looker{r: hu.NewRef("set2"), keys: []string{"a"}}
	_, set.ref, _ = x.b.AddDirective(configset.NewApplyConfigSet(configset.ConfigSet{"a": conf}), set.r)
	if before {
		sym.Quiesce()
	}
	ops := []int{sym.Choose("op1", 4), sym.Choose("op2", 4)}
	sym.Assume(ops[0] < ops[1])
	var mtx sym.Mutex
	done := 0
	for _, op := range ops {
		go func() {
			switch op {
			case 0:
				_, look.ref, _ = x.b.AddDirective(configset.NewLookupConfigSet([]string{"a"}), look.r)
			case 1:
				set.ref.Release()
			case 2:
				_, set2.ref, _ = x.b.AddDirective(configset.NewApplyConfigSet(configset.ConfigSet{"a": conf2}), set2.r)
			case 3:
				_, ref, _ := x.b.AddDirective(configset.NewLookupConfigSet([]string{"a"}), nil)
				ref.Release()
			}
			mtx.Lock()
			done++
			mtx.Unlock()
		}()
	}
	sym.Quiesce()
	sym.Assert(done == 2, "nothing blocks")
	released := ops[0] == 1 || ops[1] == 1
	look.r.Check()
	set2.r.Check()
	sym.Assert(x.loads.Total() <= 1, "one configuration runs")
	run := 0
	for n, k := range x.loads.Running {
		if k != 0 {
			run = n
		}
	}
	for _, l := range []*looker{set, look, set2} {
		if l.ref == nil || l == set && released {
			continue
		}
		st, n := stOf(l.r, "a")
		sym.Assert(n == 1 && len(l.r.Live) == 1, "there is one state per key")
		if run == 0 {
			sym.Assert(st.GetController() == nil, "nothing is reported")
			continue
		}
		sym.Assert(st.GetController() == x.loads.Ctrls[run] && st.GetError() == nil, "the running controller is reported")
	}
	if set2.ref != nil {
		sym.Assert(run == 2, "the configuration with the highest revision runs")
	} else if !released {
		sym.Assert(run == 1, "the configuration runs")
	} else if look.ref == nil {
		sym.Assert(run == 0, "nothing runs without references")
	}
	if !released {
		set.ref.Release()
	}
	for _, l := range []*looker{look, set2} {
		if l.ref != nil {
			l.ref.Release()
		}
	}
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}

// C04Empty applies and looks up keys which are empty.
//
//verif:prop C04
//verif:bounds a set which is missing, empty, or has any of the empty key and 2 others; lookups of the same keys; the controller of the sets possibly being removed
//verif:quick preempt=0 delay=1
//verif:thorough preempt=1 delay=1
func C04Empty() {
	x := newCs()
	var set configset.ConfigSet
	var keys []string
	want := map[string]int{}
	if sym.Bool("set") {
		set = configset.ConfigSet{}
		for i, k := range []string{"", "a", "b"} {
			if sym.Bool("key") {
				set[k] = configset.NewControllerConfig(1, &hu.Conf{ID: "c", N: i})
				keys = append(keys, k)
				if k != "" {
					want[k] = i
				}
			}
		}
	}
	a, l := hu.NewRef("set"), hu.NewRef("look")
	_, aref, _ := x.b.AddDirective(configset.NewApplyConfigSet(set), a)
	_, lref, _ := x.b.AddDirective(configset.NewLookupConfigSet(keys), l)
	sym.Quiesce()
	sym.Assert(x.loads.Total() == len(want), "every configuration with a key runs")
	for _, r := range []*hu.Ref{a, l} {
		r.Check()
		sym.Assert(len(r.Live) == len(want), "there is a state for every key")
		for k, n := range want {
			st, cnt := stOf(r, k)
			sym.Assert(cnt == 1 && st.GetController() == x.loads.Ctrls[n], "the running controller is reported")
		}
	}
	if sym.Bool("remove") {
		x.rel()
		sym.Quiesce()
		sym.Assert(x.loads.Total() == 0 && len(a.Live) == 0 && len(l.Live) == 0, "nothing runs or is reported without the controller")
		sym.Cover("removed")
	}
	aref.Release()
	lref.Release()
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}
