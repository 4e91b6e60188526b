package hcfg

import (
	"context"

	"github.com/aperturerobotics/controllerbus/controller/configset"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// C01Many pushes many configurations of one key.
//
//verif:prop C01
//verif:bounds 4 configurations with arbitrary 64 bit revisions of one key, one of another; 2 of them released in any order
//verif:quick preempt=0 delay=0
//verif:thorough preempt=0 delay=1
func C01Many() {
	x := newCs()
	m := &pushed{}
	var refs []configset.Reference
	push := func(key string, rev uint64, n int) configset.ControllerConfig {
		conf := configset.NewControllerConfig(rev, &hu.Conf{ID: "c", N: n})
		ref, err := x.c.PushControllerConfig(context.Background(), key, conf)
		sym.Assert(err == nil, "the configuration is pushed")
		refs = append(refs, ref)
		return conf
	}
	check := func() {
		sym.Quiesce()
		sym.Assert(x.loads.Running[m.n] == 1, "the configuration with the highest revision runs")
		sym.Assert(x.loads.Running[9] == 1 && x.loads.Starts[9] == 1, "the configuration of another key runs")
		sym.Assert(x.loads.Total() == 2 && !x.loads.Bad, "no other configuration runs")
		for i, r := range refs {
			if r == nil || i == 0 {
				continue
			}
			st := r.GetState()
			sym.Assert(st.GetControllerConfig() == m.conf && st.GetController() == x.loads.Ctrls[m.n] && st.GetError() == nil, "the state has the current configuration")
		}
	}
	push("b", 3, 9)
	for i := 1; i <= 4; i++ {
		rev := sym.Uint64("rev")
		m.push(rev, i, false, push("a", rev, i))
		check()
	}
	for k := 0; k < 2; k++ {
		i := 1 + sym.Choose("release", 4)
		if refs[i] != nil {
			refs[i].Release()
			refs[i] = nil
			m.refs--
		}
		check()
	}
	for i := 1; i <= 4; i++ {
		if refs[i] != nil {
			refs[i].Release()
		}
	}
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 1 && x.loads.Running[9] == 1, "only the configuration of the other key runs")
	sym.Cover("end")
}

// C02Many references many keys.
//
//verif:prop C02
//verif:bounds 5 keys with one configuration each, of which any 2 are released in any order, one of them pushed again
//verif:quick preempt=0 delay=0
//verif:thorough preempt=0 delay=1
func C02Many() {
	x := newCs()
	keys := []string{"a", "b", "c", "d", "e"}
	var refs [5]configset.Reference
	var run [5]int
	push := func(i, n int) {
		var err error
		refs[i], err = x.c.PushControllerConfig(context.Background(), keys[i], configset.NewControllerConfig(1, &hu.Conf{ID: "c", N: n}))
		sym.Assert(err == nil && refs[i].GetConfigKey() == keys[i], "the configuration is pushed")
		run[i] = n
	}
	check := func() {
		sym.Quiesce()
		want := 0
		for i, n := range run {
			if n == 0 {
				continue
			}
			want++
			sym.Assert(x.loads.Running[n] == 1 && x.loads.Starts[n] == 1, "a configuration runs while it is referenced")
			st := refs[i].GetState()
			sym.Assert(st.GetId() == keys[i] && st.GetController() == x.loads.Ctrls[n], "the controller of the key is reported")
		}
		sym.Assert(x.loads.Total() == want && !x.loads.Bad, "no other configuration runs")
	}
	for i := range keys {
		push(i, i+1)
		check()
	}
	a := sym.Choose("release 1", 5)
	refs[a].Release()
	run[a] = 0
	if sym.Bool("wait") {
		check()
	}
	b := (a + 1 + sym.Choose("release 2", 4)) % 5
	refs[b].Release()
	run[b] = 0
	check()
	push(a, 7)
	check()
	sym.Cover("end")
}

// C04Many applies and looks up many keys.
//
//verif:prop C04
//verif:bounds 4 sets of a key each and 3 lookups of 1 to 4 of them and of an unknown one; any lookup released, then a newer set of any 2 keys applied, and any of the first sets released
//verif:quick preempt=0 delay=1
//verif:thorough preempt=1 delay=1
func C04Many() {
	x := newCs()
	keys := []string{"a", "b", "c", "d"}
	set, set0 := configset.ConfigSet{}, configset.ConfigSet{}
	cur := map[string]configset.ControllerConfig{}
	num := map[string]int{}
	for i, k := range keys {
		cur[k] = configset.NewControllerConfig(1, &hu.Conf{ID: "c", N: i + 1})
		if i < 3 {
			set0[k] = cur[k]
		} else {
			set[k] = cur[k]
		}
		num[k] = i + 1
	}
	var looks []*looker
	look := func(keys ...string) {
		l := &looker{r: hu.NewRef("look"), keys: keys}
		_, ref, err := x.b.AddDirective(configset.NewLookupConfigSet(l.keys), l.r)
		sym.Assert(err == nil, "the configuration is looked up")
		l.ref = ref
		looks = append(looks, l)
		sym.Quiesce()
	}
	apply := func(set configset.ConfigSet, keys ...string) *looker {
		l := &looker{r: hu.NewRef("set"), keys: keys}
		_, ref, err := x.b.AddDirective(configset.NewApplyConfigSet(set), l.r)
		sym.Assert(err == nil, "the configuration set is applied")
		l.ref = ref
		looks = append(looks, l)
		sym.Quiesce()
		return l
	}
	check := func() {
		sym.Quiesce()
		for _, l := range looks {
			if l == nil {
				continue
			}
			l.r.Check()
			sym.Assert(len(l.r.Live) == len(l.keys), "there is a state for every key")
			for _, k := range l.keys {
				st, n := stOf(l.r, k)
				sym.Assert(n == 1, "there is one state per key")
				if cur[k] == nil {
					sym.Assert(st.GetController() == nil && st.GetControllerConfig() == nil && st.GetError() == nil, "nothing is reported for an unknown key")
					continue
				}
				sym.Assert(st.GetControllerConfig() == cur[k], "the current configuration is reported")
				sym.Assert(st.GetController() == x.loads.Ctrls[num[k]] && st.GetError() == nil, "the running controller is reported")
			}
		}
		sym.Assert(x.loads.Total() == len(cur) && !x.loads.Bad, "no other configuration runs")
	}
	look("d")
	// a few at once only: the schedules of all would be too many
	for _, k := range keys[:3] {
		apply(configset.ConfigSet{k: set0[k]}, k)
	}
	apply(set, "d")
	look("a", "b", "c", "d", "e")
	look("b", "e")
	check()
	rel := []int{0, 5, 6}[sym.Choose("release", 3)]
	looks[rel].ref.Release()
	looks[rel] = nil
	check()
	k1 := sym.Choose("key 1", 4)
	k2 := (k1 + 1 + sym.Choose("key 2", 3)) % 4
	set2 := configset.ConfigSet{}
	for i, k := range []int{k1, k2} {
		set2[keys[k]] = configset.NewControllerConfig(2, &hu.Conf{ID: "c", N: 5 + i})
		cur[keys[k]] = set2[keys[k]]
		num[keys[k]] = 5 + i
	}
	apply(set2, keys[k1], keys[k2])
	check()
	r2 := 1 + sym.Choose("release 2", 4)
	looks[r2].ref.Release()
	looks[r2] = nil
	for i, k := range keys {
		held := i == k1 || i == k2
		for _, l := range looks {
			if l == nil {
				continue
			}
			for _, lk := range l.keys {
				held = held || lk == k
			}
		}
		if !held {
			delete(cur, k)
		}
	}
	check()
	for _, l := range looks {
		if l != nil {
			l.ref.Release()
		}
	}
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Cover("end")
}
