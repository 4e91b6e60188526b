// Package hcfg has the harnesses of the configuration set, the loader and the factory resolvers.
package hcfg

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	cc "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

type cs struct {
	b     bus.Bus
	c     *cc.Controller
	loads *hu.Loads
	rel   func()
	exit  bool
}

func newCs() *cs {
	x := &cs{b: hu.NewBus(), loads: hu.NewLoads()}
	_, _ = x.b.AddController(context.Background(), x.loads, nil)
	x.c, _ = cc.NewController(hu.Le(), x.b)
	x.rel, _ = x.b.AddController(context.Background(), x.c, func(error) { x.exit = true })
	return x
}

// pushed is the state of a pushed configuration according to the documentation.
type pushed struct {
	refs int
	rev  uint64
	n    int
	bad  bool
	conf configset.ControllerConfig
}

func (p *pushed) push(rev uint64, n int, bad bool, conf configset.ControllerConfig) {
	if p.refs == 0 || rev > p.rev {
		p.rev, p.n, p.bad, p.conf = rev, n, bad, conf
	}
	p.refs++
}

func c01(nops int) {
	x := newCs()
	keys := []string{"a", "b"}
	model := map[string]*pushed{"a": {}, "b": {}}
	type held struct {
		ref configset.Reference
		key string
		st  configset.State
		cbs int
	}
	var refs []*held
	next := 1
	for i := 0; i < nops; i++ {
		quiet := true
		switch sym.Choose("op", 3) {
		case 0:
			key := keys[sym.Choose("key", 2)]
			rev := sym.Uint64("rev")
			bad := false
			switch sym.Choose("kind", 4) {
			case 1:
				bad = true
			case 2:
				x.loads.Err[next] = true
			case 3:
				x.loads.Slow[next] = true
			}
			conf := configset.NewControllerConfig(rev, &hu.Conf{ID: "c", N: next, Invalid: bad})
			ref, err := x.c.PushControllerConfig(context.Background(), key, conf)
			sym.Assert(err == nil && ref.GetConfigKey() == key, "the configuration is pushed")
			model[key].push(rev, next, bad, conf)
			next++
			h := &held{ref: ref, key: key}
			ref.AddStateCallback(func(st configset.State) { h.st, h.cbs = st, h.cbs+1 })
			refs = append(refs, h)
		case 1:
			if len(refs) != 0 {
				j := sym.Choose("release", len(refs))
				refs[j].ref.Release()
				if sym.Bool("twice") {
					refs[j].ref.Release()
				}
				model[refs[j].key].refs--
				refs = append(refs[:j:j], refs[j+1:]...)
			}
		case 2:
			quiet = false
		}
		// the operations might follow each other at once
		if quiet && sym.Bool("at once") && i != nops-1 {
			for _, k := range keys {
				// a configuration which is collected later is still there
				sym.Assume(model[k].refs > 0 || model[k].n == 0)
			}
			continue
		}
		sym.Quiesce()
		want := 0
		for _, k := range keys {
			m := model[k]
			if m.refs > 0 && !m.bad {
				want++
				sym.Assert(x.loads.Running[m.n] == 1, "the configuration with the highest revision runs")
				sym.Assert(x.loads.Starts[m.n] == 1, "a configuration is not restarted without need")
			}
			if m.refs == 0 {
				*m = pushed{}
			}
		}
		sym.Assert(x.loads.Total() == want, "no other configuration runs")
		sym.Assert(!x.loads.Bad, "a configuration runs once")
		for _, h := range refs {
			m := model[h.key]
			st := h.ref.GetState()
			sym.Assert(h.cbs > 0 && st.GetId() == h.key && h.st.GetId() == h.key, "the state is reported")
			sym.Assert(st.GetControllerConfig() == m.conf && h.st.GetControllerConfig() == m.conf, "the state has the current configuration")
			sym.Assert(st.GetController() == h.st.GetController() && st.GetError() == h.st.GetError(), "the last reported state is the current one")
			switch {
			case m.bad || x.loads.Err[m.n]:
				sym.Assert(st.GetController() == nil && st.GetError() == hu.ErrTest, "the error is reported")
				sym.Cover("error")
			default:
				sym.Assert(st.GetError() == nil && st.GetController() == x.loads.Ctrls[m.n], "the controller is reported")
			}
		}
	}
	for _, h := range refs {
		h.ref.Release()
	}
	sym.Quiesce()
	sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	sym.Assert(!x.exit, "the controller keeps running")
	sym.Cover("end")
}

// C01Seq pushes and releases configurations.
//
//verif:prop C01
//verif:bounds 3 operations (thorough 4) of pushing valid, invalid, failing and slow configurations with arbitrary 64 bit revisions to 2 keys and releasing them, one after another or at once
//verif:quick preempt=0 delay=1
//verif:thorough preempt=1 delay=1
func C01Seq() { c01(3) }

// C01Short runs shorter histories with more schedules.
//
//verif:prop C01
//verif:bounds as before with 2 operations
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func C01Short() { c01(2) }

// C01SeqLong runs longer histories.
//
//verif:prop C01
//verif:bounds as before with 4 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=0 delay=1
func C01SeqLong() { c01(4) }

// C02Conc pushes and releases a configuration from two goroutines.
//
//verif:prop C02
//verif:bounds 2 goroutines pushing a configuration for the same key with arbitrary 64 bit revisions, each releasing it at once or keeping it, the controller possibly stopped afterwards; all schedules up to the preemption bound
//verif:quick preempt=2 delay=1
//verif:thorough preempt=4 delay=1
func C02Conc() {
	x := newCs()
	var mtx sym.Mutex
	revs := []uint64{sym.Uint64("rev1"), sym.Uint64("rev2")}
	keep := []bool{sym.Bool("keep1"), sym.Bool("keep2")}
	var refs [2]configset.Reference
	var st [2]configset.State
	done := 0
	for i := 0; i < 2; i++ {
		go func() {
			ref, _ := x.c.PushControllerConfig(context.Background(), "a", configset.NewControllerConfig(revs[i], &hu.Conf{ID: "c", N: i + 1}))
			if !keep[i] {
				ref.Release()
			} else {
				ref.AddStateCallback(func(s configset.State) {
					mtx.Lock()
					st[i] = s
					mtx.Unlock()
				})
				refs[i] = ref
			}
			mtx.Lock()
			done++
			mtx.Unlock()
		}()
	}
	sym.Quiesce()
	sym.Assert(done == 2, "pushing and releasing does not block")
	switch {
	case keep[0] || keep[1]:
		sym.Assert(x.loads.Total() == 1, "one configuration runs per key")
		run := 0
		for n, k := range x.loads.Running {
			if k != 0 {
				run = n
			}
		}
		if keep[0] && keep[1] && revs[0] != revs[1] {
			sym.Assert((run == 1) == (revs[0] > revs[1]), "the configuration with the highest revision runs")
		}
		for i, ref := range refs {
			if ref == nil {
				continue
			}
			s := ref.GetState()
			sym.Assert(s.GetController() == x.loads.Ctrls[run], "the running controller is reported")
			sym.Assert(s.GetControllerConfig() == st[i].GetControllerConfig() && s.GetController() == st[i].GetController() && s.GetError() == st[i].GetError(), "the last reported state is the current one")
		}
		if sym.Bool("stop") {
			x.rel()
			sym.Quiesce()
			sym.Assert(x.loads.Total() == 0, "nothing runs after the controller was stopped")
			for i, ref := range refs {
				if ref != nil {
					sym.Assert(ref.GetState().GetController() == nil && st[i].GetController() == nil, "the controller is not reported anymore")
				}
			}
			sym.Cover("stopped")
		}
		for _, ref := range refs {
			if ref != nil {
				ref.Release()
			}
		}
		sym.Quiesce()
		sym.Assert(x.loads.Total() == 0, "nothing runs without references")
	default:
		sym.Assert(x.loads.Total() == 0, "nothing runs without references")
		sym.Cover("none")
	}
	sym.Cover("end")
}
