package hexec

import (
	"context"

	"github.com/aperturerobotics/controllerbus/controller/configset"
	cproto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	cexec "github.com/aperturerobotics/controllerbus/controller/exec"
	cres "github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// E01Many executes a set of many configurations.
//
//verif:prop E01
//verif:bounds 4 configurations with a state each, of which any 2 change to another state in any order
//verif:quick preempt=0 delay=0 merge=0
//verif:thorough preempt=0 delay=0 merge=0
func E01Many() {
	b := hu.NewBus()
	p := &hu.Puppet{}
	n := 0
	_, _ = b.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		d, ok := di.GetDirective().(configset.ApplyConfigSet)
		if !ok {
			return nil, nil
		}
		n = len(d.GetApplyConfigSet())
		return directive.Resolvers(p), nil
	}))
	_, _ = b.AddController(context.Background(), cres.NewController(hu.Le(), b, static.NewResolver(hu.NewFac("c", 1))), nil)
	keys := []string{"a", "b", "c", "d"}
	req := &cexec.ExecControllerRequest{ConfigSet: &cproto.ConfigSet{Configs: map[string]*cproto.ControllerConfig{}}}
	for i, k := range keys {
		req.ConfigSet.Configs[k] = &cproto.ControllerConfig{Id: "c", Config: []byte{byte(i + 1)}}
	}
	ctx, cancel := context.WithCancel(context.Background())
	var mtx sym.Mutex
	got := map[string]report{}
	cnt := 0
	returned := false
	go func() {
		err := req.Execute(ctx, b, false, func(r *cexec.ExecControllerResponse) error {
			mtx.Lock()
			defer mtx.Unlock()
			cnt++
			got[r.GetId()] = report{r.GetStatus(), r.GetId(), r.GetControllerInfo().GetId(), r.GetErrorInfo()}
			return nil
		})
		sym.Assert(err == context.Canceled, "the execution ends when it is canceled")
		returned = true
	}()
	sym.Quiesce()
	sym.Assert(p.Runs == 1 && n == len(keys), "all configurations are applied")
	var ids [4]uint32
	want := map[string]report{}
	add := func(i, st int) {
		k := keys[i]
		s := &state{id: k}
		switch st {
		case 0:
			s.ctrl = hu.NewCtrl("ctrl-" + k)
			want[k] = report{running, k, "ctrl-" + k, ""}
		case 1:
			s.err = hu.ErrTest
			want[k] = report{failed, k, "", "test error"}
		case 2:
			want[k] = report{configuring, k, "", ""}
		}
		var ok bool
		ids[i], ok = p.H.AddValue(s)
		sym.Assert(ok, "the state is accepted")
		sym.Quiesce()
	}
	check := func() {
		sym.Assert(len(got) == len(want), "the status of every configuration is reported")
		for k, w := range want {
			sym.Assert(got[k] == w, "the last reported status of every configuration is its current one")
		}
		sym.Assert(!returned, "the execution continues")
	}
	for i := range keys {
		add(i, []int{0, 1, 2, 0}[i])
		check()
	}
	x := sym.Choose("change 1", 4)
	y := (x + 1 + sym.Choose("change 2", 3)) % 4
	for _, i := range []int{x, y} {
		p.H.RemoveValue(ids[i])
		sym.Quiesce()
		w := report{status: configuring, id: keys[i]}
		want[keys[i]] = w
		check()
		c := cnt
		st := sym.Choose("state", 3)
		add(i, st)
		sym.Assert(cnt == c+1 || cnt == c && st == 2, "every change is reported once")
		check()
	}
	cancel()
	sym.Quiesce()
	sym.Assert(returned && sets(b) == 0 && p.Active == 0, "nothing is left after the execution")
	sym.Cover("end")
}
