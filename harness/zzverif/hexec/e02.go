package hexec

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	cproto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	cexec "github.com/aperturerobotics/controllerbus/controller/exec"
	cres "github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// state is the state of a configuration.
type state struct {
	id   string
	ctrl controller.Controller
	err  error
}

// GetId returns the key.
func (s *state) GetId() string { return s.id }

// GetControllerConfig returns nothing.
func (s *state) GetControllerConfig() configset.ControllerConfig { return nil }

// GetController returns the controller.
func (s *state) GetController() controller.Controller { return s.ctrl }

// GetError returns the error.
func (s *state) GetError() error { return s.err }

// sets counts the applied sets.
func sets(b bus.Bus) int {
	n := 0
	for _, d := range b.GetDirectives() {
		if _, ok := d.GetDirective().(configset.ApplyConfigSet); ok {
			n++
		}
	}
	return n
}

type report struct {
	status cexec.ControllerStatus
	id     string
	info   string
	err    string
}

// e02 executes a request with a set of two configurations which change n times.
func e02(n int, partial bool) {
	b := hu.NewBus()
	p := &hu.Puppet{}
	var set configset.ConfigSet
	_, _ = b.AddHandler(hu.NewHandler(func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		d, ok := di.GetDirective().(configset.ApplyConfigSet)
		if !ok {
			return nil, nil
		}
		set = d.GetApplyConfigSet()
		return directive.Resolvers(p), nil
	}))
	_, _ = b.AddController(context.Background(), cres.NewController(hu.Le(), b, static.NewResolver(hu.NewFac("c", 1))), nil)
	ctx, cancel := context.WithCancel(context.Background())
	var mtx sym.Mutex
	var got []report
	var rerr error
	returned := false
	// a configuration of one byte is valid
	req := &cexec.ExecControllerRequest{ConfigSet: &cproto.ConfigSet{Configs: map[string]*cproto.ControllerConfig{
		"a": {Id: "c", Config: []byte{1}, Rev: 3},
		"b": {Id: "c", Config: []byte{2}},
	}}}
	bad := map[string]bool{}
	keys := []string{"a", "b"}
	if partial && sym.Bool("one") {
		keys = keys[:1]
		delete(req.ConfigSet.Configs, "b")
	}
	for _, k := range keys {
		if partial && sym.Bool("invalid") {
			bad[k] = true
			req.ConfigSet.Configs[k].Config = []byte{1, 2}
		}
	}
	allow := partial && sym.Bool("partial")
	failAt := -1
	if !partial && sym.Bool("callback fails") {
		failAt = sym.Choose("at", n)
	}
	go func() {
		err := req.Execute(ctx, b, allow, func(r *cexec.ExecControllerResponse) error {
			mtx.Lock()
			defer mtx.Unlock()
			got = append(got, report{r.GetStatus(), r.GetId(), r.GetControllerInfo().GetId(), r.GetErrorInfo()})
			if len(got)-1 == failAt {
				return hu.ErrTest
			}
			return nil
		})
		mtx.Lock()
		rerr, returned = err, true
		mtx.Unlock()
	}()
	sym.Quiesce()
	last := map[string]report{}
	for _, r := range got {
		sym.Assert(bad[r.id] && r.status == failed && r.err != "" && r.info == "", "an invalid configuration is reported")
		last[r.id] = r
	}
	if len(bad) != 0 && (!allow || len(bad) == len(keys)) {
		sym.Assert(returned && rerr != nil && p.Runs == 0, "nothing is applied if a configuration is invalid, or all if some may be")
		sym.Assert(!allow || len(got) == len(keys), "all invalid configurations are reported")
		sym.Assert(allow || len(got) == 0, "nothing is reported if nothing is applied")
		sym.Assert(!allow || len(keys) == 1 || rerr == cexec.ErrAllControllersFailed, "the failure of all configurations is returned")
		sym.Assert(sets(b) == 0, "nothing is left after the execution")
		sym.Cover("invalid")
		return
	}
	sym.Assert(len(got) == len(bad), "an invalid configuration is reported once")
	sym.Assert(!returned && p.Runs == 1, "the set is applied")
	sym.Assert(len(set) == len(keys)-len(bad), "the valid configurations are applied")
	for k, c := range set {
		sym.Assert(!bad[k] && (k == "a" && c.GetRev() == 3 && c.GetConfig().(*hu.Conf).N == 1 || k == "b" && c.GetRev() == 0 && c.GetConfig().(*hu.Conf).N == 2), "the configurations are applied with their revisions")
	}
	if len(bad) != 0 {
		sym.Cover("partial")
	}
	ids := map[string]uint32{}
	ctrl := hu.NewCtrl("ctrl")
	for i := 0; i < n; i++ {
		k := keys[sym.Choose("key", len(keys))]
		if bad[k] {
			continue
		}
		exp := report{status: configuring, id: k}
		if ids[k] != 0 {
			_, _ = p.H.RemoveValue(ids[k])
			delete(ids, k)
		} else if last[k].id == "" {
			exp = report{}
		}
		ok := true
		switch sym.Choose("state", 4) {
		case 0:
		case 1:
			ids[k], ok = p.H.AddValue(&state{id: k, ctrl: ctrl})
			exp = report{running, k, "ctrl", ""}
		case 2:
			ids[k], ok = p.H.AddValue(&state{id: k})
			exp = report{configuring, k, "", ""}
		case 3:
			ids[k], ok = p.H.AddValue(&state{id: k, err: hu.ErrTest})
			exp = report{failed, k, "", "test error"}
		}
		if !ok && failAt >= 0 {
			// the callback failed
			break
		}
		sym.Assert(ok, "the state is accepted")
		last[k] = exp
		if sym.Bool("wait") {
			sym.Quiesce()
		}
	}
	sym.Quiesce()
	if failAt >= 0 && len(got) > failAt {
		sym.Assert(returned && rerr == hu.ErrTest && len(got) == failAt+1, "an error of the callback ends the execution and is returned")
		sym.Cover("callback failed")
	} else {
		sym.Assert(!returned, "the execution continues")
		for _, k := range []string{"a", "b"} {
			cur := report{}
			for _, r := range got {
				if r.id == k {
					sym.Assert(r.status != configuring || cur.status != configuring, "waiting for the controller is reported once")
					cur = r
				}
			}
			sym.Assert(cur == last[k], "the last reported status of every configuration is its current one")
		}
		if sym.Bool("close") {
			for _, d := range b.GetDirectives() {
				if _, ok := d.GetDirective().(configset.ApplyConfigSet); ok {
					d.Close()
				}
			}
		} else {
			cancel()
		}
		sym.Quiesce()
		// closing the directive is another change
		sym.Assert(returned && (rerr == context.Canceled || len(got)-1 == failAt && rerr == hu.ErrTest), "the execution ends when it is canceled or the directive is closed")
	}
	cancel()
	sym.Quiesce()
	sym.Assert(sets(b) == 0 && p.Active == 0, "nothing is left after the execution")
	sym.Cover("end")
}

// E01Set executes a set of configurations.
//
//verif:prop E01
//verif:bounds 2 configurations, 2 changes of state each of one configuration (none, running, not running, failed) with or without waiting in between, ended by cancellation, closing the directive or an error of the callback; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func E01Set() { e02(2, false) }

// E01Invalid executes a set with invalid configurations.
//
//verif:prop E01
//verif:bounds 2 configurations of which up to 2 are invalid, with and without allowing partial success, 1 change of state; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func E01Invalid() { e02(1, true) }

// E01Response looks at the responses.
//
//verif:prop E01
//verif:bounds every status, with and without a text of 1 byte
//verif:quick
//verif:thorough
func E01Response() {
	st := cexec.ControllerStatus(sym.Choose("status", 4))
	info := sym.StringN("info", sym.Choose("length", 2))
	r := &cexec.ExecControllerResponse{Id: "a", Status: st, ErrorInfo: info}
	err := r.GetError()
	switch {
	case st != failed:
		sym.Assert(err == nil, "a response is an error only if the controller failed")
		sym.Cover("no error")
	case info == "":
		sym.Assert(err == cexec.ErrAllControllersFailed, "a failure without a text is an error")
	default:
		sym.Assert(err != nil && err.Error() == info, "a failure is an error with its text")
		sym.Cover("error")
	}
	sym.Cover("end")
}
