package hcore

import (
	"context"

	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	cfgctrl "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	cproto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	cexec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	cres "github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/aperturerobotics/starpc/srpc"
)

// dbgConf is a configuration with debug values.
type dbgConf struct {
	hu.Conf
	vals config.DebugValues
}

func (c *dbgConf) GetDebugVals() config.DebugValues { return c.vals }

// dbgDir is a directive with debug values.
type dbgDir struct {
	hu.PlainDir
	vals directive.DebugValues
}

func (d *dbgDir) GetDebugVals() directive.DebugValues { return d.vals }

func genVals() (directive.DebugValues, map[string]string) {
	if sym.Bool("no values") {
		return nil, nil
	}
	out := directive.DebugValues{}
	want := map[string]string{}
	for _, k := range []string{"config-id", "x", "a"} {
		if sym.Bool("has " + k) {
			v := "v" + k
			out[k] = []string{v}
			want[k] = v
		}
	}
	return out, want
}

func sameVals(got []*directive.ProtoDebugValue, want map[string]string) {
	sym.Assert(len(got) == len(want), "there is one entry per debug value")
	for i, e := range got {
		w, ok := want[e.GetKey()]
		sym.Assert(ok && len(e.GetValues()) == 1, "every debug value is reported")
		sym.Assert(e.GetValues()[0] == w, "every debug value is reported")
		sym.Assert(i == 0 || got[i-1].GetKey() < e.GetKey(), "the debug values are in order")
	}
}

// A01Info asks for the controllers and directives of a bus.
//
//verif:prop A01
//verif:bounds 0 to 2 controllers and directives of 6 kinds with up to 3 debug values, one of each possibly removed again; every order of the maps
//verif:quick preempt=0 maporder=1 merge=0
//verif:thorough preempt=0 maporder=1 merge=0
func A01Info() {
	b := hu.NewBus()
	a := bus_api.NewAPI(b, nil)
	nc := sym.Choose("controllers", 3)
	var ctrls []*hu.Ctrl
	var relc []func()
	for i := 0; i < nc; i++ {
		c := hu.NewCtrl([]string{"c0", "c1"}[i])
		ctrls = append(ctrls, c)
		rel, _ := b.AddController(context.Background(), c, nil)
		relc = append(relc, rel)
	}
	name := ""
	var want map[string]string
	var dir directive.Directive
	kind := sym.Choose("directive", 7)
	switch kind {
	case 0:
		dir, name = &hu.PlainDir{ID: 1}, "plain"
	case 1:
		vals, w := genVals()
		dir, name, want = &dbgDir{vals: vals}, "plain", w
	case 2, 3:
		vals, w := genVals()
		var conf config.Config = &dbgConf{Conf: hu.Conf{ID: "id"}, vals: config.DebugValues(vals)}
		if kind == 2 {
			dir, name = cres.NewLoadControllerWithConfig(conf), "LoadControllerWithConfig"
		} else {
			dir, name = loader.NewExecController(hu.NewFac("id", 1), conf), "ExecController"
		}
		if w == nil {
			w = map[string]string{}
		}
		w["config-id"] = "id"
		want = w
	case 4:
		dir, name = configset.NewLookupConfigSet([]string{"k"}), "LookupConfigSet"
		want = map[string]string{"controller-keys": "k"}
	case 5:
		dir, name = configset.NewApplyConfigSet(configset.ConfigSet{"k": configset.NewControllerConfig(7, &hu.Conf{ID: "id"})}), "ApplyConfigSet"
		want = map[string]string{"controller-keys": "k@7"}
	}
	var ref directive.Reference
	var di directive.Instance
	if dir != nil {
		di, ref, _ = b.AddDirective(dir, nil)
		d2 := &hu.PlainDir{ID: 2}
		_, ref2, _ := b.AddDirective(d2, nil)
		if sym.Bool("release") {
			ref2.Release()
		} else {
			defer ref2.Release()
			kind += 10
		}
	}
	if nc == 2 && sym.Bool("remove") {
		relc[0]()
		ctrls = ctrls[1:]
	}
	sym.Quiesce()
	resp, err := a.GetBusInfo(context.Background(), &bus_api.GetBusInfoRequest{})
	sym.Assert(err == nil, "the information is returned")
	sym.Assert(len(resp.GetRunningControllers()) == len(ctrls), "exactly the controllers of the bus are reported")
	for i, c := range ctrls {
		sym.Assert(resp.GetRunningControllers()[i].EqualVT(c.GetControllerInfo()), "exactly the controllers of the bus are reported")
	}
	dirs := resp.GetRunningDirectives()
	if dir == nil {
		sym.Assert(len(dirs) == 0, "exactly the directives of the bus are reported")
	} else {
		sym.Assert(len(dirs) == sym.IteInt(kind >= 10, 2, 1), "exactly the directives of the bus are reported")
		found := 0
		for _, d := range dirs {
			if d.GetInfo().GetName() != name || (len(want) != 0 && len(d.GetInfo().GetDebugVals()) == 0) {
				continue
			}
			if name == "plain" && len(want) == 0 && len(d.GetInfo().GetDebugVals()) != 0 {
				continue
			}
			found++
			sameVals(d.GetInfo().GetDebugVals(), want)
		}
		sym.Assert(found >= 1, "the directive is reported with its name")
		id := di.GetDirectiveIdent()
		sym.Assert(id == di.GetDirectiveIdent() && len(id) >= len(name) && id[:len(name)] == name, "the identification is fixed and begins with the name")
		ref.Release()
		sym.Cover("directive")
	}
	var out string = string(resp.PrintPrettyStatus())
	sym.Assert(len(out) != 0, "the information is printed")
	sym.Cover("end")
}

// stream is a stream which receives one request and collects the responses.
type stream struct {
	ctx    context.Context
	mtx    sym.Mutex
	req    srpc.Message
	recvd  int
	msgs   []*cexec.ExecControllerResponse
	info   *bus_api.GetBusInfoResponse
	fail   bool
	failRx bool
}

func (s *stream) Context() context.Context { return s.ctx }

func (s *stream) MsgSend(msg srpc.Message) error {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	switch m := msg.(type) {
	case *cexec.ExecControllerResponse:
		s.msgs = append(s.msgs, m.CloneVT())
	case *bus_api.GetBusInfoResponse:
		s.info = m
	}
	if s.fail {
		return hu.ErrTest
	}
	return nil
}

func (s *stream) MsgRecv(msg srpc.Message) error {
	s.recvd++
	if s.failRx {
		return hu.ErrTest
	}
	d, err := s.req.MarshalVT()
	if err != nil {
		return err
	}
	return msg.UnmarshalVT(d)
}

func (s *stream) CloseSend() error { return nil }
func (s *stream) Close() error     { return nil }

// A01Service calls the service which is registered with the API.
//
//verif:prop A01
//verif:bounds calls of either method, an unknown one or another service, the execution of controllers being enabled, disabled or not configured, a set with a configuration which is known or not, failures to receive or send; ended by cancellation; all schedules with 1 (thorough 2) deviations
//verif:quick preempt=0 delay=1 budget=60s
//verif:thorough preempt=1 delay=1
func A01Service() {
	ctx, cancel := context.WithCancel(context.Background())
	f := hu.NewFac("f", 1)
	b, _, err := core.NewCoreBus(ctx, hu.Le(), core.WithControllerFactories(f))
	sym.Assert(err == nil, "the bus is built")
	_, _, err = b.AddDirective(cres.NewLoadControllerWithConfig(&cfgctrl.Config{}), nil)
	sym.Assert(err == nil, "the controller of the sets is loaded")
	sym.Quiesce()
	var conf *bus_api.Config
	mode := sym.Choose("api configuration", 3)
	if mode != 0 {
		conf = &bus_api.Config{EnableExecController: mode == 1}
	}
	mux := srpc.NewMux()
	sym.Assert(bus_api.NewAPI(b, conf).RegisterAsSRPCServer(mux) == nil, "the service is registered")
	sctx, scancel := context.WithCancel(context.Background())
	s := &stream{ctx: sctx, fail: sym.Bool("send fails"), failRx: sym.Bool("receive fails")}
	known := true
	method := sym.Choose("method", 4)
	service := bus_api.SRPCControllerBusServiceServiceID
	name := []string{"GetBusInfo", "ExecController", "Unknown", "ExecController"}[method]
	if method == 3 {
		service = "other"
	}
	s.req = &bus_api.GetBusInfoRequest{}
	if method == 1 {
		known = sym.Bool("known")
		id := "f"
		if !known {
			id = "unknown"
		}
		cs, err := cproto.NewConfigSet(configset.ConfigSet{"a": configset.NewControllerConfig(1, &hu.Conf{ID: id, N: 3})}, false)
		sym.Assert(err == nil, "the set is encoded")
		s.req = &cexec.ExecControllerRequest{ConfigSet: cs}
	}
	done, found := false, false
	var rerr error
	go func() {
		ok, e := mux.InvokeMethod(service, name, s)
		s.mtx.Lock()
		found, rerr, done = ok, e, true
		s.mtx.Unlock()
	}()
	sym.Quiesce()
	switch {
	case method >= 2:
		sym.Assert(done && !found && s.recvd == 0, "another method is not found")
		sym.Cover("unknown")
	case s.failRx:
		sym.Assert(done && found && rerr == hu.ErrTest && s.info == nil && len(s.msgs) == 0, "an error of the stream ends the call")
	case method == 0:
		sym.Assert(done && found && s.info != nil && (rerr == hu.ErrTest) == s.fail, "the information is sent")
		sym.Assert(len(s.info.GetRunningControllers()) == len(b.GetControllers()) && len(s.info.GetRunningDirectives()) == len(b.GetDirectives()), "the information is about the bus")
		sym.Cover("info")
	case mode != 1:
		sym.Assert(done && rerr == bus_api.ErrExecControllerDisabled && f.Runs == 0 && len(s.msgs) == 0, "nothing is executed unless it is enabled")
		sym.Cover("disabled")
	case !known:
		sym.Assert(f.Runs == 0, "an unknown configuration is not executed")
		sym.Cover("unknown configuration")
	case s.fail:
		sym.Assert(done && rerr == hu.ErrTest && len(s.msgs) == 1, "an error of the stream ends the execution")
		for _, c := range f.Ctrls {
			sym.Assert(c.Active == 0 && hu.CountCtrl(b, c) == 0, "nothing runs after the execution")
		}
		sym.Cover("send failed")
	default:
		sym.Assert(!done && len(f.Ctrls) == 1 && f.Ctrls[0].Active == 1, "the configuration is executed")
		sym.Assert(f.Confs[0].(*hu.Conf).N == 3, "the configuration is executed")
		last := s.msgs[len(s.msgs)-1]
		sym.Assert(last.GetId() == "a" && last.GetStatus() == cexec.ControllerStatus_ControllerStatus_RUNNING, "the status is sent")
		sym.Assert(last.GetControllerInfo().GetId() == "f", "the controller is sent")
		sym.Cover("executed")
	}
	scancel()
	sym.Quiesce()
	sym.Assert(done, "the call ends when the stream is canceled")
	for _, c := range f.Ctrls {
		sym.Assert(c.Active == 0 && c.Closed == 1 && hu.CountCtrl(b, c) == 0, "nothing runs after the execution")
	}
	cancel()
	sym.Quiesce()
	sym.Cover("end")
}
