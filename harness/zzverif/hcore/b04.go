// Package hcore has the harnesses of the building blocks of controllers, the core bus and its API.
package hcore

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/callback"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/blang/semver/v4"
	"github.com/sirupsen/logrus"
)

// otherConf is another type of configuration.
type otherConf struct{ hu.Conf }

// ext is a controller which extends BusController.
type ext struct {
	*bus.BusController[*hu.Conf]
	runs int
}

func (e *ext) Execute(ctx context.Context) error {
	e.runs++
	return nil
}

// B04Factory constructs controllers with the factories of the bus package.
//
//verif:prop B04
//verif:bounds a factory of either kind with an arbitrary major version, the configuration of the type, of another type with the same or another id, nil of the type, the constructor failing or not, constructed twice with different loggers
//verif:quick preempt=0 merge=0
//verif:thorough preempt=1 merge=0
func B04Factory() {
	b := hu.NewBus()
	v := semver.Version{Major: sym.Uint64("major"), Minor: 2, Patch: 3}
	based := sym.Bool("bus controller")
	if based {
		v.Major = 1
	}
	fail := sym.Bool("fail")
	calls := 0
	var le *logrus.Entry
	var gb bus.Bus
	var gc *hu.Conf
	var base *bus.BusController[*hu.Conf]
	var made *ext
	newConf := func() *hu.Conf { return &hu.Conf{ID: "c", N: 5} }
	var f *bus.BusFactory[*hu.Conf, *ext]
	if based {
		f = bus.NewBusControllerFactory(b, "c", "ctrl", v, "descr", newConf, func(bc *bus.BusController[*hu.Conf]) (*ext, error) {
			calls++
			base, le, gb, gc = bc, bc.GetLogger(), bc.GetBus(), bc.GetConfig()
			made = &ext{BusController: bc}
			if fail {
				return nil, hu.ErrTest
			}
			return made, nil
		})
	} else {
		f = bus.NewBusFactory(b, "c", v, newConf, func(l *logrus.Entry, x bus.Bus, conf *hu.Conf) (*ext, error) {
			calls++
			le, gb, gc = l, x, conf
			made = &ext{}
			if fail {
				return nil, hu.ErrTest
			}
			return made, nil
		})
	}
	sym.Assert(f.GetConfigID() == "c", "the factory has its configuration id")
	fv := f.GetVersion()
	sym.Assert(sym.And(fv.Major == v.Major, sym.And(fv.Minor == 2, fv.Patch == 3)), "the factory has its version")
	c1, c2 := f.ConstructConfig(), f.ConstructConfig()
	sym.Assert(c1 != c2 && c1.(*hu.Conf).N == 5 && c1.GetConfigID() == "c", "every configuration is a new one")
	for i := 0; i < 2; i++ {
		l := hu.Le()
		var conf config.Config
		kind := sym.Choose("configuration", 4)
		switch kind {
		case 0:
			conf = &hu.Conf{ID: "c", N: i}
		case 1:
			conf = &otherConf{hu.Conf{ID: "c"}}
		case 2:
			conf = &otherConf{hu.Conf{ID: "d"}}
		case 3:
			conf = (*hu.Conf)(nil)
		}
		before := calls
		made = nil
		ctrl, err := f.Construct(context.Background(), conf, controller.ConstructOpts{Logger: l})
		if kind == 1 || kind == 2 {
			sym.Assert(err != nil && ctrl == nil && calls == before, "a configuration of another type is refused")
			sym.Cover("refused")
			continue
		}
		sym.Assert(calls == before+1, "one controller is constructed")
		if fail {
			sym.Assert(err == hu.ErrTest, "the error of the constructor is returned")
			sym.Cover("failed")
		} else {
			sym.Assert(err == nil && ctrl == controller.Controller(made), "the constructed controller is returned")
			sym.Cover("constructed")
		}
		sym.Assert(le == l && gb == b && config.Config(gc) == conf, "the controller has the logger, the bus and the configuration")
		if based && !fail {
			info := ctrl.GetControllerInfo()
			sym.Assert(info.GetId() == "ctrl" && info.GetDescription() == "descr" && info.GetVersion() == "1.2.3", "the controller has the id, the version and the description")
			res, err := ctrl.HandleDirective(context.Background(), nil)
			sym.Assert(len(res) == 0 && err == nil && ctrl.Close() == nil && base.Execute(context.Background()) == nil, "the base controller does nothing")
			_ = ctrl.Execute(context.Background())
			sym.Assert(made.runs == 1, "the extended function is used")
		}
	}
}

type pdir = hu.PlainDir

// B04Callback uses a controller which is built from functions.
//
//verif:prop B04
//verif:bounds a controller with each of the three functions missing, failing or succeeding, added to a bus with a directive and removed
//verif:quick preempt=1
//verif:thorough preempt=2
func B04Callback() {
	info := controller.NewInfo("cb", semver.Version{Major: 1}, "descr")
	var runs, closed, asked int
	var cctx context.Context
	var ex callback.ExecuteFunc
	var hd directive.HandlerFunc
	var cl callback.CloseFunc
	exKind, hdKind, clKind := sym.Choose("execute", 3), sym.Choose("handle", 3), sym.Choose("close", 3)
	if exKind != 0 {
		ex = func(ctx context.Context) error {
			runs++
			cctx = ctx
			if exKind == 1 {
				return hu.ErrTest
			}
			<-ctx.Done()
			return nil
		}
	}
	p := &hu.Puppet{}
	if hdKind != 0 {
		hd = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			asked++
			if hdKind == 1 {
				return nil, hu.ErrTest
			}
			return directive.Resolvers(p), nil
		}
	}
	if clKind != 0 {
		cl = func() error {
			closed++
			if clKind == 1 {
				return hu.ErrTest
			}
			return nil
		}
	}
	c := callback.NewCallbackController(info, ex, hd, cl)
	sym.Assert(c.GetControllerID() == "cb", "the controller has its id")
	got := c.GetControllerInfo()
	sym.Assert(got != info && got.EqualVT(info), "the controller has its info, which is a copy")
	got.Id = "x"
	sym.Assert(c.GetControllerInfo().GetId() == "cb", "the info is not changed")
	b := hu.NewBus()
	var cbs int
	var cbErr error
	rel, err := b.AddController(context.Background(), c, func(err error) { cbs++; cbErr = err })
	sym.Assert(err == nil, "the controller is added")
	r := hu.NewRef("r")
	_, ref, _ := b.AddDirective(&pdir{ID: 1}, r)
	sym.Quiesce()
	sym.Assert(runs == sym.IteInt(exKind != 0, 1, 0), "the controller is executed once")
	if exKind == 1 {
		// it may have failed before it is asked
		sym.Assert(asked <= sym.IteInt(hdKind != 0, 1, 0), "the controller is asked once")
	} else {
		sym.Assert(asked == sym.IteInt(hdKind != 0, 1, 0), "the controller is asked once")
		sym.Assert(p.Runs == sym.IteInt(hdKind == 2, 1, 0), "its resolver runs")
	}
	if exKind == 1 {
		sym.Assert(cbs == 1 && cbErr == hu.ErrTest && hu.CountCtrl(b, c) == 0, "the error is reported and the controller removed")
		sym.Cover("failed")
	} else {
		sym.Assert(hu.CountCtrl(b, c) == 1 && closed == 0, "the controller stays on the bus")
		sym.Assert(exKind == 0 || !hu.Done(cctx), "the controller runs")
		sym.Cover("runs")
	}
	rel()
	sym.Quiesce()
	sym.Assert(exKind == 0 || hu.Done(cctx), "the controller is stopped")
	sym.Assert(hu.CountCtrl(b, c) == 0 && p.Active == 0, "nothing is left of the controller")
	err = c.Close()
	sym.Assert(closed == sym.IteInt(clKind != 0, 1, 0) && (err == hu.ErrTest) == (clKind == 1), "the controller is closed once")
	ref.Release()
	sym.Cover("end")
}
