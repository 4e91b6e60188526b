package hld

import (
	"context"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// L02Many loads many configurations.
//
//verif:prop L02
//verif:bounds 4 configurations of 2 factories loaded one after another, of which any 2 are released in any order, one of them loaded again
//verif:quick preempt=0 delay=0
//verif:thorough preempt=0 delay=0
func L02Many() {
	e := &env{ld: newLd(), fac: hu.NewFac("c", 1)}
	f2 := hu.NewFac("d", 1)
	_, _ = e.b.AddController(context.Background(), resolver.NewController(hu.Le(), e.b, static.NewResolver(e.fac, f2)), nil)
	confs := []config.Config{&hu.Conf{ID: "c", N: 1}, &hu.Conf{ID: "d", N: 1}, &hu.Conf{ID: "c", N: 2}, &hu.Conf{ID: "d", N: 2}}
	var refs [4]directive.Reference
	var rs [4]*hu.Ref
	load := func(i int) {
		rs[i] = hu.NewRef("r")
		_, refs[i], _ = e.b.AddDirective(resolver.NewLoadControllerWithConfig(confs[i]), rs[i])
	}
	check := func() {
		sym.Quiesce()
		var n [2]int
		for i := range refs {
			if refs[i] == nil {
				continue
			}
			n[i%2]++
			rs[i].Check()
			sym.Assert(len(rs[i].Live) == 1, "the controller of the configuration is reported")
			for _, v := range rs[i].Live {
				lv := v.(interface{ GetController() controller.Controller })
				c := lv.GetController().(*hu.Ctrl)
				sym.Assert(c.Active == 1 && hu.CountCtrl(e.b, c) == 1, "the controller of the configuration runs")
			}
		}
		m := 0
		for _, c := range f2.Ctrls {
			m += c.Active
		}
		sym.Assert(e.running() == n[0] && m == n[1], "a controller runs exactly while it is loaded")
	}
	for i := range confs {
		load(i)
		check()
	}
	a := sym.Choose("release 1", 4)
	refs[a].Release()
	refs[a] = nil
	if sym.Bool("wait") {
		check()
	}
	b := (a + 1 + sym.Choose("release 2", 3)) % 4
	refs[b].Release()
	refs[b] = nil
	check()
	load(a)
	check()
	sym.Cover("end")
}

// L03Many adds many factories of one id.
//
//verif:prop L03
//verif:bounds 5 factories of one id with different versions in any rotation, forwards or backwards, next to one of another id; given or added later
//verif:quick preempt=0 merge=0
//verif:thorough preempt=0 merge=0
func L03Many() {
	start, back := sym.Choose("start", 5), sym.Bool("backwards")
	var newest *hu.Fac
	var facs []controller.Factory
	other := hu.NewFac("d", 9)
	for k := 0; k < 5; k++ {
		v := (start + k) % 5
		if back {
			v = (start + 5 - k) % 5
		}
		f := hu.NewFac("c", 1)
		f.Ver.Minor = uint64(v)
		if v == 4 {
			newest = f
		}
		facs = append(facs, f)
		if k == 2 {
			facs = append(facs, other)
		}
	}
	later := sym.Choose("later", 7)
	r := static.NewResolver(facs[:later]...)
	for _, f := range facs[later:] {
		r.AddFactory(f)
	}
	f, err := r.GetFactoryMatchingConfig(context.Background(), &hu.Conf{ID: "c"})
	sym.Assert(err == nil && f == controller.Factory(newest), "the newest factory of the id is found")
	f, err = r.GetFactoryMatchingConfig(context.Background(), &hu.Conf{ID: "d"})
	sym.Assert(err == nil && f == controller.Factory(other), "the newest factory of the id is found")
	sym.Assert(len(r.GetFactories()) == 2, "every id is listed once")
	sym.Cover("end")
}
