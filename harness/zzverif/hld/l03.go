package hld

import (
	"context"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/blang/semver/v4"
)

func version(pre bool) semver.Version {
	v := semver.Version{Major: uint64(sym.Uint32("major")), Minor: uint64(sym.Uint32("minor")), Patch: uint64(sym.Uint32("patch"))}
	if pre {
		switch sym.Choose("pre-release", 3) {
		case 1:
			v.Pre = []semver.PRVersion{{VersionStr: "alpha"}}
		case 2:
			v.Pre = []semver.PRVersion{{VersionNum: uint64(sym.Uint32("pre")), IsNum: true}}
		}
	}
	return v
}

// newer says whether a is newer than b by the rules of semantic versions.
func newer(a, b semver.Version) bool {
	if a.Major != b.Major {
		return a.Major > b.Major
	}
	if a.Minor != b.Minor {
		return a.Minor > b.Minor
	}
	if a.Patch != b.Patch {
		return a.Patch > b.Patch
	}
	if len(a.Pre) == 0 || len(b.Pre) == 0 {
		return len(a.Pre) == 0 && len(b.Pre) != 0
	}
	x, y := a.Pre[0], b.Pre[0]
	if x.IsNum && y.IsNum {
		return x.VersionNum > y.VersionNum
	}
	// numbers are lower than other identifiers, of which there is one
	return !x.IsNum && y.IsNum
}

// L03Static adds factories to the static resolver.
//
//verif:prop L03
//verif:bounds 3 factories of 2 ids with arbitrary versions of three 32 bit numbers and an optional pre-release identifier, the last one added before or after the resolver was built
//verif:quick preempt=0 delay=1 merge=0
//verif:thorough preempt=0 delay=1 merge=0
func L03Static() {
	ids := []string{"c", "d"}
	best := map[string]*hu.Fac{}
	var facs []controller.Factory
	for i := 0; i < 3; i++ {
		f := hu.NewFac(ids[sym.Choose("id", 2)], 0)
		f.Ver = version(i < 2)
		if o := best[f.ID]; o == nil || newer(f.Ver, o.Ver) {
			best[f.ID] = f
		}
		facs = append(facs, f)
	}
	ctx := context.Background()
	var r *static.Resolver
	if sym.Bool("later") {
		r = static.NewResolver(facs[:2]...)
		r.AddFactory(facs[2])
	} else {
		r = static.NewResolver(facs...)
	}
	for _, id := range append(ids, "e", "") {
		f, err := r.GetFactoryMatchingConfig(ctx, &hu.Conf{ID: id})
		c, err2 := r.GetConfigCtorByID(ctx, id)
		sym.Assert(err == nil && err2 == nil, "a lookup succeeds")
		if best[id] == nil {
			sym.Assert(f == nil && c == nil, "nothing is found for an unknown id")
			continue
		}
		sym.Assert(f == controller.Factory(best[id]), "the newest factory of the id is found")
		sym.Assert(c.GetConfigID() == id && c.ConstructConfig().GetConfigID() == id, "the constructor of the id is found")
	}
	list := r.GetFactories()
	sym.Assert(len(list) == len(best), "every id is listed once")
	for i, f := range list {
		sym.Assert(f == controller.Factory(best[f.GetConfigID()]), "the newest factory of the id is listed")
		sym.Assert(i == 0 || list[i-1].GetConfigID() < f.GetConfigID(), "the factories are sorted")
	}
	sym.Cover("end")
}

// L03Lookup looks up factories and constructors with directives.
//
//verif:prop L03
//verif:bounds 2 resolvers with or without a factory of the id, one added before or after the directives, removed afterwards; directives for a known, an unknown and an empty id
//verif:quick preempt=1 delay=1
//verif:thorough preempt=3 delay=1
func L03Lookup() {
	b := hu.NewBus()
	facs := []*hu.Fac{hu.NewFac("c", 1), hu.NewFac("c", 2)}
	rels := make([]func(), 2)
	add := func(i int) {
		r := static.NewResolver()
		if facs[i] != nil {
			r.AddFactory(facs[i])
		}
		rels[i], _ = b.AddController(context.Background(), resolver.NewController(hu.Le(), b, r), nil)
	}
	if sym.Bool("empty") {
		facs[0] = nil
	}
	late := sym.Bool("late")
	add(0)
	if !late {
		add(1)
	}
	err := resolver.NewLoadConfigConstructorByID("").Validate()
	err2 := resolver.NewLoadFactoryByConfig(nil).Validate()
	sym.Assert(err != nil && err2 != nil, "an empty id or configuration is invalid")
	refs := []*hu.Ref{hu.NewRef("factory"), hu.NewRef("ctor"), hu.NewRef("unknown factory"), hu.NewRef("unknown ctor")}
	d1, r1, _ := b.AddDirective(resolver.NewLoadFactoryByConfig(&hu.Conf{ID: "c", N: 1}), refs[0])
	d2, r2, _ := b.AddDirective(resolver.NewLoadConfigConstructorByID("c"), refs[1])
	_, r3, _ := b.AddDirective(resolver.NewLoadFactoryByConfig(&hu.Conf{ID: "x", N: 1}), refs[2])
	_, r4, _ := b.AddDirective(resolver.NewLoadConfigConstructorByID("x"), refs[3])
	e1, r5, _ := b.AddDirective(resolver.NewLoadFactoryByConfig(&hu.Conf{ID: "c", N: 1}), nil)
	e2, r6, _ := b.AddDirective(resolver.NewLoadConfigConstructorByID("c"), nil)
	sym.Assert(e1 == d1 && e2 == d2, "equivalent lookups are shared")
	if late {
		sym.Quiesce()
		add(1)
	}
	sym.Quiesce()
	check := func(has bool) {
		for i, r := range refs {
			r.Check()
			if i >= 2 || !has {
				sym.Assert(len(r.Live) == 0, "nothing is found without a factory")
				continue
			}
			sym.Assert(len(r.Live) == 1, "one factory and constructor is found")
			for _, v := range r.Live {
				if i == 0 {
					f, ok := v.(resolver.LoadFactoryByConfigValue)
					sym.Assert(ok && f.GetConfigID() == "c" && (f == controller.Factory(facs[0]) || f == controller.Factory(facs[1])), "the factory of the id is found")
				} else {
					c, ok := v.(resolver.LoadConfigConstructorByIDValue)
					sym.Assert(ok && c.GetConfigID() == "c" && c.ConstructConfig().GetConfigID() == "c", "the constructor of the id is found")
				}
			}
		}
	}
	check(true)
	// the other one replaces the removed one
	rels[1]()
	sym.Quiesce()
	check(facs[0] != nil)
	rels[0]()
	sym.Quiesce()
	check(false)
	for _, r := range []interface{ Release() }{r1, r2, r3, r4, r5, r6} {
		r.Release()
	}
	sym.Quiesce()
	sym.Assert(len(b.GetDirectives()) == 0, "no directive is left")
	sym.Cover("end")
}

// failResolver is a factory resolver which fails.
type failResolver struct {
	*static.Resolver
	fail bool
}

func (r *failResolver) GetFactoryMatchingConfig(ctx context.Context, c config.Config) (controller.Factory, error) {
	if r.fail {
		return nil, hu.ErrTest
	}
	return r.Resolver.GetFactoryMatchingConfig(ctx, c)
}

func (r *failResolver) GetConfigCtorByID(ctx context.Context, id string) (config.Constructor, error) {
	if r.fail {
		return nil, hu.ErrTest
	}
	return r.Resolver.GetConfigCtorByID(ctx, id)
}

// L03Fail looks up factories and constructors with a resolver which fails, and loads a controller with them.
//
//verif:prop L03 L02
//verif:bounds a resolver which fails or not, with or without another one which has the factory, a bus which refuses to execute controllers or not; all schedules up to the preemption bound
//verif:quick preempt=1 delay=1
//verif:thorough preempt=2 delay=1
func L03Fail() {
	b := hu.NewBus()
	l, _ := loader.NewController(hu.Le(), b)
	_, _ = b.AddController(context.Background(), l, nil)
	f := hu.NewFac("c", 1)
	fb := &hu.FailBus{Bus: b, If: func(d directive.Directive) bool {
		_, ok := d.(loader.ExecController)
		return ok
	}}
	refuse := sym.Bool("refuse")
	if refuse {
		fb.Err = hu.ErrTest
	}
	r1 := &failResolver{Resolver: static.NewResolver(), fail: sym.Bool("fail")}
	_, _ = b.AddController(context.Background(), resolver.NewController(hu.Le(), fb, r1), nil)
	other := sym.Bool("other")
	if other {
		r2 := static.NewResolver(f)
		// it only looks up factories
		c2 := resolver.NewController(hu.Le(), fb, r2)
		_, _ = b.AddHandler(hu.NewHandler(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
			if _, ok := di.GetDirective().(resolver.LoadControllerWithConfig); ok {
				return nil, nil
			}
			return c2.HandleDirective(ctx, di)
		}))
	}
	conf := &hu.Conf{ID: "c", N: 1}
	refs := []*hu.Ref{hu.NewRef("factory"), hu.NewRef("ctor"), hu.NewRef("load")}
	d1, q1, _ := b.AddDirective(resolver.NewLoadFactoryByConfig(conf), refs[0])
	d2, q2, _ := b.AddDirective(resolver.NewLoadConfigConstructorByID("c"), refs[1])
	d3, q3, _ := b.AddDirective(resolver.NewLoadControllerWithConfig(conf), refs[2])
	sym.Quiesce()
	n := sym.IteInt(other, 1, 0)
	e := sym.IteInt(r1.fail, 1, 0)
	sym.Assert(len(refs[0].Live) == n && len(refs[1].Live) == n, "a failing resolver does not hide the other one")
	// the failing one may not be asked any more once the other one was found
	n1, n2 := len(d1.GetResolverErrors()), len(d2.GetResolverErrors())
	sym.Assert(n1 <= e && n2 <= e && (other || n1 == e && n2 == e), "the error of the resolver is reported")
	switch {
	case r1.fail:
		sym.Assert(len(refs[2].Live) == 0 && len(d3.GetResolverErrors()) == 1, "the error of the resolver is reported")
		sym.Cover("failed")
	case !other:
		sym.Assert(len(refs[2].Live) == 0, "nothing is loaded without a factory")
	case refuse:
		v := one(refs[2])
		sym.Assert(v.GetError() == hu.ErrTest && v.GetController() == nil, "the error of the bus is reported")
		sym.Cover("refused")
	default:
		sym.Assert(one(refs[2]).GetController() == controller.Controller(f.Ctrls[0]) && f.Ctrls[0].Active == 1, "the controller is loaded")
		sym.Cover("loaded")
	}
	q1.Release()
	if refuse {
		sym.Quiesce()
		isLook := false
		for _, d := range b.GetDirectives() {
			if _, ok := d.GetDirective().(resolver.LoadFactoryByConfig); ok {
				isLook = true
			}
		}
		sym.Assert(!isLook || !other || r1.fail, "the lookup of the factory is released when it is not needed")
	}
	q2.Release()
	q3.Release()
	sym.Quiesce()
	for _, d := range b.GetDirectives() {
		// the lookup of a constructor is kept for a moment
		_, ok := d.GetDirective().(resolver.LoadConfigConstructorByID)
		sym.Assert(ok && other, "no directive is left")
	}
	for _, c := range f.Ctrls {
		sym.Assert(c.Active == 0 && c.Closed == 1, "the controller is stopped and closed once")
	}
	sym.Cover("end")
}
