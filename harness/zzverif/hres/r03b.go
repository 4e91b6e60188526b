package hres

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/aperturerobotics/util/ccontainer"
)

// R03Again runs a resolver whose handler has values already.
//
//verif:prop R03 R01
//verif:bounds up to 4 values of an earlier run and up to 2 values of another resolver; static list of up to 2 values, getter, access, keyed getter, watch and watch with transformation (of an arbitrary value)
//verif:quick preempt=0 delay=0 merge=0
//verif:thorough preempt=1
func R03Again() {
	form := sym.Choose("form", 6)
	pre := sym.Choose("pre", 5)
	n := 1
	var res directive.Resolver
	var exp []any
	switch form {
	case 0:
		n = sym.Choose("n", 3)
		exp = []any{"a", "b"}[:n]
		res = directive.NewValueResolver(exp)
	case 1:
		exp = []any{5}
		res = directive.NewGetterResolver(func(context.Context) (int, error) { return 5, nil })
	case 2:
		exp = []any{1}
		res = directive.NewAccessResolver((&src{}).get)
	case 3:
		exp = []any{1}
		s := &src{}
		res = directive.NewKeyedGetterResolver(func(ctx context.Context, key string, release func()) (int, func(), error) {
			return s.get(ctx, release)
		}, "key")
	case 4, 5:
		v := sym.Uint32("v")
		sym.Assume(v != 7)
		ctr := ccontainer.NewCContainer(v)
		x, ok := r03exp(form == 5, v)
		if ok {
			exp = []any{x}
		}
		if form == 4 {
			res = directive.NewWatchableResolver[uint32](ctr)
		} else {
			res = directive.NewWatchableTransformResolver[uint32, any](ctr, watchX)
		}
	}
	p := &hu.Puppet{}
	started := false
	gate := make(chan struct{})
	twice := sym.Bool("twice")
	c := hu.NewDC()
	_, _ = c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(p, directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
			for i := 0; i < pre; i++ {
				if form == 0 && pre == n {
					// the values of the list were emitted by the earlier run
					h.AddValue(exp[i])
				} else {
					h.AddValue(i + 50)
				}
			}
			started = true
			<-gate
			if twice {
				if err := res.Resolve(ctx, h); err != nil {
					return err
				}
			}
			return res.Resolve(ctx, h)
		})), nil
	}))
	r := hu.NewRef("r")
	_, _, _ = c.AddDirective(&hu.Dir{Key: 1}, r)
	other := sym.Choose("other", 3)
	sym.Quiesce()
	for i := 0; i < other; i++ {
		p.H.AddValue(100 + i)
	}
	close(gate)
	sym.Quiesce()
	sym.Assert(started, "the resolver is started")
	r.Check()
	sym.Assert(len(r.Live) == len(exp)+other, "exactly the current values are emitted")
	for _, v := range r.Live {
		ok := false
		for _, e := range exp {
			if v == e {
				ok = true
			}
		}
		if i, isInt := v.(int); isInt && i >= 100 {
			ok = true
		}
		sym.Assert(ok, "exactly the current values are emitted")
	}
	sym.Cover("end")
}
