// Package hres has the harnesses of the resolvers.
package hres

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	dc "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/aperturerobotics/util/keyed"
	"github.com/aperturerobotics/util/refcount"
)

// src is a source of values which have to be released.
type src struct {
	mtx      sym.Mutex
	gets     int
	out      int
	maxOut   int
	last     int
	released []func()
	ended    bool
	// before is called before the nth get returns.
	before func(n int)
	// mode of the nth get: 0 ok, 1 error, 2 empty, 3 released before it is returned
	mode func(n int) int
}

func (s *src) get(ctx context.Context, released func()) (int, func(), error) {
	s.mtx.Lock()
	s.gets++
	n := s.gets
	s.released = append(s.released, released)
	m := 0
	if s.mode != nil {
		m = s.mode(n)
	}
	s.mtx.Unlock()
	if s.before != nil {
		s.before(n)
	}
	if m == 2 {
		s.ended = true
		return 0, nil, nil
	}
	s.mtx.Lock()
	s.out++
	if s.out > s.maxOut {
		s.maxOut = s.out
	}
	s.mtx.Unlock()
	done := false
	rel := func() {
		s.mtx.Lock()
		sym.Assert(!done, "every value is released once")
		done = true
		s.out--
		s.mtx.Unlock()
	}
	if m == 1 {
		s.ended = true
		return 0, rel, hu.ErrTest
	}
	s.last = n
	if m == 3 {
		released()
	}
	return n, rel, nil
}

type r01 struct {
	s    *src
	c    *dc.Controller
	relH func()
	di   directive.Instance
	ref  directive.Reference
	r    *hu.Ref
	form int
	p2   *hu.Puppet
}

func newR01(form int, opts directive.ValueOptions) *r01 {
	x := &r01{s: &src{}, c: hu.NewDC(), r: hu.NewRef("r"), form: form, p2: &hu.Puppet{}}
	var res directive.Resolver
	switch form {
	case 0:
		res = directive.NewAccessResolver[int](x.s.get)
	case 1:
		res = directive.NewKeyedGetterResolver(func(ctx context.Context, key string, release func()) (int, func(), error) {
			sym.Assert(key == "key", "the key is passed on")
			return x.s.get(ctx, release)
		}, "key")
	case 2:
		rc := refcount.NewRefCount(context.Background(), false, nil, nil, x.s.get)
		res = directive.NewRefCountResolver(rc)
	}
	relH, _ := x.c.AddHandler(hu.NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(res, x.p2), nil
	}))
	x.relH = relH
	x.di, x.ref, _ = x.c.AddDirective(&hu.Dir{Key: 1, Opts: opts}, x.r)
	return x
}

// end stops the resolver.
func (x *r01) end() {
	switch sym.Choose("end", 3) {
	case 0:
		x.relH()
	case 1:
		x.di.Close()
	case 2:
		x.ref.Release()
	}
}

func r01seq(nops int) {
	form := sym.Choose("form", 3)
	x := newR01(form, directive.ValueOptions{})
	x.s.mode = func(n int) int {
		if form == 2 {
			return 0
		}
		m := sym.Choose("mode", 4)
		if n > 2 {
			return 0
		}
		if m == 2 && form == 0 {
			return 0
		}
		return m
	}
	for i := 0; i <= nops; i++ {
		sym.Quiesce()
		x.r.Check()
		sym.Assert(x.s.out <= 1, "a value is released before another one is held")
		if x.s.ended {
			sym.Assert(len(x.r.Live) == 0 && x.s.out == 0, "no value is held when there is none")
			sym.Cover("ended")
			break
		}
		sym.Assert(x.s.gets > 0 && len(x.r.Live) == 1 && x.s.out == 1, "the value is emitted")
		for _, v := range x.r.Live {
			sym.Assert(v == x.s.last, "the value which is held is emitted")
		}
		if i == nops {
			break
		}
		n := len(x.s.released)
		gets := x.s.gets
		if sym.Bool("stale") && n > 1 {
			x.s.released[n-2]()
			sym.Quiesce()
			sym.Assert(x.s.gets == gets, "a value which was released before has no effect")
			continue
		}
		x.s.released[n-1]()
		if sym.Bool("twice") {
			x.s.released[n-1]()
		}
		sym.Quiesce()
		sym.Assert(x.s.gets > gets, "a released value is replaced")
	}
	x.end()
	sym.Quiesce()
	sym.Assert(x.s.out == 0, "the value is released when the resolver is stopped")
	sym.Cover("end")
}

// R01Seq releases values at arbitrary times.
//
//verif:prop R01
//verif:bounds 2 operations (thorough 3): release the current or a previous value, once or twice; the first two values can be errors, missing or released before they are returned; 3 ways of stopping; access, keyed getter and reference count resolvers
//verif:quick preempt=0 delay=0
//verif:thorough skip=1
func R01Seq() { r01seq(2) }

// R01SeqLong runs longer histories.
//
//verif:prop R01
//verif:bounds as before with 3 operations
//verif:quick skip=1
//verif:thorough skip=0 preempt=1
func R01SeqLong() { r01seq(3) }

// R01Conc releases a value while the resolver is started or stopped.
//
//verif:prop R01
//verif:bounds a value released by its source concurrently with the start and the stop of the resolver; 3 ways of stopping, 3 resolvers; all schedules up to the preemption bound
//verif:quick preempt=1
//verif:thorough preempt=2
func R01Conc() {
	x := newR01(sym.Choose("form", 3), directive.ValueOptions{})
	x.s.before = func(n int) {
		if n == 1 {
			rel := x.s.released[0]
			go rel()
		}
	}
	if sym.Bool("stop") {
		x.end()
		sym.Quiesce()
		sym.Assert(x.s.out == 0, "the value is released when the resolver is stopped")
		sym.Cover("stopped")
	} else {
		sym.Quiesce()
		x.r.Check()
		if x.form == 2 && x.s.gets == 1 {
			// whether a value is replaced when it was released before it was
			// returned is up to the reference counter of the library.
			sym.Cover("library")
		} else {
			// the keyed getter might get one more value
			sym.Assert(x.s.gets == 2 || x.form == 1 && x.s.gets == 3, "a released value is replaced")
		}
		sym.Assert(x.s.out == 1, "a value is held")
		sym.Assert(len(x.r.Live) == 1, "a value is emitted")
		for _, v := range x.r.Live {
			sym.Assert(v == x.s.last, "the value which is held is emitted")
		}
		x.end()
		sym.Quiesce()
		sym.Assert(x.s.out == 0, "the value is released when the resolver is stopped")
	}
	sym.Cover("end")
}

// R01Reject rejects the value because the directive is full.
//
//verif:prop R01
//verif:bounds a hard cap of one value reached by another resolver before the value is emitted or afterwards; access and keyed getter resolvers
//verif:quick preempt=1
//verif:thorough preempt=2
func R01Reject() {
	x := newR01(sym.Choose("form", 2), directive.ValueOptions{MaxValueCount: 1, MaxValueHardCap: true})
	var id uint32
	x.s.before = func(n int) {
		if n == 1 && x.p2.H != nil {
			id, _ = x.p2.H.AddValue(-1)
		}
	}
	sym.Quiesce()
	x.r.Check()
	sym.Assert(len(x.r.Live) == 1, "the cap is kept")
	if id != 0 {
		sym.Assert(x.s.out == 0, "a rejected value is released")
		sym.Cover("rejected")
		if x.s.gets == 1 {
			x.p2.H.RemoveValue(id)
			sym.Quiesce()
			sym.Assert(x.s.out == len(x.r.Live), "a value which is held is emitted")
		}
	}
	x.end()
	sym.Quiesce()
	sym.Assert(x.s.out == 0, "the value is released when the resolver is stopped")
	sym.Cover("end")
}

// R01Simple runs the resolvers without release functions.
//
//verif:prop R01
//verif:bounds getter, keyed reference count, function and reference count with transformation; a value, none or an error; 3 ways of stopping
//verif:quick preempt=1
//verif:thorough preempt=2
func R01Simple() {
	form := sym.Choose("form", 4)
	mode := sym.Choose("mode", 3)
	val := func() (int, error) {
		switch mode {
		case 1:
			return 0, hu.ErrTest
		case 2:
			return 0, nil
		}
		return 5, nil
	}
	var res directive.Resolver
	rc := 0
	switch form {
	case 0:
		res = directive.NewGetterResolver(func(context.Context) (int, error) { return val() })
	case 1:
		krc := keyed.NewKeyedRefCount(func(key string) (keyed.Routine, int) {
			return func(ctx context.Context) error {
				rc++
				<-ctx.Done()
				rc--
				return context.Canceled
			}, 3
		})
		krc.SetContext(context.Background(), true)
		res = directive.NewKeyedRefCountResolver(krc, "key", func(ctx context.Context, v int) (directive.Value, error) {
			sym.Assert(v == 3, "the value of the container is passed on")
			n, err := val()
			if err != nil || n == 0 {
				return nil, err
			}
			return n, nil
		})
	case 2:
		res = directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
			n, err := val()
			if err == nil && n != 0 {
				h.AddValue(n)
			}
			return err
		})
	case 3:
		r := refcount.NewRefCount(context.Background(), false, nil, nil, func(ctx context.Context, released func()) (int, func(), error) {
			rc++
			return 3, func() { rc-- }, nil
		})
		res = directive.NewRefCountResolverWithXfrm(r, func(ctx context.Context, v int) (any, error) {
			sym.Assert(v == 3, "the value of the container is passed on")
			n, err := val()
			if err != nil || n == 0 {
				return nil, err
			}
			return n, nil
		})
	}
	c := hu.NewDC()
	relH, _ := c.AddHandler(hu.Static(res))
	r := hu.NewRef("r")
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	var errs []error
	isIdle := false
	di.AddIdleCallback(func(idle bool, e []error) {
		isIdle = idle
		if idle {
			errs = e
		}
	})
	sym.Quiesce()
	r.Check()
	sym.Assert(isIdle, "the resolver is idle when its value is known")
	want := 0
	switch mode {
	case 0:
		want = 1
		for _, v := range r.Live {
			sym.Assert(v == 5, "the value is emitted")
		}
		sym.Assert(form == 0 || form == 2 || rc == 1, "the container is referenced while its value is emitted")
	case 1:
		sym.Assert(len(errs) == 1 && errs[0] == hu.ErrTest, "the error is reported")
		sym.Assert(rc == 0, "the container is released")
	case 2:
		if form == 0 {
			want = 1
		}
		if form == 1 {
			sym.Assert(rc == 0, "the container is released")
		}
	}
	sym.Assert(len(r.Live) == want, "the value is emitted")
	switch sym.Choose("end", 3) {
	case 0:
		relH()
	case 1:
		di.Close()
	case 2:
		ref.Release()
	}
	sym.Quiesce()
	sym.Assert(rc == 0, "the container is released when the resolver is stopped")
	sym.Cover("end")
}
