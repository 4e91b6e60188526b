package controller_test

import (
	"context"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/sirupsen/logrus"
)

type tdir struct {
	key, ver int
	opts     directive.ValueOptions
}

func (d *tdir) Validate() error                         { return nil }
func (d *tdir) GetValueOptions() directive.ValueOptions { return d.opts }
func (d *tdir) GetName() string                         { return "tdir" }
func (d *tdir) IsEquivalent(o directive.Directive) bool {
	x, ok := o.(*tdir)
	return ok && x.key == d.key
}
func (d *tdir) Superceeds(o directive.Directive) bool { x, ok := o.(*tdir); return ok && d.ver > x.ver }

type thandler func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)

func (h thandler) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return h(ctx, di)
}

type tres func(ctx context.Context, h directive.ResolverHandler) error

func (r tres) Resolve(ctx context.Context, h directive.ResolverHandler) error { return r(ctx, h) }

func newC() *controller.Controller {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return controller.NewController(context.Background(), logrus.NewEntry(l))
}

// hold returns a resolver which sends its handler and waits.
func hold(ch chan directive.ResolverHandler) directive.Resolver {
	return tres(func(ctx context.Context, h directive.ResolverHandler) error {
		ch <- h
		<-ctx.Done()
		return ctx.Err()
	})
}

func serve(c *controller.Controller, res ...directive.Resolver) func() {
	rel, err := c.AddHandler(thandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return res, nil
	}))
	if err != nil {
		panic(err)
	}
	return rel
}

func has(c *controller.Controller, di directive.Instance) bool {
	for _, x := range c.GetDirectives() {
		if x == di {
			return true
		}
	}
	return false
}

func eventually(t *testing.T, what string, f func() bool) {
	t.Helper()
	for i := 0; i < 1000; i++ {
		if f() {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	t.Fatal(what)
}

func cbs(add, rem func(v directive.AttachedValue), disp func()) directive.ReferenceHandler {
	return directive.NewCallbackHandler(add, rem, disp)
}
