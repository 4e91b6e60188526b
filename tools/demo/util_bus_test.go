package bus_test

import (
	"context"
	"io"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/sirupsen/logrus"
)

type tdir struct{ key int }

func (d *tdir) Validate() error                         { return nil }
func (d *tdir) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (d *tdir) GetName() string                         { return "tdir" }

type thandler func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)

func (h thandler) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return h(ctx, di)
}

type tres func(ctx context.Context, h directive.ResolverHandler) error

func (r tres) Resolve(ctx context.Context, h directive.ResolverHandler) error { return r(ctx, h) }

func newB(res ...directive.Resolver) bus.Bus {
	l := logrus.New()
	l.SetOutput(io.Discard)
	b := inmem.NewBus(controller.NewController(context.Background(), logrus.NewEntry(l)))
	_, err := b.AddHandler(thandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return res, nil
	}))
	if err != nil {
		panic(err)
	}
	return b
}
