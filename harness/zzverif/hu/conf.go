package hu

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	cres "github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/blang/semver/v4"
	"time"
)

// Conf is a configuration.
type Conf struct {
	ID      string
	N       int
	Invalid bool
}

// Validate validates.
func (c *Conf) Validate() error {
	if c.Invalid {
		return ErrTest
	}
	return nil
}

// GetConfigID returns the id.
func (c *Conf) GetConfigID() string { return c.ID }

// EqualsConfig compares.
func (c *Conf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*Conf)
	return ok && oc.ID == c.ID && oc.N == c.N && oc.Invalid == c.Invalid
}

// MarshalJSON marshals.
func (c *Conf) MarshalJSON() ([]byte, error) { return []byte{byte(c.N)}, nil }

// UnmarshalJSON unmarshals.
func (c *Conf) UnmarshalJSON(b []byte) error { return c.UnmarshalVT(b) }

// SizeVT returns the size.
func (c *Conf) SizeVT() int { return 1 }

// MarshalToSizedBufferVT marshals.
func (c *Conf) MarshalToSizedBufferVT(b []byte) (int, error) {
	b[len(b)-1] = byte(c.N)
	return 1, nil
}

// MarshalVT marshals.
func (c *Conf) MarshalVT() ([]byte, error) { return []byte{byte(c.N)}, nil }

// UnmarshalVT unmarshals.
func (c *Conf) UnmarshalVT(b []byte) error {
	if len(b) != 1 {
		return ErrTest
	}
	c.N = int(b[0])
	return nil
}

// Reset resets.
func (c *Conf) Reset() { c.N = 0 }

var _ config.Config = (*Conf)(nil)

// Loads resolves LoadControllerWithConfig directives and records which configurations run.
type Loads struct {
	Handler
	Running map[int]int
	Starts  map[int]int
	Bad     bool
	H       map[int]directive.ResolverHandler
	Ctrls   map[int]controller.Controller
	// Err makes the configuration fail.
	Err map[int]bool
	// Slow configurations have no value yet.
	Slow map[int]bool
}

// NewLoads builds the resolver.
func NewLoads() *Loads {
	l := &Loads{Running: map[int]int{}, Starts: map[int]int{}, H: map[int]directive.ResolverHandler{}, Ctrls: map[int]controller.Controller{}, Err: map[int]bool{}, Slow: map[int]bool{}}
	l.Offer = map[directive.Directive]int{}
	l.Fn = func(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
		d, ok := di.GetDirective().(cres.LoadControllerWithConfig)
		if !ok {
			return nil, nil
		}
		conf := d.GetLoadControllerConfig().(*Conf)
		return directive.Resolvers(directive.NewFuncResolver(func(ctx context.Context, h directive.ResolverHandler) error {
			l.Mtx.Lock()
			l.Running[conf.N]++
			l.Starts[conf.N]++
			if l.Running[conf.N] > 1 {
				l.Bad = true
			}
			l.H[conf.N] = h
			var ctrl controller.Controller = NewCtrl("ctrl")
			var err error
			if l.Err[conf.N] {
				ctrl, err = nil, ErrTest
			}
			slow := l.Slow[conf.N]
			if slow {
				ctrl = nil
			}
			l.Ctrls[conf.N] = ctrl
			l.Mtx.Unlock()
			if !slow {
				h.AddValue(loader.NewExecControllerValue(time.Time{}, time.Time{}, ctrl, err))
			}
			<-ctx.Done()
			l.Mtx.Lock()
			l.Running[conf.N]--
			l.Mtx.Unlock()
			return context.Canceled
		})), nil
	}
	return l
}

// Total is the number of running configurations.
func (l *Loads) Total() int {
	n := 0
	for _, k := range l.Running {
		n += k
	}
	return n
}

// GetControllerInfo returns the info.
func (l *Loads) GetControllerInfo() *controller.Info {
	return controller.NewInfo("loads", semver.Version{Major: 1}, "test loader")
}

// Execute returns.
func (l *Loads) Execute(ctx context.Context) error { return nil }

// Close closes.
func (l *Loads) Close() error { return nil }

var _ controller.Controller = (*Loads)(nil)
var _ sym.Mutex
var _ bus.Bus
