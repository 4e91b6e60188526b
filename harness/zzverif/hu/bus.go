package hu

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/blang/semver/v4"
)

// NewBus builds an in-memory bus.
func NewBus() bus.Bus { return inmem.NewBus(NewDC()) }

// Ctrl is a scripted controller.
type Ctrl struct {
	Handler
	ID     string
	Runs   int
	Active int
	Ctx    context.Context
	Closed int
	// Exit makes the controller return the received error.
	Exit chan error
	// Body replaces the default of waiting for Exit or the context.
	Body func(ctx context.Context) error
}

// NewCtrl builds a controller.
func NewCtrl(id string) *Ctrl {
	c := &Ctrl{ID: id, Exit: make(chan error, 1)}
	c.Offer = map[directive.Directive]int{}
	return c
}

// GetControllerInfo returns the info.
func (c *Ctrl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(c.ID, semver.Version{Major: 1}, "test controller")
}

// Execute runs the script.
func (c *Ctrl) Execute(ctx context.Context) error {
	c.Mtx.Lock()
	c.Runs++
	c.Active++
	c.Ctx = ctx
	c.Mtx.Unlock()
	defer func() {
		c.Mtx.Lock()
		c.Active--
		c.Mtx.Unlock()
	}()
	if c.Body != nil {
		return c.Body(ctx)
	}
	select {
	case <-ctx.Done():
		return context.Canceled
	case err := <-c.Exit:
		if err == ErrPanic {
			panic(err)
		}
		if err == ErrPanicStr {
			panic("controller panic")
		}
		return err
	}
}

// Close closes.
func (c *Ctrl) Close() error {
	c.Mtx.Lock()
	c.Closed++
	c.Mtx.Unlock()
	return nil
}

type constErr string

// Error returns the message.
func (e constErr) Error() string { return string(e) }

// ErrPanic makes Ctrl panic with an error; ErrPanicStr with a string.
const (
	ErrPanic    = constErr("panic with error")
	ErrPanicStr = constErr("panic with string")
)

// CountCtrl counts how often the controller is listed.
func CountCtrl(b bus.Bus, c controller.Controller) int {
	n := 0
	for _, x := range b.GetControllers() {
		if x == c {
			n++
		}
	}
	return n
}

var _ controller.Controller = (*Ctrl)(nil)
var _ sym.Mutex

// FailBus is a bus which refuses directives.
type FailBus struct {
	bus.Bus
	// Err is returned by AddDirective unless it is nil.
	Err error
	// If limits the refused directives.
	If func(directive.Directive) bool
}

// AddDirective adds a directive or fails.
func (b *FailBus) AddDirective(dir directive.Directive, cb directive.ReferenceHandler) (directive.Instance, directive.Reference, error) {
	if b.Err != nil && (b.If == nil || b.If(dir)) {
		return nil, nil, b.Err
	}
	return b.Bus.AddDirective(dir, cb)
}
