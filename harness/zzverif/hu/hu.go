// Package hu has the building blocks of the harnesses: test directives, scripted
// resolvers and recording reference handlers, written against the public API only.
package hu

import (
	"context"
	"errors"

	"github.com/aperturerobotics/controllerbus/directive"
	dc "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/sirupsen/logrus"
)

// Le builds a logger.
func Le() *logrus.Entry {
	l := logrus.New()
	l.SetLevel(logrus.PanicLevel)
	return logrus.NewEntry(l)
}

// NewDC builds a directive controller.
func NewDC() *dc.Controller { return dc.NewController(context.Background(), Le()) }

// ErrTest is returned by scripted code.
var ErrTest = errors.New("test error")

// Dir is a directive with a key, a wildcard flag and a version.
type Dir struct {
	Key      uint32
	Ver      uint32
	Wild     bool
	Opts     directive.ValueOptions
	NameStr  string
	OnEquiv  func()
	NoSuper  bool
	EquivCnt int
}

// Validate validates.
func (d *Dir) Validate() error { return nil }

// GetValueOptions returns the options.
func (d *Dir) GetValueOptions() directive.ValueOptions { return d.Opts }

// GetName returns the name.
func (d *Dir) GetName() string { return "dir" }

// IsEquivalent compares keys.
func (d *Dir) IsEquivalent(o directive.Directive) bool {
	od, ok := o.(*Dir)
	if !ok {
		return false
	}
	return sym.Or(d.Wild, d.Key == od.Key)
}

// Superceeds compares versions.
func (d *Dir) Superceeds(o directive.Directive) bool {
	od, ok := o.(*Dir)
	return ok && d.Ver > od.Ver
}

// PlainDir is a directive without equivalence.
type PlainDir struct {
	ID   int
	Opts directive.ValueOptions
}

// Validate validates.
func (d *PlainDir) Validate() error { return nil }

// GetValueOptions returns the options.
func (d *PlainDir) GetValueOptions() directive.ValueOptions { return d.Opts }

// GetName returns the name.
func (d *PlainDir) GetName() string { return "plain" }

// Handler is a directive handler calling a function and counting the offers.
type Handler struct {
	Mtx   sym.Mutex
	Offer map[directive.Directive]int
	Total int
	Fn    func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)
}

// NewHandler builds a handler.
func NewHandler(fn func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)) *Handler {
	return &Handler{Fn: fn, Offer: map[directive.Directive]int{}}
}

// HandleDirective records the offer.
func (h *Handler) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	h.Mtx.Lock()
	h.Offer[di.GetDirective()]++
	h.Total++
	h.Mtx.Unlock()
	if h.Fn == nil {
		return nil, nil
	}
	return h.Fn(ctx, di)
}

// Puppet is a resolver which hands its context and handler to the harness and runs until canceled.
type Puppet struct {
	Mtx     sym.Mutex
	Runs    int
	Active  int
	MaxAct  int
	Ctx     context.Context
	H       directive.ResolverHandler
	Handlers []directive.ResolverHandler
	Ctxs     []context.Context
	// Body runs after the registration; if nil the resolver waits for its context.
	Body func(ctx context.Context, h directive.ResolverHandler, run int) error
}

// Resolve runs the puppet.
func (p *Puppet) Resolve(ctx context.Context, h directive.ResolverHandler) error {
	p.Mtx.Lock()
	p.Runs++
	run := p.Runs
	p.Active++
	if p.Active > p.MaxAct {
		p.MaxAct = p.Active
	}
	p.Ctx, p.H = ctx, h
	p.Handlers = append(p.Handlers, h)
	p.Ctxs = append(p.Ctxs, ctx)
	p.Mtx.Unlock()
	var err error
	if p.Body != nil {
		err = p.Body(ctx, h, run)
	} else {
		<-ctx.Done()
		err = context.Canceled
	}
	p.Mtx.Lock()
	p.Active--
	p.Mtx.Unlock()
	return err
}

// Cur returns the last handler which was not canceled.
func (p *Puppet) Cur() directive.ResolverHandler {
	p.Mtx.Lock()
	defer p.Mtx.Unlock()
	for i := len(p.Ctxs) - 1; i >= 0; i-- {
		if !Done(p.Ctxs[i]) {
			return p.Handlers[i]
		}
	}
	return nil
}

// Ref is a reference handler which records its events and checks their order.
type Ref struct {
	Name     string
	Mtx      sym.Mutex
	Live     map[uint32]directive.Value
	Added    int
	Removed  int
	Disposed int
	LastID   uint32
	Err      string
	Active   int
	OnAdd    func(directive.AttachedValue)
	OnRemove func(directive.AttachedValue)
	OnDisp   func()
}

// NewRef builds a recorder.
func NewRef(name string) *Ref { return &Ref{Name: name, Live: map[uint32]directive.Value{}} }

func (r *Ref) fail(msg string) {
	if r.Err == "" {
		r.Err = msg
	}
}

// HandleValueAdded records.
func (r *Ref) HandleValueAdded(_ directive.Instance, v directive.AttachedValue) {
	r.Mtx.Lock()
	id := v.GetValueID()
	if _, ok := r.Live[id]; ok {
		r.fail("value added twice")
	}
	if r.Disposed != 0 {
		r.fail("value added after disposal")
	}
	r.Live[id] = v.GetValue()
	r.Added++
	if id > r.LastID {
		r.LastID = id
	}
	r.Mtx.Unlock()
	if r.OnAdd != nil {
		r.OnAdd(v)
	}
}

// HandleValueRemoved records.
func (r *Ref) HandleValueRemoved(_ directive.Instance, v directive.AttachedValue) {
	r.Mtx.Lock()
	id := v.GetValueID()
	ev, ok := r.Live[id]
	if !ok {
		r.fail("value removed without having been added")
	} else if ev != v.GetValue() {
		r.fail("removed value differs from the added one")
	}
	if r.Disposed != 0 {
		r.fail("value removed after disposal")
	}
	delete(r.Live, id)
	r.Removed++
	r.Mtx.Unlock()
	if r.OnRemove != nil {
		r.OnRemove(v)
	}
}

// HandleInstanceDisposed records.
func (r *Ref) HandleInstanceDisposed(directive.Instance) {
	r.Mtx.Lock()
	r.Disposed++
	if len(r.Live) != 0 {
		r.fail("instance disposed before its values were removed")
	}
	r.Mtx.Unlock()
	if r.OnDisp != nil {
		r.OnDisp()
	}
}

// Check asserts that no event was out of order.
func (r *Ref) Check() { sym.Assert(r.Err == "", "the events of every reference are consistent") }

// Static returns a handler func which always returns the given resolver for any directive.
func Static(res directive.Resolver) *Handler {
	return NewHandler(func(context.Context, directive.Instance) ([]directive.Resolver, error) {
		return directive.Resolvers(res), nil
	})
}

// Has reports whether the instance is listed.
func Has(c directive.DirectiveLister, di directive.Instance) bool {
	for _, d := range c.GetDirectives() {
		if d == di {
			return true
		}
	}
	return false
}

// Done reports whether the context is canceled.
func Done(ctx context.Context) bool {
	select {
	case <-ctx.Done():
		return true
	default:
		return false
	}
}
