package hu

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	"github.com/blang/semver/v4"
)

// Fac is a scripted factory.
type Fac struct {
	Mtx  sym.Mutex
	ID   string
	Ver  semver.Version
	Runs int
	// Confs are the configurations which were constructed.
	Confs []config.Config
	// New replaces the default of constructing Ctrl.
	New func(ctx context.Context, conf config.Config, run int) (controller.Controller, error)
	// Ctrls are the constructed controllers.
	Ctrls []*Ctrl
}

// NewFac builds a factory.
func NewFac(id string, major uint64) *Fac { return &Fac{ID: id, Ver: semver.Version{Major: major}} }

// GetConfigID returns the id.
func (f *Fac) GetConfigID() string { return f.ID }

// GetVersion returns the version.
func (f *Fac) GetVersion() semver.Version { return f.Ver }

// ConstructConfig constructs a configuration.
func (f *Fac) ConstructConfig() config.Config { return &Conf{ID: f.ID} }

// Construct runs the script.
func (f *Fac) Construct(ctx context.Context, conf config.Config, _ controller.ConstructOpts) (controller.Controller, error) {
	f.Mtx.Lock()
	f.Runs++
	run := f.Runs
	f.Confs = append(f.Confs, conf)
	f.Mtx.Unlock()
	if f.New != nil {
		return f.New(ctx, conf, run)
	}
	c := NewCtrl(f.ID)
	f.Mtx.Lock()
	f.Ctrls = append(f.Ctrls, c)
	f.Mtx.Unlock()
	return c, nil
}

// CtxFac is a factory which can be unloaded.
type CtxFac struct {
	*Fac
	Ctx context.Context
}

// GetFactoryContext returns the context.
func (f *CtxFac) GetFactoryContext() context.Context { return f.Ctx }

// Backoff is a scripted backoff.
type Backoff struct {
	Durs   []time.Duration
	Asked  int
	Resets int
	At     time.Time
	Last   time.Duration
}

// NextBackOff returns the next delay.
func (b *Backoff) NextBackOff() time.Duration {
	b.Last = b.Durs[b.Asked%len(b.Durs)]
	b.Asked++
	b.At = time.Now()
	return b.Last
}

// Reset counts.
func (b *Backoff) Reset() { b.Resets++ }

var _ controller.FactoryWithContext = (*CtxFac)(nil)
