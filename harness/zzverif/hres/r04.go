package hres

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
)

// bo is a scripted backoff.
type bo struct {
	durs   []time.Duration
	next   int
	resets int
	at     time.Time
	last   time.Duration
}

func (b *bo) NextBackOff() time.Duration {
	b.last = b.durs[b.next%len(b.durs)]
	b.next++
	b.at = time.Now()
	return b.last
}

func (b *bo) Reset() { b.resets++ }

// R04Retry retries a failing resolver.
//
//verif:prop R04
//verif:bounds up to 3 failures with delays of 0, 1s, 1ns or no more retries, then success or running until it is stopped; values of failed runs are cleared by the resolver; 3 ways of stopping, at any time or during the delay
//verif:quick preempt=0 delay=0
//verif:thorough preempt=1
func R04Retry() {
	fails := sym.Choose("fails", 4)
	stopAt := -1
	b := &bo{}
	for i := 0; i < 3; i++ {
		switch sym.Choose("delay", 4) {
		case 0:
			b.durs = append(b.durs, 0)
		case 1:
			b.durs = append(b.durs, time.Second)
		case 2:
			b.durs = append(b.durs, 1)
		case 3:
			b.durs = append(b.durs, backoff.Stop)
			if stopAt < 0 && i < fails {
				stopAt = i
			}
		}
		if stopAt >= 0 {
			break
		}
	}
	finish := sym.Bool("finish")
	p := &hu.Puppet{}
	p.Body = func(ctx context.Context, h directive.ResolverHandler, run int) error {
		if run > 1 {
			sym.Assert(time.Since(b.at) >= b.last, "the delay of the backoff is kept")
		}
		sym.Assert(b.next == run-1, "the backoff is asked once per failure")
		h.ClearValues()
		h.AddValue(run)
		if run <= fails {
			return hu.ErrTest
		}
		if finish {
			return nil
		}
		<-ctx.Done()
		return context.Canceled
	}
	c := hu.NewDC()
	relH, _ := c.AddHandler(hu.Static(directive.NewRetryResolver(hu.Le(), p, b)))
	r := hu.NewRef("r")
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1}, r)
	idle := false
	var errs []error
	di.AddIdleCallback(func(i bool, e []error) { idle, errs = i, e })
	stop := func() {
		switch sym.Choose("end", 3) {
		case 0:
			relH()
		case 1:
			di.Close()
		case 2:
			ref.Release()
		}
	}
	if sym.Bool("early") {
		// stop it during the delay
		sym.Assume(len(b.durs) > 0 && b.durs[0] == time.Second && fails > 0)
		time.Sleep(500 * time.Millisecond)
		sym.Assert(p.Runs == 1, "the resolver is not retried before the delay")
		sym.Assert(!idle, "the resolver is not idle while it is going to be retried")
		stop()
		sym.Quiesce()
		time.Sleep(2 * time.Second)
		sym.Assert(p.Runs == 1, "a stopped resolver is not retried")
		sym.Cover("early")
		return
	}
	time.Sleep(10 * time.Second)
	sym.Quiesce()
	r.Check()
	switch {
	case stopAt >= 0:
		sym.Assert(p.Runs == stopAt+1, "the resolver is not retried when the backoff stops")
		sym.Assert(idle && len(errs) == 1 && errs[0] == hu.ErrTest, "the error is reported when the backoff stops")
		sym.Cover("stopped")
	case finish:
		sym.Assert(p.Runs == fails+1, "the resolver is retried until it succeeds")
		sym.Assert(idle && len(errs) == 0, "the resolver succeeds")
		sym.Assert(b.resets > 0, "the backoff is reset after success")
		sym.Cover("finished")
	default:
		sym.Assert(p.Runs == fails+1 && p.Active == 1, "the resolver is retried until it runs")
		sym.Assert(!idle, "the resolver is running")
		sym.Cover("running")
	}
	if stopAt < 0 {
		sym.Assert(len(r.Live) == 1, "the value of the last run is emitted")
		for _, v := range r.Live {
			sym.Assert(v == p.Runs, "the value of the last run is emitted")
		}
	}
	asked := b.next
	stop()
	sym.Quiesce()
	sym.Assert(p.Active == 0, "the resolver is stopped")
	sym.Assert(b.next == asked, "a stopped resolver is not retried")
	sym.Assert(p.MaxAct == 1, "the runs do not overlap")
	sym.Cover("end")
}
