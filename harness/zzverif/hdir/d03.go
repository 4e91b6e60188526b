package hdir

import (
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// lifeModel is the reference model of the lifetime of one directive.
type lifeModel struct {
	dur      int64
	emptyImm bool
	hasVal   bool
	strong   int
	weak     int
	alive    bool
	armed    bool
	deadline int64
	now      int64
}

func (m *lifeModel) unref() {
	if !m.alive || m.strong != 0 {
		return
	}
	if m.dur == 0 || (m.emptyImm && !m.hasVal) {
		m.alive = false
	} else if !m.armed {
		m.armed = true
		m.deadline = m.now + m.dur
	}
}

// D03Seq applies arbitrary steps to a directive and compares its lifetime with a model: it lives
// while a strong reference is held, weak references do not count, and after the last strong
// release it is disposed at once or after the configured delay unless referenced again.
//
//verif:prop D03
//verif:bounds 5 arbitrary steps (add/release strong or weak reference, equivalent directive, repeated release, close-if-unreferenced with and without weak references, waiting 6 s); delay 0 or 10 s, empty-immediate arbitrary, with or without a value
//verif:quick preempt=0
//verif:thorough preempt=0 steps=100000000
func D03Seq() { lifetime(5) }

// D03SeqLong is D03Seq with 7 steps.
//
//verif:prop D03
//verif:bounds as D03Seq with 7 steps
//verif:quick skip=1
//verif:thorough preempt=0 skip=0 steps=1000000000
func D03SeqLong() { lifetime(7) }

func lifetime(steps int) {
	m := &lifeModel{alive: true, strong: 1}
	opts := directive.ValueOptions{}
	if sym.Bool("delay") {
		m.dur = 10
		opts.UnrefDisposeDur = 10 * time.Second
	}
	m.emptyImm = sym.Bool("emptyImm")
	opts.UnrefDisposeEmptyImmediate = m.emptyImm
	m.hasVal = sym.Bool("hasVal")
	c := hu.NewDC()
	p := &hu.Puppet{}
	_, _ = c.AddHandler(hu.Static(p))
	r0 := hu.NewRef("r0")
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: opts}, r0)
	sym.Quiesce()
	if m.hasVal {
		p.H.AddValue("v")
	}
	var strong, weak []directive.Reference
	var rels []directive.Reference
	var hr []*hu.Ref
	strong = append(strong, ref)
	hr = append(hr, r0)
	last := r0
	for n := 0; n < steps && m.alive; n++ {
		switch sym.Choose("op", 9) {
		case 0:
			r := hu.NewRef("strong")
			hr = append(hr, r)
			strong = append(strong, di.AddReference(r, false))
			if m.strong == 0 {
				m.armed = false
			}
			m.strong++
			last = r
		case 1:
			weak = append(weak, di.AddReference(nil, true))
			m.weak++
		case 2:
			if len(strong) > 0 {
				rels = strong[:1]
				strong[0].Release()
				strong = strong[1:]
				m.strong--
				m.unref()
				sym.Cover("released")
			}
		case 3:
			if len(weak) > 0 {
				weak[0].Release()
				weak = weak[1:]
				m.weak--
				m.unref()
			}
		case 4, 5:
			incl := sym.Bool("incl")
			has := m.strong > 0
			if incl {
				has = has || m.weak > 0
			}
			if !has {
				m.alive = false
				sym.Cover("closed")
			}
			sym.Assert(di.CloseIfUnreferenced(incl) == !m.alive, "close-if-unreferenced closes exactly an unreferenced directive and says so")
		case 6:
			time.Sleep(6 * time.Second)
			m.now += 6
			if m.armed && m.now >= m.deadline {
				m.alive = false
				sym.Cover("expired")
			}
		case 7:
			d2, r, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: opts}, nil)
			sym.Assert(d2 == di, "an equivalent directive added before the disposal joins the instance")
			strong = append(strong, r)
			if m.strong == 0 {
				m.armed = false
			}
			m.strong++
		case 8:
			if len(rels) > 0 {
				rels[0].Release()
			}
		}
		sym.Quiesce()
		sym.Assert(hu.Done(di.GetContext()) == !m.alive, "the context is canceled exactly when the directive is disposed")
		sym.Assert(hu.Has(c, di) == m.alive, "the directive is listed exactly while it is alive")
	}
	held := 0
	for _, r := range hr {
		sym.Assert(r.Disposed <= 1, "a reference is told about the disposal at most once")
		held += r.Disposed
		r.Check()
	}
	if m.alive {
		sym.Assert(held == 0, "no reference of a live directive is told that it is disposed")
		sym.Cover("alive")
	} else {
		sym.Assert(p.Active == 0, "no resolver of a disposed directive keeps running")
		d2, _, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: opts}, nil)
		sym.Assert(d2 != di, "a directive added after the disposal gets a new instance")
	}
	_ = last
}

// D03Race releases the last reference of a directive while another goroutine references it again,
// by a reference or by an equivalent directive; the disposal timer may fire at any time.
//
//verif:prop D03
//verif:bounds 2 goroutines and the timer; delay 0 or 1 s with the expiry at any point; all schedules up to the preemption bound
//verif:quick preempt=3 anytime=1
//verif:thorough preempt=-1 anytime=1
func D03Race() {
	opts := directive.ValueOptions{}
	if sym.Bool("delay") {
		opts.UnrefDisposeDur = time.Second
	}
	c := hu.NewDC()
	r0, r1, r2 := hu.NewRef("r0"), hu.NewRef("r1"), hu.NewRef("r2")
	di, ref, _ := c.AddDirective(&hu.Dir{Key: 1, Opts: opts}, r0)
	done := make(chan struct{})
	equiv := sym.Bool("equiv")
	di2 := di
	go func() {
		if equiv {
			di2, _, _ = c.AddDirective(&hu.Dir{Key: 1, Opts: opts}, r1)
		} else {
			di.AddReference(r1, false)
		}
		close(done)
	}()
	ref.Release()
	<-done
	sym.Quiesce()
	time.Sleep(5 * time.Second)
	sym.Quiesce()
	sym.Assert(r0.Disposed == 0, "a released reference is not told about the disposal")
	sym.Assert(r1.Disposed <= 1, "a reference is told about the disposal at most once")
	sym.Assert((r1.Disposed == 0) == hu.Has(c, di2), "a referenced directive stays alive; otherwise its reference is told that it is disposed")
	sym.Assert(hu.Done(di2.GetContext()) == (r1.Disposed == 1), "the context is canceled exactly when the directive is disposed")
	if equiv {
		sym.Assert(r1.Disposed == 0, "the instance returned for an added directive is alive while its reference is held")
	}
	if r1.Disposed == 0 {
		sym.Cover("kept")
	} else {
		sym.Cover("disposed")
	}
	_ = r2
}
