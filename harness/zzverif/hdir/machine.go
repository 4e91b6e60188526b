package hdir

import (
	"context"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zzverif/hu"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// mval is a value of the model.
type mval struct {
	id    uint32
	val   directive.Value
	owner int
}

// mcb is a removal callback of the model.
type mcb struct {
	vid      uint32 // of a value callback
	res      int    // of a resolver callback
	n        int
	want     int
	rel      func()
	released bool
}

// mres is a resolver of the model.
type mres struct {
	p        *hu.Puppet
	parent   int
	hnd      int
	attached bool
	running  bool
	busy     bool
	stopped  bool // for the cap
	runs     int
	err      error
	stop     chan error
	rel      func() // releases a child
	gone     int    // removal callback of a child
	wantGone int
}

// machine compares a directive instance with a model of it after every operation.
type machine struct {
	di    directive.Instance
	res   [4]*mres
	live  []mval
	maxID uint32
	cbs   []*mcb
	refs  []*hu.Ref
	r1    directive.Reference
	rec   *idleRec
	relH  [2]func()
	dead  bool
	// r1disp is the number of disposals r1 was told about when it was released
	r1disp int
	nval   int
	// cap is the value cap
	cap  int
	hard bool
	full bool
}

func newMachine(opts directive.ValueOptions) *machine {
	m := &machine{rec: &idleRec{}, cap: opts.MaxValueCount, hard: opts.MaxValueHardCap}
	for i := range m.res {
		r := &mres{parent: -1, hnd: 0, stop: make(chan error, 1)}
		r.p = &hu.Puppet{Body: func(ctx context.Context, h directive.ResolverHandler, run int) error {
			select {
			case err := <-r.stop:
				return err
			case <-ctx.Done():
				return ctx.Err()
			}
		}}
		m.res[i] = r
	}
	m.res[1].hnd = 1
	m.res[2].parent, m.res[3].parent = 0, 2
	c := hu.NewDC()
	m.relH[0], _ = c.AddHandler(hu.Static(m.res[0].p))
	m.relH[1], _ = c.AddHandler(hu.Static(m.res[1].p))
	m.refs = append(m.refs, hu.NewRef("r0"))
	m.di, _, _ = c.AddDirective(&hu.Dir{Key: 1, Opts: opts}, m.refs[0])
	for i := 0; i < 2; i++ {
		m.res[i].attached = true
		m.res[i].start()
	}
	sym.Quiesce()
	m.di.AddIdleCallback(m.rec.cb)
	return m
}

// start starts a resolver of the model.
func (r *mres) start() {
	r.running, r.busy, r.stopped, r.err = true, true, false, nil
	r.runs++
}

// attach attaches a child in the model.
func (m *machine) attach(ch *mres) {
	ch.attached = true
	if m.full {
		ch.stopped = true
	} else {
		ch.start()
	}
}

// capped applies the value cap to the model.
func (m *machine) capped() {
	if m.cap == 0 || m.dead {
		return
	}
	full := len(m.live) >= m.cap
	if full == m.full {
		return
	}
	m.full = full
	for k, r := range m.res {
		if !r.attached {
			continue
		}
		if full {
			_, has := m.last(k)
			if r.busy && !has {
				r.stopped, r.running = true, false
			}
			r.busy = false
		} else if r.stopped || !r.running && r.err != nil {
			r.start()
		}
	}
}

// detach removes a resolver and its children from the model.
func (m *machine) detach(k int) {
	r := m.res[k]
	if !r.attached {
		return
	}
	r.attached, r.running, r.busy, r.stopped, r.err = false, false, false, false, nil
	for _, v := range m.live {
		if v.owner == k {
			m.dropVal(v.id)
		}
	}
	for _, cb := range m.cbs {
		if cb.vid == 0 && cb.res == k && !cb.released {
			cb.want++
		}
	}
	if r.parent >= 0 {
		r.wantGone++
	}
	for i, o := range m.res {
		if o.parent == k {
			m.detach(i)
		}
	}
}

func (m *machine) dropVal(id uint32) {
	var out []mval
	for _, v := range m.live {
		if v.id != id {
			out = append(out, v)
		}
	}
	m.live = out
	for _, cb := range m.cbs {
		if cb.vid == id && !cb.released {
			cb.want++
			cb.vid = 1 << 30
		}
	}
}

// last is the last live value of a resolver.
func (m *machine) last(k int) (mval, bool) {
	for i := len(m.live) - 1; i >= 0; i-- {
		if m.live[i].owner == k {
			return m.live[i], true
		}
	}
	return mval{}, false
}

// step does one operation.
func (m *machine) step(ops, nres int) {
	op := sym.Choose("op", ops)
	k := 0
	if op < 8 {
		k = sym.Choose("resolver", nres)
	}
	r := m.res[k]
	sym.Assume(r.p.H != nil)
	h := r.p.H
	// a resolver which was stopped for the cap has no current handler
	usable := r.attached && !r.stopped
	switch op {
	case 0:
		m.nval++
		v := m.nval
		id, ok := h.AddValue(v)
		sym.Assert(ok == (usable && !(m.hard && m.cap != 0 && len(m.live) >= m.cap)), "exactly an attached resolver can add values, up to the hard cap")
		if ok {
			sym.Assert(id > m.maxID, "value ids increase and are never used again")
			m.maxID = id
			m.live = append(m.live, mval{id, v, k})
		}
	case 1:
		v, has := m.last(k)
		sym.Assume(has)
		got, ok := h.RemoveValue(v.id)
		sym.Assert(ok && got == v.val, "removing a live value returns it")
		m.dropVal(v.id)
		_, ok = h.RemoveValue(v.id)
		sym.Assert(!ok, "a value is removed once")
	case 2:
		ids := h.ClearValues()
		n := 0
		for _, v := range m.live {
			if v.owner == k {
				sym.Assert(n < len(ids) && ids[n] == v.id, "clearing returns the ids of the values of the resolver")
				n++
				m.dropVal(v.id)
			}
		}
		sym.Assert(n == len(ids), "clearing returns the ids of the values of the resolver")
	case 3:
		sym.Assume(r.running)
		r.busy = !r.busy
		h.MarkIdle(!r.busy)
	case 4:
		sym.Assume(r.running)
		r.running, r.busy = false, false
		if sym.Bool("err") {
			r.err = hu.ErrTest
		}
		r.stop <- r.err
	case 5:
		v, has := m.last(k)
		cb := &mcb{vid: v.id, res: -1}
		if !has {
			cb.vid, cb.want = 1<<30, 1
		}
		m.cbs = append(m.cbs, cb)
		id := v.id
		if !has {
			id = m.maxID + 1
		}
		cb.rel = h.AddValueRemovedCallback(id, func() { cb.n++ })
	case 6:
		cb := &mcb{res: k}
		if !usable {
			cb.want = 1
			cb.vid = 1 << 30
		}
		m.cbs = append(m.cbs, cb)
		cb.rel = h.AddResolverRemovedCallback(func() { cb.n++ })
	case 7:
		ch := m.res[2]
		if k == 2 {
			ch = m.res[3]
		}
		sym.Assume(k != 1 && k != 3 && !ch.attached && ch.wantGone == 0)
		if usable {
			m.attach(ch)
		} else {
			ch.wantGone++
		}
		ch.rel = h.AddResolver(ch.p, func() { ch.gone++ })
	case 8:
		j := 2 + sym.Choose("child", 2)
		sym.Assume(m.res[j].rel != nil)
		m.res[j].rel()
		m.detach(j)
	case 9:
		sym.Assume(len(m.cbs) != 0)
		cb := m.cbs[len(m.cbs)-1]
		if sym.Bool("first") {
			cb = m.cbs[0]
		}
		cb.rel()
		cb.released = true
	case 10:
		j := sym.Choose("handler", 2)
		m.relH[j]()
		for i, o := range m.res {
			if o.hnd == j && o.parent < 0 {
				m.detach(i)
			}
		}
	case 11:
		if m.r1 == nil {
			sym.Assume(len(m.refs) == 1)
			r := hu.NewRef("r1")
			m.refs = append(m.refs, r)
			m.r1 = m.di.AddReference(r, sym.Bool("weak"))
			sym.Assert(len(r.Live) == len(m.live), "a new reference sees exactly the live values")
		} else {
			m.r1disp = m.refs[1].Disposed
			m.r1.Release()
			m.r1 = nil
		}
	case 12:
		m.di.Close()
		m.dead = true
		m.detach(0)
		m.detach(1)
	}
	m.capped()
}

// check compares the instance with the model.
func (m *machine) check() {
	sym.Quiesce()
	for i, ref := range m.refs {
		ref.Check()
		if i == 1 && m.r1 == nil {
			sym.Assert(ref.Disposed == m.r1disp, "a released reference is not told about the disposal")
			continue
		}
		sym.Assert(len(ref.Live) == len(m.live), "every reference sees exactly the live values")
		for _, v := range m.live {
			sym.Assert(ref.Live[v.id] == v.val, "every reference sees exactly the live values")
		}
		sym.Assert(ref.Disposed == 1 == m.dead, "the references are told about the disposal")
	}
	idle := true
	var errs int
	for i, r := range m.res {
		sym.Assert(r.gone == r.wantGone, "the removal of a child is told once")
		if !r.attached {
			// its parent may have been removed first
			r.runs = r.p.Runs
		}
		sym.Assert(r.p.Runs == r.runs, "a resolver is started when it is attached and again below the cap")
		if r.p.H == nil {
			continue
		}
		sym.Assert(r.p.Active == 1 == r.running, "exactly the attached resolvers which have not returned run")
		if r.attached {
			own := 0
			for _, v := range m.live {
				if v.owner == i {
					own++
				}
			}
			sym.Assert(r.p.H.CountValues(false) == own, "the values of the resolver are counted")
			sym.Assert(r.p.H.CountValues(true) == len(m.live), "the values of the directive are counted")
		} else {
			sym.Assert(hu.Done(r.p.Ctx), "the context of a removed resolver is canceled")
		}
		if r.busy {
			idle = false
		}
		if r.err != nil {
			errs++
		}
	}
	if !m.dead {
		sym.Assert(m.rec.last == idle, "the last report is the current state")
		sym.Assert(len(m.di.GetResolverErrors()) == errs, "exactly the errors of the attached resolvers are listed")
	}
	sym.Assert(!m.rec.twice, "only changes are reported")
	for _, cb := range m.cbs {
		sym.Assert(cb.n == cb.want, "a removal callback is called once when its value or resolver is removed")
	}
}

// run does n operations and compares the state after each of them.
func (m *machine) run(n int) {
	_, _ = m.res[0].p.H.AddValue("first")
	m.live = append(m.live, mval{1, "first", 0})
	m.maxID = 1
	m.capped()
	start := sym.Choose("start", 3)
	if start != 0 {
		n--
	}
	switch start {
	case 1:
		// a child and a grandchild with a value
		for _, k := range []int{2, 3} {
			ch := m.res[k]
			if m.res[ch.parent].p.H == nil {
				// the parent waits for the directive to be below the cap
				break
			}
			m.attach(ch)
			ch.rel = m.res[ch.parent].p.H.AddResolver(ch.p, func() { ch.gone++ })
			sym.Quiesce()
		}
		if m.res[3].p.H != nil {
			if id, ok := m.res[3].p.H.AddValue("child"); ok {
				m.live = append(m.live, mval{id, "child", 3})
				m.maxID = id
			}
		}
	case 2:
		// a resolver which failed and one which became idle
		m.res[0].err = hu.ErrTest
		m.res[0].running, m.res[0].busy, m.res[1].busy = false, false, false
		m.res[0].stop <- hu.ErrTest
		m.res[1].p.H.MarkIdle(true)
	}
	m.capped()
	m.check()
	for s := 0; s < n; s++ {
		m.step(13, 4)
		m.check()
	}
	sym.Cover("end")
}

// DMachine does arbitrary operations on the resolvers of a directive one after another.
//
//verif:prop D05 D06 D08 D09 D11
//verif:bounds 2 resolvers of 2 handlers, with a child and a grandchild; 1 value; initially both running, or with children, or one failed and one idle; 3 (2 in the latter cases) arbitrary operations of 13 kinds: add, remove and clear values, mark idle and busy, return nil or an error, add and release value, resolver and child callbacks, remove a handler, add and release a reference, close
//verif:quick preempt=0 merge=0
func DMachine() { newMachine(directive.ValueOptions{}).run(3) }

// DMachineDeep does more operations.
//
//verif:prop D05 D06 D08 D09 D11
//verif:bounds as DMachine with 4 (3) operations
//verif:quick skip=1
//verif:thorough preempt=0 skip=0 merge=0 budget=600s
func DMachineDeep() { newMachine(directive.ValueOptions{}).run(4) }

// DMachineCap does arbitrary operations on the resolvers of a directive with a value cap.
//
//verif:prop D07 D10
//verif:bounds as DMachine with a soft or hard value cap of 1 or 2
//verif:quick preempt=0 merge=0
func DMachineCap() {
	newMachine(directive.ValueOptions{MaxValueCount: 1 + sym.Choose("cap", 2), MaxValueHardCap: sym.Bool("hard")}).run(3)
}

// DMachineCapDeep does more operations.
//
//verif:prop D07 D10
//verif:bounds as DMachineCap with 4 (3) operations
//verif:quick skip=1
//verif:thorough preempt=0 skip=0 merge=0 budget=600s
func DMachineCapDeep() {
	newMachine(directive.ValueOptions{MaxValueCount: 1 + sym.Choose("cap", 2), MaxValueHardCap: sym.Bool("hard")}).run(4)
}
