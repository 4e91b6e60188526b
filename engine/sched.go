package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) inModel(st *State) bool {
	if st.cur < 0 {
		return false
	}
	th := st.threads[st.cur]
	if len(th.frames) == 0 {
		return false
	}
	return th.frames[len(th.frames)-1].fn.isModel
}

// inGoTools checks if the current function is part of the packages for Go source code, whose
// results do not depend on the order of maps.
func (e *Engine) inGoTools(st *State) bool {
	th := st.threads[st.cur]
	fn := th.frames[len(th.frames)-1].fn.fn
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "go/")
}

func (e *Engine) spawn(st *State, fv *FuncV, args []Value, name string) *Thread {
	th := &Thread{owner: st.epoch, id: st.nextTh, name: name, status: ThPending, pend: &Pending{kind: PkPoint, loc: "start"}}
	st.nextTh++
	// drop finished threads to keep states small, never thread 0
	n := st.threads[:0:0]
	n = append(n, st.threads...)
	st.threads = append(n, th)
	if fv == nil {
		e.rtPanic(st, "go of nil func value")
	}
	if fv.Native != "" {
		panic(incomplete("go of native %s", fv.Native))
	}
	fi := e.info(fv.Fn)
	if fi.redir != nil {
		fi = e.info(fi.redir)
	}
	if fi.native != nil || fi.stub || !fi.body {
		// run it through a tiny trampoline: execute natively when scheduled
		panic(incomplete("go of function without body %s", fi.name))
	}
	fi.calls++
	nf := &Frame{owner: st.epoch, fn: fi, regs: make([]Value, fi.nregs), retDst: -1, prev: -1}
	copy(nf.regs, args)
	copy(nf.regs[len(args):], fv.Binds)
	th.frames = []*Frame{nf}
	if len(e.liveThreads(st)) > e.opt.MaxThreads {
		panic(incomplete("thread bound reached"))
	}
	return th
}

func (e *Engine) liveThreads(st *State) []int32 {
	var out []int32
	for i, t := range st.threads {
		if t.status != ThDone {
			out = append(out, int32(i))
		}
	}
	return out
}

// point is a scheduling point for the current thread. It returns normally once the
// scheduler granted the operation; otherwise it parks the thread.
func (e *Engine) point(st *State, p Pending) {
	th := st.thread(e, st.cur)
	if th.granted {
		th.granted = false
		th.pend = nil
		st.grantedNow = true
		return
	}
	if e.inModel(st) && p.kind == PkPoint && p.loc != "model" {
		return
	}
	if e.opt.Race {
		e.racePoint(st, &p)
		th = st.thread(e, st.cur)
	}
	if p.kind != PkQuiesce && p.kind != PkTimer && e.pendReady(st, int(st.cur), &p) {
		// no other runnable thread: continue without a decision
		others := false
		for i := range st.threads {
			if int32(i) != st.cur && st.threads[i].status == ThPending && e.threadEnabled(st, i, false) {
				others = true
				break
			}
		}
		if !others {
			return
		}
		if st.preempt >= int32(e.opt.Preempt) && e.opt.Preempt >= 0 {
			return
		}
	}
	if p.loc == "" {
		p.loc = e.shortWhere(st)
	}
	th.status = ThPending
	th.pend = &p
	panic(yieldAbort{})
}

func (e *Engine) shortWhere(st *State) string {
	th := st.threads[st.cur]
	for i := len(th.frames) - 1; i >= 0; i-- {
		f := th.frames[i]
		if f.fn.isModel {
			continue
		}
		b := f.fn.blocks[f.block]
		if int(f.ip) < len(b.instrs) {
			return f.fn.name + "@" + e.pos(b.instrs[f.ip].in.Pos())
		}
	}
	return "?"
}

func (e *Engine) lockState(st *State, p Ptr) LockV {
	if p.Obj < 0 {
		e.rtPanic(st, "invalid memory address or nil pointer dereference")
	}
	v := e.load(st, p)
	if l, ok := v.(LockV); ok {
		return l
	}
	return LockV{}
}

func (e *Engine) pendReady(st *State, ti int, p *Pending) bool {
	switch p.kind {
	case PkPoint, PkTimer:
		return true
	case PkLock:
		l := e.lockState(st, p.ptr)
		return l.Owner == 0 && l.Readers == 0
	case PkRLock:
		return e.lockState(st, p.ptr).Owner == 0
	case PkRecv:
		return e.recvReady(st, ti, p.ch)
	case PkSend:
		return e.sendReady(st, ti, p.ch)
	case PkSelect:
		if !p.blocking {
			return true
		}
		for _, c := range p.cases {
			if c.send && e.sendReady(st, ti, c.ch) || !c.send && e.recvReady(st, ti, c.ch) {
				return true
			}
		}
		return false
	case PkWait:
		return p.ready(e, st)
	case PkQuiesce:
		return false
	}
	panic("pend")
}

// threadEnabled reports whether the scheduler may run thread i. Timer threads are
// excluded unless timers is set.
func (e *Engine) threadEnabled(st *State, i int, timers bool) bool {
	t := st.threads[i]
	if t.status != ThPending || t.pend == nil {
		return false
	}
	if t.pend.kind == PkTimer && !timers && !e.opt.TimersAnytime {
		return false
	}
	if t.pend.kind == PkTimer && !e.timersArmed(st) {
		return false
	}
	return e.pendReady(st, i, t.pend)
}

// schedule takes a scheduling decision; returns false if the state was consumed.
func (e *Engine) schedule(st *State) bool {
	var en []int
	quiesce := -1
	for i, t := range st.threads {
		if t.status == ThRunning {
			panic("running thread at a scheduling decision")
		}
		if t.status == ThPending && t.pend.kind == PkQuiesce {
			quiesce = i
			continue
		}
		if e.threadEnabled(st, i, false) {
			en = append(en, i)
		}
	}
	if len(en) == 0 && quiesce >= 0 {
		en = append(en, quiesce)
	}
	if len(en) == 0 {
		for i, t := range st.threads {
			if t.status == ThPending && t.pend.kind == PkTimer && e.threadEnabled(st, i, true) {
				en = append(en, i)
			}
		}
	}
	if len(en) == 0 {
		if st.threads[0].status == ThDone {
			e.endPath(st)
			return false
		}
		e.violation(st, "deadlock", "main blocked with no runnable thread: "+e.blockedDesc(st), "")
		return false
	}
	pick := en[0]
	if len(en) > 1 {
		// preemption bound: switching away from a thread that could continue costs one
		lastEnabled := false
		for _, i := range en {
			if int32(i) == st.last {
				lastEnabled = true
			}
		}
		exhausted := e.opt.Preempt >= 0 && st.preempt >= int32(e.opt.Preempt)
		if lastEnabled && exhausted {
			pick = int(st.last)
		} else if e.opt.Delay && exhausted {
			pick = en[0]
		} else {
			if lastEnabled {
				// order: continuing thread first
				n := []int{int(st.last)}
				for _, i := range en {
					if int32(i) != st.last {
						n = append(n, i)
					}
				}
				en = n
			}
			st.level++
			k := e.schedChoice(st, len(en), func(s *State, k int) {
				e.grant(s, en[k], lastEnabled || e.opt.Delay && k > 0)
			})
			pick = en[k]
			e.grant(st, pick, lastEnabled || e.opt.Delay && k > 0)
			return true
		}
		e.grant(st, pick, lastEnabled)
		return true
	}
	e.grant(st, pick, false)
	return true
}

func (e *Engine) grant(st *State, i int, lastEnabled bool) {
	th := st.thread(e, int32(i))
	if lastEnabled && int32(i) != st.last {
		st.preempt++
	}
	st.trace = &traceNode{prev: st.trace, step: SchedStep{Thread: th.id, Name: th.name, Loc: th.pend.loc}}
	e.stats.SchedSteps++
	th.status = ThRunning
	if th.pend.kind == PkPoint && th.pend.loc == "start" {
		th.pend = nil
		th.granted = false
	} else {
		th.granted = true
	}
	st.cur = int32(i)
}

// schedChoice introduces the symbolic scheduling variables of this decision and forks
// over them; the other successors are completed by apply and queued.
func (e *Engine) schedChoice(st *State, n int, apply func(s *State, k int)) int {
	if e.model != nil {
		for k := 0; k < n-1; k++ {
			if e.model[fmt.Sprintf("sched@%d.%d", st.level, k)] != 0 {
				return k
			}
		}
		return n - 1
	}
	e.stats.SchedVars += n - 1
	var neg []*Term
	for k := 0; k < n-1; k++ {
		neg = append(neg, e.S.Var(fmt.Sprintf("sched@%d.%d", st.level, k), 0))
	}
	for k := 1; k < n; k++ {
		s := e.clone(st)
		for j := 0; j < k; j++ {
			s.addPC(e.S.Not(neg[j]))
		}
		if k < n-1 {
			s.addPC(neg[k])
		}
		apply(s, k)
		e.push(s, false)
	}
	st.addPC(neg[0])
	return 0
}

// choose is a data choice in [0,n) forked over a symbolic variable.
func (e *Engine) choose(st *State, name string, n int) int {
	c := e.count(st, name)
	k := n - 1
	if e.model != nil {
		for i := 0; i < n-1; i++ {
			full := fmt.Sprintf("%s#%d.%d", name, c, i)
			e.replayVars[full] = e.model[full] & 1
			if e.model[full] != 0 {
				k = i
				break
			}
		}
		e.incCount(st, name)
		return k
	}
	for i := 0; i < n-1; i++ {
		v := e.S.Var(fmt.Sprintf("%s#%d.%d", name, c, i), 0)
		if e.branch(st, v) {
			k = i
			break
		}
	}
	e.incCount(st, name)
	return k
}

func (e *Engine) count(st *State, name string) int32 { return st.counts[name] }
func (e *Engine) incCount(st *State, name string) {
	m := make(map[string]int32, len(st.counts)+1)
	for k, v := range st.counts {
		m[k] = v
	}
	m[name]++
	st.counts = m
}

func (e *Engine) blockedDesc(st *State) string {
	s := ""
	for _, t := range st.threads {
		if t.status == ThPending {
			s += fmt.Sprintf("[T%d %s at %s]", t.id, t.name, t.pend.loc)
		}
	}
	return s
}

// ---- channels ----

func (e *Engine) chobj(st *State, ch int32) *ChanObj { return st.get(ch).Val.(*ChanObj) }

// waitingOn finds threads other than ti parked at a send/recv on ch.
func (e *Engine) waitingOn(st *State, ti int, ch int32, send bool) []int {
	var out []int
	for i, t := range st.threads {
		if i == ti || t.status != ThPending || t.pend == nil {
			continue
		}
		p := t.pend
		switch p.kind {
		case PkSend:
			if send && p.ch == ch {
				out = append(out, i)
			}
		case PkRecv:
			if !send && p.ch == ch {
				out = append(out, i)
			}
		case PkSelect:
			if !p.blocking {
				continue
			}
			for _, c := range p.cases {
				if c.ch == ch && c.send == send {
					out = append(out, i)
					break
				}
			}
		}
	}
	return out
}

func (e *Engine) recvReady(st *State, ti int, ch int32) bool {
	if ch < 0 {
		return false
	}
	c := e.chobj(st, ch)
	return len(c.Buf) > 0 || c.Closed || len(e.waitingOn(st, ti, ch, true)) > 0
}

func (e *Engine) sendReady(st *State, ti int, ch int32) bool {
	if ch < 0 {
		return false
	}
	c := e.chobj(st, ch)
	return c.Closed || int32(len(c.Buf)) < c.Cap || len(e.waitingOn(st, ti, ch, false)) > 0
}

func (e *Engine) pickWaiter(st *State, w []int) int {
	if len(w) == 1 {
		return w[0]
	}
	return w[e.choose(st, "waiter", len(w))]
}

// doRecv performs a ready receive.
func (e *Engine) doRecv(st *State, ch int32) (Value, bool) {
	c := e.chobj(st, ch)
	ti := int(st.cur)
	ws := e.waitingOn(st, ti, ch, true)
	if len(c.Buf) > 0 {
		v := c.Buf[0]
		n := *c
		n.Buf = append([]Value(nil), c.Buf[1:]...)
		if len(ws) > 0 {
			w := e.pickWaiter(st, ws)
			sv := e.completeSend(st, w, ch)
			n.Buf = append(n.Buf, sv)
		}
		e.setObj(st, ch, &n)
		return v, true
	}
	if c.Closed {
		return e.zero(c.Elem), false
	}
	w := e.pickWaiter(st, ws)
	return e.completeSend(st, w, ch), true
}

// completeSend finishes the pending send of thread w on ch and returns the value.
func (e *Engine) completeSend(st *State, w int, ch int32) Value {
	th := st.thread(e, int32(w))
	f := st.top(e, th)
	ci := &f.fn.blocks[f.block].instrs[f.ip]
	var v Value
	switch in := ci.in.(type) {
	case *ssa.Send:
		v = e.val(f, &ci.ops[1])
	case *ssa.Select:
		idx := -1
		for i, c := range th.pend.cases {
			if c.send && c.ch == ch {
				idx = i
				v = c.val
				break
			}
		}
		f.regs[ci.dst] = e.selectResult(in, idx, nil, false)
	default:
		panic(incomplete("completeSend on %T", in))
	}
	f.ip++
	th.pend = &Pending{kind: PkPoint, loc: "resume"}
	e.resumed(th)
	return v
}

// resumed marks a thread whose blocking operation was completed by its partner: when it is
// scheduled next it simply continues.
func (e *Engine) resumed(th *Thread) {
	th.pend = &Pending{kind: PkPoint, loc: "start"}
}

func (e *Engine) completeRecv(st *State, w int, ch int32, v Value, ok bool) {
	th := st.thread(e, int32(w))
	f := st.top(e, th)
	ci := &f.fn.blocks[f.block].instrs[f.ip]
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		if in.CommaOk {
			f.regs[ci.dst] = Tuple{v, e.S.Bool(ok)}
		} else {
			f.regs[ci.dst] = v
		}
	case *ssa.Select:
		idx := -1
		for i, c := range th.pend.cases {
			if !c.send && c.ch == ch {
				idx = i
				break
			}
		}
		f.regs[ci.dst] = e.selectResult(in, idx, v, ok)
	default:
		panic(incomplete("completeRecv on %T", in))
	}
	f.ip++
	e.resumed(th)
}

func (e *Engine) doSend(st *State, ch int32, v Value) {
	c := e.chobj(st, ch)
	if c.Closed {
		panic(goPanic{val: e.rtError("send on closed channel")})
	}
	ws := e.waitingOn(st, int(st.cur), ch, false)
	if len(ws) > 0 && len(c.Buf) == 0 {
		w := e.pickWaiter(st, ws)
		e.completeRecv(st, w, ch, v, true)
		return
	}
	n := *c
	n.Buf = append(append([]Value(nil), c.Buf...), v)
	e.setObj(st, ch, &n)
}

func (e *Engine) chanRecv(st *State, th *Thread, ch Chan) (Value, bool) {
	e.point(st, Pending{kind: PkRecv, ch: ch.Obj})
	return e.doRecv(st, ch.Obj)
}

func (e *Engine) chanSend(st *State, th *Thread, ch Chan, v Value) {
	e.point(st, Pending{kind: PkSend, ch: ch.Obj})
	e.doSend(st, ch.Obj, v)
}

func (e *Engine) chanClose(st *State, th *Thread, ch Chan) {
	if ch.Obj < 0 {
		e.rtPanic(st, "close of nil channel")
	}
	e.point(st, Pending{kind: PkPoint})
	c := e.chobj(st, ch.Obj)
	if c.Closed {
		panic(goPanic{val: e.rtError("close of closed channel")})
	}
	n := *c
	n.Closed = true
	e.setObj(st, ch.Obj, &n)
}

func (e *Engine) selectResult(in *ssa.Select, idx int, v Value, ok bool) Value {
	tt := in.Type().(*types.Tuple)
	out := make(Tuple, tt.Len())
	out[0] = e.S.BV(64, uint64(int64(idx)))
	out[1] = e.S.Bool(ok)
	k := 2
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if i == idx {
				out[k] = v
			} else {
				out[k] = e.zero(tt.At(k).Type())
			}
			k++
		}
	}
	return out
}

func (e *Engine) selectOp(st *State, th *Thread, f *Frame, ci *Instr, in *ssa.Select) Value {
	// operands: for each state: Chan, Send
	cases := make([]selCase, len(in.States))
	oi := 0
	for i, s := range in.States {
		c := e.val(f, &ci.ops[oi])
		oi++
		cases[i].ch = c.(Chan).Obj
		if s.Dir == types.SendOnly {
			cases[i].send = true
		}
		cases[i].val = e.val(f, &ci.ops[oi])
		oi++
	}
	e.point(st, Pending{kind: PkSelect, cases: cases, blocking: in.Blocking})
	var ready []int
	for i, c := range cases {
		if c.send && e.sendReady(st, int(st.cur), c.ch) || !c.send && e.recvReady(st, int(st.cur), c.ch) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if in.Blocking {
			panic(incomplete("select granted with no ready case"))
		}
		return e.selectResult(in, -1, nil, false)
	}
	k := ready[0]
	if len(ready) > 1 {
		k = ready[e.choose(st, "select", len(ready))]
	}
	c := cases[k]
	if c.send {
		e.doSend(st, c.ch, c.val)
		return e.selectResult(in, k, nil, false)
	}
	v, ok := e.doRecv(st, c.ch)
	return e.selectResult(in, k, v, ok)
}

func (e *Engine) timersArmed(st *State) bool { return true }
