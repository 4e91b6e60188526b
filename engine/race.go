package main

import "strings"

// Data races. Whenever a thread is about to execute a synchronisation operation (or a go
// statement), that operation and the memory accesses up to the next one (its segment) are
// executed in a copy of the state, followed by the segment of every other thread that is
// enabled then. Nothing synchronises the accesses of the two segments, so a conflict is a
// data race. Only accesses by the code under test count.

type probeEnd struct{}

type raceAcc struct {
	write bool
	where string
}

// probe is a running segment.
type probe struct {
	acc  raceSet
	alts []segEnd // states left to execute: the other sides of branches
	max  int
}

// raceSet are the accesses of a segment.
type raceSet map[int32]map[*PathN]*raceAcc

func (s raceSet) clone() raceSet {
	n := make(raceSet, len(s))
	for o, m := range s {
		nm := make(map[*PathN]*raceAcc, len(m))
		for p, a := range m {
			c := *a
			nm[p] = &c
		}
		n[o] = nm
	}
	return n
}

// segEnd is the state after a segment and its accesses.
type segEnd struct {
	st  *State
	acc raceSet
}

// siteKey identifies the position of a thread.
type siteKey [6]int64

func (e *Engine) site(t *Thread) (k siteKey) {
	n := 0
	for i := len(t.frames) - 1; i >= 0 && n < 6; i-- {
		f := t.frames[i]
		if f.fn.isModel && i > 0 {
			continue
		}
		k[n] = int64(f.fn.id)<<32 | int64(f.block)<<16 | int64(f.ip)
		n++
	}
	return
}

type pairKey struct {
	a, b siteKey
	k    PendKind
}

// underTest says whether the innermost frame outside of the standard library belongs to the
// code under test.
func (e *Engine) underTest(t *Thread) bool {
	for i := len(t.frames) - 1; i >= 0; i-- {
		fi := t.frames[i].fn
		if fi.isModel {
			return false
		}
		switch fi.origin {
		case 0:
			fi.origin = originOf(fi.pkg)
			i++
		case 1: // standard library
		case 2:
			return true
		case 3:
			return false
		}
	}
	return false
}

func originOf(pkg string) int8 {
	switch {
	case strings.Contains(pkg, "/zzverif/"):
		return 3
	case strings.HasPrefix(pkg, "github.com/aperturerobotics/"):
		return 2
	case strings.Contains(strings.SplitN(pkg, "/", 2)[0], "."):
		return 3
	}
	return 1
}

// access records an access of the running segment.
func (e *Engine) access(st *State, p Ptr, write bool) {
	if e.probe == nil || p.Obj < 0 || !e.underTest(st.threads[st.cur]) {
		return
	}
	m := e.probe.acc[p.Obj]
	if m == nil {
		m = map[*PathN]*raceAcc{}
		e.probe.acc[p.Obj] = m
	}
	a := m[p.Path]
	if a == nil {
		m[p.Path] = &raceAcc{write: write, where: e.shortWhere(st)}
	} else if write && !a.write {
		a.write, a.where = true, e.shortWhere(st)
	}
}

func (e *Engine) accessMap(st *State, m Map, write bool) {
	if e.probe != nil {
		e.access(st, Ptr{Obj: m.Obj}, write)
	}
}

func (e *Engine) accessSlice(st *State, s Slice, off, n int32, write bool) {
	if e.probe == nil || s.Obj < 0 {
		return
	}
	for i := int32(0); i < n; i++ {
		e.access(st, Ptr{Obj: s.Obj, Path: e.path(s.Path, s.Off+off+i)}, write)
	}
}

// racePoint is called before the current thread executes the synchronisation operation p.
// It ends the segment of a probe.
func (e *Engine) racePoint(st *State, p *Pending) {
	th := st.threads[st.cur]
	if e.probe != nil {
		if th.granted {
			return
		}
		// the operation is the next segment
		nt := st.thread(e, st.cur)
		pc := *p
		nt.status, nt.pend = ThPending, &pc
		st.last, st.cur = st.cur, -1
		panic(probeEnd{})
	}
	if !e.opt.Race || th.granted || e.initing || p.kind == PkTimer || p.kind == PkQuiesce {
		return
	}
	if !e.pendReady(st, int(st.cur), p) {
		return
	}
	var others []int
	var sa siteKey
	for i, t := range st.threads {
		if int32(i) == st.cur || t.status != ThPending || t.pend == nil || t.pend.kind == PkQuiesce || t.pend.kind == PkTimer && !e.opt.TimersAnytime {
			continue
		}
		if others == nil {
			sa = e.site(th)
		}
		if e.model == nil {
			pk := pairKey{sa, e.site(t), p.kind}
			if e.racePairs[pk] >= e.opt.RaceProbes {
				continue
			}
			e.racePairs[pk]++
		}
		others = append(others, i)
	}
	if len(others) == 0 {
		return
	}
	forks := e.stats.Forks
	defer func() { e.stats.Forks = forks }()
	n := e.clone(st)
	nt := n.thread(e, n.cur)
	nt.status = ThPending
	pc := *p
	if pc.loc == "" {
		pc.loc = e.shortWhere(st)
	}
	nt.pend = &pc
	n.last = n.cur
	first := int(n.cur)
	n.cur = -1
	for _, a := range e.segment(n, first, 6) {
		if len(a.acc) == 0 {
			continue
		}
		for _, i := range others {
			// the first thread is paused and releases nothing after its accesses, so
			// nothing orders them before those of any later segment of the other one.
			front := []*State{a.st}
			for k := 0; k < e.opt.RaceDepth && len(front) > 0; k++ {
				var next []*State
				for _, s := range front {
					t := s.threads[i]
					if t.status != ThPending || t.pend == nil || t.pend.kind == PkQuiesce || t.pend.kind == PkTimer && !e.opt.TimersAnytime || !e.pendReady(s, i, t.pend) {
						continue
					}
					e.stats.RaceProbes++
					for _, b := range e.segment(e.clone(s), i, 10) {
						e.conflicts(a.acc, b)
						if len(next) < 4 {
							next = append(next, b.st)
						}
					}
				}
				front = next
			}
		}
	}
}

// conflicts reports the conflicting accesses of two adjacent segments.
func (e *Engine) conflicts(a raceSet, b segEnd) {
	found, where := "", ""
	for obj, pa := range a {
		pb := b.acc[obj]
		if pb == nil {
			continue
		}
		for x, ax := range pa {
			for y, by := range pb {
				if !(ax.write || by.write) || !isPrefix(x, y) && !isPrefix(y, x) {
					continue
				}
				l, r := ax.where, by.where
				if l > r {
					l, r = r, l
				}
				msg := "data race between " + fnOf(l) + " and " + fnOf(r)
				if e.raceTarget != "" && msg != e.raceTarget {
					continue
				}
				if found == "" || msg < found {
					found, where = msg, l+" and "+r
				}
			}
		}
	}
	if found != "" {
		e.violation(b.st, "race", found, where)
		if e.model != nil || !e.known[found] {
			panic(killPath{})
		}
	}
}

func fnOf(where string) string { return strings.SplitN(where, "@", 2)[0] }

func isPrefix(x, y *PathN) bool {
	a, b := x.indices(), y.indices()
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// segment executes the pending operation of thread i and what follows up to the next one, on
// up to max paths.
func (e *Engine) segment(st *State, i, max int) (ends []segEnd) {
	e.probe = &probe{acc: raceSet{}, max: max}
	steps, granted := e.stats.Steps, e.stats.SchedSteps
	defer func() {
		e.probe = nil
		e.stats.Steps, e.stats.SchedSteps = steps, granted
	}()
	e.segmentPath(st, i)
	ends = append(ends, segEnd{st, e.probe.acc})
	for len(e.probe.alts) > 0 {
		x := e.probe.alts[len(e.probe.alts)-1]
		e.probe.alts = e.probe.alts[:len(e.probe.alts)-1]
		e.probe.acc = x.acc
		e.segmentPath(x.st, -1)
		ends = append(ends, segEnd{x.st, x.acc})
	}
	return
}

// segmentPath executes one path of a segment; i is the thread to start, if any.
func (e *Engine) segmentPath(st *State, i int) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case probeEnd, yieldAbort, killPath, Incomplete, goPanic:
			default:
				panic(r)
			}
			// do not continue a half executed operation
			if st.cur >= 0 {
				th := st.thread(e, st.cur)
				th.status = ThDone
				st.cur = -1
			}
		}
	}()
	if i >= 0 {
		e.grant(st, i, false)
	}
	for n := 0; n < 20000; n++ {
		th := st.thread(e, st.cur)
		if len(th.frames) == 0 {
			panic(probeEnd{})
		}
		st.steps++
		f := st.top(e, th)
		if f.panicking && !f.inDefers {
			panic(probeEnd{})
		}
		ins := &f.fn.blocks[f.block].instrs[f.ip]
		st.grantedNow = false
		e.exec(st, th, f, ins)
	}
}

// release is called before an operation which is not a scheduling point but ends or starts a segment.
func (e *Engine) release(st *State) {
	if !e.opt.Race {
		return
	}
	th := st.thread(e, st.cur)
	if e.probe != nil && th.granted {
		th.granted = false
		th.pend = nil
		return
	}
	if e.inModel(st) && e.probe == nil {
		return
	}
	e.racePoint(st, &Pending{kind: PkPoint})
}
