package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Object is a heap cell; its Val is immutable once shared (owner != state's epoch).
type Object struct {
	enc   *enc
	Val   Value
	Type  types.Type // element type for diagnostics; may be nil
	owner uint64
}

const pageBits = 6
const pageSize = 1 << pageBits

type page struct {
	owner uint64
	objs  [pageSize]*Object
}

// Heap is a copy-on-write paged vector of objects.
type Heap struct {
	pages []*page
	owner uint64
	next  int32
}

type ThreadStatus uint8

const (
	ThRunning ThreadStatus = iota // runnable in the middle of code
	ThPending                     // stopped before a synchronisation instruction
	ThDone
)

type Deferred struct {
	fn    *FuncV
	args  []Value
	instr *ssa.Defer
}

type Frame struct {
	enc     *enc
	encWait bool
	owner   uint64
	fn      *FnInfo
	regs    []Value
	block   int32
	ip      int32
	prev    int32
	defers  []*Deferred
	binds   []Value

	// call result destination in the caller
	retDst int32 // register in the caller frame, -1: discard
	// isDefer marks a frame invoked as a deferred call of the frame below.
	isDefer bool
	// panicking state of this frame (running its defers because of a panic)
	panicking bool
	recovered bool
	panicVal  Value
	goexit    bool
	inDefers  bool // executing RunDefers
	atomic    bool // executing in atomic (model) mode
	onReturn  func(e *Engine, st *State, res Value)
	retTag    string
}

type Thread struct {
	enc    *enc
	owner  uint64
	id     int32
	name   string
	frames []*Frame
	status ThreadStatus
	timer  bool // environment thread (timer): firing is optional
	// pending operation (when status == ThPending)
	pend *Pending
	// granted: the scheduler let the thread execute its pending operation
	granted bool
	atomic  int32
	daemon  bool
	// quiesce-exempt
	label string
}

type PendKind uint8

const (
	PkNone PendKind = iota
	PkPoint
	PkLock
	PkRLock
	PkRecv
	PkSend
	PkSelect
	PkQuiesce
	PkTimer
	PkWait // wait until a native predicate holds
)

type Pending struct {
	kind     PendKind
	ptr      Ptr
	ch       int32
	blocking bool
	cases    []selCase
	ready    func(e *Engine, st *State) bool
	loc      string
}

type selCase struct {
	send bool
	ch   int32
	val  Value
}

type SchedStep struct {
	Thread int32
	Name   string
	Loc    string
}

// trace is a persistent list of schedule steps / inputs.
type traceNode struct {
	prev *traceNode
	step SchedStep
}

type pcNode struct {
	prev *pcNode
	c    *Term
	n    int
}

type State struct {
	id         uint64
	epoch      uint64
	heap       Heap
	threads    []*Thread
	cur        int32 // running thread index, -1 at a scheduling decision
	last       int32 // last thread which ran
	level      int32
	grantedNow bool
	preempt    int32
	pc         *pcNode
	trace      *traceNode
	cov        *covNode
	covMixed   bool
	counts     map[string]int32 // symbolic-variable name counters (copy on write)
	cown       uint64
	nextTh     int32
	steps      int64
	ghost      map[string]Value // engine-level per-state values used by native models (copy on write)
	gown       uint64
	modBase    map[int32]bool
	mown       uint64
}

func (e *Engine) newEpoch() uint64 { e.epochs++; return e.epochs }

// clone forks the state; both copies get fresh epochs.
func (e *Engine) clone(st *State) *State {
	n := *st
	n.heap.pages = append([]*page(nil), st.heap.pages...)
	n.threads = append([]*Thread(nil), st.threads...)
	e.stateIDs++
	n.id = e.stateIDs
	n.epoch = e.newEpoch()
	st.epoch = e.newEpoch()
	e.stats.Forks++
	return &n
}

func (st *State) get(id int32) *Object {
	return st.heap.pages[id>>pageBits].objs[id&(pageSize-1)]
}

func (e *Engine) alloc(st *State, v Value, t types.Type) int32 {
	id := st.heap.next
	st.heap.next++
	pi := int(id >> pageBits)
	if pi == len(st.heap.pages) {
		st.heap.pages = append(st.heap.pages, &page{owner: st.epoch})
	} else if p := st.heap.pages[pi]; p.owner != st.epoch {
		np := *p
		np.owner = st.epoch
		st.heap.pages[pi] = &np
	}
	st.heap.pages[pi].objs[id&(pageSize-1)] = &Object{Val: v, Type: t, owner: st.epoch}
	return id
}

func (e *Engine) setObj(st *State, id int32, v Value) {
	pi := int(id >> pageBits)
	p := st.heap.pages[pi]
	if p.owner != st.epoch {
		np := *p
		np.owner = st.epoch
		p = &np
		st.heap.pages[pi] = p
	}
	o := p.objs[id&(pageSize-1)]
	if o.owner != st.epoch {
		no := *o
		no.owner = st.epoch
		no.enc = nil
		o = &no
		p.objs[id&(pageSize-1)] = o
	}
	o.Val = v
	if id < e.baseNext {
		if st.mown != st.epoch || st.modBase == nil {
			m := make(map[int32]bool, len(st.modBase)+1)
			for k := range st.modBase {
				m[k] = true
			}
			st.modBase = m
			st.mown = st.epoch
		}
		st.modBase[id] = true
	}
}

func (st *State) thread(e *Engine, i int32) *Thread {
	t := st.threads[i]
	if t.owner != st.epoch {
		nt := *t
		nt.owner = st.epoch
		nt.enc = nil
		nt.frames = append([]*Frame(nil), t.frames...)
		st.threads[i] = &nt
		t = &nt
	}
	return t
}

func (st *State) top(e *Engine, t *Thread) *Frame {
	n := len(t.frames) - 1
	return st.frame(e, t, n)
}

func (st *State) frame(e *Engine, t *Thread, n int) *Frame {
	f := t.frames[n]
	if f.owner != st.epoch {
		nf := *f
		nf.owner = st.epoch
		nf.enc = nil
		nf.regs = append([]Value(nil), f.regs...)
		nf.defers = append([]*Deferred(nil), f.defers...)
		t.frames[n] = &nf
		f = &nf
	}
	return f
}

func (st *State) addPC(c *Term) {
	if c.Op == OpAnd {
		for _, a := range c.Args {
			st.addPC(a)
		}
		return
	}
	if c.Op == OpConst && c.K == 1 {
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{prev: st.pc, c: c, n: n}
}

func (st *State) pcList() []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.prev {
		out = append(out, p.c)
	}
	return out
}

// load reads the value at a pointer.
func (e *Engine) load(st *State, p Ptr) Value {
	if p.Obj < 0 {
		e.rtPanic(st, "invalid memory address or nil pointer dereference")
	}
	v := st.get(p.Obj).Val
	for _, i := range p.Path.indices() {
		switch c := v.(type) {
		case *StructV:
			v = c.F[i]
		case *ArrayV:
			if int(i) >= len(c.E) {
				e.rtPanic(st, "index out of range (pointer)")
			}
			v = c.E[i]
		default:
			panic(incomplete("load path through %T", v))
		}
	}
	return v
}

func setPath(v Value, path []int32, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch c := v.(type) {
	case *StructV:
		f := append([]Value(nil), c.F...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return &StructV{F: f}
	case *ArrayV:
		f := append([]Value(nil), c.E...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return &ArrayV{E: f}
	}
	panic(incomplete("store path through %T", v))
}

func (e *Engine) store(st *State, p Ptr, v Value) {
	if p.Obj < 0 {
		e.rtPanic(st, "invalid memory address or nil pointer dereference")
	}
	if p.Path == nil || p.Path.Len == 0 {
		e.setObj(st, p.Obj, v)
		return
	}
	e.setObj(st, p.Obj, setPath(st.get(p.Obj).Val, p.Path.indices(), v))
}
