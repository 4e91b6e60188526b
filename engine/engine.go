package main

import (
	"container/heap"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

func sortStrings(s []string) { sort.Strings(s) }

// Options bound an exploration.
type Options struct {
	Preempt       int  // preemption bound; -1 unlimited
	Delay         bool // every deviation from the default order counts as a preemption
	MaxSteps      int64
	MaxThreads    int
	MapOrder      int // symbolic map iteration order for maps up to this size
	MergeDiff     int
	NoMerge       bool
	Race          bool // look for data races
	RaceProbes    int  // number of probes per pair of positions
	RaceDepth     int  // number of segments of the second thread
	TimersAnytime bool
	Budget        time.Duration
	SolverTO      time.Duration
	YieldLocks    bool
	Debug         bool
	Skip          bool
	MaxStates     int
	Witnesses     int
}

func (o *Options) noYield(k PendKind) bool { return false }

type Stats struct {
	Steps, SchedSteps int64
	Forks, Merges     int
	IteMerges         int
	Canon             int
	MaxQueue          int
	Paths             int
	Killed            int
	CacheHits         int
	Unknown           int
	SchedVars         int
	SymVars           map[string]bool
	AssertsTotal      int
	AssertsConst      int
	AssertsSolver     int
	RaceProbes        int
	MaxPath           int64
}

type Violation struct {
	Kind  string
	Msg   string
	Where string
	Model map[string]uint64
	Trace []SchedStep

	replayV    *Violation
	replayVars map[string]uint64
	sched      bool
}

// Witness is a completed path with concrete inputs.
type Witness struct {
	Vars   map[string]uint64
	Covers []string
	Steps  int
	Sched  bool
	Mixed  bool
}

type Engine struct {
	memStop  atomic.Bool
	nforks   atomic.Int64
	P        *Program
	S        *TermStore
	solver   *Solver
	opt      Options
	fns      map[*ssa.Function]*FnInfo
	zeros    map[types.Type]Value
	rootPath *PathN
	globals  map[*ssa.Global]int32
	uninit   map[int32]string
	baseNext int32
	initing  bool

	canonGen  uint64
	numBuf    []numEnt
	queueBuf  []int32
	epochs    uint64
	stateIDs  uint64
	seq       int64
	work      workQ
	buckets   map[string]*bucket
	satCache  map[*Term]bool
	implCache map[implKey]bool
	methCache map[methKey]*ssa.Function
	typeIDs   map[types.Type]int64
	typeMap   typeutil.Map
	fnIDs     map[any]int32
	stubs     map[string]int

	stats     Stats
	start     time.Time
	limits    map[string]int
	boundHit  int
	viols     []*Violation
	violSeen  map[string]bool
	covers    map[string]int
	coverAll  map[string]bool
	asserts   map[string]int
	known     map[string]bool
	newViols  int
	witnesses []*Witness

	// concrete replay
	model       map[string]uint64
	modelMemo   map[int32]uint64
	replayVars  map[string]uint64
	replayHit   *Violation
	replayTrace []SchedStep
	raceTarget  string

	probe     *probe
	racePairs map[pairKey]int
	lastTrace *traceNode
}

func newEngine(P *Program, opt Options) *Engine {
	e := &Engine{
		P: P, S: NewTermStore(), opt: opt,
		fns: map[*ssa.Function]*FnInfo{}, zeros: map[types.Type]Value{}, rootPath: &PathN{},
		racePairs: map[pairKey]int{},
		globals:   map[*ssa.Global]int32{}, uninit: map[int32]string{},
		buckets: map[string]*bucket{}, satCache: map[*Term]bool{}, implCache: map[implKey]bool{}, methCache: map[methKey]*ssa.Function{},
		typeIDs: map[types.Type]int64{}, fnIDs: map[any]int32{}, stubs: map[string]int{},
		limits: map[string]int{}, violSeen: map[string]bool{}, covers: map[string]int{}, asserts: map[string]int{}, known: map[string]bool{},
		start: time.Now(),
	}
	e.stats.SymVars = map[string]bool{}
	e.solver = NewSolver(opt.SolverTO)
	return e
}

func (e *Engine) limit(msg string) { e.limits[msg]++ }

func (e *Engine) expired() bool {
	return e.opt.Budget > 0 && time.Since(e.start) > e.opt.Budget
}

// initState allocates globals and runs package initialisers.
func (e *Engine) initState() *State {
	st := &State{epoch: e.newEpoch(), cur: 0, last: -1, counts: map[string]int32{}}
	for _, p := range e.P.order {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				t := g.Type().Underlying().(*types.Pointer).Elem()
				var z Value
				func() {
					defer func() {
						if r := recover(); r != nil {
							z = nil
						}
					}()
					z = e.zero(t)
				}()
				id := e.alloc(st, z, t)
				e.globals[g] = id
				if !initPkg(p.Pkg.Path()) && p.Pkg.Path() != modelPkg && !strings.HasPrefix(p.Pkg.Path(), "github.com/aperturerobotics/") {
					e.uninit[id] = g.String()
				}
			}
		}
	}
	e.initing = true
	for _, p := range e.P.order {
		if !initPkg(p.Pkg.Path()) {
			continue
		}
		e.runInit(st, p)
	}
	e.initing = false
	st.modBase = nil
	e.baseNext = st.heap.next
	st.threads = nil
	st.pc = nil
	st.trace = nil
	st.steps = 0
	st.nextTh = 0
	e.stats.Steps = 0
	return st
}

// runInit executes a package's variable initialisers and init functions, statement by statement.
// An initialiser that cannot be encoded leaves its variable marked as uninitialised.
func (e *Engine) runInit(st *State, p *ssa.Package) {
	p.Build()
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if e.opt.Debug {
				fmt.Fprintf(os.Stderr, "init %s: %v\n", p.Pkg.Path(), r)
			}
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					_ = g
				}
			}
			st.threads = nil
			st.cur = 0
		}
	}()
	fi := e.info(fn)
	th := &Thread{owner: st.epoch, id: 0, name: "init", status: ThRunning}
	f := &Frame{owner: st.epoch, fn: fi, regs: make([]Value, fi.nregs), retDst: -1, prev: -1}
	th.frames = []*Frame{f}
	st.threads = []*Thread{th}
	st.cur = 0
	for {
		th := st.thread(e, 0)
		if len(th.frames) == 0 {
			return
		}
		f := st.top(e, th)
		ins := &f.fn.blocks[f.block].instrs[f.ip]
		// calls to other packages' init functions are skipped (they run in order)
		if len(th.frames) == 1 {
			if c, ok := ins.in.(*ssa.Call); ok {
				if callee, ok := c.Call.Value.(*ssa.Function); ok && callee.Name() == "init" && callee.Pkg != p {
					f.ip++
					continue
				}
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					// abandon this initialiser: pop to the init frame, mark the result unknown
					th := st.thread(e, 0)
					what := fmt.Sprint(r)
					if gp, ok := r.(goPanic); ok {
						what = e.describe(st, gp.val)
					}
					if e.opt.Debug {
						fmt.Fprintf(os.Stderr, "init %s: skipped: %v at %s\n", p.Pkg.Path(), what, e.where(st))
					}
					th.frames = th.frames[:1]
					f := st.top(e, th)
					blk := &f.fn.blocks[f.block]
					ci := &blk.instrs[f.ip]
					e.poison(st, f, ci)
				}
			}()
			e.exec(st, th, f, ins)
		}()
	}
}

// poison skips a failed initialiser instruction and everything depending on it, up to the
// stores into globals, which are marked uninitialised.
func (e *Engine) poison(st *State, f *Frame, ci *Instr) {
	if ci.dst < 0 {
		if s, ok := ci.in.(*ssa.Store); ok {
			if g, ok := s.Addr.(*ssa.Global); ok {
				e.uninit[e.globals[g]] = g.String()
			}
		}
		f.ip++
		return
	}
	// mark users
	if v, ok := ci.in.(ssa.Value); ok && v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					e.uninit[e.globals[g]] = g.String()
				}
			}
		}
	}
	var z Value
	func() {
		defer func() { recover() }()
		if v, ok := ci.in.(ssa.Value); ok {
			z = e.zero(v.Type())
		}
	}()
	f.regs[ci.dst] = z
	f.ip++
}

// Run explores harness function fn.
func (e *Engine) Run(st *State, fn *ssa.Function) (err error) {
	fi := e.info(fn)
	if !fi.body {
		return fmt.Errorf("harness %s has no body", fi.name)
	}
	defer func() {
		if r := recover(); r != nil {
			if inc, ok := r.(Incomplete); ok {
				err = inc
				return
			}
			err = fmt.Errorf("engine failure: %v", r)
			if e.opt.Debug {
				panic(r)
			}
		}
		e.solver.Close()
	}()
	watch(e)
	defer unwatch(e)
	s := e.startState(st, fi)
	e.push(s, false)
	for e.work.Len() > 0 {
		if e.expired() {
			e.limit("time budget reached")
			e.boundHit++
			break
		}
		if e.memStop.Load() {
			e.limit("memory bound reached")
			e.boundHit++
			break
		}
		s := e.pop()
		e.run(s)
		e.nforks.Store(int64(e.stats.Forks))
		if e.newViols > 0 {
			break
		}
		if e.opt.MaxStates > 0 && e.stats.Forks > e.opt.MaxStates {
			e.limit("state bound reached")
			e.boundHit++
			break
		}
	}
	return nil
}

func (e *Engine) startState(base *State, fi *FnInfo) *State {
	s := e.clone(base)
	fi.calls++
	s.threads = []*Thread{{owner: s.epoch, id: 0, name: "main", status: ThRunning, frames: []*Frame{{owner: s.epoch, fn: fi, regs: make([]Value, fi.nregs), retDst: -1, prev: -1}}}}
	s.nextTh = 1
	s.cur = 0
	s.last = -1
	return s
}

// Replay re-executes the harness under a fixed assignment of all symbolic variables.
func (e *Engine) Replay(base *State, fn *ssa.Function, model map[string]uint64) (v *Violation, vars map[string]uint64, err error) {
	e.model = model
	e.modelMemo = map[int32]uint64{}
	e.replayVars = map[string]uint64{}
	e.replayHit = nil
	e.work = nil
	heap.Init(&e.work)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("replay: %v", r)
		}
		vars = e.replayVars
		v = e.replayHit
		e.model = nil
	}()
	s := e.startState(base, e.info(fn))
	e.run(s)
	e.replayTrace = traceOf(s)
	return
}

func (e *Engine) endPath(st *State) {
	e.stats.Paths++
	e.stats.MaxPath = max(e.stats.MaxPath, st.steps)
	if e.model == nil && len(e.witnesses) < e.opt.Witnesses && (e.stats.Paths == 1 || e.stats.Paths%7 == 0) {
		m := map[string]uint64{}
		if e.solver.Check(st.pcList(), e.S.vars, m) == Sat {
			w := &Witness{Vars: map[string]uint64{}, Mixed: st.covMixed}
			for k, v := range m {
				if strings.HasPrefix(k, "sched@") {
					w.Sched = true
					continue
				}
				if strings.HasPrefix(k, "select#") || strings.HasPrefix(k, "waiter#") {
					w.Sched = true
				}
				w.Vars[k] = v
			}
			for n := range st.coverSet() {
				w.Covers = append(w.Covers, n)
			}
			sort.Strings(w.Covers)
			for t := st.trace; t != nil; t = t.prev {
				w.Steps++
			}
			e.witnesses = append(e.witnesses, w)
		}
	}
}

func (e *Engine) assume(st *State, c *Term) {
	if e.probe != nil {
		panic(probeEnd{})
	}
	if e.model != nil {
		if c.Eval(e.model, e.modelMemo) == 0 {
			panic(killPath{})
		}
		return
	}
	if c.IsConst() {
		if c.K == 0 {
			panic(killPath{})
		}
		return
	}
	if !e.feasible(st, c) {
		panic(killPath{})
	}
	st.addPC(c)
}

func (e *Engine) assert(st *State, c *Term, msg string) {
	if e.probe != nil {
		panic(probeEnd{})
	}
	e.stats.AssertsTotal++
	e.asserts[msg]++
	if e.model != nil {
		if c.Eval(e.model, e.modelMemo) == 0 {
			e.replayViolation(st, "assert", msg)
			panic(killPath{})
		}
		return
	}
	if c == e.S.True {
		e.stats.AssertsConst++
		return
	}
	e.stats.AssertsSolver++
	if e.feasible(st, e.S.Not(c)) {
		e.violationCond(st, "assert", msg, e.where(st), e.S.Not(c))
		if !e.known[msg] || !e.feasible(st, c) {
			panic(killPath{})
		}
		st.addPC(c)
	}
}

func (e *Engine) cover(st *State, name string) {
	if e.probe != nil {
		panic(probeEnd{})
	}
	e.covers[name]++
	st.cov = &covNode{prev: st.cov, name: name}
}

type covNode struct {
	prev *covNode
	name string
}

func (st *State) coverSet() map[string]bool {
	m := map[string]bool{}
	for c := st.cov; c != nil; c = c.prev {
		m[c.name] = true
	}
	return m
}

func (e *Engine) replayViolation(st *State, kind, msg string) {
	if e.replayHit == nil {
		e.replayHit = &Violation{Kind: kind, Msg: msg, Where: e.where(st), Trace: traceOf(st)}
	}
}

func traceOf(st *State) []SchedStep {
	var out []SchedStep
	for t := st.trace; t != nil; t = t.prev {
		out = append(out, t.step)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Engine) violation(st *State, kind, msg, where string) {
	if e.probe != nil {
		panic(probeEnd{})
	}
	if e.model != nil {
		e.replayViolation(st, kind, msg)
		return
	}
	e.violationCond(st, kind, msg, where, e.S.True)
}

func (e *Engine) violationCond(st *State, kind, msg, where string, cond *Term) {
	conj := st.pcList()
	if !cond.IsConst() {
		conj = append(conj, cond)
	}
	m := map[string]uint64{}
	res := e.solver.Check(conj, e.S.vars, m)
	if res == Unsat {
		return
	}
	if res == Unknown {
		e.limit("solver returned unknown on a violation query")
		return
	}
	if e.known[msg] {
		if e.violSeen[msg] {
			return
		}
		e.violSeen[msg] = true
	} else {
		e.newViols++
	}
	e.viols = append(e.viols, &Violation{Kind: kind, Msg: msg, Where: where, Model: m, Trace: traceOf(st)})
}
