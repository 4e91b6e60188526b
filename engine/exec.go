package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers ----

func (e *Engine) rtPanic(st *State, msg string) {
	panic(goPanic{val: e.rtError(msg)})
}

// rtError builds a runtime.Error interface value carrying the message.
func (e *Engine) rtError(msg string) Iface {
	return Iface{T: e.P.rtErrType, V: "runtime error: " + msg}
}

func (e *Engine) branch(st *State, c *Term) bool {
	if c.IsConst() {
		return c.K != 0
	}
	nc := e.S.Not(c)
	if e.model != nil { // concrete replay
		return c.Eval(e.model, e.modelMemo) != 0
	}
	for p := st.pc; p != nil; p = p.prev {
		if p.c == c {
			return true
		}
		if p.c == nc {
			return false
		}
	}
	t := e.feasible(st, c)
	if !t {
		return false
	}
	f := e.feasible(st, nc)
	if !f {
		return true
	}
	if e.probe != nil && e.probe.max <= 0 {
		st.addPC(c)
		return true
	}
	n := e.clone(st)
	if st.grantedNow {
		nt := n.thread(e, n.cur)
		nt.granted = true
		nt.pend = &Pending{kind: PkPoint, loc: "re-exec"}
	}
	n.addPC(nc)
	st.addPC(c)
	if e.probe != nil {
		e.probe.max--
		e.probe.alts = append(e.probe.alts, segEnd{n, e.probe.acc.clone()})
		return true
	}
	e.push(n, false)
	return true
}

// relevant returns the conjuncts of the path condition sharing variables (transitively) with c.
func (e *Engine) relevant(st *State, c *Term) []*Term {
	all := st.pcList()
	in := make(map[int32]bool)
	for _, v := range c.vars.ids {
		in[v] = true
	}
	used := make([]bool, len(all))
	out := []*Term{}
	for changed := true; changed; {
		changed = false
		for i, t := range all {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars.ids {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range t.vars.ids {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
				changed = true
			}
		}
	}
	return out
}

func (e *Engine) feasible(st *State, c *Term) bool {
	if c.IsConst() {
		return c.K != 0
	}
	rel := e.relevant(st, c)
	conj := e.S.And(append(rel, c)...)
	if conj.IsConst() {
		return conj.K != 0
	}
	if r, ok := e.satCache[conj]; ok {
		e.stats.CacheHits++
		return r
	}
	res := e.solver.Check(conjuncts(conj), nil, nil)
	if res == Unknown {
		e.stats.Unknown++
		e.limit("solver returned unknown on a feasibility query")
		return true // over-approximate
	}
	e.satCache[conj] = res == Sat
	return res == Sat
}

// concretize forks over the feasible values of t and returns a concrete one.
func (e *Engine) concretize(st *State, t *Term) uint64 {
	if t.IsConst() {
		return t.K
	}
	if e.model != nil {
		return t.Eval(e.model, e.modelMemo)
	}
	for p := st.pc; p != nil; p = p.prev {
		if p.c.Op == OpEq && p.c.Args[0] == t && p.c.Args[1].IsConst() {
			return p.c.Args[1].K
		}
	}
	if t.leaf > 0 {
		// ite tree over constants: enumerate its leaves
		seen := map[uint64]bool{}
		var leaves []uint64
		var walk func(x *Term)
		walk = func(x *Term) {
			if x.Op == OpIte {
				walk(x.Args[1])
				walk(x.Args[2])
				return
			}
			if !seen[x.K] {
				seen[x.K] = true
				leaves = append(leaves, x.K)
			}
		}
		walk(t)
		for _, k := range leaves {
			if e.branch(st, e.S.Eq(t, e.S.BV(t.W, k))) {
				return k
			}
		}
		panic(killPath{})
	}
	for n := 0; n < 300; n++ {
		m := map[string]uint64{}
		rel := e.relevant(st, t)
		var vs []*Term
		for _, id := range t.vars.ids {
			vs = append(vs, e.varByID(id))
		}
		for _, r := range rel {
			_ = r
		}
		// force the variables of t to be defined by including a trivial conjunct
		conj := append(append([]*Term{}, rel...), e.S.mk(OpEq, 0, 0, "", []*Term{t, t}))
		if e.solver.Check(conj, vs, m) != Sat {
			panic(killPath{})
		}
		k := t.Eval(m, map[int32]uint64{})
		if e.branch(st, e.S.Eq(t, e.S.BV(t.W, k))) {
			return k
		}
	}
	panic(incomplete("too many concrete values for a symbolic term"))
}

func (e *Engine) varByID(id int32) *Term {
	for _, v := range e.S.vars {
		if v.ID == id {
			return v
		}
	}
	panic("var")
}

func (e *Engine) val(f *Frame, o *Opnd) Value {
	if o.kind == okReg {
		return f.regs[o.reg]
	}
	return o.val
}

// ---- main loop ----

// step runs the state until it parks itself (yield), ends, or is requeued at a merge point.
func (e *Engine) run(st *State) {
	for {
		if st.cur < 0 {
			if !e.schedule(st) {
				return
			}
		}
		cont := e.execThread(st)
		if !cont {
			return
		}
	}
}

// execThread executes instructions of the current thread; returns false if the state was consumed.
func (e *Engine) execThread(st *State) (cont bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case yieldAbort:
				st.last = st.cur
				st.cur = -1
				if e.shouldPark(st) {
					e.push(st, true)
					cont = false
				} else {
					cont = true
				}
			case killPath:
				e.stats.Killed++
				cont = false
			case goPanic:
				th := st.thread(e, st.cur)
				e.startPanic(st, th, x.val)
				cont = true
			case Incomplete:
				// the path cannot be encoded further: reduced bound
				if e.model != nil || e.initing {
					panic(Incomplete{e.where(st) + ": " + x.msg})
				}
				e.limit(x.msg + " at " + e.where(st))
				e.boundHit++
				cont = false
			default:
				panic(fmt.Sprintf("%v\n  at %s", r, e.where(st)))
			}
		}
	}()
	for {
		if st.cur < 0 {
			return true
		}
		th := st.thread(e, st.cur)
		if len(th.frames) == 0 {
			th.status = ThDone
			st.last = st.cur
			st.cur = -1
			if th.id == 0 {
				e.endPath(st)
				return false
			}
			if e.shouldPark(st) {
				e.push(st, true)
				return false
			}
			return true
		}
		st.steps++
		e.stats.Steps++
		if st.steps > e.opt.MaxSteps {
			// far more steps than any path of the harness takes
			e.violation(st, "livelock", fmt.Sprintf("the program does not come to rest within %d steps", e.opt.MaxSteps), e.where(st))
			e.boundHit++
			return false
		}
		if e.stats.Steps&0xfff == 0 && e.expired() {
			e.limit("time budget reached")
			e.boundHit++
			return false
		}
		f := st.top(e, th)
		if f.panicking && !f.inDefers {
			e.unwind(st, th, f)
			continue
		}
		ins := &f.fn.blocks[f.block].instrs[f.ip]
		st.grantedNow = false
		if e.exec(st, th, f, ins) {
			// merge point
			if e.canMerge(st) {
				e.push(st, true)
				return false
			}
		}
	}
}

// startPanic begins panicking in the top frame of the thread.
func (e *Engine) startPanic(st *State, th *Thread, val Value) {
	if len(th.frames) == 0 {
		return
	}
	f := st.top(e, th)
	f.panicking = true
	f.recovered = false
	f.panicVal = val
	f.inDefers = false
}

// unwind runs the next deferred call of a panicking frame, or pops it.
func (e *Engine) unwind(st *State, th *Thread, f *Frame) {
	if f.recovered {
		// resume normal return via the recover block, after running remaining defers
		if len(f.defers) > 0 {
			e.runDefer(st, th, f)
			return
		}
		f.panicking = false
		f.recovered = false
		f.panicVal = nil
		if f.fn.fn.Recover != nil {
			f.block = int32(f.fn.fn.Recover.Index)
			f.ip = 0
			f.prev = -1
			return
		}
		// no named results: zero results
		res := f.fn.fn.Signature.Results()
		var v Value
		switch res.Len() {
		case 0:
		case 1:
			v = e.zero(res.At(0).Type())
		default:
			v = e.zero(res)
		}
		e.ret(st, th, v)
		return
	}
	if len(f.defers) > 0 {
		e.runDefer(st, th, f)
		return
	}
	// propagate
	val := f.panicVal
	goexit := f.goexit
	popped := f
	th.frames = th.frames[:len(th.frames)-1]
	if len(th.frames) == 0 {
		if goexit {
			return
		}
		e.violation(st, "panic", "uncaught panic: "+e.describe(st, val), popped.fn.name)
		panic(killPath{})
	}
	nf := st.top(e, th)
	nf.panicking = true
	nf.recovered = false
	nf.panicVal = val
	nf.goexit = goexit
	nf.inDefers = false
}

func (e *Engine) runDefer(st *State, th *Thread, f *Frame) {
	d := f.defers[len(f.defers)-1]
	fv := d.fn
	args := d.args
	e.callFn(st, th, fv, args, -1, true, d.instr)
}

func (e *Engine) popDefer(st *State) *Frame {
	c := st.top(e, st.thread(e, st.cur))
	c.defers = c.defers[:len(c.defers)-1]
	return c
}

// ret returns from the top frame with the given value.
func (e *Engine) ret(st *State, th *Thread, v Value) {
	f := th.frames[len(th.frames)-1]
	th.frames = th.frames[:len(th.frames)-1]
	if f.onReturn != nil {
		f.onReturn(e, st, v)
		return
	}
	if len(th.frames) == 0 {
		return
	}
	c := st.top(e, th)
	if f.isDefer {
		c.inDefers = false
		return
	}
	e.setResult(c, f.retDst, v)
}

func (e *Engine) setResult(c *Frame, dst int32, v Value) {
	if dst >= 0 {
		c.regs[dst] = v
	}
	c.ip++
}

func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) bool {
	from := f.block
	blk := &f.fn.blocks[to.Index]
	if blk.nphi > 0 {
		pi := -1
		for i, p := range to.Preds {
			if int32(p.Index) == from {
				pi = i
				break
			}
		}
		var tmp [32]Value
		vals := tmp[:0]
		for k := int32(0); k < blk.nphi; k++ {
			vals = append(vals, e.val(f, &blk.instrs[k].ops[pi]))
		}
		for k := int32(0); k < blk.nphi; k++ {
			f.regs[blk.instrs[k].dst] = vals[k]
		}
	}
	f.prev = from
	f.block = int32(to.Index)
	f.ip = blk.nphi
	return blk.preds > 1
}

// exec executes one instruction. It returns true at merge points (after a jump to a join block or a return).
func (e *Engine) exec(st *State, th *Thread, f *Frame, ci *Instr) bool {
	set := func(v Value) {
		st.top(e, st.thread(e, st.cur)).regs[ci.dst] = v
	}
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		id := e.alloc(st, e.zero(t), t)
		set(Ptr{Obj: id})
	case *ssa.UnOp:
		v, ok := e.unop(st, th, f, ci, in)
		if !ok {
			return false
		}
		set(v)
	case *ssa.BinOp:
		set(e.binop(st, in.Op, in.X.Type(), in.Y.Type(), e.val(f, &ci.ops[0]), e.val(f, &ci.ops[1])))
	case *ssa.Store:
		p := e.val(f, &ci.ops[0]).(Ptr)
		e.access(st, p, true)
		e.store(st, p, e.val(f, &ci.ops[1]))
	case *ssa.FieldAddr:
		p := e.val(f, &ci.ops[0]).(Ptr)
		if p.Obj < 0 {
			e.rtPanic(st, "invalid memory address or nil pointer dereference")
		}
		set(Ptr{Obj: p.Obj, Path: e.path(p.Path, int32(in.Field))})
	case *ssa.Field:
		s, ok := e.val(f, &ci.ops[0]).(*StructV)
		if !ok {
			panic(incomplete("field of %T", e.val(f, &ci.ops[0])))
		}
		set(s.F[in.Field])
	case *ssa.IndexAddr:
		x := e.val(f, &ci.ops[0])
		idx := e.val(f, &ci.ops[1]).(*Term)
		_, sg, _ := intInfo(in.Index.Type())
		var n int32
		switch s := x.(type) {
		case Slice:
			n = s.Len
		case Ptr:
			if s.Obj < 0 {
				e.rtPanic(st, "invalid memory address or nil pointer dereference")
			}
			n = int32(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
		i := e.index(st, idx, n, sg)
		switch s := x.(type) {
		case Slice:
			set(Ptr{Obj: s.Obj, Path: e.path(s.Path, s.Off+i)})
		case Ptr:
			set(Ptr{Obj: s.Obj, Path: e.path(s.Path, i)})
		}
	case *ssa.Index:
		x := e.val(f, &ci.ops[0])
		idx := e.val(f, &ci.ops[1]).(*Term)
		_, sg, _ := intInfo(in.Index.Type())
		set(e.indexVal(st, x, idx, sg))
	case *ssa.Lookup:
		x := e.val(f, &ci.ops[0])
		if m, ok := x.(Map); ok {
			e.accessMap(st, m, false)
			v, found := e.mapGet(st, m, e.val(f, &ci.ops[1]))
			if !found {
				v = e.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				set(Tuple{v, e.S.Bool(found)})
			} else {
				set(v)
			}
			break
		}
		_, sg, _ := intInfo(in.Index.Type())
		set(e.indexVal(st, x, e.val(f, &ci.ops[1]).(*Term), sg))
	case *ssa.MapUpdate:
		m := e.val(f, &ci.ops[0]).(Map)
		if m.Obj < 0 {
			panic(goPanic{val: e.rtError("assignment to entry in nil map")})
		}
		e.accessMap(st, m, true)
		e.mapSet(st, m, e.val(f, &ci.ops[1]), e.val(f, &ci.ops[2]))
	case *ssa.Phi:
		panic("phi")
	case *ssa.Extract:
		set(e.val(f, &ci.ops[0]).(Tuple)[in.Index])
	case *ssa.MakeInterface:
		set(Iface{T: in.X.Type(), V: e.val(f, &ci.ops[0])})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		set(e.val(f, &ci.ops[0]))
	case *ssa.Convert:
		set(e.convert(st, in.X.Type(), in.Type(), e.val(f, &ci.ops[0])))
	case *ssa.MultiConvert:
		set(e.convert(st, in.X.Type(), in.Type(), e.val(f, &ci.ops[0])))
	case *ssa.SliceToArrayPointer:
		s := e.val(f, &ci.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(s.Len) < n {
			e.rtPanic(st, "cannot convert slice to array pointer")
		}
		if s.Off != 0 {
			panic(incomplete("slice to array pointer with offset"))
		}
		set(Ptr{Obj: s.Obj, Path: s.Path})
	case *ssa.MakeClosure:
		b := make([]Value, len(in.Bindings))
		for i := range b {
			b[i] = e.val(f, &ci.ops[1+i])
		}
		set(&FuncV{Fn: in.Fn.(*ssa.Function), Binds: b})
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		set(Map{Obj: e.alloc(st, &MapObj{T: mt}, in.Type())})
	case *ssa.MakeChan:
		n := int32(e.concretize(st, e.val(f, &ci.ops[0]).(*Term)))
		set(Chan{Obj: e.alloc(st, &ChanObj{Cap: n, Elem: in.Type().Underlying().(*types.Chan).Elem()}, in.Type())})
	case *ssa.MakeSlice:
		lt := e.val(f, &ci.ops[0]).(*Term)
		ct := e.val(f, &ci.ops[1]).(*Term)
		l, c := e.concretizeLen(st, lt, "makeslice: len out of range"), e.concretizeLen(st, ct, "makeslice: cap out of range")
		if c < l {
			e.rtPanic(st, "makeslice: cap out of range")
		}
		set(e.makeSlice(st, in.Type().Underlying().(*types.Slice).Elem(), l, c))
	case *ssa.Slice:
		set(e.sliceOp(st, f, ci, in))
	case *ssa.TypeAssert:
		set(e.typeAssert(st, in, e.val(f, &ci.ops[0])))
	case *ssa.Range:
		x := e.val(f, &ci.ops[0])
		it := &IterObj{}
		if m, ok := x.(Map); ok {
			e.accessMap(st, m, false)
			it.M = m
			if m.Obj >= 0 {
				it.Keys = append([]Value(nil), st.get(m.Obj).Val.(*MapObj).K...)
			}
		} else {
			it.IsStr = true
			it.Str = x
		}
		set(Ptr{Obj: e.alloc(st, it, nil)})
	case *ssa.Next:
		set(e.next(st, e.val(f, &ci.ops[0]).(Ptr), in))
	case *ssa.Jump:
		return e.jump(st, f, in.Block().Succs[0])
	case *ssa.If:
		c := e.val(f, &ci.ops[0]).(*Term)
		if e.branch(st, c) {
			return e.jump(st, st.top(e, st.thread(e, st.cur)), in.Block().Succs[0])
		}
		return e.jump(st, st.top(e, st.thread(e, st.cur)), in.Block().Succs[1])
	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = e.val(f, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range t {
				t[i] = e.val(f, &ci.ops[i])
			}
			v = t
		}
		e.ret(st, th, v)
		return true
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			e.runDefer(st, th, f)
			return false
		}
		f.ip++
		return false
	case *ssa.Panic:
		v := e.val(f, &ci.ops[0])
		e.startPanic(st, th, v)
		return false
	case *ssa.Defer:
		d := &Deferred{instr: in}
		fv, args := e.callTarget(st, f, ci, &in.Call)
		if in.DeferStack != nil {
			panic(incomplete("defer in range-over-func body"))
		}
		if fv == nil {
			d.fn = nil
		}
		d.fn = fv
		d.args = args
		f.defers = append(f.defers, d)
	case *ssa.Go:
		e.release(st)
		th = st.thread(e, st.cur)
		f = st.top(e, th)
		fv, args := e.callTarget(st, f, ci, &in.Call)
		e.spawn(st, fv, args, "go@"+e.pos(in.Pos()))
	case *ssa.Call:
		return e.call(st, th, f, ci, in)
	case *ssa.Send:
		ch := e.val(f, &ci.ops[0]).(Chan)
		e.chanSend(st, th, ch, e.val(f, &ci.ops[1]))
	case *ssa.Select:
		v := e.selectOp(st, th, f, ci, in)
		set(v)
	default:
		panic(incomplete("instruction %T", in))
	}
	st.top(e, st.thread(e, st.cur)).ip++
	return false
}

func (e *Engine) concretizeLen(st *State, t *Term, msg string) int32 {
	if !t.IsConst() {
		big := e.S.Cmp(OpUlt, e.S.BV(t.W, 1<<20), t)
		if e.branch(st, big) {
			e.rtPanic(st, msg)
		}
	}
	k := e.concretize(st, t)
	if k > 1<<24 {
		e.rtPanic(st, msg)
	}
	return int32(k)
}

func (e *Engine) makeSlice(st *State, elem types.Type, l, c int32) Slice {
	arr := &ArrayV{E: make([]Value, c)}
	z := e.zero(elem)
	for i := range arr.E {
		arr.E[i] = z
	}
	return Slice{Obj: e.alloc(st, arr, nil), Len: l, Cap: c}
}

func (e *Engine) index(st *State, idx *Term, n int32, signed bool) int32 {
	if idx.W < 64 {
		idx = e.S.Resize(idx, 64, signed)
	}
	if !e.branch(st, e.S.Cmp(OpUlt, idx, e.S.BV(64, uint64(n)))) {
		e.rtPanic(st, fmt.Sprintf("index out of range [%s] with length %d", termStr(idx), n))
	}
	return int32(e.concretize(st, idx))
}

func termStr(t *Term) string {
	if t.IsConst() {
		return fmt.Sprint(t.Signed())
	}
	return "sym"
}

func (e *Engine) indexVal(st *State, x Value, idx *Term, signed bool) Value {
	var n int32
	switch s := x.(type) {
	case string:
		n = int32(len(s))
	case *SymStr:
		n = int32(len(s.B))
	case *ArrayV:
		n = int32(len(s.E))
	default:
		panic(incomplete("index of %T", x))
	}
	i := e.index(st, idx, n, signed)
	switch s := x.(type) {
	case string:
		return e.S.BV(8, uint64(s[i]))
	case *SymStr:
		return s.B[i]
	case *ArrayV:
		return s.E[i]
	}
	panic("unreachable")
}

func (e *Engine) sliceOp(st *State, f *Frame, ci *Instr, in *ssa.Slice) Value {
	x := e.val(f, &ci.ops[0])
	// operands: X, Low, High, Max (nil ones are okNone)
	get := func(i int, v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		t := e.val(f, &ci.ops[i]).(*Term)
		_, sg, _ := intInfo(v.Type())
		t = e.S.Resize(t, 64, sg)
		if !t.IsConst() {
			if e.branch(st, e.S.Cmp(OpUlt, e.S.BV(64, 1<<20), t)) {
				e.rtPanic(st, "slice bounds out of range")
			}
		}
		k := e.concretize(st, t)
		return int64(k), true
	}
	lo, hasLo := get(1, in.Low)
	hi, hasHi := get(2, in.High)
	mx, hasMx := get(3, in.Max)
	if !hasLo {
		lo = 0
	}
	bad := func() { e.rtPanic(st, fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)) }
	switch s := x.(type) {
	case string:
		if !hasHi {
			hi = int64(len(s))
		}
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			bad()
		}
		return s[lo:hi]
	case *SymStr:
		if !hasHi {
			hi = int64(len(s.B))
		}
		if lo < 0 || hi < lo || hi > int64(len(s.B)) {
			bad()
		}
		return e.mkStr(s.B[lo:hi])
	case Slice:
		if !hasHi {
			hi = int64(s.Len)
		}
		if !hasMx {
			mx = int64(s.Cap)
		}
		if lo < 0 || hi < lo || mx < hi || mx > int64(s.Cap) {
			bad()
		}
		if s.Obj < 0 {
			return s
		}
		return Slice{Obj: s.Obj, Path: s.Path, Off: s.Off + int32(lo), Len: int32(hi - lo), Cap: int32(mx - lo)}
	case Ptr:
		if s.Obj < 0 {
			e.rtPanic(st, "invalid memory address or nil pointer dereference")
		}
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !hasHi {
			hi = n
		}
		if !hasMx {
			mx = n
		}
		if lo < 0 || hi < lo || mx < hi || mx > n {
			bad()
		}
		return Slice{Obj: s.Obj, Path: s.Path, Off: int32(lo), Len: int32(hi - lo), Cap: int32(mx - lo)}
	}
	panic(incomplete("slice of %T", x))
}

func (e *Engine) mkStr(b []*Term) Value {
	all := true
	for _, t := range b {
		if !t.IsConst() {
			all = false
			break
		}
	}
	if all {
		bb := make([]byte, len(b))
		for i, t := range b {
			bb[i] = byte(t.K)
		}
		return string(bb)
	}
	return &SymStr{B: append([]*Term(nil), b...)}
}

func (e *Engine) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		out := make([]*Term, len(s))
		for i := range out {
			out[i] = e.S.BV(8, uint64(s[i]))
		}
		return out
	case *SymStr:
		return s.B
	}
	panic(incomplete("string bytes of %T", v))
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(incomplete("strlen of %T", v))
}

// ---- operators ----

func (e *Engine) unop(st *State, th *Thread, f *Frame, ci *Instr, in *ssa.UnOp) (Value, bool) {
	x := e.val(f, &ci.ops[0])
	switch in.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			panic(incomplete("deref of %T", x))
		}
		e.access(st, p, false)
		v := e.load(st, p)
		if v == nil {
			panic(incomplete("load of uninitialised memory"))
		}
		if p.Obj < e.baseNext && !e.initing {
			if g, ok := e.uninit[p.Obj]; ok && !st.modBase[p.Obj] {
				panic(incomplete("read of global %s of a package which is not initialised", g))
			}
		}
		return v, true
	case token.NOT:
		return e.S.Not(x.(*Term)), true
	case token.SUB:
		if fl, ok := x.(float64); ok {
			return -fl, true
		}
		t := x.(*Term)
		return e.S.Bin(OpSub, e.S.BV(t.W, 0), t), true
	case token.XOR:
		t := x.(*Term)
		return e.S.Bin(OpBxor, t, e.S.BV(t.W, ^uint64(0))), true
	case token.ARROW:
		v, ok := e.chanRecv(st, th, x.(Chan))
		if in.CommaOk {
			return Tuple{v, e.S.Bool(ok)}, true
		}
		return v, true
	}
	panic(incomplete("unop %s", in.Op))
}

func (e *Engine) equal(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(incomplete("eq %T %T", a, b))
		}
		return e.S.Eq(x, y)
	case float64:
		return e.S.Bool(x == b.(float64))
	case string, *SymStr:
		if sx, ok := x.(string); ok {
			if sy, ok := b.(string); ok {
				return e.S.Bool(sx == sy)
			}
		}
		if strLen(a) != strLen(b) {
			return e.S.False
		}
		ba, bb := e.strBytes(a), e.strBytes(b)
		cs := make([]*Term, 0, len(ba))
		for i := range ba {
			cs = append(cs, e.S.Eq(ba[i], bb[i]))
		}
		return e.S.And(cs...)
	case Ptr:
		return e.S.Bool(x == b.(Ptr))
	case Map:
		return e.S.Bool(x == b.(Map))
	case Chan:
		return e.S.Bool(x == b.(Chan))
	case Slice:
		y := b.(Slice)
		if x.Obj >= 0 && y.Obj >= 0 {
			panic(incomplete("slice comparison"))
		}
		return e.S.Bool(x.Obj < 0 && y.Obj < 0)
	case *FuncV:
		y := b.(*FuncV)
		return e.S.Bool(x == nil && y == nil)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(incomplete("eq Iface %T", b))
		}
		if x.T == nil || y.T == nil {
			return e.S.Bool(x.T == nil && y.T == nil)
		}
		if x.T != y.T && !types.Identical(x.T, y.T) {
			return e.S.False
		}
		if !types.Comparable(x.T) {
			panic(goPanic{val: e.rtError("comparing uncomparable type " + x.T.String())})
		}
		return e.equal(st, x.V, y.V)
	case *StructV:
		y := b.(*StructV)
		cs := []*Term{}
		for i := range x.F {
			cs = append(cs, e.equal(st, x.F[i], y.F[i]))
		}
		return e.S.And(cs...)
	case *ArrayV:
		y := b.(*ArrayV)
		cs := []*Term{}
		for i := range x.E {
			cs = append(cs, e.equal(st, x.E[i], y.E[i]))
		}
		return e.S.And(cs...)
	case LockV:
		return e.S.Bool(x == b)
	}
	panic(incomplete("eq %T", a))
}

func (e *Engine) strLess(a, b Value, orEq bool) *Term {
	if sa, ok := a.(string); ok {
		if sb, ok := b.(string); ok {
			return e.S.Bool(sa < sb || orEq && sa == sb)
		}
	}
	x, y := e.strBytes(a), e.strBytes(b)
	var rec func(i int) *Term
	rec = func(i int) *Term {
		if i == len(x) {
			return e.S.Bool(len(y) > i || orEq)
		}
		if i == len(y) {
			return e.S.False
		}
		return e.S.Or(e.S.Cmp(OpUlt, x[i], y[i]), e.S.And(e.S.Eq(x[i], y[i]), rec(i+1)))
	}
	return rec(0)
}

func (e *Engine) binop(st *State, op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return e.equal(st, a, b)
	case token.NEQ:
		return e.S.Not(e.equal(st, a, b))
	}
	switch x := a.(type) {
	case float64:
		y := b.(float64)
		is32 := tx.Underlying().(*types.Basic).Kind() == types.Float32
		r := func(v float64) Value {
			if is32 {
				return float64(float32(v))
			}
			return v
		}
		switch op {
		case token.ADD:
			return r(x + y)
		case token.SUB:
			return r(x - y)
		case token.MUL:
			return r(x * y)
		case token.QUO:
			return r(x / y)
		case token.LSS:
			return e.S.Bool(x < y)
		case token.LEQ:
			return e.S.Bool(x <= y)
		case token.GTR:
			return e.S.Bool(x > y)
		case token.GEQ:
			return e.S.Bool(x >= y)
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			if sa, ok := a.(string); ok {
				if sb, ok := b.(string); ok {
					return sa + sb
				}
			}
			return e.mkStr(append(append([]*Term{}, e.strBytes(a)...), e.strBytes(b)...))
		case token.LSS:
			return e.strLess(a, b, false)
		case token.LEQ:
			return e.strLess(a, b, true)
		case token.GTR:
			return e.strLess(b, a, false)
		case token.GEQ:
			return e.strLess(b, a, true)
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(incomplete("binop %s %T %T", op, a, b))
		}
		w, sg, _ := intInfo(tx)
		if w == 0 {
			switch op {
			case token.AND, token.LAND:
				return e.S.And(x, y)
			case token.OR, token.LOR:
				return e.S.Or(x, y)
			}
		}
		switch op {
		case token.ADD:
			return e.S.Bin(OpAdd, x, y)
		case token.SUB:
			return e.S.Bin(OpSub, x, y)
		case token.MUL:
			return e.S.Bin(OpMul, x, y)
		case token.QUO, token.REM:
			if e.branch(st, e.S.Eq(y, e.S.BV(y.W, 0))) {
				e.rtPanic(st, "integer divide by zero")
			}
			var o Op
			switch {
			case op == token.QUO && sg:
				o = OpSdiv
			case op == token.QUO:
				o = OpUdiv
			case sg:
				o = OpSrem
			default:
				o = OpUrem
			}
			return e.S.Bin(o, x, y)
		case token.AND:
			return e.S.Bin(OpBand, x, y)
		case token.OR:
			return e.S.Bin(OpBor, x, y)
		case token.XOR:
			return e.S.Bin(OpBxor, x, y)
		case token.AND_NOT:
			return e.S.Bin(OpBand, x, e.S.Bin(OpBxor, y, e.S.BV(y.W, ^uint64(0))))
		case token.SHL, token.SHR:
			_, sy, _ := intInfo(ty)
			if sy {
				if e.branch(st, e.S.Cmp(OpSlt, y, e.S.BV(y.W, 0))) {
					e.rtPanic(st, "negative shift amount")
				}
			}
			// saturate the shift amount to the operand width
			if y.W > w {
				big := e.S.Not(e.S.Cmp(OpUlt, y, e.S.BV(y.W, uint64(w))))
				y = e.S.Ite(big, e.S.BV(w, uint64(w)), e.S.Resize(y, w, false))
			} else if y.W < w {
				y = e.S.Resize(y, w, false)
			}
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if sg {
					o = OpAshr
				}
			}
			return e.S.Bin(o, x, y)
		case token.LSS:
			return e.S.Cmp(cmpOp(OpUlt, OpSlt, sg), x, y)
		case token.LEQ:
			return e.S.Cmp(cmpOp(OpUle, OpSle, sg), x, y)
		case token.GTR:
			return e.S.Cmp(cmpOp(OpUlt, OpSlt, sg), y, x)
		case token.GEQ:
			return e.S.Cmp(cmpOp(OpUle, OpSle, sg), y, x)
		}
	}
	panic(incomplete("binop %s on %T", op, a))
}

func cmpOp(u, s Op, signed bool) Op {
	if signed {
		return s
	}
	return u
}

func (e *Engine) convert(st *State, from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tw, _, ok := intInfo(tu); ok && tw > 0 {
		switch x := v.(type) {
		case *Term:
			_, sg, _ := intInfo(fu)
			return e.S.Resize(x, tw, sg)
		case float64:
			return e.S.BV(tw, uint64(int64(x)))
		case Ptr:
			// unsafe.Pointer -> uintptr: an opaque address
			return e.S.BV(64, uint64(x.Obj+1)<<8)
		}
	}
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case string, *SymStr:
				return v
			case Slice:
				if x.Len == 0 {
					return ""
				}
				arr := e.sliceElems(st, x)
				if el, ok := fu.(*types.Slice); ok {
					if w, _, _ := intInfo(el.Elem()); w == 8 {
						b := make([]*Term, len(arr))
						for i := range arr {
							b[i] = arr[i].(*Term)
						}
						return e.mkStr(b)
					}
				}
				var sb strings.Builder
				for _, r := range arr {
					rt := r.(*Term)
					sb.WriteRune(rune(int32(e.concretize(st, rt))))
				}
				return sb.String()
			case *Term:
				return string(rune(int32(e.concretize(st, x))))
			}
		case t.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Term:
				k := e.concretize(st, x)
				_, sg, _ := intInfo(fu)
				c := e.S.BV(x.W, k)
				if sg {
					return float64(c.Signed())
				}
				return float64(c.K)
			}
		case t.Kind() == types.UnsafePointer:
			switch x := v.(type) {
			case Ptr:
				return x
			case *Term:
				if x.IsConst() && x.K == 0 {
					return nilPtr
				}
			}
		}
	case *types.Slice:
		switch x := v.(type) {
		case string, *SymStr:
			if w, _, _ := intInfo(t.Elem()); w == 8 {
				b := e.strBytes(x)
				arr := &ArrayV{E: make([]Value, len(b))}
				for i := range b {
					arr.E[i] = b[i]
				}
				return Slice{Obj: e.alloc(st, arr, nil), Len: int32(len(b)), Cap: int32(len(b))}
			}
			s := e.concStr(st, x)
			rs := []rune(s)
			arr := &ArrayV{E: make([]Value, len(rs))}
			for i := range rs {
				arr.E[i] = e.S.BV(32, uint64(uint32(rs[i])))
			}
			return Slice{Obj: e.alloc(st, arr, nil), Len: int32(len(rs)), Cap: int32(len(rs))}
		case Slice:
			return x
		}
	case *types.Pointer:
		if p, ok := v.(Ptr); ok {
			return p
		}
	case *types.Array:
		if s, ok := v.(Slice); ok {
			if int64(s.Len) < t.Len() {
				e.rtPanic(st, "cannot convert slice to array")
			}
			return &ArrayV{E: append([]Value(nil), e.sliceElems(st, s)[:t.Len()]...)}
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(incomplete("conversion %s -> %s (%T)", from, to, v))
}

// concStr forks until the string is concrete.
func (e *Engine) concStr(st *State, v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.B))
		for i, t := range s.B {
			b[i] = byte(e.concretize(st, t))
		}
		return string(b)
	}
	panic(incomplete("concStr %T", v))
}

func (e *Engine) sliceElems(st *State, s Slice) []Value {
	if s.Obj < 0 || s.Cap == 0 {
		return nil
	}
	v := e.load(st, Ptr{Obj: s.Obj, Path: s.Path})
	arr := v.(*ArrayV)
	return arr.E[s.Off : s.Off+s.Len]
}

// setSliceElems overwrites elements of the backing array starting at s.Off+at.
func (e *Engine) setSliceElems(st *State, s Slice, at int32, vals []Value) {
	if len(vals) == 0 {
		return
	}
	p := Ptr{Obj: s.Obj, Path: s.Path}
	arr := e.load(st, p).(*ArrayV)
	ne := append([]Value(nil), arr.E...)
	copy(ne[s.Off+at:], vals)
	e.store(st, p, &ArrayV{E: ne})
}

// ---- maps ----

func (e *Engine) hashable(st *State, k Value) {
	if i, ok := k.(Iface); ok && i.T != nil && !types.Comparable(i.T) {
		panic(goPanic{val: e.rtError("hash of unhashable type " + i.T.String())})
	}
}

func (e *Engine) mapFind(st *State, mo *MapObj, k Value) int {
	e.hashable(st, k)
	for i := range mo.K {
		if e.branch(st, e.equal(st, mo.K[i], k)) {
			return i
		}
	}
	return -1
}

func (e *Engine) mapGet(st *State, m Map, k Value) (Value, bool) {
	if m.Obj < 0 {
		e.hashable(st, k)
		return nil, false
	}
	mo := st.get(m.Obj).Val.(*MapObj)
	i := e.mapFind(st, mo, k)
	if i < 0 {
		return nil, false
	}
	return mo.V[i], true
}

func (e *Engine) mapSet(st *State, m Map, k, v Value) {
	mo := st.get(m.Obj).Val.(*MapObj)
	i := e.mapFind(st, mo, k)
	n := &MapObj{T: mo.T}
	if i >= 0 {
		n.K = mo.K
		n.V = append([]Value(nil), mo.V...)
		n.V[i] = v
	} else {
		n.K = append(append([]Value(nil), mo.K...), k)
		n.V = append(append([]Value(nil), mo.V...), v)
	}
	e.setObj(st, m.Obj, n)
}

func (e *Engine) mapDelete(st *State, m Map, k Value) {
	if m.Obj < 0 {
		return
	}
	mo := st.get(m.Obj).Val.(*MapObj)
	i := e.mapFind(st, mo, k)
	if i < 0 {
		return
	}
	n := &MapObj{T: mo.T}
	n.K = append(append([]Value(nil), mo.K[:i]...), mo.K[i+1:]...)
	n.V = append(append([]Value(nil), mo.V[:i]...), mo.V[i+1:]...)
	e.setObj(st, m.Obj, n)
}

func (e *Engine) next(st *State, p Ptr, in *ssa.Next) Value {
	it := st.get(p.Obj).Val.(*IterObj)
	if it.IsStr {
		n := int32(strLen(it.Str))
		if it.Pos >= n {
			return Tuple{e.S.False, e.S.BV(64, 0), e.S.BV(32, 0)}
		}
		b := e.strBytes(it.Str)
		pos := it.Pos
		c := b[pos]
		if e.branch(st, e.S.Cmp(OpUlt, c, e.S.BV(8, 0x80))) {
			ni := *it
			ni.Pos = pos + 1
			e.setObj(st, p.Obj, &ni)
			return Tuple{e.S.True, e.S.BV(64, uint64(pos)), e.S.Resize(c, 32, false)}
		}
		// multi-byte: concretise up to four bytes
		end := min(n, pos+4)
		bb := make([]byte, 0, 4)
		for i := pos; i < end; i++ {
			bb = append(bb, byte(e.concretize(st, b[i])))
		}
		r, sz := decodeRune(bb)
		ni := *it
		ni.Pos = pos + int32(sz)
		e.setObj(st, p.Obj, &ni)
		return Tuple{e.S.True, e.S.BV(64, uint64(pos)), e.S.BV(32, uint64(uint32(r)))}
	}
	tt := in.Type().(*types.Tuple)
	zk := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nilPtr
		}
		return e.zero(t)
	}
	var keys []Value
	var vals []Value
	if len(it.Keys) > 0 {
		mo := st.get(it.M.Obj).Val.(*MapObj)
		for _, k := range it.Keys {
			for i := range mo.K {
				if e.branch(st, e.equal(st, mo.K[i], k)) {
					keys = append(keys, k)
					vals = append(vals, mo.V[i])
					break
				}
			}
		}
	}
	ni := *it
	if len(keys) == 0 {
		ni.Keys = nil
		e.setObj(st, p.Obj, &ni)
		return Tuple{e.S.False, zk(1), zk(2)}
	}
	pick := 0
	if e.opt.MapOrder > 0 && len(keys) > 1 && len(keys) <= e.opt.MapOrder && !e.inModel(st) && !e.inGoTools(st) {
		pick = e.choose(st, "maporder", len(keys))
	}
	ni.Keys = append(append([]Value(nil), keys[:pick]...), keys[pick+1:]...)
	e.setObj(st, p.Obj, &ni)
	return Tuple{e.S.True, keys[pick], vals[pick]}
}

// ---- interfaces ----

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert, x Value) Value {
	i := x.(Iface)
	at := in.AssertedType
	ok := false
	var v Value
	if i.T != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			ok = e.implements(i.T, it)
			v = i
		} else if i.T == at || types.Identical(i.T, at) {
			ok = true
			v = i.V
		}
	}
	if in.CommaOk {
		if !ok {
			v = e.zero(at)
		}
		return Tuple{v, e.S.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if i.T != nil {
			d = i.T.String()
		}
		e.rtPanic(st, fmt.Sprintf("interface conversion: interface is %s, not %s", d, at))
	}
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := e.implCache[k]; ok {
		return r
	}
	if t == e.P.rtErrType {
		r := i.NumMethods() == 0
		if !r {
			r = true
			for m := 0; m < i.NumMethods(); m++ {
				if n := i.Method(m).Name(); n != "Error" && n != "RuntimeError" {
					r = false
				}
			}
		}
		e.implCache[k] = r
		return r
	}
	r := types.Implements(t, i)
	e.implCache[k] = r
	return r
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) resolveInvoke(st *State, recv Value, m *types.Func, args []Value) (*FuncV, []Value) {
	i, ok := recv.(Iface)
	if !ok {
		panic(incomplete("invoke on %T", recv))
	}
	if i.T == nil {
		e.rtPanic(st, "invalid memory address or nil pointer dereference")
	}
	if i.T == e.P.rtErrType {
		if m.Name() == "Error" {
			return &FuncV{Native: "rterror"}, []Value{i.V}
		}
		return &FuncV{Native: "nop"}, nil
	}
	k := methKey{i.T, m}
	fn, ok := e.methCache[k]
	if !ok {
		fn = e.P.lookupMethod(i.T, m)
		if fn == nil {
			panic(incomplete("method %s not found on %s", m.Name(), i.T))
		}
		e.methCache[k] = fn
	}
	return &FuncV{Fn: fn}, append([]Value{i.V}, args...)
}

// ---- calls ----

// callTarget evaluates the function and arguments of a call (for go / defer / call).
func (e *Engine) callTarget(st *State, f *Frame, ci *Instr, c *ssa.CallCommon) (*FuncV, []Value) {
	args := make([]Value, len(c.Args))
	off := 1
	if ci.off() {
		off = 1
	}
	for i := range args {
		args[i] = e.val(f, &ci.ops[off+i])
	}
	if c.IsInvoke() {
		return e.resolveInvoke(st, e.val(f, &ci.ops[0]), c.Method, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return &FuncV{Native: "builtin:" + b.Name(), Binds: []Value{c}}, args
	}
	v := e.val(f, &ci.ops[0])
	fv, ok := v.(*FuncV)
	if !ok {
		panic(incomplete("call of %T", v))
	}
	return fv, args
}

func (ci *Instr) off() bool { return true }

func (e *Engine) call(st *State, th *Thread, f *Frame, ci *Instr, in *ssa.Call) bool {
	if b, ok := in.Call.Value.(*ssa.Builtin); ok && !in.Call.IsInvoke() {
		args := make([]Value, len(in.Call.Args))
		for i := range args {
			args[i] = e.val(f, &ci.ops[1+i])
		}
		v := e.builtin(st, th, f, b.Name(), &in.Call, args)
		f = st.top(e, st.thread(e, st.cur))
		f.regs[ci.dst] = v
		f.ip++
		return false
	}
	fv, args := e.callTarget(st, f, ci, &in.Call)
	e.callFn(st, th, fv, args, ci.dst, false, in)
	return false
}

// callFn calls a function value. For deferred calls isDefer is true.
func (e *Engine) callFn(st *State, th *Thread, fv *FuncV, args []Value, dst int32, isDefer bool, site ssa.Instruction) {
	done := func(v Value) {
		if isDefer {
			e.popDefer(st)
			return
		}
		e.setResult(st.top(e, st.thread(e, st.cur)), dst, v)
	}
	if fv == nil {
		if isDefer {
			e.popDefer(st)
		}
		e.rtPanic(st, "invalid memory address or nil pointer dereference")
	}
	if isDefer {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(goPanic); ok {
					e.popDefer(st)
				}
				panic(r)
			}
		}()
	}
	if fv.Native != "" {
		if strings.HasPrefix(fv.Native, "builtin:") {
			c := fv.Binds[0].(*ssa.CallCommon)
			v := e.builtin(st, th, st.top(e, th), fv.Native[8:], c, args)
			done(v)
			return
		}
		n := nativeFns[fv.Native]
		if n == nil {
			panic(incomplete("native %s", fv.Native))
		}
		done(n(e, st, th, append(append([]Value{}, fv.Binds...), args...)))
		return
	}
	fi := e.info(fv.Fn)
	if fi.redir != nil {
		fi = e.info(fi.redir)
	}
	if fi.native != nil {
		done(fi.native(e, st, th, append(args, fv.Binds...)))
		return
	}
	if fi.stub {
		done(e.stubCall(st, fi, args))
		return
	}
	if !fi.body {
		panic(incomplete("no body for %s", fi.name))
	}
	fi.calls++
	if len(th.frames) > 300 {
		panic(incomplete("stack depth bound reached in %s", fi.name))
	}
	nf := &Frame{owner: st.epoch, fn: fi, regs: make([]Value, fi.nregs), retDst: dst, isDefer: isDefer, prev: -1}
	if len(args) != len(fi.fn.Params) || len(fv.Binds) != len(fi.fn.FreeVars) {
		panic(incomplete("call of %s with %d args + %d bindings", fi.name, len(args), len(fv.Binds)))
	}
	copy(nf.regs, args)
	copy(nf.regs[len(args):], fv.Binds)
	if isDefer {
		e.popDefer(st).inDefers = true
	}
	th.frames = append(th.frames, nf)
}

func (e *Engine) stubCall(st *State, fi *FnInfo, args []Value) Value {
	res := fi.fn.Signature.Results()
	mk := func(t types.Type, i int) Value {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if i == 0 && fi.fn.Signature.Recv() != nil && types.Identical(fi.fn.Signature.Recv().Type(), t) {
				return args[0]
			}
			return Ptr{Obj: e.alloc(st, e.zero(p.Elem()), p.Elem())}
		}
		return e.zero(t)
	}
	e.stubs[fi.name]++
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type(), 0)
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = mk(res.At(i).Type(), i)
	}
	return t
}

func (e *Engine) builtin(st *State, th *Thread, f *Frame, name string, c *ssa.CallCommon, args []Value) Value {
	switch name {
	case "len", "cap":
		var n int32
		switch x := args[0].(type) {
		case string:
			n = int32(len(x))
		case *SymStr:
			n = int32(len(x.B))
		case Slice:
			n = x.Len
			if name == "cap" {
				n = x.Cap
			}
		case Map:
			if x.Obj >= 0 {
				e.accessMap(st, x, false)
				n = int32(len(st.get(x.Obj).Val.(*MapObj).K))
			}
		case Chan:
			if x.Obj >= 0 {
				co := st.get(x.Obj).Val.(*ChanObj)
				n = int32(len(co.Buf))
				if name == "cap" {
					n = co.Cap
				}
			}
		case Ptr:
			n = int32(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *ArrayV:
			n = int32(len(x.E))
		default:
			panic(incomplete("len of %T", x))
		}
		return e.S.BV(64, uint64(n))
	case "append":
		s := args[0].(Slice)
		var add []Value
		if len(args) > 1 {
			switch y := args[1].(type) {
			case Slice:
				e.accessSlice(st, y, 0, y.Len, false)
				add = e.sliceElems(st, y)
			case string, *SymStr:
				for _, t := range e.strBytes(y) {
					add = append(add, t)
				}
			}
		}
		if len(add) == 0 {
			return s
		}
		nl := s.Len + int32(len(add))
		if nl <= s.Cap {
			e.accessSlice(st, s, s.Len, int32(len(add)), true)
			e.setSliceElems(st, s, s.Len, add)
			return Slice{Obj: s.Obj, Path: s.Path, Off: s.Off, Len: nl, Cap: s.Cap}
		}
		nc := nl
		if s.Cap*2 > nc {
			nc = s.Cap * 2
		}
		var et types.Type
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			et = sl.Elem()
		} else {
			panic(incomplete("append to %s", c.Args[0].Type()))
		}
		arr := &ArrayV{E: make([]Value, nc)}
		e.accessSlice(st, s, 0, s.Len, false)
		n := copy(arr.E, e.sliceElems(st, s))
		n += copy(arr.E[n:], add)
		z := e.zero(et)
		for ; n < int(nc); n++ {
			arr.E[n] = z
		}
		return Slice{Obj: e.alloc(st, arr, nil), Len: nl, Cap: nc}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			e.accessSlice(st, y, 0, min(y.Len, d.Len), false)
			src = e.sliceElems(st, y)
		case string, *SymStr:
			for _, t := range e.strBytes(y) {
				src = append(src, t)
			}
		}
		n := min(int(d.Len), len(src))
		if n > 0 {
			e.accessSlice(st, d, 0, int32(n), true)
			e.setSliceElems(st, d, 0, append([]Value(nil), src[:n]...))
		}
		return e.S.BV(64, uint64(n))
	case "delete":
		e.accessMap(st, args[0].(Map), true)
		e.mapDelete(st, args[0].(Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case Map:
			if x.Obj >= 0 {
				e.accessMap(st, x, true)
				mo := st.get(x.Obj).Val.(*MapObj)
				e.setObj(st, x.Obj, &MapObj{T: mo.T})
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			vals := make([]Value, x.Len)
			for i := range vals {
				vals[i] = e.zero(et)
			}
			e.accessSlice(st, x, 0, x.Len, true)
			e.setSliceElems(st, x, 0, vals)
		}
		return nil
	case "close":
		e.chanClose(st, th, args[0].(Chan))
		return nil
	case "panic":
		panic(goPanic{val: args[0]})
	case "recover":
		return e.recoverOp(st, th)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			t := c.Args[0].Type()
			if name == "min" {
				lt = e.binop(st, token.LSS, t, t, a, r).(*Term)
			} else {
				lt = e.binop(st, token.LSS, t, t, r, a).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = e.S.Ite(lt, a.(*Term), rt)
			} else if e.branch(st, lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj < 0 {
			e.rtPanic(st, "invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return nilPtr
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := e.concretizeLen(st, e.S.Resize(args[1].(*Term), 64, true), "unsafe.String: len out of range")
		if n == 0 {
			return ""
		}
		base := Ptr{Obj: p.Obj, Path: p.Path.Parent}
		if base.Path != nil && base.Path.Len == 0 {
			base.Path = nil
		}
		arr := e.load(st, base).(*ArrayV)
		b := make([]*Term, n)
		for i := range b {
			b[i] = arr.E[int(p.Path.Idx)+i].(*Term)
		}
		return e.mkStr(b)
	case "StringData":
		b := e.strBytes(args[0])
		arr := &ArrayV{E: make([]Value, len(b))}
		for i := range b {
			arr.E[i] = b[i]
		}
		return Ptr{Obj: e.alloc(st, arr, nil), Path: e.path(nil, 0)}
	case "SliceData":
		s := args[0].(Slice)
		if s.Obj < 0 {
			return nilPtr
		}
		return Ptr{Obj: s.Obj, Path: e.path(s.Path, s.Off)}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := e.concretizeLen(st, e.S.Resize(args[1].(*Term), 64, true), "unsafe.Slice: len out of range")
		if p.Obj < 0 {
			return Slice{Obj: -1}
		}
		if p.Path == nil {
			panic(incomplete("unsafe.Slice of a non-element pointer"))
		}
		base := p.Path.Parent
		if base != nil && base.Len == 0 {
			base = nil
		}
		return Slice{Obj: p.Obj, Path: base, Off: p.Path.Idx, Len: n, Cap: n}
	}
	panic(incomplete("builtin %s", name))
}

func (e *Engine) recoverOp(st *State, th *Thread) Value {
	n := len(th.frames)
	f := th.frames[n-1]
	if !f.isDefer || n < 2 {
		return nilIface
	}
	p := st.frame(e, th, n-2)
	if !p.panicking || p.recovered || p.goexit {
		return nilIface
	}
	p.recovered = true
	v := p.panicVal
	if v == nil {
		return nilIface
	}
	return v
}

func (e *Engine) describe(st *State, v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return "nil"
		}
		if s, ok := x.V.(string); ok {
			return s
		}
		if p, ok := x.V.(Ptr); ok && p.Obj >= 0 {
			return x.T.String() + ":" + e.describe(st, e.load(st, p))
		}
		return x.T.String() + ":" + e.describe(st, x.V)
	case *Term:
		return termStr(x)
	case string:
		return x
	case *StructV:
		var p []string
		for _, f := range x.F {
			if _, ok := f.(*StructV); ok {
				continue
			}
			p = append(p, e.describe(st, f))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.P.prog.Fset.Position(p)
	fn := q.Filename
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		if j := strings.LastIndex(fn[:i], "/"); j >= 0 {
			fn = fn[j+1:]
		}
	}
	return fmt.Sprintf("%s:%d", fn, q.Line)
}

func (e *Engine) where(st *State) string {
	if st.cur < 0 || int(st.cur) >= len(st.threads) {
		return "scheduler"
	}
	th := st.threads[st.cur]
	var sb strings.Builder
	for i := len(th.frames) - 1; i >= 0 && i >= len(th.frames)-6; i-- {
		f := th.frames[i]
		b := f.fn.blocks[f.block]
		ip := int(f.ip)
		if ip >= len(b.instrs) {
			ip = len(b.instrs) - 1
		}
		p := token.NoPos
		for j := ip; j >= 0 && !p.IsValid(); j-- {
			p = b.instrs[j].in.Pos()
		}
		fmt.Fprintf(&sb, "%s(%s) < ", f.fn.name, e.pos(p))
	}
	return sb.String()
}

var _ = math.Pi
