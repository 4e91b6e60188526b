package main

import (
	"container/heap"
	"encoding/binary"
	"fmt"
	"go/types"
	"slices"
	"sort"
)

// ---- work list ----

// loc is the position of a state in the exploration order.
type qkey struct {
	level  int32
	parked bool
	cur    int32
	pos    []int64 // per frame: rpo<<20|ip, fn id
}

type qitem struct {
	st    *State
	key   qkey
	kstr  string
	merge bool
	canon *canon
	idx   int
	dead  bool
	seq   int64
}

type workQ []*qitem

func (q workQ) Len() int { return len(q) }
func (q workQ) Less(i, j int) bool {
	a, b := &q[i].key, &q[j].key
	if a.level != b.level {
		return a.level < b.level
	}
	if a.parked != b.parked {
		return !a.parked
	}
	if a.cur != b.cur {
		return a.cur < b.cur
	}
	n := min(len(a.pos), len(b.pos))
	for k := 0; k < n; k++ {
		if a.pos[k] != b.pos[k] {
			return a.pos[k] < b.pos[k]
		}
	}
	if len(a.pos) != len(b.pos) {
		return len(a.pos) > len(b.pos)
	}
	return q[i].seq < q[j].seq
}
func (q workQ) Swap(i, j int) { q[i], q[j] = q[j], q[i]; q[i].idx = i; q[j].idx = j }
func (q *workQ) Push(x any)   { it := x.(*qitem); it.idx = len(*q); *q = append(*q, it) }
func (q *workQ) Pop() any {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

func (e *Engine) keyOf(st *State) qkey {
	k := qkey{level: st.level, cur: st.cur}
	if st.cur < 0 {
		k.parked = true
		return k
	}
	th := st.threads[st.cur]
	for _, f := range th.frames {
		k.pos = append(k.pos, int64(f.fn.id), int64(f.fn.blocks[f.block].rpo)<<24|int64(f.ip))
	}
	return k
}

func (k *qkey) str() string {
	b := make([]byte, 0, 16+8*len(k.pos))
	b = binary.AppendVarint(b, int64(k.level))
	b = binary.AppendVarint(b, int64(k.cur))
	for _, p := range k.pos {
		b = binary.AppendVarint(b, p)
	}
	return string(b)
}

func (e *Engine) shouldPark(st *State) bool { return e.model == nil && e.work.Len() > 0 }
func (e *Engine) canMerge(st *State) bool {
	if e.model != nil || e.work.Len() == 0 || e.opt.NoMerge {
		return false
	}
	// only if another state of this level is still running
	top := e.work[0]
	return top.key.level == st.level && !top.key.parked
}

// push queues a state; if merge is set it may be joined with an equivalent queued state.
func (e *Engine) push(st *State, merge bool) {
	it := &qitem{st: st, key: e.keyOf(st), merge: merge && !e.opt.NoMerge}
	e.seq++
	it.seq = e.seq
	if it.merge {
		it.kstr = it.key.str()
		bk := e.buckets[it.kstr]
		if bk == nil {
			bk = &bucket{byHash: map[[2]uint64][]*qitem{}}
			e.buckets[it.kstr] = bk
		}
		if bk.n > 0 {
			if bk.plain != nil {
				o := bk.plain
				bk.plain = nil
				o.canon = e.canonize(o.st)
				h := [2]uint64{o.canon.h1, o.canon.h2}
				bk.byHash[h] = append(bk.byHash[h], o)
			}
			it.canon = e.canonize(st)
			h := [2]uint64{it.canon.h1, it.canon.h2}
			for _, o := range bk.byHash[h] {
				if e.mergeInto(o, it) {
					return
				}
			}
			bk.byHash[h] = append(bk.byHash[h], it)
		} else {
			bk.plain = it
		}
		bk.n++
	}
	heap.Push(&e.work, it)
	if e.work.Len() > e.stats.MaxQueue {
		e.stats.MaxQueue = e.work.Len()
	}
}

// bucket holds the mergeable queued states of one location.
type bucket struct {
	n      int
	plain  *qitem // the only state, not canonized yet
	byHash map[[2]uint64][]*qitem
}

func (e *Engine) pop() *State {
	it := heap.Pop(&e.work).(*qitem)
	if it.merge {
		bk := e.buckets[it.kstr]
		bk.n--
		if bk.plain == it {
			bk.plain = nil
		} else if it.canon != nil {
			h := [2]uint64{it.canon.h1, it.canon.h2}
			l := bk.byHash[h]
			for i, o := range l {
				if o == it {
					l[i] = l[len(l)-1]
					l = l[:len(l)-1]
					break
				}
			}
			if len(l) == 0 {
				delete(bk.byHash, h)
			} else {
				bk.byHash[h] = l
			}
		}
		if bk.n == 0 {
			delete(e.buckets, it.kstr)
		}
	}
	return it.st
}

// ---- canonical form ----

type canon struct {
	h1, h2  uint64 // 128-bit hash of the shape
	encs    []*enc
	scalars []*Term
}

func (c *canon) scal() []*Term {
	if c.scalars == nil {
		for _, x := range c.encs {
			c.scalars = append(c.scalars, x.scalars...)
		}
	}
	return c.scalars
}

type canonizer struct {
	e       *Engine
	st      *State
	buf     []byte
	scalars []*Term
	num     map[int32]int32
	queue   []int32
	// rewriting
	rewrite bool
	repl    []*Term
	pos     int
	local   *enc
	gen     uint64
	next    int32
	h1, h2  uint64
	encs    []*enc
}

func (c *canonizer) i(v int64)  { c.buf = binary.AppendVarint(c.buf, v) }
func (c *canonizer) b(v byte)   { c.buf = append(c.buf, v) }
func (c *canonizer) s(v string) { c.i(int64(len(v))); c.buf = append(c.buf, v...) }

func (c *canonizer) obj(id int32) {
	if id < 0 {
		c.b('n')
		return
	}
	if c.local != nil {
		c.b('o')
		c.local.refs = append(c.local.refs, id)
		return
	}
	if id < c.e.baseNext {
		c.b('B')
		c.i(int64(id))
		if c.st.modBase[id] {
			if _, ok := c.num[id]; !ok {
				c.num[id] = -1
				c.queue = append(c.queue, id)
			}
		}
		return
	}
	n, ok := c.num[id]
	if !ok {
		n = int32(len(c.num))
		c.num[id] = n
		c.queue = append(c.queue, id)
	}
	c.b('o')
	c.i(int64(n))
}

func (c *canonizer) path(p *PathN) {
	if p == nil {
		c.i(0)
		return
	}
	c.i(int64(p.Len))
	for _, x := range p.indices() {
		c.i(int64(x))
	}
}

func (e *Engine) typeID(t types.Type) int64 {
	if t == nil {
		return -1
	}
	if id, ok := e.typeIDs[t]; ok {
		return id
	}
	if v := e.typeMap.At(t); v != nil {
		id := v.(int64)
		e.typeIDs[t] = id
		return id
	}
	id := int64(len(e.typeIDs) + 1)
	e.typeMap.Set(t, id)
	e.typeIDs[t] = id
	return id
}

func (c *canonizer) term(t *Term) *Term {
	if c.rewrite {
		r := c.repl[c.pos]
		c.pos++
		return r
	}
	c.b(byte(t.W))
	c.scalars = append(c.scalars, t)
	return t
}

// val visits a value; in rewrite mode it returns the replaced value.
func (c *canonizer) val(v Value) Value {
	switch x := v.(type) {
	case nil:
		c.b('0')
	case *Term:
		c.b('T')
		return c.term(x)
	case string:
		c.b('S')
		c.s(x)
	case *SymStr:
		c.b('Y')
		c.i(int64(len(x.B)))
		if c.rewrite {
			nb := make([]*Term, len(x.B))
			for i := range x.B {
				nb[i] = c.term(x.B[i])
			}
			return c.e.mkStr(nb)
		}
		for _, t := range x.B {
			c.term(t)
		}
	case float64:
		c.b('F')
		c.s(fmt.Sprint(x))
	case complex128:
		c.b('C')
		c.s(fmt.Sprint(x))
	case Ptr:
		c.b('P')
		c.obj(x.Obj)
		c.path(x.Path)
	case Slice:
		c.b('L')
		c.obj(x.Obj)
		c.path(x.Path)
		c.i(int64(x.Off))
		c.i(int64(x.Len))
		c.i(int64(x.Cap))
	case Map:
		c.b('M')
		c.obj(x.Obj)
	case Chan:
		c.b('H')
		c.obj(x.Obj)
	case Iface:
		c.b('I')
		c.i(c.e.typeID(x.T))
		if x.T != nil {
			nv := c.val(x.V)
			if c.rewrite {
				return Iface{T: x.T, V: nv}
			}
		}
	case *FuncV:
		if x == nil {
			c.b('f')
			return v
		}
		c.b('G')
		c.s(x.Native)
		if x.Fn != nil {
			c.i(int64(c.e.fnID(x.Fn)))
		}
		c.i(int64(len(x.Binds)))
		nb := c.vals(x.Binds)
		if c.rewrite {
			return &FuncV{Fn: x.Fn, Native: x.Native, Binds: nb}
		}
	case *StructV:
		c.b('{')
		c.i(int64(len(x.F)))
		nf := c.vals(x.F)
		if c.rewrite {
			return &StructV{F: nf}
		}
	case *ArrayV:
		c.b('[')
		c.i(int64(len(x.E)))
		nf := c.vals(x.E)
		if c.rewrite {
			return &ArrayV{E: nf}
		}
	case Tuple:
		c.b('(')
		c.i(int64(len(x)))
		nf := c.vals(x)
		if c.rewrite {
			return Tuple(nf)
		}
	case LockV:
		c.b('K')
		c.i(int64(x.Owner))
		c.i(int64(x.Readers))
	case *MapObj:
		c.b('m')
		c.i(int64(len(x.K)))
		nk := c.vals(x.K)
		nv := c.vals(x.V)
		if c.rewrite {
			return &MapObj{K: nk, V: nv, T: x.T}
		}
	case *ChanObj:
		c.b('h')
		c.i(int64(x.Cap))
		if x.Closed {
			c.b(1)
		} else {
			c.b(0)
		}
		c.i(int64(len(x.Buf)))
		nb := c.vals(x.Buf)
		if c.rewrite {
			n := *x
			n.Buf = nb
			return &n
		}
	case *IterObj:
		c.b('i')
		c.i(int64(x.Pos))
		n := *x
		n.Str = c.val(x.Str)
		c.val(x.M)
		c.i(int64(len(x.Keys)))
		n.Keys = c.vals(x.Keys)
		if c.rewrite {
			return &n
		}
	default:
		// call-common bindings of builtins and other opaque engine values
		c.b('?')
		c.s(fmt.Sprintf("%p", v))
	}
	return v
}

func (c *canonizer) vals(vs []Value) []Value {
	if !c.rewrite {
		for _, v := range vs {
			c.val(v)
		}
		return nil
	}
	out := make([]Value, len(vs))
	for i, v := range vs {
		out[i] = c.val(v)
	}
	return out
}

// enc is the cached local encoding of an immutable piece of a state.
type enc struct {
	h1, h2  uint64
	scalars []*Term
	refs    []int32
}

// local switches the canonizer to collecting references instead of numbering them.
func (c *canonizer) begin() { c.local = &enc{} }

func (c *canonizer) end() *enc {
	x := c.local
	c.local = nil
	x.h1, x.h2 = hash128(c.buf)
	x.scalars = append([]*Term(nil), c.scalars...)
	c.buf = c.buf[:0]
	c.scalars = c.scalars[:0]
	return x
}

func hash128(b []byte) (uint64, uint64) {
	h1 := uint64(14695981039346656037)
	h2 := uint64(0x9E3779B97F4A7C15)
	for len(b) >= 8 {
		w := binary.LittleEndian.Uint64(b)
		h1 = (h1 ^ w) * 0xff51afd7ed558ccd
		h1 ^= h1 >> 32
		h2 = (h2 + w) * 0xc4ceb9fe1a85ec53
		h2 ^= h2 >> 29
		b = b[8:]
	}
	var w uint64 = 1
	for _, x := range b {
		w = w<<8 | uint64(x)
	}
	h1 = (h1 ^ w) * 0xff51afd7ed558ccd
	h1 ^= h1 >> 33
	h2 = (h2 + w) * 0xc4ceb9fe1a85ec53
	h2 ^= h2 >> 31
	return h1, h2
}

func (c *canonizer) mix(w uint64) {
	c.h1 = (c.h1 ^ w) * 0xff51afd7ed558ccd
	c.h1 ^= c.h1 >> 32
	c.h2 = (c.h2 + w) * 0xc4ceb9fe1a85ec53
	c.h2 ^= c.h2 >> 29
}

func (c *canonizer) emit(x *enc) {
	c.mix(x.h1)
	c.mix(x.h2)
	for _, r := range x.refs {
		if r < c.e.baseNext {
			if c.st.modBase[r] && c.numOf(r) == 0 {
				c.setNum(r, -1)
				c.queue = append(c.queue, r)
			}
			c.mix(1<<40 | uint64(r))
			continue
		}
		n := c.numOf(r)
		if n == 0 {
			c.next++
			n = c.next
			c.setNum(r, n)
			c.queue = append(c.queue, r)
		}
		c.mix(uint64(n))
	}
	if len(x.scalars) != 0 {
		c.encs = append(c.encs, x)
	}
}

// shape computes the canonical form of the state from cached encodings of its immutable
// pieces; the state becomes copy-on-write.
func (c *canonizer) shape() {
	e, st := c.e, c.st
	st.epoch = e.newEpoch()
	c.h1, c.h2 = 14695981039346656037, 0x9E3779B97F4A7C15
	c.begin()
	c.head()
	c.emit(c.end())
	for ti := range st.threads {
		t := st.threads[ti]
		if t.enc == nil {
			c.begin()
			c.threadHead(t, ti)
			t.enc = c.end()
		}
		c.emit(t.enc)
		for fi := range t.frames {
			f := t.frames[fi]
			waiting := fi < len(t.frames)-1 && !f.inDefers
			if f.enc == nil || f.encWait != waiting {
				c.begin()
				c.frame(f, waiting)
				f.enc = c.end()
				f.encWait = waiting
			}
			c.emit(f.enc)
		}
	}
	for qi := 0; qi < len(c.queue); qi++ {
		o := st.get(c.queue[qi])
		if o.enc == nil {
			c.begin()
			c.val(o.Val)
			o.enc = c.end()
		}
		c.emit(o.enc)
	}
}

func (c *canonizer) numOf(id int32) int32 {
	if int(id) >= len(c.e.numBuf) {
		return 0
	}
	x := c.e.numBuf[id]
	if x.gen != c.gen {
		return 0
	}
	return x.n
}

func (c *canonizer) setNum(id, n int32) {
	for int(id) >= len(c.e.numBuf) {
		c.e.numBuf = append(c.e.numBuf, make([]numEnt, 1024+len(c.e.numBuf))...)
	}
	c.e.numBuf[id] = numEnt{gen: c.gen, n: n}
}

type numEnt struct {
	gen uint64
	n   int32
}

func (c *canonizer) head() {
	st := c.st
	c.i(int64(st.cur))
	c.i(int64(st.last))
	c.i(int64(st.nextTh))
	c.i(int64(len(st.threads)))
	if c.e.opt.Preempt >= 0 {
		// keeps the bound exact, so that a model of the path condition is a bounded schedule
		c.i(int64(st.preempt))
	}
	// counters
	keys := make([]string, 0, len(st.counts))
	for k := range st.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c.s(k)
		c.i(int64(st.counts[k]))
	}
	var mb []int32
	for k := range st.modBase {
		mb = append(mb, k)
	}
	slices.Sort(mb)
	c.i(int64(len(mb)))
	for _, k := range mb {
		c.obj(k)
	}
}

func (c *canonizer) threadHead(t *Thread, ti int) *Thread {
	e, st := c.e, c.st
	c.i(int64(t.id))
	c.b(byte(t.status))
	if t.granted {
		c.b(1)
	}
	if t.pend != nil {
		c.b(byte(t.pend.kind))
		if t.pend.kind == PkLock || t.pend.kind == PkRLock || t.pend.kind == PkWait {
			c.val(t.pend.ptr)
		}
		if t.pend.kind == PkRecv || t.pend.kind == PkSend {
			c.obj(t.pend.ch)
		}
		if t.pend.loc == "start" {
			c.b('s')
		}
		if t.pend.kind == PkSelect {
			if t.pend.blocking {
				c.b('b')
			}
			c.i(int64(len(t.pend.cases)))
			for i := range t.pend.cases {
				sc := t.pend.cases[i]
				c.obj(sc.ch)
				nv := c.val(sc.val)
				if c.rewrite {
					tt := st.thread(e, int32(ti))
					np := *tt.pend
					np.cases = append([]selCase(nil), np.cases...)
					np.cases[i].val = nv
					tt.pend = &np
					t = tt
				}
			}
		}
	}
	c.i(int64(len(t.frames)))
	return t
}

func (c *canonizer) frame(f *Frame, waiting bool) {
	c.i(int64(f.fn.id))
	c.i(int64(f.block))
	c.i(int64(f.ip))
	c.i(int64(f.retDst))
	fl := byte(0)
	if f.isDefer {
		fl |= 1
	}
	if f.panicking {
		fl |= 2
	}
	if f.recovered {
		fl |= 4
	}
	if f.inDefers {
		fl |= 8
	}
	c.b(fl)
	live := f.fn.liveAt(f.block, f.ip, waiting)
	for r := range f.regs {
		if live[r>>6]&(1<<(r&63)) == 0 {
			if c.rewrite {
				f.regs[r] = nil
			}
			continue
		}
		nv := c.val(f.regs[r])
		if c.rewrite {
			f.regs[r] = nv
		}
	}
	if f.panicking {
		nv := c.val(f.panicVal)
		if c.rewrite {
			f.panicVal = nv
		}
	}
	c.i(int64(len(f.defers)))
	for di := range f.defers {
		d := f.defers[di]
		nfn := c.val(d.fn)
		c.i(int64(len(d.args)))
		na := c.vals(d.args)
		if c.rewrite {
			nd := *d
			nd.fn = nfn.(*FuncV)
			nd.args = na
			f.defers[di] = &nd
		}
	}
}

// run visits the whole state in the order of shape, replacing the scalars (rewrite mode).
func (c *canonizer) run() {
	e, st := c.e, c.st
	c.head()
	for ti := range st.threads {
		t := c.threadHead(st.threads[ti], ti)
		t = st.thread(e, int32(ti))
		for fi := range t.frames {
			f := st.frame(e, t, fi)
			c.frame(f, fi < len(t.frames)-1 && !f.inDefers)
		}
	}
	for len(c.queue) > 0 {
		id := c.queue[0]
		c.queue = c.queue[1:]
		o := st.get(id)
		nv := c.val(o.Val)
		e.setObj(st, id, nv)
	}
}

func (e *Engine) fnID(fn any) int32 {
	if id, ok := e.fnIDs[fn]; ok {
		return id
	}
	id := int32(len(e.fnIDs))
	e.fnIDs[fn] = id
	return id
}

func (e *Engine) canonize(st *State) *canon {
	e.canonGen++
	c := &canonizer{e: e, st: st, gen: e.canonGen}
	c.queue = e.queueBuf[:0]
	c.shape()
	e.queueBuf = c.queue
	e.stats.Canon++
	return &canon{h1: c.h1, h2: c.h2, encs: c.encs}
}

// mergeInto joins state b into the queued state a; both have the same shape.
func (e *Engine) mergeInto(ai, bi *qitem) bool {
	a, b := ai.st, bi.st
	sa, sb := ai.canon.scal(), bi.canon.scal()
	if len(sa) != len(sb) {
		return false
	}
	diff := 0
	for i := range sa {
		if sa[i] != sb[i] {
			if sa[i].W != sb[i].W {
				return false
			}
			diff++
		}
	}
	if diff > e.opt.MergeDiff {
		return false
	}
	// split the path conditions
	inA := map[*Term]bool{}
	for p := a.pc; p != nil; p = p.prev {
		inA[p.c] = true
	}
	inB := map[*Term]bool{}
	for p := b.pc; p != nil; p = p.prev {
		inB[p.c] = true
	}
	var common, ra, rb []*Term
	for _, t := range a.pcList() {
		if inB[t] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pcList() {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	// separating condition
	var cond *Term
	inRb := map[*Term]bool{}
	for _, t := range rb {
		inRb[t] = true
	}
	for _, t := range ra {
		if inRb[e.S.Not(t)] {
			cond = t
			break
		}
	}
	ca, cb := e.S.And(ra...), e.S.And(rb...)
	if cond == nil {
		cond = ca
	}
	if diff > 0 {
		repl := make([]*Term, len(sa))
		for i := range sa {
			repl[i] = e.S.Ite(cond, sa[i], sb[i])
		}
		c := &canonizer{e: e, st: a, num: map[int32]int32{}, rewrite: true, repl: repl}
		a.epoch = e.newEpoch()
		c.run()
		ai.canon = &canon{h1: ai.canon.h1, h2: ai.canon.h2, scalars: repl}
		e.stats.IteMerges++
	}
	a.pc = nil
	for i := len(common) - 1; i >= 0; i-- {
		a.addPC(common[i])
	}
	a.addPC(e.S.Or(ca, cb))
	if a.cov != b.cov {
		a.covMixed = true
	}
	a.covMixed = a.covMixed || b.covMixed
	a.preempt = min(a.preempt, b.preempt)
	a.steps = max(a.steps, b.steps)
	e.stats.Merges++
	return true
}
