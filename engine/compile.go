package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type Opnd struct {
	kind uint8 // 0 register, 1 constant value, 2 builtin
	reg  int32
	val  Value
}

const (
	okReg   = 0
	okConst = 1
	okNone  = 2
)

type Instr struct {
	in  ssa.Instruction
	ops []Opnd
	dst int32 // -1: none
}

type BlockInfo struct {
	instrs []Instr
	nphi   int32
	preds  int
	rpo    int32
	b      *ssa.BasicBlock
	live   [][]uint64 // live register bitset before each instruction (computed lazily)
}

type FnInfo struct {
	id      int32
	fn      *ssa.Function
	name    string // origin name
	pkg     string
	nregs   int32
	nparams int32
	blocks  []BlockInfo
	isModel bool
	origin  int8
	hasLive bool
	regTyp  []types.Type
	native  func(e *Engine, st *State, th *Thread, args []Value) Value
	redir   *ssa.Function
	stub    bool
	body    bool
	calls   int
	instrs  int
	names   []string
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if fi, ok := e.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{id: int32(len(e.fns)), fn: fn, name: fnName(fn), pkg: fnPkgPath(fn)}
	e.fns[fn] = fi
	fi.isModel = fi.pkg == modelPkg || fi.pkg == symPkg
	if n, ok := natives[fi.name]; ok {
		fi.native = n
		return fi
	}
	if r, ok := redirects[fi.name]; ok {
		m := e.P.model.Func(r)
		if m == nil {
			panic(incomplete("model function %s missing", r))
		}
		fi.redir = m
		return fi
	}
	if fn.Synthetic == "" || fn.Synthetic == "package initializer" {
		if stubPkg(fi.pkg) {
			fi.stub = true
			return fi
		}
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if fn.Blocks == nil {
		return fi
	}
	e.compile(fi)
	return fi
}

func (e *Engine) compile(fi *FnInfo) {
	fn := fi.fn
	fi.body = true
	reg := make(map[ssa.Value]int32)
	add := func(v ssa.Value) int32 {
		r := fi.nregs
		reg[v] = r
		fi.nregs++
		fi.regTyp = append(fi.regTyp, v.Type())
		fi.names = append(fi.names, v.Name())
		return r
	}
	for _, p := range fn.Params {
		add(p)
	}
	fi.nparams = fi.nregs
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.blocks = make([]BlockInfo, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		blk := &fi.blocks[bi]
		blk.b = b
		blk.preds = len(b.Preds)
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			fi.instrs++
			ci := Instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				blk.nphi++
			}
			var rands [16]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				if *op == nil {
					ci.ops = append(ci.ops, Opnd{kind: okNone})
					continue
				}
				ci.ops = append(ci.ops, e.operand(*op, reg))
			}
			blk.instrs = append(blk.instrs, ci)
		}
	}
	// reverse postorder
	seen := make([]bool, len(fn.Blocks))
	var order []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		// visit successors so that loop bodies get smaller numbers than exits
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		order = append(order, b.Index)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil {
		dfs(fn.Recover)
	}
	n := len(order)
	for i, b := range order {
		fi.blocks[b].rpo = int32(n - 1 - i)
	}
}

func (e *Engine) operand(v ssa.Value, reg map[ssa.Value]int32) Opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return Opnd{kind: okConst, val: e.constVal(x)}
	case *ssa.Global:
		return Opnd{kind: okConst, val: Ptr{Obj: e.globalObj(x)}}
	case *ssa.Function:
		return Opnd{kind: okConst, val: &FuncV{Fn: x}}
	case *ssa.Builtin:
		return Opnd{kind: okNone}
	}
	r, ok := reg[v]
	if !ok {
		panic(incomplete("operand %s (%T)", v.Name(), v))
	}
	return Opnd{kind: okReg, reg: r}
}

func (e *Engine) globalObj(g *ssa.Global) int32 {
	if id, ok := e.globals[g]; ok {
		return id
	}
	panic(incomplete("global %s not allocated", g.String()))
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	u := t.Underlying()
	if tp, ok := u.(*types.TypeParam); ok {
		_ = tp
		panic(incomplete("const of type parameter"))
	}
	b, ok := u.(*types.Basic)
	if !ok {
		panic(incomplete("const of type %s", t))
	}
	if w, _, ok := intInfo(b); ok {
		if w == 0 {
			return e.S.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return e.S.BV(w, uint64(i))
		}
		if i, ok := constant.Uint64Val(v); ok {
			return e.S.BV(w, i)
		}
		panic(incomplete("const %s", c))
	}
	switch b.Info() & (types.IsString | types.IsFloat) {
	case types.IsString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
	case types.IsFloat:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		_ = math.Pi
		return f
	}
	panic(incomplete("const %s", c))
}

// ---- liveness ----

func (fi *FnInfo) liveness() {
	if fi.hasLive {
		return
	}
	fi.hasLive = true
	nw := int(fi.nregs+63) / 64
	nb := len(fi.blocks)
	liveIn := make([][]uint64, nb)  // at block start, before phis (phi operands attributed to preds)
	liveOut := make([][]uint64, nb) //
	for i := range liveIn {
		liveIn[i] = make([]uint64, nw)
		liveOut[i] = make([]uint64, nw)
	}
	set := func(b []uint64, r int32) { b[r>>6] |= 1 << (r & 63) }
	clr := func(b []uint64, r int32) { b[r>>6] &^= 1 << (r & 63) }
	step := func(cur []uint64, in *Instr) {
		if in.dst >= 0 {
			clr(cur, in.dst)
		}
		if _, ok := in.in.(*ssa.Phi); ok {
			return
		}
		for _, o := range in.ops {
			if o.kind == okReg {
				set(cur, o.reg)
			}
		}
	}
	// The recover block may run after any call: keep what it uses alive everywhere.
	var always []uint64
	if fi.fn.Recover != nil {
		always = make([]uint64, nw)
		for _, in := range fi.blocks[fi.fn.Recover.Index].instrs {
			for _, o := range in.ops {
				if o.kind == okReg {
					set(always, o.reg)
				}
			}
		}
		for _, in := range fi.blocks[fi.fn.Recover.Index].instrs {
			if in.dst >= 0 {
				clr(always, in.dst)
			}
		}
	}
	changed := true
	for changed {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := &fi.blocks[bi]
			out := make([]uint64, nw)
			for _, s := range b.b.Succs {
				for w := range out {
					out[w] |= liveIn[s.Index][w]
				}
				// phi operands for this edge
				for pi, p := range s.Preds {
					if p != b.b {
						continue
					}
					sb := &fi.blocks[s.Index]
					for k := int32(0); k < sb.nphi; k++ {
						o := sb.instrs[k].ops[pi]
						if o.kind == okReg {
							set(out, o.reg)
						}
					}
				}
			}
			for w := range always {
				out[w] |= always[w]
			}
			cur := append([]uint64(nil), out...)
			for i := len(b.instrs) - 1; i >= 0; i-- {
				step(cur, &b.instrs[i])
			}
			for w := range cur {
				if cur[w] != liveIn[bi][w] || out[w] != liveOut[bi][w] {
					changed = true
				}
			}
			liveIn[bi], liveOut[bi] = cur, out
		}
	}
	for bi := range fi.blocks {
		b := &fi.blocks[bi]
		b.live = make([][]uint64, len(b.instrs)+1)
		cur := append([]uint64(nil), liveOut[bi]...)
		b.live[len(b.instrs)] = append([]uint64(nil), cur...)
		for i := len(b.instrs) - 1; i >= 0; i-- {
			step(cur, &b.instrs[i])
			for w := range always {
				cur[w] |= always[w]
			}
			b.live[i] = append([]uint64(nil), cur...)
		}
	}
}

// liveAt returns the live registers before instruction ip of block b.
// For a frame waiting for a call to return at ip, use afterCall (destination excluded, operands not needed).
func (fi *FnInfo) liveAt(block, ip int32, afterCall bool) []uint64 {
	fi.liveness()
	b := &fi.blocks[block]
	if !afterCall {
		return b.live[ip]
	}
	l := append([]uint64(nil), b.live[ip+1]...)
	if d := b.instrs[ip].dst; d >= 0 {
		l[d>>6] &^= 1 << (d & 63)
	}
	return l
}

var _ = token.ADD
