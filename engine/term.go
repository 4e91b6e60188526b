package main

import (
	"fmt"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OpConst Op = iota // bit-vector constant (W>0) or boolean constant (W==0)
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpBand
	OpBor
	OpBxor
	OpShl
	OpLshr
	OpAshr
	OpExtract // K = lo, width = W
	OpZext
	OpSext
	OpConcat
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpSdiv: "bvsdiv",
	OpUrem: "bvurem", OpSrem: "bvsrem", OpBand: "bvand", OpBor: "bvor", OpBxor: "bvxor",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat",
}

// Term is a hash-consed SMT term. W is the bit width, 0 for Bool.
type Term struct {
	Op   Op
	W    uint8
	K    uint64
	Name string
	Args []*Term
	ID   int32
	vars *varSet // variables in the term
	leaf int32   // number of ite leaves if the term is an ite tree over constants, else 0
}

type varSet struct {
	ids []int32 // sorted
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	name    string
	a, b, c int32
	rest    string
}

// TermStore is a hash-consing store; one per engine, used by one goroutine.
type TermStore struct {
	tab   map[termKey]*Term
	next  int32
	True  *Term
	False *Term
	vars  []*Term
	// memoised lifted operations on ite trees
	empty *varSet
}

func NewTermStore() *TermStore {
	s := &TermStore{tab: make(map[termKey]*Term), empty: &varSet{}}
	s.True = s.mk(OpConst, 0, 1, "", nil)
	s.False = s.mk(OpConst, 0, 0, "", nil)
	return s
}

func (s *TermStore) mk(op Op, w uint8, k uint64, name string, args []*Term) *Term {
	key := termKey{op: op, w: w, k: k, name: name, a: -1, b: -1, c: -1}
	switch len(args) {
	case 0:
	case 1:
		key.a = args[0].ID
	case 2:
		key.a, key.b = args[0].ID, args[1].ID
	case 3:
		key.a, key.b, key.c = args[0].ID, args[1].ID, args[2].ID
	default:
		var sb strings.Builder
		for _, a := range args {
			fmt.Fprintf(&sb, "%d,", a.ID)
		}
		key.rest = sb.String()
	}
	if t, ok := s.tab[key]; ok {
		return t
	}
	t := &Term{Op: op, W: w, K: k, Name: name, Args: args, ID: s.next}
	s.next++
	switch op {
	case OpConst:
		t.vars = s.empty
		if w > 0 {
			t.leaf = 1
		}
	case OpVar:
		t.vars = &varSet{ids: []int32{t.ID}}
		s.vars = append(s.vars, t)
	default:
		t.vars = s.unionVars(args)
		if op == OpIte && w > 0 && args[1].leaf > 0 && args[2].leaf > 0 {
			t.leaf = args[1].leaf + args[2].leaf
		}
	}
	s.tab[key] = t
	return t
}

func (s *TermStore) unionVars(args []*Term) *varSet {
	var best *varSet
	for _, a := range args {
		if len(a.vars.ids) == 0 || a.vars == best {
			continue
		}
		if best == nil {
			best = a.vars
			continue
		}
		// merge
		x, y := best.ids, a.vars.ids
		out := make([]int32, 0, len(x)+len(y))
		i, j := 0, 0
		for i < len(x) && j < len(y) {
			switch {
			case x[i] < y[j]:
				out = append(out, x[i])
				i++
			case x[i] > y[j]:
				out = append(out, y[j])
				j++
			default:
				out = append(out, x[i])
				i++
				j++
			}
		}
		out = append(out, x[i:]...)
		out = append(out, y[j:]...)
		if len(out) == len(x) {
			continue
		}
		if len(out) == len(y) {
			best = a.vars
			continue
		}
		best = &varSet{ids: out}
	}
	if best == nil {
		return s.empty
	}
	return best
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (s *TermStore) BV(w uint8, k uint64) *Term { return s.mk(OpConst, w, k&mask(w), "", nil) }
func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.True
	}
	return s.False
}
func (s *TermStore) Var(name string, w uint8) *Term { return s.mk(OpVar, w, 0, name, nil) }

func (t *Term) IsConst() bool { return t.Op == OpConst }

// Signed returns the sign-extended constant.
func (t *Term) Signed() int64 {
	if t.W == 64 || t.W == 0 {
		return int64(t.K)
	}
	sh := 64 - t.W
	return int64(t.K<<sh) >> sh
}

func (s *TermStore) Not(a *Term) *Term {
	switch a.Op {
	case OpConst:
		return s.Bool(a.K == 0)
	case OpNot:
		return a.Args[0]
	}
	return s.mk(OpNot, 0, 0, "", []*Term{a})
}

func (s *TermStore) nary(op Op, in []*Term) *Term {
	// op is And or Or
	unit, zero := s.True, s.False
	if op == OpOr {
		unit, zero = s.False, s.True
	}
	seen := make(map[int32]bool, len(in))
	out := make([]*Term, 0, len(in))
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if seen[s.Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption / factoring for Or of conjunctions
	if op == OpOr && len(out) == 2 {
		if r := s.factorOr(out[0], out[1]); r != nil {
			return r
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return s.mk(op, 0, 0, "", out)
}

func conjuncts(t *Term) []*Term {
	if t.Op == OpAnd {
		return t.Args
	}
	return []*Term{t}
}

// factorOr simplifies a ∨ b by pulling out common conjuncts; returns nil if there are none.
func (s *TermStore) factorOr(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := make(map[int32]bool, len(cb))
	for _, t := range cb {
		inB[t.ID] = true
	}
	var common, ra, rb []*Term
	isCommon := map[int32]bool{}
	for _, t := range ca {
		if inB[t.ID] {
			common = append(common, t)
			isCommon[t.ID] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cb {
		if !isCommon[t.ID] {
			rb = append(rb, t)
		}
	}
	if len(common) == 0 {
		// x ∨ (¬x ∧ y) = x ∨ y
		if len(ca) == 1 {
			n := s.Not(ca[0])
			for i, t := range cb {
				if t == n {
					rest := append(append([]*Term{}, cb[:i]...), cb[i+1:]...)
					return s.Or(a, s.And(rest...))
				}
			}
		}
		if len(cb) == 1 {
			n := s.Not(cb[0])
			for i, t := range ca {
				if t == n {
					rest := append(append([]*Term{}, ca[:i]...), ca[i+1:]...)
					return s.Or(b, s.And(rest...))
				}
			}
		}
		return nil
	}
	if len(ra) == 0 || len(rb) == 0 {
		return s.And(common...)
	}
	return s.And(append(common, s.Or(s.And(ra...), s.And(rb...)))...)
}

func (s *TermStore) And(a ...*Term) *Term { return s.nary(OpAnd, a) }
func (s *TermStore) Or(a ...*Term) *Term  { return s.nary(OpOr, a) }
func (s *TermStore) Implies(a, b *Term) *Term {
	return s.Or(s.Not(a), b)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	if c == s.True || a == b {
		return a
	}
	if c == s.False {
		return b
	}
	if c.Op == OpNot {
		c, a, b = c.Args[0], b, a
	}
	if a.W == 0 {
		if a == s.True && b == s.False {
			return c
		}
		if a == s.False && b == s.True {
			return s.Not(c)
		}
		if a == s.True {
			return s.Or(c, b)
		}
		if a == s.False {
			return s.And(s.Not(c), b)
		}
		if b == s.True {
			return s.Or(s.Not(c), a)
		}
		if b == s.False {
			return s.And(c, a)
		}
	}
	if a.Op == OpIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OpIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c∨d, x, y)
	if b.Op == OpIte && b.Args[1] == a {
		return s.Ite(s.Or(c, b.Args[0]), a, b.Args[2])
	}
	if b.Op == OpIte && b.Args[2] == a {
		return s.Ite(s.Or(c, s.Not(b.Args[0])), a, b.Args[1])
	}
	return s.mk(OpIte, a.W, 0, "", []*Term{c, a, b})
}

const maxLift = 24

func (s *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return s.False
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b == s.True {
			return a
		}
		if b == s.False {
			return s.Not(a)
		}
	}
	if a.leaf > 0 && b.leaf > 0 && a.leaf*b.leaf <= maxLift*4 {
		return s.lift2(a, b, func(x, y *Term) *Term { return s.Eq(x, y) })
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OpZext:
			in := a.Args[0]
			if b.K&^mask(in.W) != 0 {
				return s.False
			}
			return s.Eq(in, s.BV(in.W, b.K))
		case OpSext:
			in := a.Args[0]
			lo := s.BV(in.W, b.K)
			if uint64(lo.Signed())&mask(a.W) != b.K {
				return s.False
			}
			return s.Eq(in, lo)
		case OpAdd:
			if a.Args[1].IsConst() {
				return s.Eq(a.Args[0], s.BV(a.W, b.K-a.Args[1].K))
			}
		case OpIte:
			if a.Args[1].IsConst() || a.Args[2].IsConst() {
				return s.Ite(a.Args[0], s.Eq(a.Args[1], b), s.Eq(a.Args[2], b))
			}
		}
	}
	if a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return s.mk(OpEq, 0, 0, "", []*Term{a, b})
}

// lift2 applies f to the leaves of two ite trees over constants.
func (s *TermStore) lift2(a, b *Term, f func(x, y *Term) *Term) *Term {
	if a.Op == OpIte {
		return s.Ite(a.Args[0], s.lift2(a.Args[1], b, f), s.lift2(a.Args[2], b, f))
	}
	if b.Op == OpIte {
		return s.Ite(b.Args[0], s.lift2(a, b.Args[1], f), s.lift2(a, b.Args[2], f))
	}
	return f(a, b)
}

func (s *TermStore) Cmp(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic("cmp width mismatch")
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OpUlt:
			return s.Bool(a.K < b.K)
		case OpUle:
			return s.Bool(a.K <= b.K)
		case OpSlt:
			return s.Bool(a.Signed() < b.Signed())
		case OpSle:
			return s.Bool(a.Signed() <= b.Signed())
		}
	}
	if a == b {
		return s.Bool(op == OpUle || op == OpSle)
	}
	switch op {
	case OpUlt:
		if b.IsConst() && b.K == 0 {
			return s.False
		}
		if b.IsConst() && b.K == 1 {
			return s.Eq(a, s.BV(a.W, 0))
		}
		if a.IsConst() && a.K == mask(a.W) {
			return s.False
		}
	case OpUle:
		if a.IsConst() && a.K == 0 {
			return s.True
		}
		if b.IsConst() && b.K == mask(a.W) {
			return s.True
		}
	}
	if a.leaf > 0 && b.leaf > 0 && a.leaf*b.leaf <= maxLift*4 {
		return s.lift2(a, b, func(x, y *Term) *Term { return s.Cmp(op, x, y) })
	}
	// range of zero extensions
	if a.Op == OpZext && b.IsConst() {
		in := a.Args[0]
		bs := b.Signed()
		signed := op == OpSlt || op == OpSle
		if signed && bs < 0 {
			return s.False
		}
		if b.K > mask(in.W) {
			return s.True
		}
		nop := op
		if op == OpSlt {
			nop = OpUlt
		} else if op == OpSle {
			nop = OpUle
		}
		return s.Cmp(nop, in, s.BV(in.W, b.K))
	}
	if b.Op == OpZext && a.IsConst() {
		in := b.Args[0]
		as := a.Signed()
		signed := op == OpSlt || op == OpSle
		if signed && as < 0 {
			return s.True
		}
		if a.K > mask(in.W) {
			return s.False
		}
		nop := op
		if op == OpSlt {
			nop = OpUlt
		} else if op == OpSle {
			nop = OpUle
		}
		return s.Cmp(nop, s.BV(in.W, a.K), in)
	}
	return s.mk(op, 0, 0, "", []*Term{a, b})
}

func foldBin(op Op, w uint8, a, b *Term) (uint64, bool) {
	x, y := a.K, b.K
	switch op {
	case OpAdd:
		return x + y, true
	case OpSub:
		return x - y, true
	case OpMul:
		return x * y, true
	case OpUdiv:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case OpUrem:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case OpSdiv:
		if y == 0 {
			return 0, false
		}
		if b.Signed() == -1 {
			return uint64(-a.Signed()), true
		}
		return uint64(a.Signed() / b.Signed()), true
	case OpSrem:
		if y == 0 {
			return 0, false
		}
		if b.Signed() == -1 {
			return 0, true
		}
		return uint64(a.Signed() % b.Signed()), true
	case OpBand:
		return x & y, true
	case OpBor:
		return x | y, true
	case OpBxor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a.Signed() >> y), true
	}
	return 0, false
}

func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("bin %s width mismatch %d %d", opNames[op], a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		if k, ok := foldBin(op, w, a, b); ok {
			return s.BV(w, k)
		}
		return s.mk(op, w, 0, "", []*Term{a, b})
	}
	switch op {
	case OpAdd, OpMul, OpBand, OpBor, OpBxor:
		if a.IsConst() {
			a, b = b, a
		}
	}
	if b.IsConst() {
		switch op {
		case OpAdd, OpSub, OpBor, OpBxor, OpShl, OpLshr, OpAshr:
			if b.K == 0 {
				return a
			}
		case OpMul:
			if b.K == 1 {
				return a
			}
			if b.K == 0 {
				return b
			}
		case OpBand:
			if b.K == 0 {
				return b
			}
			if b.K == mask(w) {
				return a
			}
			if a.Op == OpZext && b.K&mask(a.Args[0].W) == mask(a.Args[0].W) {
				return a
			}
		case OpUdiv, OpSdiv:
			if b.K == 1 {
				return a
			}
		}
		if op == OpSub {
			return s.Bin(OpAdd, a, s.BV(w, -b.K))
		}
		if op == OpAdd && a.Op == OpAdd && a.Args[1].IsConst() {
			return s.Bin(OpAdd, a.Args[0], s.BV(w, a.Args[1].K+b.K))
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBxor:
			return s.BV(w, 0)
		case OpBand, OpBor:
			return a
		}
	}
	if a.leaf > 0 && b.leaf > 0 && a.leaf*b.leaf <= maxLift {
		switch op {
		case OpUdiv, OpSdiv, OpUrem, OpSrem:
		default:
			return s.lift2(a, b, func(x, y *Term) *Term { return s.Bin(op, x, y) })
		}
	}
	return s.mk(op, w, 0, "", []*Term{a, b})
}

func (s *TermStore) Resize(a *Term, w uint8, signed bool) *Term {
	if a.W == w {
		return a
	}
	if a.leaf > 0 && a.leaf <= maxLift {
		return s.lift2(a, a0, func(x, _ *Term) *Term {
			if w < x.W {
				return s.BV(w, x.K)
			}
			if signed {
				return s.BV(w, uint64(x.Signed()))
			}
			return s.BV(w, x.K)
		})
	}
	if w < a.W {
		if (a.Op == OpZext || a.Op == OpSext) && a.Args[0].W >= w {
			return s.Resize(a.Args[0], w, false)
		}
		if a.Op == OpZext || a.Op == OpSext {
			return s.Resize(a.Args[0], w, a.Op == OpSext)
		}
		return s.mk(OpExtract, w, 0, "", []*Term{a})
	}
	if signed {
		if a.Op == OpZext {
			return s.mk(OpZext, w, 0, "", []*Term{a.Args[0]})
		}
		if a.Op == OpSext {
			return s.mk(OpSext, w, 0, "", []*Term{a.Args[0]})
		}
		return s.mk(OpSext, w, 0, "", []*Term{a})
	}
	if a.Op == OpZext {
		a = a.Args[0]
	}
	return s.mk(OpZext, w, 0, "", []*Term{a})
}

var a0 = &Term{Op: OpConst, leaf: 1, W: 8}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			if t.K != 0 {
				return "true"
			}
			return "false"
		}
		if t.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.W/4), t.K)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.K, t.W)
	case OpVar:
		return "|" + t.Name + "|"
	}
	return fmt.Sprintf("t%d", t.ID)
}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.Op {
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.K)+int(t.W)-1, t.K, t.Args[0].ref())
		return sb.String()
	case OpZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.W-t.Args[0].W, t.Args[0].ref())
		return sb.String()
	case OpSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.W-t.Args[0].W, t.Args[0].ref())
		return sb.String()
	}
	sb.WriteString("(")
	sb.WriteString(opNames[t.Op])
	for _, a := range t.Args {
		sb.WriteString(" ")
		sb.WriteString(a.ref())
	}
	sb.WriteString(")")
	return sb.String()
}

// Eval evaluates a term under an assignment (missing variables are 0).
func (t *Term) Eval(m map[string]uint64, memo map[int32]uint64) uint64 {
	if t.Op == OpConst {
		return t.K
	}
	if v, ok := memo[t.ID]; ok {
		return v
	}
	var r uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	sg := func(v uint64, w uint8) int64 {
		if w >= 64 || w == 0 {
			return int64(v)
		}
		sh := 64 - w
		return int64(v<<sh) >> sh
	}
	switch t.Op {
	case OpVar:
		r = m[t.Name]
	case OpNot:
		r = 1 - t.Args[0].Eval(m, memo)
	case OpAnd:
		r = 1
		for _, a := range t.Args {
			if a.Eval(m, memo) == 0 {
				r = 0
				break
			}
		}
	case OpOr:
		for _, a := range t.Args {
			if a.Eval(m, memo) != 0 {
				r = 1
				break
			}
		}
	case OpIte:
		if t.Args[0].Eval(m, memo) != 0 {
			r = t.Args[1].Eval(m, memo)
		} else {
			r = t.Args[2].Eval(m, memo)
		}
	case OpEq:
		r = b2(t.Args[0].Eval(m, memo) == t.Args[1].Eval(m, memo))
	case OpUlt, OpUle, OpSlt, OpSle:
		x, y := t.Args[0].Eval(m, memo), t.Args[1].Eval(m, memo)
		w := t.Args[0].W
		switch t.Op {
		case OpUlt:
			r = b2(x < y)
		case OpUle:
			r = b2(x <= y)
		case OpSlt:
			r = b2(sg(x, w) < sg(y, w))
		case OpSle:
			r = b2(sg(x, w) <= sg(y, w))
		}
	case OpExtract:
		r = t.Args[0].Eval(m, memo) >> t.K
	case OpZext:
		r = t.Args[0].Eval(m, memo)
	case OpSext:
		r = uint64(sg(t.Args[0].Eval(m, memo), t.Args[0].W))
	default:
		x := &Term{Op: OpConst, W: t.W, K: t.Args[0].Eval(m, memo)}
		y := &Term{Op: OpConst, W: t.W, K: t.Args[1].Eval(m, memo)}
		k, ok := foldBin(t.Op, t.W, x, y)
		if !ok {
			switch t.Op {
			case OpUdiv:
				k = mask(t.W)
			case OpSdiv:
				k = mask(t.W)
				if sg(x.K, t.W) < 0 {
					k = 1
				}
			case OpUrem, OpSrem:
				k = x.K
			}
		}
		r = k
	}
	if t.W > 0 {
		r &= mask(t.W)
	}
	memo[t.ID] = r
	return r
}
