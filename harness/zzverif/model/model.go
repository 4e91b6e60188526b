// Package model contains the environment models used by the symbolic executor in place of
// the runtime: contexts, timers, the clock and a few library functions.
package model

import (
	"context"
	"fmt"
	"io"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

// engine intrinsics
func point()                       {}
func timerWait()                   {}
func sameType(a, b any) bool       { return false }
func comparable(a any) bool        { return true }
func asAssign(err error, t any) bool { return false }
func lenOf(a any) int              { return 0 }
func swap(a any, i, j int)         {}
func sprintf(f string, a []any) string { return f }

// ---- context ----

type ctxKey struct{}

var theCtxKey ctxKey

type cancelCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	up       *cancelCtx
	afters   []func()
	deadline time.Time
	hasDl    bool
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	point()
	return c.err
}
func (c *cancelCtx) Value(key any) any {
	if key == any(&theCtxKey) {
		return c
	}
	return c.parent.Value(key)
}

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	close(c.done)
	ch := c.children
	c.children = nil
	for _, k := range ch {
		k.up = nil
		k.cancel(err, cause)
	}
	as := c.afters
	c.afters = nil
	for _, f := range as {
		go f()
	}
}

func (c *cancelCtx) remove() {
	if c.up == nil {
		return
	}
	u := c.up
	c.up = nil
	for i, k := range u.children {
		if k == c {
			n := make([]*cancelCtx, 0, len(u.children))
			n = append(n, u.children[:i]...)
			n = append(n, u.children[i+1:]...)
			u.children = n
			return
		}
	}
}

func newCancel(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	p, _ := parent.Value(&theCtxKey).(*cancelCtx)
	if p != nil && parent.Done() == (<-chan struct{})(p.done) {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			c.up = p
			p.children = append(p.children, c)
		}
		return c
	}
	if d := parent.Done(); d != nil {
		go func() {
			select {
			case <-d:
				c.cancel(parent.Err(), nil)
			case <-c.done:
			}
		}()
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() {
		point()
		c.remove()
		c.cancel(context.Canceled, nil)
	}
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) {
		point()
		c.remove()
		c.cancel(context.Canceled, cause)
	}
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		d = pd
	}
	c.hasDl = true
	c.deadline = d
	t := AfterFunc(d.Sub(Now()), func() {
		point()
		c.remove()
		c.cancel(context.DeadlineExceeded, nil)
	})
	return c, func() {
		point()
		c.remove()
		c.cancel(context.Canceled, nil)
		TimerStop(t)
	}
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, d)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func WithValue(parent context.Context, key, val any) context.Context {
	return &valueCtx{parent, key, val}
}

type withoutCancel struct{ c context.Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() <-chan struct{}       { return nil }
func (withoutCancel) Err() error                  { return nil }
func (c withoutCancel) Value(key any) any {
	if key == any(&theCtxKey) {
		return nil
	}
	return c.c.Value(key)
}

func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }

func Cause(c context.Context) error {
	if cc, ok := c.Value(&theCtxKey).(*cancelCtx); ok {
		return cc.cause
	}
	return c.Err()
}

func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	point()
	c, _ := ctx.Value(&theCtxKey).(*cancelCtx)
	if c == nil {
		return func() bool { return true }
	}
	if c.err != nil {
		go f()
		return func() bool { return false }
	}
	st := 0
	c.afters = append(c.afters, func() {
		if st == 0 {
			st = 1
			f()
		}
	})
	return func() bool {
		point()
		if st != 0 || c.err != nil {
			return false
		}
		st = 2
		return true
	}
}

// ---- clock and timers ----

type timerRec struct {
	t    *time.Timer
	when int64
	f    func()
	ch   chan time.Time
}

var (
	nowNs  int64
	timers []*timerRec
	looped bool
)

func base() time.Time { return time.Unix(946684800, 0) }

func Now() time.Time                  { return base().Add(time.Duration(nowNs)) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func arm(r *timerRec, d time.Duration) {
	if d < 0 {
		d = 0
	}
	r.when = nowNs + int64(d)
	n := make([]*timerRec, 0, len(timers)+1)
	n = append(n, timers...)
	timers = append(n, r)
	if !looped {
		looped = true
		go timerLoop()
	}
}

func timerLoop() {
	for {
		if len(timers) == 0 {
			looped = false
			return
		}
		timerWait()
		if len(timers) == 0 {
			looped = false
			return
		}
		best := 0
		for i, r := range timers {
			if r.when < timers[best].when {
				best = i
			}
		}
		r := timers[best]
		drop(best)
		if r.when > nowNs {
			nowNs = r.when
		}
		if r.f != nil {
			go r.f()
		} else {
			select {
			case r.ch <- Now():
			default:
			}
		}
	}
}

func drop(i int) {
	n := make([]*timerRec, 0, len(timers))
	n = append(n, timers[:i]...)
	n = append(n, timers[i+1:]...)
	timers = n
}

type timerBox struct {
	T time.Timer
	r *timerRec
}

var boxes []*timerRec

func AfterFunc(d time.Duration, f func()) *time.Timer {
	r := &timerRec{t: &time.Timer{}, f: f}
	boxes = append(boxes, r)
	arm(r, d)
	return r.t
}

func NewTimer(d time.Duration) *time.Timer {
	ch := make(chan time.Time, 1)
	r := &timerRec{t: &time.Timer{C: ch}, ch: ch}
	boxes = append(boxes, r)
	arm(r, d)
	return r.t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func TimerStop(t *time.Timer) bool {
	point()
	for i, r := range timers {
		if r.t == t {
			drop(i)
			return true
		}
	}
	return false
}

func TimerReset(t *time.Timer, d time.Duration) bool {
	act := TimerStop(t)
	for _, r := range boxes {
		if r.t == t {
			if r.ch != nil {
				select {
				case <-r.ch:
				default:
				}
			}
			arm(r, d)
			return act
		}
	}
	panic("Reset of an unknown timer")
}

func Sleep(d time.Duration) {
	if d <= 0 {
		return
	}
	<-NewTimer(d).C
}

// ---- errors / fmt ----

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparable(target)
	for {
		if cmp && comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target any) bool {
	for err != nil {
		if asAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type wrapError struct {
	msg string
	err error
}

func (w *wrapError) Error() string { return w.msg }
func (w *wrapError) Unwrap() error { return w.err }

func Errorf(format string, a ...any) error {
	w := &wrapError{msg: sprintf(format, a)}
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, x := range a {
				if e, ok := x.(error); ok {
					w.err = e
				}
			}
		}
	}
	return w
}

// ---- sort / sync / strings ----

func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := lenOf(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

func fwrite(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return len(s), nil
	}
	return w.Write([]byte(s))
}
// SprintfNative is implemented by the engine.
func SprintfNative(f string, a ...any) string { return "" }

// Sprintf is fmt.Sprintf: strings are quoted here so that they may be symbolic.
func Sprintf(f string, a ...any) string {
	n := 0
	copied := false
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		if f[i] == 'q' && n < len(a) {
			if s, ok := a[n].(string); ok {
				if !copied {
					a = append([]any(nil), a...)
					copied = true
				}
				a[n] = strconv.Quote(s)
				f = f[:i] + "s" + f[i+1:]
			}
		}
		if c := f[i]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			n++
		} else if c != '%' {
			// flags: the verbs do not match the arguments one by one
			break
		}
	}
	return SprintfNative(f, a...)
}

func Fprintf(w io.Writer, f string, a ...any) (int, error) { return fwrite(w, fmt.Sprintf(f, a...)) }
func Fprint(w io.Writer, a ...any) (int, error)            { return fwrite(w, fmt.Sprint(a...)) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return fwrite(w, fmt.Sprintln(a...)) }
func FmtAppend(b []byte, a ...any) []byte                  { return append(b, fmt.Sprint(a...)...) }
func FmtAppendf(b []byte, f string, a ...any) []byte       { return append(b, fmt.Sprintf(f, a...)...) }

func SortSlice(x any, less func(i, j int) bool) {
	n := lenOf(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}

func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func PoolPut(p *sync.Pool, x any) {}

type mapRec struct {
	m *sync.Map
	d map[any]any
}

var syncMaps []*mapRec

func smap(m *sync.Map) *mapRec {
	for _, r := range syncMaps {
		if r.m == m {
			return r
		}
	}
	r := &mapRec{m: m, d: map[any]any{}}
	syncMaps = append(syncMaps, r)
	return r
}

func MapLoad(m *sync.Map, k any) (any, bool) {
	point()
	v, ok := smap(m).d[k]
	return v, ok
}
func MapStore(m *sync.Map, k, v any) {
	point()
	smap(m).d[k] = v
}
func MapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	point()
	if o, ok := smap(m).d[k]; ok {
		return o, true
	}
	smap(m).d[k] = v
	return v, false
}
func MapDelete(m *sync.Map, k any) {
	point()
	delete(smap(m).d, k)
}
func MapRange(m *sync.Map, f func(k, v any) bool) {
	point()
	for k, v := range smap(m).d {
		if !f(k, v) {
			return
		}
	}
}

func MapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	point()
	o, ok := smap(m).d[k]
	delete(smap(m).d, k)
	return o, ok
}
func MapSwap(m *sync.Map, k, v any) (any, bool) {
	point()
	o, ok := smap(m).d[k]
	smap(m).d[k] = v
	return o, ok
}
func MapCompareAndSwap(m *sync.Map, k, old, v any) bool {
	point()
	o, ok := smap(m).d[k]
	if !ok || o != old {
		return false
	}
	smap(m).d[k] = v
	return true
}
func MapCompareAndDelete(m *sync.Map, k, old any) bool {
	point()
	o, ok := smap(m).d[k]
	if !ok || o != old {
		return false
	}
	delete(smap(m).d, k)
	return true
}
func MapClear(m *sync.Map) {
	point()
	smap(m).d = map[any]any{}
}

type condWaiter struct {
	c  *sync.Cond
	ch chan struct{}
}

var condWaiters []condWaiter

func CondWait(c *sync.Cond) {
	ch := make(chan struct{}, 1)
	condWaiters = append(condWaiters[:len(condWaiters):len(condWaiters)], condWaiter{c, ch})
	c.L.Unlock()
	<-ch
	c.L.Lock()
}
func condWake(c *sync.Cond, all bool) {
	point()
	var rest []condWaiter
	for _, w := range condWaiters {
		if w.c == c {
			w.ch <- struct{}{}
			if !all {
				c = nil
			}
		} else {
			rest = append(rest, w)
		}
	}
	condWaiters = rest
}
func CondSignal(c *sync.Cond)    { condWake(c, false) }
func CondBroadcast(c *sync.Cond) { condWake(c, true) }

func AtomicValueSwap(v *atomic.Value, n any) any {
	o := v.Load()
	v.Store(n)
	return o
}
func AtomicValueCAS(v *atomic.Value, old, n any) bool {
	if v.Load() != old {
		return false
	}
	v.Store(n)
	return true
}

type tickRec struct {
	t *time.Ticker
	r *timerRec
	d time.Duration
}

var tickers []*tickRec

func NewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	x := &tickRec{t: &time.Ticker{C: ch}, r: &timerRec{}, d: d}
	x.r.f = func() {
		if x.d > 0 {
			arm(x.r, x.d)
			select {
			case ch <- Now():
			default:
			}
		}
	}
	tickers = append(tickers, x)
	arm(x.r, d)
	return x.t
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
func ticker(t *time.Ticker) *tickRec {
	for _, x := range tickers {
		if x.t == t {
			return x
		}
	}
	panic("unknown ticker")
}
func TickerStop(t *time.Ticker) {
	point()
	x := ticker(t)
	x.d = 0
	for i, r := range timers {
		if r == x.r {
			drop(i)
			return
		}
	}
}
func TickerReset(t *time.Ticker, d time.Duration) {
	TickerStop(t)
	x := ticker(t)
	x.d = d
	arm(x.r, d)
}

func BytesIndex(s, sub []byte) int     { return StringsIndex(string(s), string(sub)) }
func BytesLastIndex(s, sub []byte) int { return StringsLastIndex(string(s), string(sub)) }
func BytesCount(s, sub []byte) int {
	if len(sub) == 0 {
		n := 1
		for range string(s) {
			n++
		}
		return n
	}
	return StringsCount(string(s), string(sub))
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func IndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByte(s []byte, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func Count(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func StrCompare(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}
func BytesCompare(a, b []byte) int { return StrCompare(string(a), string(b)) }
func BytesEqual(a, b []byte) bool  { return string(a) == string(b) }

func StringsIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}
func StringsLastIndex(s, sub string) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}
func StringsCount(s, sub string) int {
	if len(sub) == 0 {
		return len([]rune(s)) + 1
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}
func MakeNoZero(n int) []byte { return make([]byte, n) }
func StringsJoin(a []string, sep string) string {
	s := ""
	for i, x := range a {
		if i != 0 {
			s += sep
		}
		s += x
	}
	return s
}
func StringsClone(s string) string { return s }

func lower(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 32
	}
	return c
}
func EqualFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if lower(a[i]) != lower(b[i]) {
			return false
		}
	}
	return true
}
func DebugStack() []byte { return nil }

func WgGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

// RandFloat64 is math/rand.Float64: the smallest, a middle or a large number.
func RandFloat64() float64 {
	return []float64{0.5, 0, 0.999}[sym.Choose("random", 3)]
}

// RandIntn is math/rand.Intn: the smallest, a middle or the largest number.
func RandIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if n == 1 {
		return 0
	}
	return []int{n / 2, 0, n - 1}[sym.Choose("random", 3)]
}

// RandInt63n is math/rand.Int63n.
func RandInt63n(n int64) int64 { return int64(RandIntn(int(n))) }

// RandInt31n is math/rand.Int31n.
func RandInt31n(n int32) int32 { return int32(RandIntn(int(n))) }

// RandInt63 is math/rand.Int63.
func RandInt63() int64 { return RandInt63n(1<<63 - 1) }

// RandInt is math/rand.Int.
func RandInt() int { return RandIntn(1<<63 - 1) }
