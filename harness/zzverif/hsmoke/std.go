package hsmoke

import (
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"context"
	"errors"
	"fmt"
	"io"
	"iter"
	"maps"
	"math"
	"math/bits"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	pe "github.com/pkg/errors"
	"github.com/aperturerobotics/controllerbus/zzverif/sym"
)

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// StdSlices uses slices, maps and sort.
//
//verif:prop SMOKE
//verif:bounds x
func StdSlices() {
	a := []int{3, 1, 2}
	sym.Assert(slices.Contains(a, 1) && slices.Index(a, 2) == 2 && slices.IndexFunc(a, func(x int) bool { return x == 1 }) == 1, "contains")
	b := slices.Clone(a)
	slices.Sort(b)
	sym.Assert(slices.Equal(b, []int{1, 2, 3}), "sort")
	slices.SortFunc(b, func(x, y int) int { return cmp.Compare(y, x) })
	sym.Assert(b[0] == 3, "sortfunc")
	slices.SortStableFunc(b, func(x, y int) int { return x - y })
	b = slices.Delete(b, 0, 1)
	b = slices.Insert(b, 0, 7, 8)
	sym.Assert(slices.Equal(b, []int{7, 8, 2, 3}), "insert")
	big := make([]int, 2, 10)
	big[1] = 5
	big = slices.Insert(big, 1, 3, 4)
	sym.Assert(slices.Equal(big, []int{0, 3, 4, 5}), "insert in place")
	big = slices.Insert(big, 1, big[2:]...)
	sym.Assert(slices.Equal(big, []int{0, 4, 5, 3, 4, 5}), "insert overlapping")
	big = slices.Replace(big, 1, 3, 9)
	sym.Assert(slices.Equal(big, []int{0, 9, 3, 4, 5}), "replace")
	b = slices.DeleteFunc(b, func(x int) bool { return x == 8 })
	slices.Reverse(b)
	sym.Assert(slices.Equal(b, []int{3, 2, 7}), "rev")
	b = slices.Compact(append(b, 7, 7))
	sym.Assert(len(b) == 3, "compact")
	i, ok := slices.BinarySearch([]int{1, 3, 5}, 3)
	sym.Assert(i == 1 && ok, "bs")
	sym.Assert(slices.Max(a) == 3 && slices.Min(a) == 1, "max")
	b = slices.Concat(a, b)
	b = slices.Grow(b, 4)
	b = slices.Clip(b)
	sym.Assert(len(slices.Repeat([]int{1}, 3)) == 3, "rep")
	m := map[string]int{"a": 1, "b": 2}
	k := slices.Sorted(maps.Keys(m))
	sym.Assert(slices.Equal(k, []string{"a", "b"}), "keys")
	v := slices.Collect(maps.Values(m))
	sym.Assert(len(v) == 2, "values")
	m2 := maps.Clone(m)
	maps.DeleteFunc(m2, func(k string, v int) bool { return v == 1 })
	sym.Assert(len(m2) == 1 && !maps.Equal(m, m2), "mapdel")
	maps.Copy(m2, m)
	sym.Assert(maps.Equal(m, m2), "mapcopy")
	m3 := maps.Collect(maps.All(m))
	sym.Assert(len(m3) == 2, "collect")
	n := 0
	for i, x := range slices.Backward(a) {
		n += i * x
	}
	for x := range slices.Values(a) {
		if x == 1 {
			continue
		}
		n++
	}
	for i := range 3 {
		n += i
	}
	for range slices.Chunk(a, 2) {
		n++
	}
	sym.Assert(n == 2*2+1*1+2+3+2, "range")
	var it iter.Seq[int] = func(yield func(int) bool) {
		for i := 0; ; i++ {
			if !yield(i) {
				return
			}
		}
	}
	for x := range it {
		if x > 3 {
			break
		}
	}
	f := func() int {
		for x := range it {
			if x == 2 {
				return x
			}
		}
		return 0
	}
	sym.Assert(f() == 2, "ret from range func")
	clear(m)
	sym.Assert(len(m) == 0 && min(1, 2) == 1 && max(1, 2, 3) == 3, "clear")
	s := []string{"b", "a"}
	sort.Strings(s)
	sym.Assert(s[0] == "a", "strings")
	is := []int{2, 1}
	sort.Ints(is)
	sort.Sort(sort.Reverse(sort.IntSlice(is)))
	sym.Assert(is[0] == 2, "ints")
	sort.SliceStable(is, func(i, j int) bool { return is[i] < is[j] })
	sym.Assert(is[0] == 1 && sort.SearchInts(is, 2) == 1 && sort.SliceIsSorted(is, func(i, j int) bool { return is[i] < is[j] }), "stable")
	h := &ih{5, 2, 8}
	heap.Init(h)
	heap.Push(h, 1)
	sym.Assert(heap.Pop(h) == 1, "heap")
	l := list.New()
	e := l.PushBack(1)
	l.PushFront(0)
	l.Remove(e)
	sym.Assert(l.Len() == 1 && l.Front().Value == 0, "list")
	sym.Assert(bits.OnesCount32(7) == 3 && bits.TrailingZeros64(8) == 3 && bits.Len(4) == 3, "bits")
	sym.Assert(math.MaxInt32 == 1<<31-1, "math")
	sym.Cover("end")
}

// StdStrings uses strings.
//
//verif:prop SMOKE
//verif:bounds x
func StdStrings() {
	var sb strings.Builder
	sb.WriteString("ab")
	sb.WriteByte('c')
	sb.WriteRune('d')
	fmt.Fprintf(&sb, "%d", 5)
	sym.Assert(sb.String() == "abcd5", "fprintf")
	sb.Reset()
	x, y, ok := strings.Cut("a=b", "=")
	sym.Assert(x == "a" && y == "b" && ok, "cut")
	x, ok = strings.CutPrefix("xa", "x")
	sym.Assert(x == "a" && ok, "cutprefix")
	x, ok = strings.CutSuffix("xa", "a")
	sym.Assert(x == "x" && ok, "cutsuffix")
	sym.Assert(strings.TrimPrefix("ab", "a") == "b" && strings.TrimSuffix("ab", "b") == "a" && strings.TrimSpace(" a ") == "a" && strings.Trim("xax", "x") == "a" && strings.TrimLeft("xax", "x") == "ax" && strings.TrimRight("xax", "x") == "xa" && strings.TrimFunc("xax", func(r rune) bool { return r == 'x' }) == "a", "trim")
	sym.Assert(len(strings.Split("a,b,c", ",")) == 3 && len(strings.SplitN("a,b,c", ",", 2)) == 2 && len(strings.Fields(" a b ")) == 2 && strings.Join([]string{"a", "b"}, "-") == "a-b", "split")
	n := 0
	for range strings.SplitSeq("a,b", ",") {
		n++
	}
	sym.Assert(n == 2, "splitseq")
	sym.Assert(strings.Repeat("a", 3) == "aaa" && strings.ReplaceAll("aba", "a", "c") == "cbc" && strings.Replace("aa", "a", "b", 1) == "ba", "repl")
	sym.Assert(strings.EqualFold("A", "a") && strings.ToLower("AB") == "ab" && strings.ToUpper("ab") == "AB", "case")
	sym.Assert(strings.Contains("abc", "bc") && strings.ContainsRune("abc", 'c') && strings.ContainsAny("abc", "xc") && strings.IndexByte("abc", 'c') == 2 && strings.IndexRune("abc", 'b') == 1 && strings.IndexFunc("abc", func(r rune) bool { return r == 'c' }) == 2 && strings.LastIndex("aba", "a") == 2 && strings.Count("aba", "a") == 2 && strings.HasPrefix("ab", "a") && strings.HasSuffix("ab", "b") && strings.Compare("a", "b") < 0 && strings.IndexAny("abc", "cb") == 1, "contains")
	sym.Assert(strings.Map(func(r rune) rune { return r + 1 }, "ab") == "bc", "map")
	sym.Assert(strconv.Itoa(12) == "12" && strconv.FormatInt(-5, 10) == "-5" && strconv.FormatUint(7, 16) == "7" && strconv.Quote("a") == "\"a\"" && strconv.FormatBool(true) == "true", "conv")
	i, err := strconv.Atoi("12")
	sym.Assert(i == 12 && err == nil, "atoi")
	u, err := strconv.ParseUint("12", 10, 32)
	sym.Assert(u == 12 && err == nil, "parse")
	_, err = strconv.Atoi("x")
	sym.Assert(err != nil, "atoi")
	r := strings.NewReplacer("a", "b")
	_ = r.Replace("aa")
	rd := strings.NewReader("abc")
	bs, err := io.ReadAll(rd)
	sym.Assert(len(bs) == 3 && err == nil, "readall")
	var buf bytes.Buffer
	buf.WriteString("ab")
	buf.WriteByte('c')
	buf.Write([]byte("d"))
	sym.Assert(buf.String() == "abcd" && bytes.Equal(buf.Bytes(), []byte("abcd")) && bytes.Contains(buf.Bytes(), []byte("bc")) && bytes.HasPrefix(buf.Bytes(), []byte("a")) && len(bytes.TrimSpace([]byte(" a "))) == 1, "buf")
	_ = fmt.Sprint("a", 1) + fmt.Sprintln("a") + fmt.Sprintf("%s %v %d %q %t %x %T %p", "a", 1, 2, "q", true, 10, 1, nil)
	_ = []rune("abc")[1]
	for _, r := range "aé" {
		_ = r
	}
	sym.Cover("end")
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

// StdSync uses sync, atomic, context, errors and time.
//
//verif:prop SMOKE
//verif:bounds x
//verif:quick preempt=0
func StdSync() {
	e1 := errors.New("a")
	e2 := fmt.Errorf("b: %w", e1)
	sym.Assert(errors.Is(e2, e1) && errors.Unwrap(e2) == e1, "is")
	e3 := errors.Join(e1, nil, &myErr{"x"})
	var me *myErr
	sym.Assert(errors.Is(e3, e1) && errors.As(e3, &me) && me.s == "x" && errors.Join(nil, nil) == nil, "join")
	sym.Assert(errors.Is(pe.Wrap(e1, "x"), e1) && pe.Cause(pe.WithMessage(e1, "z")) == e1 && pe.Wrapf(nil, "x") == nil && pe.WithStack(e1) != nil, "pe")
	var mu sync.RWMutex
	sym.Assert(mu.TryLock(), "try")
	mu.Unlock()
	sym.Assert(mu.TryRLock(), "tryr")
	mu.RUnlock()
	lk := mu.RLocker()
	lk.Lock()
	lk.Unlock()
	of := sync.OnceFunc(func() {})
	of()
	ov := sync.OnceValue(func() int { return 3 })
	o2 := sync.OnceValues(func() (int, error) { return 3, nil })
	v, _ := o2()
	sym.Assert(ov() == 3 && v == 3, "once")
	var m sync.Map
	m.Store(1, 2)
	_, loaded := m.LoadOrStore(1, 3)
	old, ok := m.LoadAndDelete(1)
	sym.Assert(loaded && ok && old == 2, "smap")
	_, ok = m.Swap(1, 5)
	sym.Assert(!ok && m.CompareAndSwap(1, 5, 6) && m.CompareAndDelete(1, 6), "smap2")
	m.Store(2, 3)
	m.Clear()
	m.Range(func(k, v any) bool { return true })
	var c int
	cond := sync.NewCond(&sync.Mutex{})
	go func() {
		cond.L.Lock()
		c = 1
		cond.L.Unlock()
		cond.Broadcast()
		cond.Signal()
	}()
	cond.L.Lock()
	for c == 0 {
		cond.Wait()
	}
	cond.L.Unlock()
	var a32 atomic.Int32
	var u64 atomic.Uint64
	var av atomic.Value
	var ap atomic.Pointer[myErr]
	a32.Add(2)
	u64.Or(3)
	u64.And(1)
	av.Store("x")
	ap.Store(me)
	sym.Assert(a32.Load() == 2 && u64.Load() == 1 && av.Load() == "x" && ap.Load() == me && ap.CompareAndSwap(me, nil) && a32.Swap(4) == 2, "atomic")
	av.Swap("y")
	av.CompareAndSwap("y", "z")
	var raw int64
	atomic.AddInt64(&raw, 3)
	atomic.StoreInt64(&raw, 4)
	sym.Assert(atomic.LoadInt64(&raw) == 4 && atomic.CompareAndSwapInt64(&raw, 4, 5) && atomic.SwapInt64(&raw, 6) == 5, "raw")
	var un atomic.Uintptr
	un.Add(1)
	ctx, cancel := context.WithCancelCause(context.Background())
	stop := context.AfterFunc(ctx, func() {})
	stop()
	cancel(e1)
	sym.Assert(context.Cause(ctx) == e1 && ctx.Err() == context.Canceled, "cause")
	ctx, cf := context.WithTimeoutCause(context.WithValue(context.WithoutCancel(ctx), "k", 1), time.Second, e1)
	sym.Assert(ctx.Value("k") == 1, "value")
	_, ok = ctx.Deadline()
	sym.Assert(ok, "deadline")
	cf()
	runtime.Gosched()
	t := time.NewTicker(time.Second)
	<-t.C
	<-t.C
	t.Reset(time.Second)
	t.Stop()
	tm := time.AfterFunc(time.Second, func() {})
	tm.Reset(2 * time.Second)
	tm.Stop()
	select {
	case <-time.After(time.Millisecond):
	}
	start := time.Now()
	time.Sleep(time.Second)
	sym.Assert(time.Since(start) >= time.Second && !time.Now().Before(start) && time.Now().After(start) && time.Until(start) < 0 && !start.IsZero() && start.Equal(start) && time.Now().Sub(start) > 0 && start.Add(time.Second).Compare(start) > 0 && start.UnixNano() > 0 && start.Truncate(time.Second).Unix() > 0, "time")
	_ = time.Second.String()
	_ = time.Duration(1500 * time.Millisecond).Seconds()
	var wg sync.WaitGroup
	wg.Add(2)
	for range 2 {
		go func() {
			defer wg.Done()
		}()
	}
	wg.Wait()
	ch := make(chan int, 3)
	go func() {
		defer close(ch)
		for i := range 5 {
			ch <- i
		}
	}()
	n := 0
	for x := range ch {
		n += x
	}
	sym.Assert(n == 10 && len(ch) == 0 && cap(ch) == 3, "chan")
	func() {
		defer func() {
			if r := recover(); r != nil {
				n = 1
			}
		}()
		panic("x")
	}()
	sym.Assert(n == 1, "recover")
	var p sync.Pool
	p.New = func() any { return new(int) }
	p.Put(p.Get())
	sym.Cover("end")
}
