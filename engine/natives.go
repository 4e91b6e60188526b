package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

const (
	modelPkg = "github.com/aperturerobotics/controllerbus/zzverif/model"
	symPkg   = "github.com/aperturerobotics/controllerbus/zzverif/sym"
)

type nativeFn func(e *Engine, st *State, th *Thread, args []Value) Value

// natives are functions executed by the engine instead of their Go body.
var natives map[string]nativeFn

// nativeFns are engine closures (FuncV.Native).
var nativeFns map[string]nativeFn

// redirects send a function to its model in the model package.
var redirects = map[string]string{
	"os.Stat":                          "OsStat",
	"os.Lstat":                         "OsLstat",
	"os.ReadDir":                       "OsReadDir",
	"os.Remove":                        "OsRemove",
	"os.RemoveAll":                     "OsRemoveAll",
	"os.MkdirAll":                      "OsMkdirAll",
	"os.WriteFile":                     "OsWriteFile",
	"os.ReadFile":                      "OsReadFile",
	"os.Open":                          "OsOpen",
	"os.OpenFile":                      "OsOpenFile",
	"os.Create":                        "OsCreate",
	"os.MkdirTemp":                     "OsMkdirTemp",
	"os.NewFile":                       "OsNewFile",
	"os.Getwd":                         "Getwd",
	"os.UserCacheDir":                  "UserCacheDir",
	"os.Environ":                       "Environ",
	"(*os.File).Read":                  "FileRead",
	"(*os.File).Write":                 "FileWrite",
	"(*os.File).WriteTo":               "FileWriteTo",
	"(*os.File).ReadFrom":              "FileReadFrom",
	"(*os.File).Sync":                  "FileSync",
	"(*os.File).Close":                 "FileClose",
	"os/exec.CommandContext":           "CommandContext",
	"(*os/exec.Cmd).Run":               "CmdRun",
	"crypto/sha256.New":                "Sha256New",
	"crypto/sha256.Sum256":             "Sha256Sum",
	"github.com/zeebo/blake3.NewKeyed": "BlakeNewKeyed",
	"(*github.com/zeebo/blake3.Hasher).Write": "BlakeWrite",
	"(*github.com/zeebo/blake3.Hasher).Sum":   "BlakeSum",
	"context.WithCancel":                      "WithCancel",
	"context.WithCancelCause":                 "WithCancelCause",
	"context.WithTimeout":                     "WithTimeout",
	"context.WithDeadline":                    "WithDeadline",
	"context.WithTimeoutCause":                "WithTimeoutCause",
	"context.WithDeadlineCause":               "WithDeadlineCause",
	"context.WithValue":                       "WithValue",
	"context.WithoutCancel":                   "WithoutCancel",
	"context.AfterFunc":                       "CtxAfterFunc",
	"context.Cause":                           "Cause",
	"time.AfterFunc":                          "AfterFunc",
	"time.NewTimer":                           "NewTimer",
	"time.After":                              "After",
	"time.Sleep":                              "Sleep",
	"time.Now":                                "Now",
	"time.Since":                              "Since",
	"time.Until":                              "Until",
	"(*time.Timer).Stop":                      "TimerStop",
	"(*time.Timer).Reset":                     "TimerReset",
	"errors.Is":                               "ErrorsIs",
	"errors.As":                               "ErrorsAs",
	"fmt.Errorf":                              "Errorf",
	"sort.Slice":                              "SortSlice",
	"sort.SliceStable":                        "SortSlice",
	"sort.SliceIsSorted":                      "SliceIsSorted",
	"fmt.Sprintf":                             "Sprintf",
	"fmt.Fprintf":                             "Fprintf",
	"fmt.Fprint":                              "Fprint",
	"fmt.Fprintln":                            "Fprintln",
	"fmt.Append":                              "FmtAppend",
	"fmt.Appendf":                             "FmtAppendf",
	"(*sync.Pool).Get":                        "PoolGet",
	"(*sync.Pool).Put":                        "PoolPut",
	"(*sync.Map).Load":                        "MapLoad",
	"(*sync.Map).Store":                       "MapStore",
	"(*sync.Map).LoadOrStore":                 "MapLoadOrStore",
	"(*sync.Map).Delete":                      "MapDelete",
	"(*sync.Map).Range":                       "MapRange",
	"(*sync.Map).LoadAndDelete":               "MapLoadAndDelete",
	"(*sync.Map).Swap":                        "MapSwap",
	"(*sync.Map).CompareAndSwap":              "MapCompareAndSwap",
	"(*sync.Map).CompareAndDelete":            "MapCompareAndDelete",
	"(*sync.Map).Clear":                       "MapClear",
	"(*sync.Cond).Wait":                       "CondWait",
	"(*sync.Cond).Signal":                     "CondSignal",
	"(*sync.Cond).Broadcast":                  "CondBroadcast",
	"(*sync/atomic.Value).Swap":               "AtomicValueSwap",
	"(*sync/atomic.Value).CompareAndSwap":     "AtomicValueCAS",
	"time.NewTicker":                          "NewTicker",
	"time.Tick":                               "Tick",
	"(*time.Ticker).Stop":                     "TickerStop",
	"(*time.Ticker).Reset":                    "TickerReset",
	"bytes.Index":                             "BytesIndex",
	"bytes.LastIndex":                         "BytesLastIndex",
	"bytes.Count":                             "BytesCount",
	"internal/bytealg.Index":                  "BytesIndex",
	"internal/bytealg.IndexString":            "StringsIndex",
	"internal/stringslite.Index":              "StringsIndex",
	"internal/bytealg.IndexByteString":        "IndexByteString",
	"internal/bytealg.IndexByte":              "IndexByte",
	"internal/bytealg.CountString":            "CountString",
	"internal/bytealg.Count":                  "Count",
	"internal/bytealg.Compare":                "BytesCompare",
	"internal/bytealg.CompareString":          "StrCompare",
	"internal/bytealg.Equal":                  "BytesEqual",
	"bytes.Equal":                             "BytesEqual",
	"bytes.Compare":                           "BytesCompare",
	"internal/bytealg.LastIndexByteString":    "LastIndexByteString",
	"internal/bytealg.LastIndexByte":          "LastIndexByte",
	"internal/bytealg.MakeNoZero":             "MakeNoZero",
	"strings.Join":                            "StringsJoin",
	"strings.Index":                           "StringsIndex",
	"strings.LastIndex":                       "StringsLastIndex",
	"strings.Count":                           "StringsCount",
	"strings.Clone":                           "StringsClone",
	"strings.EqualFold":                       "EqualFold",
	"runtime/debug.Stack":                     "DebugStack",
	"(*sync.WaitGroup).Go":                    "WgGo",
	"net.Dial":                                "NetDial",
	"encoding/json.MarshalIndent":             "JSONMarshalIndent",
	"github.com/ghodss/yaml.YAMLToJSON":       "YAMLToJSON",
	"github.com/ghodss/yaml.JSONToYAML":       "JSONToYAML",
	"github.com/ghodss/yaml.Unmarshal":        "YAMLUnmarshal",
	"encoding/json.Marshal":                   "JSONMarshal",
	"encoding/json.Unmarshal":                 "JSONUnmarshal",
	"math/rand.Float64":                       "RandFloat64",
	"math/rand.Intn":                          "RandIntn",
	"math/rand.Int63n":                        "RandInt63n",
	"math/rand.Int31n":                        "RandInt31n",
	"math/rand.Int63":                         "RandInt63",
	"math/rand.Int":                           "RandInt",
	"math/rand/v2.Float64":                    "RandFloat64",
	"math/rand/v2.IntN":                       "RandIntn",
	"math/rand/v2.Int64N":                     "RandInt63n",
	"math/rand/v2.Int32N":                     "RandInt31n",
}

func stubPkg(p string) bool {
	switch p {
	case "github.com/sirupsen/logrus", "runtime/debug", "log", "runtime", "internal/race", "internal/godebug", "internal/cpu", "runtime/trace", "runtime/pprof", "internal/testlog":
		return true
	}
	return false
}

func init() {
	natives = map[string]nativeFn{}
	nativeFns = map[string]nativeFn{}
	nop := func(e *Engine, st *State, th *Thread, args []Value) Value { return nil }
	nativeFns["nop"] = nop
	nativeFns["rterror"] = func(e *Engine, st *State, th *Thread, args []Value) Value { return args[0] }

	N := func(name string, f nativeFn) { natives[name] = f }

	// whether two slices share elements of one array (uses addresses of elements)
	N("slices.overlaps", func(e *Engine, st *State, th *Thread, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.Len == 0 || y.Len == 0 || x.Obj < 0 || x.Obj != y.Obj || x.Path != y.Path {
			return e.S.False
		}
		if x.Off < y.Off+y.Len && y.Off < x.Off+x.Len {
			return e.S.True
		}
		return e.S.False
	})

	N("reflect.DeepEqual", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.deepEqual(st, a[0], a[1], map[[2]Ptr]bool{})
	})

	// ---- sync ----
	N("(*sync.Mutex).Lock", func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		e.point(st, Pending{kind: PkLock, ptr: p})
		e.store(st, p, LockV{Owner: st.threads[st.cur].id + 1})
		return nil
	})
	N("(*sync.Mutex).TryLock", func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		e.point(st, Pending{kind: PkPoint})
		if l := e.lockState(st, p); l.Owner != 0 || l.Readers != 0 {
			return e.S.False
		}
		e.store(st, p, LockV{Owner: st.threads[st.cur].id + 1})
		return e.S.True
	})
	unlock := func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		if e.lockState(st, p).Owner == 0 {
			e.violation(st, "panic", "fatal error: unlock of unlocked mutex", e.where(st))
			panic(killPath{})
		}
		e.release(st)
		e.store(st, p, LockV{})
		return nil
	}
	N("(*sync.Mutex).Unlock", unlock)
	N("(*sync.RWMutex).Lock", natives["(*sync.Mutex).Lock"])
	N("(*sync.RWMutex).TryLock", natives["(*sync.Mutex).TryLock"])
	N("(*sync.RWMutex).TryRLock", func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		e.point(st, Pending{kind: PkPoint})
		l := e.lockState(st, p)
		if l.Owner != 0 {
			return e.S.False
		}
		l.Readers++
		e.store(st, p, l)
		return e.S.True
	})
	N("(*sync.RWMutex).Unlock", unlock)
	N("(*sync.RWMutex).RLock", func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		e.point(st, Pending{kind: PkRLock, ptr: p})
		l := e.lockState(st, p)
		l.Readers++
		e.store(st, p, l)
		return nil
	})
	N("(*sync.RWMutex).RUnlock", func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		l := e.lockState(st, p)
		if l.Readers == 0 {
			e.violation(st, "panic", "fatal error: RUnlock of unlocked RWMutex", e.where(st))
			panic(killPath{})
		}
		e.release(st)
		l.Readers--
		e.store(st, p, l)
		return nil
	})
	wg := func(e *Engine, st *State, p Ptr) int64 {
		if t, ok := e.load(st, p).(*Term); ok {
			return t.Signed()
		}
		return 0
	}
	N("(*sync.WaitGroup).Add", func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		e.point(st, Pending{kind: PkPoint})
		n := wg(e, st, p) + int64(e.concretize(st, a[1].(*Term)))
		if n < 0 {
			panic(goPanic{val: e.rtError("sync: negative WaitGroup counter")})
		}
		e.store(st, p, e.S.BV(64, uint64(n)))
		return nil
	})
	N("(*sync.WaitGroup).Done", func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		e.point(st, Pending{kind: PkPoint})
		n := wg(e, st, p) - 1
		if n < 0 {
			panic(goPanic{val: e.rtError("sync: negative WaitGroup counter")})
		}
		e.store(st, p, e.S.BV(64, uint64(n)))
		return nil
	})
	N("(*sync.WaitGroup).Wait", func(e *Engine, st *State, th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		e.point(st, Pending{kind: PkWait, ptr: p, ready: func(e *Engine, st *State) bool { return wg(e, st, p) == 0 }})
		return nil
	})

	// ---- atomics ----
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		N("sync/atomic.Load"+ty.n, func(e *Engine, st *State, th *Thread, a []Value) Value {
			e.point(st, Pending{kind: PkPoint})
			return e.load(st, a[0].(Ptr))
		})
		N("sync/atomic.Store"+ty.n, func(e *Engine, st *State, th *Thread, a []Value) Value {
			e.point(st, Pending{kind: PkPoint})
			e.store(st, a[0].(Ptr), a[1])
			return nil
		})
		N("sync/atomic.Swap"+ty.n, func(e *Engine, st *State, th *Thread, a []Value) Value {
			e.point(st, Pending{kind: PkPoint})
			o := e.load(st, a[0].(Ptr))
			e.store(st, a[0].(Ptr), a[1])
			return o
		})
		N("sync/atomic.CompareAndSwap"+ty.n, func(e *Engine, st *State, th *Thread, a []Value) Value {
			e.point(st, Pending{kind: PkPoint})
			o := e.load(st, a[0].(Ptr))
			if e.branch(st, e.equal(st, o, a[1])) {
				e.store(st, a[0].(Ptr), a[2])
				return e.S.True
			}
			return e.S.False
		})
		for _, op := range []struct {
			n string
			o Op
		}{{"And", OpBand}, {"Or", OpBor}} {
			N("sync/atomic."+op.n+ty.n, func(e *Engine, st *State, th *Thread, a []Value) Value {
				e.point(st, Pending{kind: PkPoint})
				o := e.load(st, a[0].(Ptr)).(*Term)
				e.store(st, a[0].(Ptr), e.S.Bin(op.o, o, a[1].(*Term)))
				return o
			})
		}
		N("sync/atomic.Add"+ty.n, func(e *Engine, st *State, th *Thread, a []Value) Value {
			e.point(st, Pending{kind: PkPoint})
			o := e.load(st, a[0].(Ptr)).(*Term)
			n := e.S.Bin(OpAdd, o, a[1].(*Term))
			e.store(st, a[0].(Ptr), n)
			return n
		})
	}
	N("(*sync/atomic.Value).Load", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.point(st, Pending{kind: PkPoint})
		return e.load(st, a[0].(Ptr)).(*StructV).F[0]
	})
	N("(*sync/atomic.Value).Store", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.point(st, Pending{kind: PkPoint})
		if a[1].(Iface).T == nil {
			panic(goPanic{val: e.rtError("sync/atomic: store of nil value into Value")})
		}
		e.store(st, a[0].(Ptr), &StructV{F: []Value{a[1]}})
		return nil
	})

	// ---- bits ----
	// the size of a varint is concrete on each path
	N("github.com/aperturerobotics/protobuf-go-lite.SizeOfVarint", func(e *Engine, st *State, th *Thread, a []Value) Value {
		x := a[0].(*Term)
		n := uint(1)
		for n < 10 && !e.branch(st, e.S.Cmp(OpUlt, x, e.S.BV(64, 1<<(7*n)))) {
			n++
		}
		return e.S.BV(64, uint64(n))
	})

	N("maps.clone", func(e *Engine, st *State, th *Thread, a []Value) Value {
		i := a[0].(Iface)
		m := i.V.(Map)
		if m.Obj < 0 {
			return i
		}
		mo := st.get(m.Obj).Val.(*MapObj)
		n := &MapObj{T: mo.T, K: append([]Value(nil), mo.K...), V: append([]Value(nil), mo.V...)}
		return Iface{T: i.T, V: Map{Obj: e.alloc(st, n, i.T)}}
	})

	// ---- runtime / misc ----
	N("internal/abi.NoEscape", func(e *Engine, st *State, th *Thread, a []Value) Value { return a[0] })
	N("(*strings.Builder).copyCheck", nop)
	N("runtime.Gosched", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.point(st, Pending{kind: PkPoint})
		return nil
	})
	N("runtime.KeepAlive", nop)
	N("runtime.SetFinalizer", nop)
	N("runtime.Callers", func(e *Engine, st *State, th *Thread, a []Value) Value { return e.S.BV(64, 0) })
	N("github.com/pkg/errors.callers", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return nilPtr
	})
	N("internal/race.Enabled", nop)
	N("runtime/debug.PrintStack", nop)
	// formatting does not change the meaning of a file
	N("mvdan.cc/gofumpt/format.File", func(e *Engine, st *State, th *Thread, a []Value) Value { return nil })
	N("os.Exit", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.violation(st, "panic", "os.Exit called", e.where(st))
		panic(killPath{})
	})
	N(strings.TrimSuffix(symPkg, "sym")+"model.SprintfNative", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.sprintf(st, a[0], a[1].(Slice))
	})
	N("fmt.Sprint", func(e *Engine, st *State, th *Thread, a []Value) Value {
		var p []any
		for _, v := range e.sliceElems(st, a[0].(Slice)) {
			p = append(p, e.native(st, v))
		}
		return fmt.Sprint(p...)
	})
	N("fmt.Sprintln", func(e *Engine, st *State, th *Thread, a []Value) Value {
		var p []any
		for _, v := range e.sliceElems(st, a[0].(Slice)) {
			p = append(p, e.native(st, v))
		}
		return fmt.Sprintln(p...)
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		N(n, func(e *Engine, st *State, th *Thread, a []Value) Value {
			return Tuple{e.S.BV(64, 0), nilIface}
		})
	}
	N("strconv.Itoa", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return strconv.FormatInt(int64(e.concretize(st, a[0].(*Term))), 10)
	})

	// ---- model helpers ----
	N(modelPkg+".point", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.point(st, Pending{kind: PkPoint, loc: "model"})
		return nil
	})
	N(modelPkg+".timerWait", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.point(st, Pending{kind: PkTimer, loc: "timer"})
		return nil
	})
	N(modelPkg+".sameType", func(e *Engine, st *State, th *Thread, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		return e.S.Bool(x.T != nil && y.T != nil && types.Identical(x.T, y.T))
	})
	N(modelPkg+".comparable", func(e *Engine, st *State, th *Thread, a []Value) Value {
		x := a[0].(Iface)
		return e.S.Bool(x.T == nil || types.Comparable(x.T))
	})
	N(modelPkg+".asAssign", func(e *Engine, st *State, th *Thread, a []Value) Value {
		err, tgt := a[0].(Iface), a[1].(Iface)
		pt, ok := tgt.T.Underlying().(*types.Pointer)
		if !ok || err.T == nil {
			return e.S.False
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if e.implements(err.T, it) {
				e.store(st, tgt.V.(Ptr), err)
				return e.S.True
			}
			return e.S.False
		}
		if types.Identical(err.T, pt.Elem()) {
			e.store(st, tgt.V.(Ptr), err.V)
			return e.S.True
		}
		return e.S.False
	})
	N(modelPkg+".lenOf", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.S.BV(64, uint64(a[0].(Iface).V.(Slice).Len))
	})
	N(modelPkg+".swap", func(e *Engine, st *State, th *Thread, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		i, j := int(a[1].(*Term).K), int(a[2].(*Term).K)
		el := append([]Value(nil), e.sliceElems(st, s)...)
		el[i], el[j] = el[j], el[i]
		e.setSliceElems(st, s, 0, el)
		return nil
	})
	N(modelPkg+".sprintf", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.sprintf(st, a[0], a[1].(Slice))
	})

	// ---- sym ----
	N(symPkg+".Bool", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.symVar(st, a[0].(string), 0)
	})
	N(symPkg+".Byte", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.symVar(st, a[0].(string), 8)
	})
	N(symPkg+".Uint32", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.symVar(st, a[0].(string), 32)
	})
	N(symPkg+".Uint64", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.symVar(st, a[0].(string), 64)
	})
	N(symPkg+".Int64", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.symVar(st, a[0].(string), 64)
	})
	N(symPkg+".Int", func(e *Engine, st *State, th *Thread, a []Value) Value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		v := e.symVar(st, a[0].(string), 64)
		e.assume(st, e.S.And(e.S.Cmp(OpSle, lo, v), e.S.Cmp(OpSle, v, hi)))
		return v
	})
	N(symPkg+".Choose", func(e *Engine, st *State, th *Thread, a []Value) Value {
		n := int(a[1].(*Term).K)
		return e.S.BV(64, uint64(e.choose(st, a[0].(string), n)))
	})
	N(symPkg+".BytesN", func(e *Engine, st *State, th *Thread, a []Value) Value {
		n := int(a[1].(*Term).K)
		arr := &ArrayV{E: make([]Value, n)}
		for i := range arr.E {
			arr.E[i] = e.symVar(st, fmt.Sprintf("%s[%d]", a[0].(string), i), 8)
		}
		return Slice{Obj: e.alloc(st, arr, nil), Len: int32(n), Cap: int32(n)}
	})
	N(symPkg+".StringN", func(e *Engine, st *State, th *Thread, a []Value) Value {
		n := int(a[1].(*Term).K)
		b := make([]*Term, n)
		for i := range b {
			b[i] = e.symVar(st, fmt.Sprintf("%s[%d]", a[0].(string), i), 8)
		}
		return e.mkStr(b)
	})
	N(symPkg+".Assume", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.assume(st, a[0].(*Term))
		return nil
	})
	N(symPkg+".Assert", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.assert(st, a[0].(*Term), a[1].(string))
		return nil
	})
	N(symPkg+".Cover", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.cover(st, a[0].(string))
		return nil
	})
	N(symPkg+".Yield", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.point(st, Pending{kind: PkPoint, loc: "yield"})
		return nil
	})
	// the order of recorded events matters: a scheduling point
	N("(*"+symPkg+".Mutex).Lock", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.point(st, Pending{kind: PkPoint, loc: "record"})
		return nil
	})
	N("(*"+symPkg+".Mutex).Unlock", nop)
	N(symPkg+".Quiesce", func(e *Engine, st *State, th *Thread, a []Value) Value {
		e.point(st, Pending{kind: PkQuiesce, loc: "quiesce"})
		return nil
	})
	N(symPkg+".NumBlocked", func(e *Engine, st *State, th *Thread, a []Value) Value {
		n := 0
		for i, t := range st.threads {
			if int32(i) != st.cur && t.status == ThPending && t.pend.kind != PkTimer {
				n++
			}
		}
		return e.S.BV(64, uint64(n))
	})
	N(symPkg+".Symbolic", func(e *Engine, st *State, th *Thread, a []Value) Value { return e.S.True })
	N(symPkg+".Concrete", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.S.BV(64, e.concretize(st, a[0].(*Term)))
	})
	N(symPkg+".Or", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.S.Or(a[0].(*Term), a[1].(*Term))
	})
	N(symPkg+".And", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.S.And(a[0].(*Term), a[1].(*Term))
	})
	N(symPkg+".IteInt", func(e *Engine, st *State, th *Thread, a []Value) Value {
		return e.S.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
}

func (e *Engine) symVar(st *State, name string, w uint8) *Term {
	full := fmt.Sprintf("%s#%d", name, e.count(st, name))
	if e.model != nil {
		e.incCount(st, name)
		e.replayVars[full] = e.model[full] & mask64(w)
		if w == 0 {
			return e.S.Bool(e.model[full] != 0)
		}
		return e.S.BV(w, e.model[full])
	}
	e.incCount(st, name)
	e.stats.SymVars[full] = true
	return e.S.Var(full, w)
}

func mask64(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (e *Engine) native(st *State, v Value) any {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return nil
		}
		if t, ok := x.V.(*Term); ok {
			w, sg, _ := intInfo(x.T)
			k := e.concretize(st, t)
			if w == 0 {
				return k != 0
			}
			if sg {
				return e.S.BV(w, k).Signed()
			}
			return k
		}
		return e.native(st, x.V)
	case string:
		return x
	case *SymStr:
		return "<sym>"
	case float64:
		return x
	case *Term:
		return e.concretize(st, x)
	}
	return "<val>"
}

func (e *Engine) sprintf(st *State, f Value, args Slice) Value {
	fs, ok := f.(string)
	if !ok {
		return "<fmt>"
	}
	els := e.sliceElems(st, args)
	// exact handling of symbolic strings with plain %s / %v verbs
	var out []*Term
	ai := 0
	symbolic := false
	for _, a := range els {
		if i, ok := a.(Iface); ok {
			if _, ok := i.V.(*SymStr); ok {
				symbolic = true
			}
		}
	}
	if symbolic {
		for i := 0; i < len(fs); i++ {
			if fs[i] == '%' && i+1 < len(fs) && (fs[i+1] == 's' || fs[i+1] == 'v' || fs[i+1] == 'd') && ai < len(els) {
				iv := els[ai].(Iface)
				if s, ok := iv.V.(*SymStr); ok {
					out = append(out, s.B...)
				} else {
					out = append(out, e.strBytes(fmt.Sprint(e.native(st, iv)))...)
				}
				ai++
				i++
				continue
			}
			out = append(out, e.S.BV(8, uint64(fs[i])))
		}
		return e.mkStr(out)
	}
	p := make([]any, len(els))
	for i, a := range els {
		p[i] = e.native(st, a)
	}
	return fmt.Sprintf(strings.ReplaceAll(fs, "%w", "%v"), p...)
}

func decodeRune(b []byte) (rune, int) { return utf8.DecodeRune(b) }

// deepEqual is reflect.DeepEqual.
func (e *Engine) deepEqual(st *State, a, b Value, seen map[[2]Ptr]bool) *Term {
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(incomplete("deep equal Iface %T", b))
		}
		if x.T == nil || y.T == nil {
			return e.S.Bool(x.T == nil && y.T == nil)
		}
		if x.T != y.T && !types.Identical(x.T, y.T) {
			return e.S.False
		}
		return e.deepEqual(st, x.V, y.V, seen)
	case Ptr:
		y := b.(Ptr)
		if x == y {
			return e.S.True
		}
		if x.Obj < 0 || y.Obj < 0 {
			return e.S.False
		}
		k := [2]Ptr{x, y}
		if seen[k] {
			return e.S.True
		}
		seen[k] = true
		return e.deepEqual(st, e.load(st, x), e.load(st, y), seen)
	case Slice:
		y := b.(Slice)
		if (x.Obj < 0) != (y.Obj < 0) || x.Len != y.Len {
			return e.S.False
		}
		if x.Obj < 0 {
			return e.S.True
		}
		e.accessSlice(st, x, 0, x.Len, false)
		e.accessSlice(st, y, 0, y.Len, false)
		ex, ey := e.sliceElems(st, x), e.sliceElems(st, y)
		cs := []*Term{}
		for i := range ex {
			cs = append(cs, e.deepEqual(st, ex[i], ey[i], seen))
		}
		return e.S.And(cs...)
	case Map:
		y := b.(Map)
		if x == y {
			return e.S.True
		}
		if x.Obj < 0 || y.Obj < 0 {
			return e.S.False
		}
		e.accessMap(st, x, false)
		e.accessMap(st, y, false)
		mx, my := st.get(x.Obj).Val.(*MapObj), st.get(y.Obj).Val.(*MapObj)
		if len(mx.K) != len(my.K) {
			return e.S.False
		}
		cs := []*Term{}
		for i, k := range mx.K {
			v, ok := e.mapGet(st, y, k)
			if !ok {
				return e.S.False
			}
			cs = append(cs, e.deepEqual(st, mx.V[i], v, seen))
		}
		return e.S.And(cs...)
	case *StructV:
		y := b.(*StructV)
		cs := []*Term{}
		for i := range x.F {
			cs = append(cs, e.deepEqual(st, x.F[i], y.F[i], seen))
		}
		return e.S.And(cs...)
	case *ArrayV:
		y := b.(*ArrayV)
		cs := []*Term{}
		for i := range x.E {
			cs = append(cs, e.deepEqual(st, x.E[i], y.E[i], seen))
		}
		return e.S.And(cs...)
	}
	return e.equal(st, a, b)
}
