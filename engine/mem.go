package main

import (
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"sync"
	"time"
)

// The explorations of one check share a memory budget: when it is exhausted, the largest
// one is stopped, which is reported as a reduced bound.
var (
	memMtx  sync.Mutex
	memEngs = map[*Engine]bool{}
	memOnce sync.Once
	memMax  = uint64(18 << 30)
)

func watch(e *Engine) {
	memOnce.Do(func() {
		if v, err := strconv.Atoi(os.Getenv("SYMGO_MEM_GB")); err == nil && v > 0 {
			memMax = uint64(v) << 30
		}
		debug.SetMemoryLimit(int64(memMax + memMax/6))
		go memLoop()
	})
	memMtx.Lock()
	memEngs[e] = true
	memMtx.Unlock()
}

func unwatch(e *Engine) {
	memMtx.Lock()
	delete(memEngs, e)
	memMtx.Unlock()
}

func memLoop() {
	var last time.Time
	for {
		time.Sleep(time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc < memMax || time.Since(last) < 15*time.Second {
			continue
		}
		if p := os.Getenv("SYMGO_HEAP"); p != "" {
			if f, err := os.Create(p); err == nil {
				_ = pprof.WriteHeapProfile(f)
				_ = f.Close()
			}
		}
		runtime.GC()
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc < memMax*9/10 {
			continue
		}
		memMtx.Lock()
		var big *Engine
		for e := range memEngs {
			if !e.memStop.Load() && (big == nil || e.nforks.Load() > big.nforks.Load()) {
				big = e
			}
		}
		memMtx.Unlock()
		if big != nil {
			big.memStop.Store(true)
			last = time.Now()
		}
	}
}
