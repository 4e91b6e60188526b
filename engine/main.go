package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	debug_ "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	hdir := flag.String("harness", "/verif/harness", "harness overlay root")
	pkg := flag.String("pkg", "", "harness package (import path suffix under controllerbus)")
	fnn := flag.String("fn", "", "harness function")
	preempt := flag.Int("preempt", 1, "preemption bound")
	budget := flag.Duration("budget", 10*time.Minute, "time budget")
	nomerge := flag.Bool("nomerge", false, "")
	maporder := flag.Int("maporder", 0, "")
	debug := flag.Bool("debug", false, "")
	anytime := flag.Bool("anytime", false, "")
	prop := flag.String("prop", "", "check a property")
	tier := flag.String("tier", "quick", "")
	nonative := flag.Bool("nonative", false, "")
	verbose := flag.Bool("v", false, "")
	prof := flag.String("prof", "", "")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	debug_.SetGCPercent(400)
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if *prop != "" {
		code := runCheck(checkCfg{repo: *repo, verif: *verif, prop: *prop, tier: *tier, noNative: *nonative, only: *fnn, verbose: *verbose})
		pprof.StopCPUProfile()
		os.Exit(code)
	}
	t0 := time.Now()
	full := "github.com/aperturerobotics/controllerbus/" + *pkg
	P, err := loadProgram(*repo, *hdir, []string{full, modelPkg, symPkg})
	if err != nil {
		fmt.Println("LOAD ERROR", err)
		os.Exit(2)
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	opt := Options{Preempt: *preempt, MaxSteps: 5_000_000, MaxThreads: 24, MapOrder: *maporder, MergeDiff: 64, NoMerge: *nomerge, Budget: *budget, SolverTO: 20 * time.Second, Debug: *debug, TimersAnytime: *anytime, Race: true, RaceProbes: 20, RaceDepth: 6}
	for _, name := range strings.Split(*fnn, ",") {
		t1 := time.Now()
		e := newEngine(P, opt)
		st := e.initState()
		e.start = time.Now()
		fmt.Printf("init %.1fs, %d base objects\n", time.Since(t1).Seconds(), e.baseNext)
		fn := P.pkgs[full].Func(name)
		if fn == nil {
			fmt.Println("no such harness", name)
			os.Exit(2)
		}
		err = e.Run(st, fn)
		fmt.Printf("%s: %.1fs err=%v\n", name, time.Since(t1).Seconds(), err)
		s := e.stats
		fmt.Printf(" steps=%d sched=%d forks=%d merges=%d ite=%d canon=%d maxq=%d paths=%d killed=%d queries=%d (sat %d unsat %d unk %d err %d) cache=%d solver=%.1fs asserts=%d const=%d solver=%d symvars=%d schedvars=%d limits=%v\n",
			s.Steps, s.SchedSteps, s.Forks, s.Merges, s.IteMerges, s.Canon, s.MaxQueue, s.Paths, s.Killed, e.solver.Queries, e.solver.Sats, e.solver.Unsats, e.solver.Unknowns, e.solver.Errors, s.CacheHits, e.solver.Time.Seconds(), s.AssertsTotal, s.AssertsConst, s.AssertsSolver, len(s.SymVars), s.SchedVars, e.limits)
		fmt.Printf(" covers=%v\n", e.covers)
		for _, v := range e.viols {
			fmt.Printf("VIOLATION %s: %s at %s\n", v.Kind, v.Msg, v.Where)
			if *debug {
				for _, t := range v.Trace {
					fmt.Printf("   sym T%d %s %s\n", t.Thread, t.Name, t.Loc)
				}
			}
			rv, vars, err := e.Replay(st, fn, v.Model)
			if rv != nil {
				fmt.Printf(" engine replay: %s %s\n", rv.Kind, rv.Msg)
				for _, t := range rv.Trace {
					fmt.Printf("   T%d %s %s\n", t.Thread, t.Name, t.Loc)
				}
			} else {
				fmt.Println(" engine replay: NOT reproduced", err)
			}
			var ks []string
			for k := range vars {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("   %s=%d\n", k, vars[k])
			}
		}
		if *debug {
			b, _ := json.Marshal(e.stubs)
			fmt.Println(string(b))
		}
	}
}
