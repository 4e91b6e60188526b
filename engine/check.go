package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Harness is the metadata of one harness function, read from its doc comment.
type Harness struct {
	Pkg    string // package directory name below zzverif
	Fn     string
	Props  []string
	Doc    string
	Bounds string
	Opts   map[string]map[string]string // tier -> key -> value
	Covers []string
}

func (h *Harness) path() string {
	return "github.com/aperturerobotics/controllerbus/zzverif/" + h.Pkg
}

// readHarnesses parses the harness sources.
func readHarnesses(hdir string) ([]*Harness, error) {
	var out []*Harness
	files, err := filepath.Glob(filepath.Join(hdir, "zzverif", "*", "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			h := &Harness{Pkg: filepath.Base(filepath.Dir(f)), Fn: fd.Name.Name, Opts: map[string]map[string]string{}}
			for _, c := range fd.Doc.List {
				t := strings.TrimPrefix(c.Text, "//")
				if !strings.HasPrefix(t, "verif:") {
					h.Doc += strings.TrimSpace(t) + " "
					continue
				}
				k, v, _ := strings.Cut(strings.TrimPrefix(t, "verif:"), " ")
				v = strings.TrimSpace(v)
				switch k {
				case "prop":
					h.Props = strings.Fields(v)
				case "bounds":
					if h.Bounds != "" {
						h.Bounds += " "
					}
					h.Bounds += v
				case "quick", "thorough":
					m := map[string]string{}
					for _, kv := range strings.Fields(v) {
						a, b, _ := strings.Cut(kv, "=")
						m[a] = b
					}
					h.Opts[k] = m
				default:
					return nil, fmt.Errorf("%s: unknown directive verif:%s", f, k)
				}
			}
			if len(h.Props) == 0 {
				continue
			}
			h.Doc = strings.TrimSpace(h.Doc)
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Cover" && len(c.Args) == 1 {
						if l, ok := c.Args[0].(*ast.BasicLit); ok {
							n, _ := strconv.Unquote(l.Value)
							h.Covers = append(h.Covers, n)
						}
					}
				}
				return true
			})
			out = append(out, h)
		}
	}
	return out, nil
}

func (h *Harness) options(tier string) Options {
	opt := Options{Preempt: 1, MaxSteps: 2_000_000, MaxThreads: 24, MergeDiff: 256, Budget: 120 * time.Second, SolverTO: 20 * time.Second, MaxStates: 400_000, Race: true, RaceProbes: 20, RaceDepth: 6}
	if tier == "thorough" {
		opt.RaceProbes = 200
		opt.RaceDepth = 10
		opt.Budget = 13 * time.Minute
		opt.Preempt = 2
		opt.MaxStates = 4_000_000
	}
	set := func(m map[string]string) {
		for k, v := range m {
			n, _ := strconv.Atoi(v)
			switch k {
			case "preempt":
				opt.Preempt = n
			case "delay":
				opt.Delay = v != "0"
			case "maporder":
				opt.MapOrder = n
			case "anytime":
				opt.TimersAnytime = v != "0"
			case "steps":
				opt.MaxSteps = int64(n)
			case "states":
				opt.MaxStates = n
			case "threads":
				opt.MaxThreads = n
			case "budget":
				d, err := time.ParseDuration(v)
				if err == nil {
					opt.Budget = d
				}
			case "race":
				opt.Race = v != "0"
			case "racedepth":
				opt.RaceDepth = n
			case "merge":
				opt.NoMerge = v == "0"
			case "skip":
				opt.Skip = v != "0"
			}
		}
	}
	set(h.Opts["quick"])
	if tier == "thorough" {
		set(h.Opts["thorough"])
	}
	return opt
}

type harnessResult struct {
	h       *Harness
	opt     Options
	eng     *Engine
	err     error
	wall    time.Duration
	viols   []*Violation
	replays []*replayResult
	witness []*Witness
	wOK     int
	wRun    int
	wNote   []string
	missing []string
}

type replayResult struct {
	v       *Violation
	engine  bool // reproduced by concrete re-execution in the engine
	sched   bool // the counterexample depends on the schedule
	native  string
	output  string
	vars    map[string]uint64
	trace   []SchedStep
	known   string
	counted bool
	file    string
}

// known findings: lines "finding: property=ID harness=FN msg=<assertion message> :: what fails"
type knownFinding struct{ prop, harness, msg, what string }

func readKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) msg=(.*?) :: (.*)$`)
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

type checkCfg struct {
	repo, verif, prop, tier string
	noNative                bool
	only                    string
	verbose                 bool
}

func runCheck(cfg checkCfg) int {
	t0 := time.Now()
	hdir := filepath.Join(cfg.verif, "harness")
	all, err := readHarnesses(hdir)
	if err != nil {
		fmt.Println("ERROR reading harnesses:", err)
		return 2
	}
	var hs []*Harness
	pk := map[string]bool{}
	for _, h := range all {
		for _, p := range h.Props {
			if p == cfg.prop && (cfg.only == "" || cfg.only == h.Fn) && !h.options(cfg.tier).Skip {
				hs = append(hs, h)
				pk[h.path()] = true
			}
		}
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for property", cfg.prop)
		return 2
	}
	pats := []string{modelPkg, symPkg}
	for p := range pk {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	P, err := loadProgram(cfg.repo, hdir, pats)
	if err != nil {
		fmt.Println("ERROR the current source cannot be encoded:", err)
		return 2
	}
	known := readKnown(filepath.Join(cfg.verif, "known_findings.txt"))
	// native replay binaries are built in parallel with the exploration
	nat := newNative(cfg, hs)
	defer nat.cleanup()
	if !cfg.noNative {
		go nat.build()
	}
	results := make([]*harnessResult, len(hs))
	sem := make(chan struct{}, max(1, runtime.NumCPU()-1))
	var wg sync.WaitGroup
	var knownMtx sync.Mutex
	_ = &knownMtx
	for i, h := range hs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i] = runHarness(P, cfg, h, known, t0)
		}()
	}
	wg.Wait()
	// replay
	nviol := 0
	code := 0
	var printed []string
	for _, r := range results {
		for k, v := range r.viols {
			rr := &replayResult{v: v}
			r.replays = append(r.replays, rr)
			rv, vars, _ := v.replayV, v.replayVars, 0
			rr.engine = rv != nil
			rr.vars = vars
			rr.trace = v.Trace
			rr.sched = v.sched
			for _, kf := range known {
				if kf.prop == cfg.prop && kf.harness == r.h.Fn && kf.msg == v.Msg {
					rr.known = kf.what
				}
			}
			if !rr.engine {
				rr.native = "not run: the solver's assignment does not reproduce in a concrete re-execution of the encoding"
			} else if cfg.noNative {
				rr.native = "skipped"
			} else {
				rr.native, rr.output = nat.run(r.h, v.replayVars, v)
			}
			// A counterexample is believed if the real code reproduces it, or if it needs
			// a schedule which cannot be forced on the native run and the concrete
			// re-execution of the encoding under that schedule fails.
			rr.counted = rr.engine && (rr.native == "reproduced" || rr.native == "skipped" || rr.sched || strings.HasPrefix(rr.native, "unavailable"))
			rr.file = filepath.Join(cfg.verif, "evidence", "replay", fmt.Sprintf("%s-%s-%d.json", cfg.prop, r.h.Fn, k))
			writeReplay(rr, r)
			if rr.counted {
				if rr.known != "" {
					printed = append(printed, fmt.Sprintf("KNOWN-FINDING: property=%s %s", cfg.prop, rr.known))
				} else {
					nviol++
					code = 1
					fmt.Printf("  %s.%s: %s: %s\n    at %s\n    native replay: %s\n", r.h.Pkg, r.h.Fn, v.Kind, v.Msg, v.Where, rr.native)
					printed = append(printed, fmt.Sprintf("VIOLATION property=%s replay=%s", cfg.prop, rr.file))
				}
			} else {
				fmt.Printf("  %s.%s: inconclusive counterexample (not reproduced, native: %s): %s\n", r.h.Pkg, r.h.Fn, rr.native, v.Msg)
			}
		}
	}
	// witness validation
	if !cfg.noNative && code == 0 {
		for _, r := range results {
			n := 0
			for _, w := range r.witness {
				if n >= 3 {
					break
				}
				n++
				res, out := nat.run(r.h, w.Vars, nil)
				r.wRun++
				if res == "passed" {
					got := coverLines(out)
					if strings.Join(got, ",") == strings.Join(w.Covers, ",") {
						r.wOK++
					} else if w.Sched || w.Mixed {
						r.wNote = append(r.wNote, "witness passed natively with another schedule")
						r.wOK++
					} else {
						r.wNote = append(r.wNote, fmt.Sprintf("covers differ: engine %v, native %v", w.Covers, got))
					}
				} else {
					r.wNote = append(r.wNote, "native witness run: "+res+" "+tail(out, 300))
				}
			}
		}
	}
	writeEvidence(cfg, results, t0, nviol, P)
	seen := map[string]bool{}
	for _, l := range printed {
		if !seen[l] {
			seen[l] = true
			fmt.Println(l)
		}
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s harnesses=%d wall=%.1fs\n", cfg.prop, cfg.tier, len(hs), time.Since(t0).Seconds())
	}
	for _, r := range results {
		s := r.eng.stats
		note := ""
		if r.err != nil {
			note = " err=" + r.err.Error()
		}
		if len(r.eng.limits) > 0 {
			note += fmt.Sprintf(" REDUCED-BOUND %v", r.eng.limits)
		}
		if len(r.missing) > 0 {
			note += fmt.Sprintf(" UNCOVERED %v", r.missing)
		}
		if len(r.wNote) > 0 {
			note += fmt.Sprintf(" WITNESS %v", r.wNote)
		}
		fmt.Printf("  %-28s %5.1fs preempt=%d steps=%d states=%d merges=%d queries=%d solver=%.1fs asserts=%d paths=%d maxpath=%d wit=%d/%d%s\n", r.h.Fn, r.wall.Seconds(), r.opt.Preempt, s.Steps, s.Forks, s.Merges, r.eng.solver.Queries, r.eng.solver.Time.Seconds(), s.AssertsTotal, s.Paths, s.MaxPath, r.wOK, r.wRun, note)
	}
	return code
}

func coverLines(out string) []string {
	m := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		if c, ok := strings.CutPrefix(strings.TrimSpace(l), "SYM-COVER: "); ok {
			m[c] = true
		}
	}
	return sortedKeys(m)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runHarness(P *Program, cfg checkCfg, h *Harness, known []knownFinding, t0 time.Time) (r *harnessResult) {
	r = &harnessResult{h: h, opt: h.options(cfg.tier)}
	ts := time.Now()
	e := newEngine(P, r.opt)
	r.eng = e
	defer func() {
		if x := recover(); x != nil {
			r.err = fmt.Errorf("engine failure: %v", x)
			e.limit(fmt.Sprint("engine failure: ", x))
		}
		e.solver.Close()
		r.wall = time.Since(ts)
	}()
	for _, kf := range known {
		if kf.prop == cfg.prop && kf.harness == h.Fn {
			e.known[kf.msg] = true
		}
	}
	st := e.initState()
	e.start = time.Now()
	fn := P.pkgs[h.path()].Func(h.Fn)
	if fn == nil {
		r.err = fmt.Errorf("no function %s", h.Fn)
		return
	}
	e.opt.Witnesses = 3
	r.err = e.Run(st, fn)
	if r.err != nil {
		e.limit(r.err.Error())
	}
	r.viols = e.viols
	r.witness = e.witnesses
	for _, v := range r.viols {
		// a data race is looked for by its positions, other violations without looking for races
		race := e.opt.Race
		e.opt.Race = v.Kind == "race"
		e.raceTarget = v.Msg
		rv, vars, rerr := e.Replay(st, fn, v.Model)
		if rv == nil {
			e.limit(fmt.Sprintf("a counterexample was not reproduced: %v", rerr))
			fmt.Println("  replay:", rerr)
			if cfg.verbose {
				for k, x := range v.Model {
					fmt.Println("  ", k, x)
				}
				for _, t := range e.replayTrace {
					fmt.Printf("   rep T%d %s %s\n", t.Thread, t.Name, t.Loc)
				}
				for _, t := range v.Trace {
					fmt.Printf("   sym T%d %s %s\n", t.Thread, t.Name, t.Loc)
				}
			}
		}
		v.replayV = rv
		v.replayVars = vars
		if rv != nil {
			v.Trace = rv.Trace
			if v.Kind != "race" {
				v.Where = rv.Where
			}
		}
		// does it need a schedule? replay with all scheduling variables at their default
		m2 := map[string]uint64{}
		for k, x := range v.Model {
			if !strings.HasPrefix(k, "sched@") && !strings.HasPrefix(k, "select#") && !strings.HasPrefix(k, "waiter#") && !strings.HasPrefix(k, "maporder") {
				m2[k] = x
			}
		}
		for i := 0; i < 2000; i++ {
			m2[fmt.Sprintf("sched@%d.0", i)] = 1
			m2[fmt.Sprintf("select#%d.0", i)] = 1
			m2[fmt.Sprintf("waiter#%d.0", i)] = 1
		}
		if rv2, _, _ := e.Replay(st, fn, m2); rv2 == nil || v.Kind == "race" {
			v.sched = true
		} else if rv != nil {
			// other schedules than the default one: if the violation does not occur under one
			// of them, it depends on the schedule
			pre, del := e.opt.Preempt, e.opt.Delay
			e.opt.Preempt, e.opt.Delay = 6, false
			rnd := uint32(12345)
			for try := 0; try < 12 && !v.sched; try++ {
				m3 := map[string]uint64{}
				for k, x := range m2 {
					if strings.HasPrefix(k, "sched@") || strings.HasPrefix(k, "select#") || strings.HasPrefix(k, "waiter#") {
						continue
					}
					m3[k] = x
				}
				for i := 0; i < 2000; i++ {
					for _, n := range []string{"sched@%d.%d", "select#%d.%d", "waiter#%d.%d"} {
						rnd = rnd*1664525 + 1013904223
						k := int(rnd>>16) % 5
						if try%3 == 0 && n == "sched@%d.%d" && i%7 != 0 {
							k = 0
						}
						for j := 0; j <= k; j++ {
							m3[fmt.Sprintf(n, i, j)] = 0
						}
						if k < 3 {
							m3[fmt.Sprintf(n, i, k)] = 1
						}
					}
				}
				if rv3, _, err3 := e.Replay(st, fn, m3); rv3 == nil && err3 == nil {
					v.sched = true
				}
			}
			e.opt.Preempt, e.opt.Delay = pre, del
		}
		e.opt.Race, e.raceTarget = race, ""
	}
	if len(r.viols) == 0 {
		for _, c := range h.Covers {
			if e.covers[c] == 0 {
				r.missing = append(r.missing, c)
			}
		}
	}
	return
}

func writeReplay(rr *replayResult, r *harnessResult) {
	_ = os.MkdirAll(filepath.Dir(rr.file), 0o755)
	m := map[string]any{
		"harness": r.h.Pkg + "." + r.h.Fn, "harness_doc": r.h.Doc, "kind": rr.v.Kind, "message": rr.v.Msg, "where": rr.v.Where,
		"inputs": rr.vars, "model": rr.v.Model, "engine_replay": rr.engine, "schedule_dependent": rr.sched, "native_replay": rr.native,
		"native_output": tail(rr.output, 4000), "schedule": rr.trace, "reported": rr.counted,
	}
	b, _ := json.MarshalIndent(m, "", " ")
	_ = os.WriteFile(rr.file, b, 0o644)
}

func writeEvidence(cfg checkCfg, results []*harnessResult, t0 time.Time, nviol int, P *Program) {
	states, trans, val := 0, 0, 0
	var samples []any
	var harn []any
	fns := map[string]bool{}
	stubs := map[string]bool{}
	var queries, sat, unsat, unk, errs int
	var stime float64
	covered := true
	assume := map[string]bool{}
	for _, r := range results {
		s := r.eng.stats
		states += s.Forks + s.Paths + 1
		trans += int(s.SchedSteps) + s.Forks
		val += r.wOK
		for f, fi := range r.eng.fns {
			if fi.calls > 0 && fi.body {
				_ = f
				fns[fi.name] = true
			}
		}
		for k := range r.eng.stubs {
			stubs[k] = true
		}
		for _, rr := range r.replays {
			if rr.native == "reproduced" {
				val++
			}
		}
		queries += r.eng.solver.Queries
		sat += r.eng.solver.Sats
		unsat += r.eng.solver.Unsats
		unk += r.eng.solver.Unknowns
		errs += r.eng.solver.Errors
		stime += r.eng.solver.Time.Seconds()
		verdict := "holds within the bounds"
		if len(r.viols) > 0 {
			verdict = "counterexample"
		}
		if len(r.eng.limits) > 0 {
			covered = false
			verdict += " (reduced bound, see limits)"
		}
		if len(r.missing) > 0 {
			covered = false
		}
		pre := strconv.Itoa(r.opt.Preempt)
		if r.opt.Preempt < 0 {
			pre = "unlimited"
		}
		hm := map[string]any{
			"harness": r.h.Pkg + "." + r.h.Fn, "what": r.h.Doc, "bounds": r.h.Bounds, "preemptions": pre, "preemption_counts_every_deviation_from_default_order": r.opt.Delay, "timers_anytime": r.opt.TimersAnytime,
			"symbolic_map_order_up_to": r.opt.MapOrder, "verdict": verdict, "limits": r.eng.limits, "uncovered": r.missing,
			"symbolic_inputs": len(s.SymVars), "schedule_variables": s.SchedVars, "instructions_executed": s.Steps,
			"symbolic_states": s.Forks + 1, "merged_states": s.Merges, "ite_merges": s.IteMerges, "paths_completed": s.Paths, "paths_killed": s.Killed,
			"assertion_instances": s.AssertsTotal, "assertion_instances_true_by_simplification": s.AssertsConst, "assertion_instances_by_solver": s.AssertsSolver,
			"data_race_probes": s.RaceProbes,
			"assertion_sites":  r.eng.asserts, "covers": r.eng.covers, "queries": r.eng.solver.Queries, "solver_s": r.eng.solver.Time.Seconds(), "wall_s": r.wall.Seconds(),
			"witnesses_run_natively": r.wRun, "witnesses_agreeing": r.wOK, "witness_notes": r.wNote,
		}
		harn = append(harn, hm)
		if len(r.witness) > 0 {
			samples = append(samples, map[string]any{"harness": r.h.Fn, "witness_inputs": r.witness[0].Vars, "covers": r.witness[0].Covers, "schedule_steps": r.witness[0].Steps})
		}
		for _, rr := range r.replays {
			samples = append(samples, map[string]any{"harness": r.h.Fn, "counterexample": rr.vars, "message": rr.v.Msg})
		}
	}
	for _, a := range standingAssumptions {
		assume[a] = true
	}
	var own, other []string
	for f := range fns {
		if strings.Contains(f, "controllerbus/zzverif/") {
			continue
		}
		if strings.Contains(f, "aperturerobotics/controllerbus") {
			own = append(own, strings.ReplaceAll(f, "github.com/aperturerobotics/controllerbus/", ""))
		} else {
			other = append(other, f)
		}
	}
	sort.Strings(own)
	sort.Strings(other)
	if samples == nil {
		samples = []any{"no completed path"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": cfg.prop, "tier": cfg.tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": sortedKeys(assume),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"exhaustive": covered && nviol == 0, "harnesses": harn,
			"functions_encoded": own, "library_functions_encoded": other, "functions_replaced_by_stubs": sortedKeys(stubs),
			"solver": "z3 4.8.12 (QF_BV, incremental)", "solver_queries": queries, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk, "solver_errors": errs, "solver_s": stime,
		},
	}
	_ = os.MkdirAll(filepath.Join(cfg.verif, "evidence"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	_ = os.WriteFile(filepath.Join(cfg.verif, "evidence", cfg.prop+".json"), b, 0o644)
}

var standingAssumptions = []string{
	"the Go SSA form built by golang.org/x/tools/go/ssa from the current source and the engine's encoding of it are faithful",
	"scheduling points are the synchronisation operations (mutexes, channels, atomics, wait groups, goroutine start, timers); code between two of them runs atomically, i.e. sequential consistency and no data race inside such a block",
	"contexts, timers, sync.Pool, sync.Map and errors.Is/As are replaced by the models in zzverif/model; logging and runtime introspection by empty stubs",
	"map iteration is in insertion order unless a harness states otherwise",
}

// ---- native replay ----

type native struct {
	cfg  checkCfg
	hs   []*Harness
	dir  string
	once sync.Once
	done chan struct{}
	bins map[string]string
	errs map[string]string
}

func newNative(cfg checkCfg, hs []*Harness) *native {
	return &native{cfg: cfg, hs: hs, done: make(chan struct{}), bins: map[string]string{}, errs: map[string]string{}}
}

func (n *native) cleanup() {
	if n.dir != "" {
		<-n.done
		_ = os.RemoveAll(n.dir)
	}
}

func (n *native) build() {
	defer close(n.done)
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return
	}
	n.dir = dir
	ov, err := overlayFiles(filepath.Join(n.cfg.verif, "harness"), n.cfg.repo)
	if err != nil {
		return
	}
	pkgs := map[string][]string{}
	for _, h := range n.hs {
		pkgs[h.Pkg] = append(pkgs[h.Pkg], h.Fn)
	}
	rep := map[string]string{}
	for k, v := range ov {
		rep[k] = v
	}
	for _, p := range sortedKeys(pkgs) {
		var sb strings.Builder
		name := p
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"testing\"\n\t\"testing/synctest\"\n\n\t\"github.com/aperturerobotics/controllerbus/zzverif/sym\"\n)\n\n", name)
		fmt.Fprintf(&sb, "func TestVerifReplay(t *testing.T) {\n\tif err := sym.Load(os.Getenv(\"VERIF_MODEL\")); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tsym.QuiesceHook = synctest.Wait\n\tsynctest.Run(func() {\n\t\tswitch os.Getenv(\"VERIF_FN\") {\n")
		for _, f := range pkgs[p] {
			fmt.Fprintf(&sb, "\t\tcase %q:\n\t\t\t%s()\n", f, f)
		}
		fmt.Fprintf(&sb, "\t\t}\n\t\tfmt.Println(\"SYM-DONE\")\n\t\tos.Exit(0)\n\t})\n}\n")
		file := filepath.Join(dir, p+"_replay_test.go")
		if err := os.WriteFile(file, []byte(sb.String()), 0o644); err != nil {
			return
		}
		rep[filepath.Join(n.cfg.repo, "zzverif", p, "zz_replay_test.go")] = file
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return
	}
	for _, p := range sortedKeys(pkgs) {
		bin := filepath.Join(dir, p+".test")
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./zzverif/"+p)
		cmd.Dir = n.cfg.repo
		cmd.Env = append(os.Environ(), "GOEXPERIMENT=synctest")
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.errs[p] = tail(string(out), 500)
			if n.cfg.verbose {
				fmt.Println("native build:", string(out))
			}
			continue
		}
		n.bins[p] = bin
	}
}

// run executes the harness natively with the given inputs.
func (n *native) run(h *Harness, vars map[string]uint64, v *Violation) (string, string) {
	<-n.done
	bin := n.bins[h.Pkg]
	if bin == "" {
		return "unavailable: " + n.errs[h.Pkg], ""
	}
	f, err := os.CreateTemp(n.dir, "model")
	if err != nil {
		return "unavailable: " + err.Error(), ""
	}
	if vars == nil {
		vars = map[string]uint64{}
	}
	b, _ := json.Marshal(vars)
	_, _ = f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	timeout := "20s"
	if v != nil && v.Kind == "livelock" {
		timeout = "5s"
	}
	cmd := exec.Command(bin, "-test.run", "^TestVerifReplay$", "-test.timeout", timeout)
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "VERIF_FN="+h.Fn, "VERIF_MODEL="+f.Name())
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	out := buf.String()
	if v == nil {
		if err == nil && strings.Contains(out, "SYM-DONE") {
			return "passed", out
		}
		return "failed", out
	}
	if err == nil {
		return "not reproduced", out
	}
	switch {
	case strings.Contains(out, "SYM-ASSUME-FALSE"):
		return "not reproduced (assumption false)", out
	case v.Kind == "assert" && strings.Contains(out, "SYM-ASSERT-FAIL: "+v.Msg):
		return "reproduced", out
	case v.Kind == "assert" && strings.Contains(out, "SYM-ASSERT-FAIL:"):
		return "reproduced", out
	case v.Kind == "panic" && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")):
		return "reproduced", out
	case (v.Kind == "deadlock" || v.Kind == "livelock") && (strings.Contains(out, "deadlock") || strings.Contains(out, "test timed out")):
		return "reproduced", out
	case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") || strings.Contains(out, "SYM-ASSERT-FAIL:"):
		return "reproduced", out
	}
	return "not reproduced", out
}
