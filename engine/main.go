package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harness struct {
	Name   string
	Doc    string
	Bounds string
	Time   int // seconds, 0 = share of the budget
	Thoro  bool
	Model  bool // depends on a model that has no native counterpart: counterexamples are replayed in the executor
	fn     *ssa.Function
	pkg    string
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type harnessReport struct {
	Name        string         `json:"harness"`
	What        string         `json:"what"`
	Bounds      string         `json:"bounds"`
	Complete    bool           `json:"complete_within_bounds"`
	Paths       int            `json:"paths"`
	Infeasible  int            `json:"infeasible_paths"`
	Decisions   int64          `json:"decisions"`
	Steps       int64          `json:"blocks_executed"`
	Asserts     int64          `json:"assertions_discharged"`
	Queries     int            `json:"solver_queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	Pending     int            `json:"unexplored_branches"`
	Unsupported map[string]int `json:"paths_cut_unsupported,omitempty"`
	Limits      map[string]int `json:"paths_cut_limits,omitempty"`
	Covers      map[string]int `json:"reached"`
	Missing     []string       `json:"not_reached,omitempty"`
	Validated   int            `json:"traces_validated_against_impl"`
	Mismatch    []string       `json:"trace_mismatches,omitempty"`
	Violations  []string       `json:"violations,omitempty"`
	Unconfirmed []string       `json:"unconfirmed,omitempty"`
	Errors      []string       `json:"solver_errors,omitempty"`
	samples     []TraceSample
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check|run ...")
		os.Exit(2)
	}
	// the code is loaded with the Go release that builds it
	os.Setenv("PATH", goRelease+":"+os.Getenv("PATH"))
	cmd := os.Args[1]
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(12 << 30)
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	only := fs.String("only", "", "only harnesses matching this")
	budget := fs.Int("budget", 0, "seconds for the exploration")
	workers := fs.Int("workers", 0, "workers")
	nonative := fs.Bool("nonative", false, "no native replay")
	maxv := fs.Int("maxviol", 3, "stop a harness after so many distinct violations")
	prof := fs.String("cpuprofile", "", "")
	file := fs.String("file", "", "counterexample to replay")
	fs.Parse(os.Args[2:])
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	switch cmd {
	case "warm":
		os.Exit(warm(*repo, *verif))
	case "replay":
		os.Exit(replayFile(*repo, *verif, *file))
	}
	c := &checker{prop: *prop, tier: *tier, repo: *repo, verif: *verif, only: *only, budget: *budget, nw: *workers, native: !*nonative, seed: seed, maxv: *maxv}
	code := c.run()
	pprof.StopCPUProfile()
	os.Exit(code)
}

type checker struct {
	prop, tier, repo, verif, only string
	budget, nw                    int
	native                        bool
	seed                          int64
	maxv                          int
	e                             *Engine
	start                         time.Time
	nat                           *nativeRunner
}

func (c *checker) findHarnesses(dir string) ([]*harness, error) {
	pkgPath := zvPath + "/" + dir
	sp := c.e.pkgs[pkgPath]
	if sp == nil {
		return nil, fmt.Errorf("no package %s", pkgPath)
	}
	c.e.ensureBuilt(sp)
	var hs []*harness
	for name, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "H_") {
			continue
		}
		h := &harness{Name: name, fn: f, pkg: dir}
		if fd, ok := f.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
			for _, l := range fd.Doc.List {
				t := strings.TrimPrefix(l.Text, "//")
				if k, v, ok := strings.Cut(t, "="); ok && strings.HasPrefix(t, "gosym:") {
					switch strings.TrimPrefix(k, "gosym:") {
					case "time":
						h.Time, _ = strconv.Atoi(strings.TrimSpace(v))
					case "tier":
						h.Thoro = strings.TrimSpace(v) == "thorough"
					case "native":
						h.Model = strings.TrimSpace(v) == "no"
					}
				}
			}
			txt := strings.Join(strings.Fields(fd.Doc.Text()), " ")
			if i := strings.Index(txt, "Bounds:"); i >= 0 {
				h.Bounds = strings.TrimSpace(txt[i+7:])
				txt = txt[:i]
			}
			h.Doc = strings.TrimSpace(txt)
		}
		if h.Thoro && c.tier != "thorough" {
			continue
		}
		if c.only != "" && !regexp.MustCompile(c.only).MatchString(name) {
			continue
		}
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs, nil
}

func (c *checker) run() int {
	c.start = time.Now()
	dir := strings.ToLower(c.prop)
	hdir := filepath.Join(c.verif, "harness")
	if c.nw == 0 {
		c.nw = runtime.NumCPU()
		if c.nw > 8 {
			c.nw = 8
		}
	}
	opt := Options{MaxDecisions: 4000, MaxConcretize: 300, MaxSteps: 3_000_000, Workers: c.nw, Solver: "z3", SolverMS: 20000}
	if _, err := os.Stat(filepath.Join(hdir, dir)); err != nil {
		fmt.Fprintln(os.Stderr, "no harnesses for", c.prop)
		return 2
	}
	// the native runner is built while the sources are loaded
	if c.native {
		c.nat = newNativeRunner(c)
		c.nat.startBuild(dir)
		defer c.nat.close()
	}
	e, err := Load(c.repo, hdir, []string{zvPath + "/" + dir}, opt)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	c.e = e
	hs, err := c.findHarnesses(dir)
	if err != nil || len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "harnesses:", err, len(hs))
		return 2
	}
	loadS := time.Since(c.start).Seconds()
	fmt.Fprintf(os.Stderr, "loaded %d packages in %.1fs, %d harnesses\n", len(e.pkgs), loadS, len(hs))
	if c.budget == 0 {
		c.budget = 420
		if c.tier == "thorough" {
			c.budget = 780 - int(loadS)
		}
	}
	deadline := time.Now().Add(time.Duration(c.budget) * time.Second)
	kf := c.loadKnown()
	var reps []*harnessReport
	type viol struct {
		h    *harness
		v    *Violation
		conf string
		file string
	}
	var confirmed []viol
	knownHit := map[string]bool{}
	encoded := map[string]bool{}
	var ws []*Worker
	for i, h := range hs {
		left := time.Until(deadline)
		share := left / time.Duration(len(hs)-i)
		if i < len(hs)-1 {
			share = share * 3 / 2
		}
		if h.Time > 0 {
			share = time.Duration(h.Time) * time.Second
			if c.tier == "thorough" {
				share *= 3
			}
		}
		if share > left {
			share = left
		}
		x := &Explorer{e: e, harness: e.getFunc(h.fn), deadline: time.Now().Add(share), maxViols: c.maxv, sampleN: 24, workers: ws, rng: rand.New(rand.NewSource(c.seed))}
		if c.tier == "thorough" {
			x.tier = 1
			x.sampleN = 80
		}
		t0 := time.Now()
		var q0, s0, u0, k0 int
		var st0 time.Duration
		for _, w := range ws {
			q0 += w.solver.Queries
			s0 += w.solver.SatN
			u0 += w.solver.UnsatN
			k0 += w.solver.UnknownN
			st0 += w.solver.Time
		}
		for _, w := range ws {
			w.recycle()
		}
		x.run(c.nw)
		ws = x.workers
		r := &harnessReport{Name: h.Name, What: h.Doc, Bounds: h.Bounds, Paths: x.paths, Infeasible: x.infeasible, Decisions: x.decisions, Steps: x.steps,
			Asserts: x.asserts, WallS: time.Since(t0).Seconds(), Pending: x.pendingLeft, Unsupported: x.unsupported, Limits: x.limits, Covers: x.covers, samples: x.samples}
		for _, w := range ws {
			r.Queries += w.solver.Queries
			r.Sat += w.solver.SatN
			r.Unsat += w.solver.UnsatN
			r.Unknown += w.solver.UnknownN
			r.SolverS += w.solver.Time.Seconds()
			r.Errors = append(r.Errors, w.solver.Errors...)
			w.solver.Errors = nil
			for f := range w.encoded {
				encoded[f.name] = true
			}
		}
		r.Queries -= q0
		r.Sat -= s0
		r.Unsat -= u0
		r.Unknown -= k0
		r.SolverS -= st0.Seconds()
		r.Complete = x.pendingLeft == 0 && len(x.unsupported) == 0 && len(x.limits) == 0 && x.inconcl == 0 && r.Unknown == 0 && len(r.Errors) == 0 && !x.stop.Load()
		for _, cv := range c.declaredCovers(h) {
			if x.covers[cv] == 0 {
				r.Missing = append(r.Missing, cv)
			}
		}
		reps = append(reps, r)
		fmt.Fprintf(os.Stderr, "%s: paths=%d infeasible=%d decisions=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs complete=%v pending=%d\n", h.Name, r.Paths, r.Infeasible, r.Decisions, r.Asserts, r.Queries, r.SolverS, r.WallS, r.Complete, r.Pending)
		if len(x.covers) > 0 {
			fmt.Fprintf(os.Stderr, "   reached: %v  missing: %v\n", x.covers, r.Missing)
		}
		for _, m := range sortedKeys(x.unsupported) {
			fmt.Fprintf(os.Stderr, "   unsupported (%d): %s\n", x.unsupported[m], m)
		}
		for _, m := range sortedKeys(x.limits) {
			fmt.Fprintf(os.Stderr, "   limit (%d): %s\n", x.limits[m], m)
		}
		for _, m := range r.Errors {
			fmt.Fprintf(os.Stderr, "   solver error: %s\n", m)
		}
		// counterexamples: replay, match against the known findings
		sort.SliceStable(x.viols, func(i, j int) bool { return len(x.viols[i].Choice) < len(x.viols[j].Choice) })
		for _, v := range x.viols {
			if k := matchKnown(kf, c.prop, h.Name, v); k != nil {
				knownHit[k.What] = true
				r.Violations = append(r.Violations, "known: "+v.Msg)
				continue
			}
			already := false
			for _, o := range confirmed {
				if o.h == h && o.v.Msg == v.Msg {
					already = true
				}
			}
			if already {
				continue
			}
			conf, note := "", ""
			ran, other := x.concretely(ws[0], v)
			if !ran {
				note = "a concrete execution with these values gives: " + other
			} else if h.Model {
				conf = "concrete execution of the counterexample in the executor (its environment is a model)"
			} else if c.native {
				conf, note = c.nat.confirm(h, v, x.tier)
			} else {
				conf = "not replayed"
			}
			if debugEngine || !c.native {
				fmt.Fprintf(os.Stderr, "   counterexample: [%s] %s\n      at %s\n      vals %v obs %v\n", v.Kind, v.Msg, v.Where, v.Vals, v.Obs)
			}
			if conf == "" {
				r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("[%s] %s at %s (%s)", v.Kind, v.Msg, v.Where, note))
				fmt.Fprintf(os.Stderr, "   UNCONFIRMED counterexample: [%s] %s\n      at %s\n      vals %v\n      %s\n", v.Kind, v.Msg, v.Where, v.Vals, note)
				continue
			}
			file := c.writeReplay(h, v, conf, len(confirmed), x.tier)
			confirmed = append(confirmed, viol{h, v, conf, file})
			r.Violations = append(r.Violations, v.Msg)
			fmt.Fprintf(os.Stderr, "   counterexample: [%s] %s\n      at %s\n      %s\n", v.Kind, v.Msg, v.Where, conf)
		}
		// validate sampled traces natively
		if c.native && !h.Model {
			ok, mism, bad := c.nat.validate(h, x.samples, x.tier)
			r.Validated = ok
			r.Mismatch = mism
			for _, m := range mism {
				fmt.Fprintf(os.Stderr, "   trace mismatch: %s\n", m)
			}
			for _, v := range bad {
				if k := matchKnown(kf, c.prop, h.Name, v); k != nil {
					knownHit[k.What] = true
					continue
				}
				if len(confirmed) < 5 {
					file := c.writeReplay(h, v, "native run of an explored path fails", len(confirmed), x.tier)
					confirmed = append(confirmed, viol{h, v, "native", file})
					r.Violations = append(r.Violations, v.Msg)
					fmt.Fprintf(os.Stderr, "   native failure: %s\n", v.Msg)
				}
			}
		}
		if time.Now().After(deadline) {
			for _, h2 := range hs[i+1:] {
				reps = append(reps, &harnessReport{Name: h2.Name, What: h2.Doc, Bounds: h2.Bounds, Limits: map[string]int{"time": 1}})
			}
			break
		}
	}
	for _, w := range ws {
		w.solver.Stop()
	}
	c.writeEvidence(reps, encoded, len(confirmed), loadS)
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
	}
	if len(confirmed) > 0 {
		for _, v := range confirmed {
			fmt.Printf("%s %s: %s\n", v.h.Name, v.v.Kind, v.v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, v.file)
		}
		return 1
	}
	tot := 0
	for _, r := range reps {
		tot += r.Paths
		if !r.Complete {
			fmt.Printf("%s %s was not explored completely (see the evidence)\n", c.prop, r.Name)
		}
	}
	fmt.Printf("%s held on everything explored (%d harnesses, %d paths, %.0fs)\n", c.prop, len(reps), tot, time.Since(c.start).Seconds())
	return 0
}

// declaredCovers lists the constant arguments of sym.Cover in the harness and the functions it is built from in its package.
func (c *checker) declaredCovers(h *harness) []string {
	seen := map[*ssa.Function]bool{}
	var out []string
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			rec(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if callee.String() == symPath+".Cover" {
					if k, ok := call.Common().Args[0].(*ssa.Const); ok {
						s := constValue(k).(string)
						if !strings.HasPrefix(s, "?") {
							out = append(out, s)
						}
					}
					continue
				}
				if callee.Pkg == h.fn.Pkg {
					rec(callee)
				}
			}
		}
	}
	rec(h.fn)
	return out
}

func (c *checker) loadKnown() []known {
	var ks []known
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &ks); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		}
	}
	return ks
}

func matchKnown(ks []known, prop, h string, v *Violation) *known {
	for i := range ks {
		k := &ks[i]
		if k.Fixed != "" || k.Property != prop || (k.Harness != "" && k.Harness != h) {
			continue
		}
		if ok, _ := regexp.MatchString(k.Match, v.Kind+": "+v.Msg+" @ "+v.Where); ok {
			return k
		}
	}
	return nil
}

func (c *checker) writeReplay(h *harness, v *Violation, conf string, n, tier int) string {
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.prop, h.Name, n))
	b, _ := json.MarshalIndent(map[string]any{
		"property": c.prop, "harness": h.Name, "package": h.pkg, "tier": tier, "vals": v.Vals, "kind": v.Kind, "message": v.Msg, "where": v.Where,
		"decisions": v.Choice, "observed": v.Obs, "confirmed_by": conf, "schedule_dependent": v.Sched || h.Model, "map_order_dependent": v.MapOrd,
		"how_to_replay": fmt.Sprintf("cd /verif && ./check.sh replay %s", f),
	}, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

func (c *checker) writeEvidence(reps []*harnessReport, encoded map[string]bool, nviol int, loadS float64) {
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	var states, trans, valid, queries int
	var solver float64
	var samples []any
	complete := true
	for _, r := range reps {
		states += r.Paths
		trans += int(r.Decisions)
		valid += r.Validated
		queries += r.Queries
		solver += r.SolverS
		complete = complete && r.Complete
		for i, s := range r.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.Name, "inputs": s.Vals, "observed": s.Obs})
		}
	}
	if samples == nil {
		samples = []any{}
	}
	var fns, std []string
	for f := range encoded {
		if strings.Contains(f, "internal/zverif") {
			continue
		}
		if strings.Contains(f, repoMod) {
			fns = append(fns, strings.ReplaceAll(f, repoMod+"/", ""))
		} else {
			std = append(std, f)
		}
	}
	sort.Strings(fns)
	sort.Strings(std)
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "wall_s": time.Since(c.start).Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
			"exhaustive": complete,
			"explanation": "states = symbolic paths executed to their end (each covers every value satisfying its path condition); transitions = decided branches, choices and scheduling decisions along them; " +
				"traces = paths whose solver model was replayed natively against the real code with equal observations",
			"functions_encoded": fns, "library_functions_encoded": len(std), "library_functions": std,
			"solver_queries": queries, "solver_s": solver, "solver": "z3 4.8.12 (QF_BV), incremental", "load_s": loadS, "harnesses": reps,
		},
		"assumptions": assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}

var assumptions = []string{
	"the symbolic executor (go/ssa semantics, run-time and library models) represents the Go implementation; sampled paths are replayed natively to validate it",
	"nothing is claimed outside the stated bounds, on paths cut by unsupported operations or limits, or on branches left unexplored when the time ran out (all counted per harness)",
	"z3 answers are trusted; unknown answers are counted as reduced coverage",
	"text of error messages containing symbolic numbers is not modelled",
}

// warm builds every native runner once so that the build cache holds the dependencies.
func warm(repo, verif string) int {
	ents, err := os.ReadDir(filepath.Join(verif, "harness"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	code := 0
	for _, d := range ents {
		if !regexp.MustCompile(`^c\d+$`).MatchString(d.Name()) {
			continue
		}
		c := &checker{repo: repo, verif: verif}
		n := newNativeRunner(c)
		n.startBuild(d.Name())
		<-n.done
		if n.err != nil {
			fmt.Fprintln(os.Stderr, d.Name(), n.err)
			code = 2
		}
		n.close()
	}
	return code
}

// replayFile runs the recorded inputs of a counterexample natively, and when the failure depends on the interleaving or on the
// map order, explores the harness again.
func replayFile(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Harness, Package, Kind, Message string
		Tier                                      int
		Vals                                      map[string]uint64
		Confirmed                                 string `json:"confirmed_by"`
		Sched                                     bool   `json:"schedule_dependent"`
		MapOrd                                    bool   `json:"map_order_dependent"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := &checker{repo: repo, verif: verif, prop: r.Property}
	if strings.HasPrefix(r.Confirmed, "deterministic") {
		return (&checker{prop: r.Property, tier: map[int]string{0: "quick", 1: "thorough"}[r.Tier], repo: repo, verif: verif, only: "^" + r.Harness + "$", seed: 1, maxv: 3, native: true}).run()
	}
	n := newNativeRunner(c)
	defer n.close()
	n.startBuild(r.Package)
	v := &Violation{Kind: r.Kind, Msg: r.Message, Vals: r.Vals, Sched: r.Sched, MapOrd: r.MapOrd}
	conf, note := n.confirm(&harness{Name: r.Harness, pkg: r.Package}, v, r.Tier)
	if strings.HasPrefix(conf, "deterministic") {
		c2 := &checker{prop: r.Property, tier: map[int]string{0: "quick", 1: "thorough"}[r.Tier], repo: repo, verif: verif, only: "^" + r.Harness + "$", seed: 1, maxv: 3, native: true}
		return c2.run()
	}
	if conf == "" {
		fmt.Println("does not reproduce:", note)
		return 0
	}
	fmt.Println("reproduced:", conf)
	return 1
}
