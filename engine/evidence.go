package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessReport struct {
	Harness     string   `json:"harness"`
	What        string   `json:"what"`
	Bounds      string   `json:"bounds,omitempty"`
	Outside     string   `json:"outside,omitempty"`
	Paths       int      `json:"paths"`
	Complete    int      `json:"paths_run_to_the_end"`
	Pruned      int      `json:"paths_ended_by_an_assumption"`
	Cut         int      `json:"paths_cut_at_a_bound"`
	Exhausted   bool     `json:"all_paths_within_bounds_explored"`
	Instrs      int64    `json:"instructions_executed_symbolically"`
	Queries     int      `json:"solver_queries"`
	CacheHits   int      `json:"solver_cache_hits"`
	SolverS     float64  `json:"solver_s"`
	WallS       float64  `json:"wall_s"`
	Unknown     []string `json:"solver_unknown,omitempty"`
	Limits      []string `json:"bounds_hit,omitempty"`
	Internal    []string `json:"engine_errors,omitempty"`
	Asserts     []string `json:"assertions_evaluated"`
	ByQuery     int      `json:"assertions_decided_by_a_query"`
	ByRewrite   int      `json:"assertions_decided_by_rewriting_under_the_path_condition"`
	ByFold      int      `json:"assertions_whose_sides_are_the_same_term"`
	Audited     int      `json:"rewritten_assertions_confirmed_by_the_solver"`
	Missing     []string `json:"reachability_marks_not_reached,omitempty"`
	Reached     []string `json:"reachability_marks"`
	Violations  []string `json:"violations,omitempty"`
	Known       []string `json:"known_findings,omitempty"`
	Unconfirmed []string `json:"counterexamples_not_reproduced,omitempty"`
	Validated   int      `json:"sampled_paths_agreeing_with_native_run"`
	Mismatch    []string `json:"sampled_paths_disagreeing,omitempty"`
	MaxSteps    int      `json:"max_steps_per_path"`
	MaxLoop     int      `json:"max_loop_iterations"`
	Switches    int      `json:"max_preemptions,omitempty"`
}

type evidence struct {
	prop, tier string
	hs         []*harnessReport
	fns        map[string]bool
	samples    []interface{}
	Violations int
	LoadS      float64
	leftOut    []string
}

func newEvidence(prop, tier string) *evidence {
	return &evidence{prop: prop, tier: tier, fns: map[string]bool{}}
}

// missingReach lists the marks in the harness's own code no path got to.
func missingReach(h *HarnessCfg, r *Run) []string {
	want := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Call:
					if fn := x.Call.StaticCallee(); fn != nil {
						if fn.String() == vsymPath+".Reach" {
							if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value != nil {
								want[constant.StringVal(c.Value)] = true
							}
						}
					}
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(h.Fn)
	var out []string
	for k := range want {
		if r.reach[k] == 0 {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (e *evidence) add(h *HarnessCfg, r *Run) *harnessReport {
	hr := &harnessReport{Harness: h.Name, What: strings.TrimSpace(h.Doc), Bounds: strings.TrimSpace(h.Bounds), Outside: strings.TrimSpace(h.Outside),
		Paths: r.paths, Complete: r.doneP, Pruned: r.assumeP, Cut: r.limitP, Instrs: r.instrs, Queries: r.queries, CacheHits: r.cacheHits,
		SolverS: r.solverTime.Seconds(), WallS: r.wall.Seconds(), Unknown: topCounts(r.unknowns, 5), Limits: topCounts(r.limits, 5), Internal: topCounts(r.internal, 5),
		Asserts: topCounts(r.asserts, 60), Reached: topCounts(r.reach, 30), Missing: missingReach(h, r), MaxSteps: h.MaxSteps, MaxLoop: h.MaxLoop}
	hr.ByQuery, hr.ByRewrite, hr.ByFold, hr.Audited = r.decided[byQuery], r.decided[byRewriting], r.decided[byFolding], r.audits[Unsat]
	if r.usedSched {
		hr.Switches = h.MaxSwitches
	}
	hr.Exhausted = len(r.limits) == 0 && len(r.unknowns) == 0 && len(r.internal) == 0 && !r.stop
	for f := range r.fns {
		e.fns[f] = true
	}
	for i, w := range r.wit {
		if i < 1 {
			e.samples = append(e.samples, sampleOf(w))
		}
	}
	e.hs = append(e.hs, hr)
	return hr
}

func sampleOf(w Witness) interface{} {
	m := map[string]interface{}{"harness": w.Harness}
	in := map[string]string{}
	for i, x := range w.Inputs {
		if i >= 24 {
			break
		}
		if x.Sparse != nil {
			in[x.Name] = fmt.Sprintf("%d bytes, %d of them fixed by the path", x.Value, len(x.Sparse))
		} else {
			in[x.Name] = strconv.FormatUint(x.Value, 10)
		}
	}
	m["inputs_of_one_path"] = in
	return m
}

func (e *evidence) finish(verif string, wall time.Duration, dev bool) {
	states, trans, val := 0, 0, 0
	q, hits := 0, 0
	var st float64
	ok := true
	for _, h := range e.hs {
		states += h.Paths
		trans += int(h.Instrs)
		val += h.Validated
		q += h.Queries
		hits += h.CacheHits
		st += h.SolverS
		ok = ok && h.Exhausted
	}
	var fns []string
	for f := range e.fns {
		if strings.Contains(f, modPath) && !strings.Contains(f, "/internal/vsym") && !strings.Contains(f, "VH_") && !strings.HasSuffix(f, ".init") {
			fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
		}
	}
	sort.Strings(fns)
	others := len(e.fns) - len(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if e.samples == nil {
		e.samples = []interface{}{}
	}
	out := map[string]interface{}{
		"property": e.prop, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": e.samples,
			"explanation":                           "states are symbolic paths of the real functions, transitions are SSA instructions executed on them; every branch and assertion on a path was decided by the solver (or by term rewriting) for all values of the inputs within the bounds",
			"exhaustive":                            ok,
			"functions_encoded":                     fns,
			"library_and_harness_functions_encoded": others,
			"solver_queries":                        q, "solver_cache_hits": hits, "solver_seconds": st,
			"load_seconds": e.LoadS,
			"harness_code_left_out": append([]string{}, e.leftOut...),
			"harnesses":    e.hs,
		},
		"assumptions": []string{
			"go/ssa (golang.org/x/tools) represents the source of /repo faithfully; the engine's semantics of SSA are spot-checked by replaying sampled paths natively",
			"Judy arrays, sync, time, fmt, uuid and metrics are modelled (see DESIGN.md); the solver is z3",
		},
		"wall_s":     wall.Seconds(),
		"violations": e.Violations,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if !dev {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		os.WriteFile(filepath.Join(verif, "evidence", e.prop+".json"), append(b, '\n'), 0644)
	}
	cut := 0
	for _, h := range e.hs {
		cut += h.Cut
		for _, m := range h.Missing {
			fmt.Printf("NOTE: property=%s harness=%s mark %q not reached\n", e.prop, h.Harness, m)
		}
		for _, m := range h.Mismatch {
			fmt.Printf("NOTE: property=%s harness=%s a sampled path disagrees with its native run: %s\n", e.prop, h.Harness, m)
		}
		for _, m := range h.Limits {
			fmt.Printf("NOTE: property=%s harness=%s bound reached: %s\n", e.prop, h.Harness, m)
		}
		for _, m := range h.Unknown {
			fmt.Printf("NOTE: property=%s harness=%s solver gave no answer: %s\n", e.prop, h.Harness, m)
		}
		for _, m := range h.Internal {
			fmt.Printf("NOTE: property=%s harness=%s engine error: %s\n", e.prop, h.Harness, m)
		}
	}
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d cut=%d queries=%d solver=%.1fs wall=%.1fs natively_validated=%d violations=%d\n", e.prop, e.tier, len(e.hs), states, cut, q, st, wall.Seconds(), val, e.Violations)
}
