package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	var (
		prop    = flag.String("prop", "", "property id")
		one     = flag.String("h", "", "only this harness (regexp)")
		tier    = flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
		verif   = flag.String("verif", "/verif", "")
		repo    = flag.String("repo", "/repo", "")
		workers = flag.Int("workers", runtime.NumCPU(), "")
		dev     = flag.Bool("dev", false, "developer output, no evidence")
		noRep   = flag.Bool("noreplay", false, "skip native replay")
		tbudget = flag.Int("time", 0, "override the time budget per harness (seconds)")
		cpuprof = flag.String("prof", "", "cpu profile")
		rfile   = flag.String("replay", "", "replay a recorded counterexample")
		lim     = flag.Bool("limits", false, "print engine limits as they happen")
	)
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	debugLimits = *lim
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run(*prop, *one, *tier, *verif, *repo, *workers, *dev, *noRep, *tbudget, *rfile)
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	if profOn {
		profPrint()
	}
	os.Exit(code)
}

// harnessPkgs finds the packages with harness functions for the property.
func harnessPkgs(verif, prop string) ([]string, error) {
	root := filepath.Join(verif, "harness")
	re := regexp.MustCompile(`(?m)^func VH_` + regexp.QuoteMeta(prop) + `_`)
	set := map[string]bool{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if re.Match(b) {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			set[modPath+"/"+rel] = true
		}
		return nil
	})
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out, err
}

type known struct {
	prop, harness, msg, what string
}

func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) assert="([^"]*)" (.*)$`)
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

func run(prop, one, tier, verif, repo string, workers int, dev, noRep bool, tbudget int, rfile string) int {
	t0 := time.Now()
	if rfile != "" {
		return replayFile(rfile, verif, repo)
	}
	pats, err := harnessPkgs(verif, prop)
	if err != nil || len(pats) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	w, err := loadWorld(verif, repo, tmp, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w.thorough = tier == "thorough"
	loadT := time.Since(t0)
	kf := loadKnown(verif)
	rp := &Replayer{verif: verif, repo: repo, tmp: tmp, w: w}
	var names []string
	re := regexp.MustCompile(one)
	for n, h := range w.harnesses {
		if h.Prop != prop || one != "" && !re.MatchString(n) {
			continue
		}
		if h.Thorough && tier == "quick" && !dev || h.QuickOnly && tier == "thorough" {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness selected")
		return 2
	}
	ev := newEvidence(prop, tier)
	ev.leftOut = w.leftOut
	for _, l := range w.leftOut {
		fmt.Printf("NOTE: property=%s harness code which does not fit the source was left out: %s\n", prop, oneLine(l))
	}
	exit := 0
	// the replay binary is compiled while the solver works
	if !noRep {
		go rp.build()
	}
	total := time.Duration(600) * time.Second
	if tier == "thorough" {
		total = 3 * time.Hour
	}
	if tier == "quick" && os.Getenv("GOSYM_TOTAL") != "" {
		if n, err := strconv.Atoi(os.Getenv("GOSYM_TOTAL")); err == nil {
			total = time.Duration(n) * time.Second
		}
	}
	knownSeen := map[string]bool{}
	for _, n := range names {
		h := w.harnesses[n]
		b := time.Duration(h.TimeSec) * time.Second
		if tier == "thorough" {
			b = time.Duration(h.ThoroughSec) * time.Second
			if h.TSwitches > 0 {
				h.MaxSwitches = h.TSwitches
			}
		}
		if tbudget > 0 {
			b = time.Duration(tbudget) * time.Second
		}
		if rest := total - time.Since(t0); b > rest {
			b = rest
		}
		if b < time.Second {
			b = time.Second
		}
		isKnown := func(v *Violation) bool { return matchKnown(kf, prop, v) != nil }
		r := explore(w, h, workers, b, isKnown)
		hr := ev.add(h, r)
		if dev {
			printDev(h, r)
		}
		var sigs []string
		for s := range r.viol {
			sigs = append(sigs, s)
		}
		sort.Strings(sigs)
		for _, s := range sigs {
			v := r.viol[s]
			k := matchKnown(kf, prop, v)
			ok, res := true, ReplayResult{Status: "not replayed"}
			if !noRep && !h.NoReplay {
				ok, res = rp.confirm(v)
			}
			if !ok {
				hr.Unconfirmed = append(hr.Unconfirmed, fmt.Sprintf("%s (%s) at %s: native run said %s %s", v.Msg, v.Kind, v.Where, res.Status, res.Msg))
				fmt.Printf("NOTE: property=%s harness=%s counterexample for %q did not reproduce natively (%s %s); not reported\n", prop, n, v.Msg, res.Status, oneLine(res.Msg))
				if dev {
					dumpViolation(v, "")
				}
				continue
			}
			path := saveReplay(verif, prop, v, res)
			if k != nil {
				if !knownSeen[k.msg+k.harness] {
					knownSeen[k.msg+k.harness] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				}
				hr.Known = append(hr.Known, v.Msg)
				continue
			}
			hr.Violations = append(hr.Violations, fmt.Sprintf("%s (%s) at %s", v.Msg, v.Kind, v.Where))
			ev.Violations++
			fmt.Printf("harness %s: %s [%s] at %s; native run: %s %s\n", n, v.Msg, v.Kind, v.Where, res.Status, oneLine(res.Msg))
			for _, l := range v.Trace {
				fmt.Println("   ", l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			exit = 1
			if dev {
				dumpViolation(v, path)
			}
		}
		// sampled complete paths are run natively and must agree
		if !noRep && !h.NoReplay && len(r.wit) > 0 {
			var items []ReplayItem
			for _, wt := range r.wit {
				items = append(items, ReplayItem{Harness: wt.Harness, Inputs: wt.Inputs, Obs: wt.Obs, Sched: wt.Sched})
			}
			res, err := rp.run(items, 20*time.Second)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			for i, x := range res {
				d := ""
				if x.Status != "ok" {
					d = x.Status + " " + x.Msg
				} else {
					d = cmpObs(items[i].Obs, x.Obs)
				}
				if d == "" {
					hr.Validated++
				} else {
					hr.Mismatch = append(hr.Mismatch, oneLine(d))
					if dev {
						fmt.Println("  MISMATCH", oneLine(d))
						b, _ := json.Marshal(items[i].Inputs)
						fmt.Println("    ", string(b))
					}
				}
			}
		}
		// a natively failing sampled path is not what the engine computed: the
		// engine says the assertions hold there
		if exit == 1 && tier == "quick" {
			break
		}
	}
	ev.LoadS = loadT.Seconds()
	ev.finish(verif, time.Since(t0), dev)
	return exit
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func matchKnown(kf []known, prop string, v *Violation) *known {
	for i := range kf {
		if kf[i].prop == prop && kf[i].harness == v.Harness && (kf[i].msg == v.Msg || v.Kind != "assert" && strings.HasPrefix(v.Msg, kf[i].msg)) {
			return &kf[i]
		}
	}
	return nil
}

func saveReplay(verif, prop string, v *Violation, res ReplayResult) string {
	dir := filepath.Join(verif, "out", "replay")
	os.MkdirAll(dir, 0755)
	h := uint64(14695981039346656037)
	for _, c := range []byte(v.Sig) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", prop, v.Harness, uint32(h)))
	b, _ := json.MarshalIndent(ReplayItem{Harness: v.Harness, Inputs: v.Inputs, Sched: v.Sched, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Trace: v.Trace}, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func replayFile(f, verif, repo string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var it ReplayItem
	if err := json.Unmarshal(b, &it); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	prop := strings.SplitN(it.Harness, "_", 3)[1]
	pats, err := harnessPkgs(verif, prop)
	if err != nil {
		return 2
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	w, err := loadWorld(verif, repo, tmp, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := &Replayer{verif: verif, repo: repo, tmp: tmp, w: w}
	ok, res := rp.confirm(&Violation{Harness: it.Harness, Inputs: it.Inputs, Sched: it.Sched, Kind: it.Kind})
	fmt.Printf("%s: recorded %s %q; native run: %s %s\n", it.Harness, it.Kind, it.Msg, res.Status, res.Msg)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		return 1
	}
	return 0
}

func dumpViolation(v *Violation, path string) {
	fmt.Printf("  --- %s [%s] %s at %s %s\n", v.Harness, v.Kind, v.Msg, v.Where, path)
	for _, l := range v.Trace {
		fmt.Println("     ", l)
	}
	for _, i := range v.Inputs {
		if i.Sparse != nil {
			fmt.Printf("      %s len=%d %v\n", i.Name, i.Value, i.Sparse)
		} else {
			fmt.Printf("      %s = %d (0x%x)\n", i.Name, i.Value, i.Value)
		}
	}
	if len(v.Sched) > 0 {
		fmt.Println("      schedule", v.Sched)
	}
}

func printDev(h *HarnessCfg, r *Run) {
	fmt.Printf("%s: paths=%d done=%d assume=%d limit=%d viol=%d forks=%d instrs=%d queries=%d hits=%d solver=%.1fs wall=%.1fs fns=%d\n", h.Name, r.paths, r.doneP, r.assumeP, r.limitP, len(r.viol), r.forks, r.instrs, r.queries, r.cacheHits, r.solverTime.Seconds(), r.wall.Seconds(), len(r.fns))
	for _, l := range topCounts(r.limits, 8) {
		fmt.Println("   limit:", l)
	}
	for _, l := range topCounts(r.unknowns, 8) {
		fmt.Println("   unknown:", l)
	}
	for _, l := range topCounts(r.internal, 8) {
		fmt.Println("   INTERNAL:", l)
	}
	for _, l := range topCounts(r.asserts, 40) {
		fmt.Println("   assert:", l)
	}
	fmt.Println("   reach:", topCounts(r.reach, 20), "missing:", missingReach(h, r))
}
