package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type ReplayItem struct {
	Harness string     `json:"harness"`
	Inputs  []InputVal `json:"inputs"`
	Obs     []ObsVal   `json:"obs,omitempty"`
	Sched   []int      `json:"sched,omitempty"`
	Kind    string     `json:"kind,omitempty"`
	Msg     string     `json:"msg,omitempty"`
	Where   string     `json:"where,omitempty"`
	Trace   []string   `json:"trace,omitempty"`
}
type ReplayResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []ObsVal `json:"obs"`
}

// Replayer compiles the harnesses with the real program and runs them.
type Replayer struct {
	verif, repo, tmp string
	w                *World
	once             sync.Once
	bin              map[string]string
	err              error
	plainOv          map[string]string
	raceOnce         sync.Once
	raceBin          string
	raceErr          error
}

func (rp *Replayer) build() error {
	rp.once.Do(func() {
		rp.bin = map[string]string{}
		byPkg := map[string][]string{}
		for _, h := range rp.w.harnesses {
			byPkg[h.Pkg] = append(byPkg[h.Pkg], h.Name)
		}
		var pkgs []string
		for p := range byPkg {
			pkgs = append(pkgs, p)
			sort.Strings(byPkg[p])
		}
		sort.Strings(pkgs)
		ov := map[string]string{}
		for d, s := range rp.w.overlay {
			if strings.Contains(d, "/internal/vmodel/") {
				continue
			}
			ov[d] = s
		}
		shim, err := nativeShim(rp.repo, rp.tmp, false)
		if err != nil {
			rp.err = err
			return
		}
		vosFile := filepath.Join(rp.verif, "harness/vos/vos.go")
		have, err := topNames(vosFile)
		if err == nil {
			gen := filepath.Join(rp.tmp, "vos_gen.go")
			if op := rp.w.prog.ImportedPackage("os"); op == nil {
				err = fmt.Errorf("package os not loaded")
			} else if err = vosAliases(op.Pkg, have, gen); err == nil {
				ov[filepath.Join(rp.repo, "internal/vos/vos_gen.go")] = gen
			}
		}
		if err != nil {
			rp.err = err
			return
		}
		var src bytes.Buffer
		src.WriteString("package main\n\nimport (\n\t\"" + vsymPath + "\"\n\t_ \"" + modPath + "/internal/vsync\"\n\t_ \"" + modPath + "/internal/vos\"\n")
		n := 0
		for _, p := range pkgs {
			if strings.HasPrefix(p, modPath+"/cmd/") {
				continue
			}
			fmt.Fprintf(&src, "\tp%d %q\n", n, p)
			n++
		}
		src.WriteString(")\n\nfunc main() { vsym.Main(map[string]func(){\n")
		n = 0
		for _, p := range pkgs {
			if strings.HasPrefix(p, modPath+"/cmd/") {
				continue
			}
			for _, h := range byPkg[p] {
				fmt.Fprintf(&src, "\t%q: p%d.%s,\n", h, n, h)
			}
			n++
		}
		src.WriteString("}) }\n")
		mainf := filepath.Join(rp.tmp, "vreplay_main.go")
		if err := os.WriteFile(mainf, src.Bytes(), 0644); err != nil {
			rp.err = err
			return
		}
		ov[filepath.Join(rp.repo, "internal/vreplay/main.go")] = mainf
		rp.plainOv = ov
		mf := filepath.Join(rp.tmp, "vp_go.mod")
		mk := func(name string, extra map[string]string, target string) {
			m := map[string]string{}
			for k, v := range ov {
				m[k] = v
			}
			for k, v := range extra {
				m[k] = v
			}
			b, _ := json.Marshal(map[string]interface{}{"Replace": m})
			of := filepath.Join(rp.tmp, "overlay_"+name+".json")
			os.WriteFile(of, b, 0644)
			out := filepath.Join(rp.tmp, "vreplay_"+name)
			cmd := exec.Command("go", "build", "-overlay", of, "-modfile="+mf, "-o", out, target)
			cmd.Dir = rp.repo
			cmd.Env = goEnv()
			if o, err := cmd.CombinedOutput(); err != nil {
				rp.err = fmt.Errorf("replay build: %v\n%s", err, o)
				return
			}
			rp.bin[name] = out
		}
		// the scheduling shim replaces package sync in the program's own files
		if n > 0 {
			mk("plain", shim, modPath+"/internal/vreplay")
		}
		for _, p := range pkgs {
			if strings.HasPrefix(p, modPath+"/cmd/") {
				mk(filepath.Base(p), shim, p)
			}
		}
	})
	return rp.err
}

// buildRace compiles the replay program with the race detector.
func (rp *Replayer) buildRace() error {
	if err := rp.build(); err != nil {
		return err
	}
	rp.raceOnce.Do(func() {
		shim, err := nativeShim(rp.repo, rp.tmp, true)
		if err != nil {
			rp.raceErr = err
			return
		}
		m := map[string]string{}
		for k, v := range rp.plainOv {
			m[k] = v
		}
		for k, v := range shim {
			m[k] = v
		}
		b, _ := json.Marshal(map[string]interface{}{"Replace": m})
		of := filepath.Join(rp.tmp, "overlay_race.json")
		os.WriteFile(of, b, 0644)
		out := filepath.Join(rp.tmp, "vreplay_race")
		cmd := exec.Command("go", "build", "-race", "-overlay", of, "-modfile="+filepath.Join(rp.tmp, "vp_go.mod"), "-o", out, modPath+"/internal/vreplay")
		cmd.Dir = rp.repo
		cmd.Env = goEnv()
		if o, err := cmd.CombinedOutput(); err != nil {
			rp.raceErr = fmt.Errorf("race replay build: %v\n%s", err, o)
			return
		}
		rp.raceBin = out
	})
	return rp.raceErr
}

func (rp *Replayer) binFor(h string) string {
	c := rp.w.harnesses[h]
	if c != nil && strings.HasPrefix(c.Pkg, modPath+"/cmd/") {
		return rp.bin[filepath.Base(c.Pkg)]
	}
	return rp.bin["plain"]
}

// run replays the items (all of one harness package) and returns one result each.
func (rp *Replayer) run(items []ReplayItem, per time.Duration) ([]ReplayResult, error) {
	if err := rp.build(); err != nil {
		return nil, err
	}
	if len(items) == 0 {
		return nil, nil
	}
	f, err := os.CreateTemp(rp.tmp, "items")
	if err != nil {
		return nil, err
	}
	json.NewEncoder(f).Encode(items)
	f.Close()
	defer os.Remove(f.Name())
	bin := rp.binFor(items[0].Harness)
	if items[0].Kind == "race" {
		if err := rp.buildRace(); err != nil {
			return nil, err
		}
		bin = rp.raceBin
	}
	if bin == "" {
		return nil, fmt.Errorf("no replay binary for %s", items[0].Harness)
	}
	cmd := exec.Command(bin)
	cmd.Env = append(goEnv(), "VSYM_REPLAY="+f.Name(), fmt.Sprintf("VSYM_TIMEOUT=%d", int(per.Seconds())), "TMPDIR="+rp.tmp)
	for _, it := range items {
		if len(it.Sched) > 0 {
			// see package vsync
			cmd.Env = append(cmd.Env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=1 exitcode=66")
			break
		}
	}
	cmd.Dir = rp.tmp
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	defer func() {
		if os.Getenv("GOSYM_NATIVE") != "" {
			os.Stderr.Write(errb.Bytes())
		}
	}()
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	killed := false
	select {
	case werr = <-done:
	case <-time.After(per*time.Duration(len(items)) + 10*time.Second):
		cmd.Process.Kill()
		werr = <-done
		killed = true
	}
	var res []ReplayResult
	for _, l := range strings.Split(out.String(), "\n") {
		if !strings.HasPrefix(l, "VSYM-RESULT ") {
			continue
		}
		var r ReplayResult
		if json.Unmarshal([]byte(l[len("VSYM-RESULT "):]), &r) == nil {
			res = append(res, r)
		}
	}
	for len(res) < len(items) {
		msg := "process ended"
		if werr != nil {
			msg = werr.Error()
		}
		e := errb.String()
		if len(e) > 400 {
			e = e[:400]
		}
		st := "panic"
		if !strings.Contains(e, "panic") && !strings.Contains(e, "fatal error") && !strings.Contains(e, "SIG") {
			st = "error"
		}
		if killed {
			st = "hang"
		}
		if strings.Contains(e, "WARNING: DATA RACE") {
			st = "race"
		}
		res = append(res, ReplayResult{Status: st, Msg: msg + ": " + e})
	}
	return res, nil
}

// confirm replays a counterexample; addresses cannot be forced, so a few runs
// are made.
func (rp *Replayer) confirm(v *Violation) (bool, ReplayResult) {
	it := ReplayItem{Harness: v.Harness, Inputs: v.Inputs, Sched: v.Sched}
	if v.Kind == "race" {
		it.Kind = v.Kind
	}
	tries := 1
	for _, i := range v.Inputs {
		if i.Kind == "addr" {
			tries = 40
		}
	}
	per := 20 * time.Second
	var last ReplayResult
	for k := 0; k < tries; k++ {
		res, err := rp.run([]ReplayItem{it}, per)
		if err != nil {
			return false, ReplayResult{Status: "error", Msg: err.Error()}
		}
		last = res[0]
		switch last.Status {
		case "assert", "panic", "hang", "race":
			return true, last
		}
	}
	return false, last
}

func cmpObs(a, b []ObsVal) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations against %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s: engine %d, native %d", a[i].Name, a[i].Value, b[i].Value)
		}
	}
	return ""
}
