package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/thesues/cannyls-go"

// HarnessCfg describes one harness function and its bounds.
type HarnessCfg struct {
	Name            string
	Prop            string
	Doc             string
	Fn              *ssa.Function
	MaxSteps        int
	MaxLoop         int
	MaxConc         int
	MaxSwitches     int
	TSwitches       int
	Races           bool
	SplitMax        uint64
	HangIsViolation bool
	MergeInts       bool
	Thorough        bool // only in the thorough tier
	QuickOnly       bool
	TimeSec         int // quick budget
	ThoroughSec     int
	Bounds          string
	Outside         string
	Pkg             string
	NoReplay        bool
	MaxPaths        int
	Witness         int
}

// World is the loaded program, shared by the workers.
type World struct {
	prog           *ssa.Program
	mu             sync.Mutex
	solverTimeout  int
	errorStringPtr types.Type
	runtimeErr     types.Type
	harnesses      map[string]*HarnessCfg
	models         map[string]*ssa.Function // by mangled name
	built          map[*ssa.Package]bool
	pkgs           []*ssa.Package
	initOrder      []*ssa.Package
	initPkg        map[string]bool
	thorough       bool
	overlay        map[string]string
	leftOut        []string // harness declarations which do not fit the source
}

// overlayFiles maps the harness tree onto paths below /repo.
func overlayFiles(verif, repo string) (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir, base := filepath.Split(rel)
		switch {
		case strings.HasPrefix(rel, "vsym/"), strings.HasPrefix(rel, "vmodel/"), strings.HasPrefix(rel, "vsync/"), strings.HasPrefix(rel, "vos/"), strings.HasPrefix(rel, "vjudy/"), strings.HasPrefix(rel, "vatomic/"):
			m[filepath.Join(repo, "internal", rel)] = p
		default:
			m[filepath.Join(repo, dir, "zz_verif_"+base)] = p
		}
		return nil
	})
	return m, err
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "HOME=/root", "LANG=C.UTF-8", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOENV=off", "CGO_ENABLED=1",
		"GOFLAGS=-mod=mod", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod")
	if os.Getenv("GOCACHE") == "" {
		env = append(env, "GOCACHE=/root/.cache/go-build")
	}
	return env
}

// modFile makes copies of go.mod and go.sum so that /repo's own stay as they are.
func modFile(repo, dir string) (string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, "vp_"+f), b, 0644); err != nil {
			return "", err
		}
	}
	if err := os.Rename(filepath.Join(dir, "vp_go.sum"), filepath.Join(dir, "vp_go.sum")); err != nil {
		return "", err
	}
	return filepath.Join(dir, "vp_go.mod"), nil
}

// leaveOut blanks the declarations of harness files which do not compile against
// the source, so that a renamed helper takes away only what uses it. It returns
// what it took away, nothing when some error is elsewhere.
func leaveOut(overlay map[string][]byte, bad []packages.Error) []string {
	var out []string
	type span struct {
		file string
		a, b int
	}
	done := map[span]bool{}
	for _, e := range bad {
		f := strings.Split(e.Pos, ":")
		src, ok := overlay[f[0]]
		if !ok || len(f) < 2 || !strings.HasPrefix(filepath.Base(f[0]), "zz_verif_") {
			if strings.HasPrefix(e.Msg, "could not import") || e.Pos == "" || e.Pos == "-" {
				continue
			}
			return nil
		}
		line, _ := strconv.Atoi(f[1])
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f[0], src, parser.ParseComments)
		if err != nil {
			return nil
		}
		in := func(n ast.Node) bool { return fs.Position(n.Pos()).Line <= line && line <= fs.Position(n.End()).Line }
		var cut ast.Node
		name := ""
		for _, d := range tree.Decls {
			if !in(d) {
				continue
			}
			cut = d
			switch x := d.(type) {
			case *ast.FuncDecl:
				name = x.Name.Name
			case *ast.GenDecl:
				name = x.Tok.String()
				for _, sp := range x.Specs {
					if !in(sp) {
						continue
					}
					switch y := sp.(type) {
					case *ast.ImportSpec:
						name = "import of " + y.Path.Value
						if x.Lparen.IsValid() {
							cut = sp
						}
					case *ast.TypeSpec:
						name = y.Name.Name
						if x.Lparen.IsValid() {
							cut = sp
						}
					}
				}
			}
		}
		if cut == nil {
			return nil
		}
		s := span{f[0], fs.Position(cut.Pos()).Offset, fs.Position(cut.End()).Offset}
		if done[s] {
			continue
		}
		done[s] = true
		for i := s.a; i < s.b; i++ {
			if src[i] != '\n' {
				src[i] = ' '
			}
		}
		out = append(out, fmt.Sprintf("%s of %s (%s)", name, filepath.Base(f[0]), e.Msg))
	}
	return out
}

func loadWorld(verif, repo, tmp string, pkgPats []string) (*World, error) {
	ov, err := overlayFiles(verif, repo)
	if err != nil {
		return nil, err
	}
	// only the harness files of the packages asked for take part
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	mf, err := modFile(repo, tmp)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Env:        goEnv(),
		Overlay:    overlay,
		BuildFlags: []string{"-modfile=" + mf},
		Fset:       token.NewFileSet(),
	}
	pats := append([]string{modPath + "/internal/vsym", modPath + "/internal/vmodel"}, pkgPats...)
	var initial []*packages.Package
	var left []string
	for round := 0; ; round++ {
		initial, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var bad []packages.Error
		packages.Visit(initial, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				if strings.HasPrefix(p.PkgPath, modPath) {
					bad = append(bad, e)
				}
			}
		})
		if len(bad) == 0 {
			break
		}
		out := leaveOut(overlay, bad)
		if len(out) == 0 || round == 12 {
			var errs []string
			for _, e := range bad {
				errs = append(errs, e.Error())
			}
			sort.Strings(errs)
			return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
		}
		left = append(left, out...)
		cfg.Fset = token.NewFileSet()
	}
	if len(left) > 0 {
		// the native runs are built from the same files
		for dst, b := range overlay {
			if orig, err := os.ReadFile(ov[dst]); err == nil && string(orig) != string(b) {
				f := filepath.Join(tmp, strings.ReplaceAll(strings.TrimPrefix(dst, repo), "/", "_"))
				if err := os.WriteFile(f, b, 0644); err != nil {
					return nil, err
				}
				ov[dst] = f
			}
		}
		sort.Strings(left)
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	w := &World{prog: prog, solverTimeout: 4000, harnesses: map[string]*HarnessCfg{}, models: map[string]*ssa.Function{}, built: map[*ssa.Package]bool{}, initPkg: map[string]bool{}, overlay: ov, leftOut: left}
	// initialisation order: dependencies first
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		if sp := prog.Package(p.Types); sp != nil && w.allowInit(p.PkgPath) {
			w.initOrder = append(w.initOrder, sp)
		}
	}
	for _, p := range initial {
		visit(p)
	}
	for _, sp := range w.initOrder {
		sp.Build()
		w.built[sp] = true
	}
	if ep := prog.ImportedPackage("errors"); ep != nil {
		ep.Build()
		w.errorStringPtr = types.NewPointer(ep.Type("errorString").Type())
	} else {
		return nil, fmt.Errorf("no errors package")
	}
	w.runtimeErr = types.Typ[types.String]
	if vm := prog.ImportedPackage(modPath + "/internal/vmodel"); vm != nil {
		vm.Build()
		for n, m := range vm.Members {
			if f, ok := m.(*ssa.Function); ok {
				w.models[n] = f
			}
		}
	}
	// harnesses, and the models they bring along
	for _, p := range initial {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "model_") {
				w.models[n[6:]] = f
			}
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VH_") {
					continue
				}
				h, err := parseDirectives(fd)
				if err != nil {
					return nil, err
				}
				h.Fn = sp.Func(fd.Name.Name)
				h.Pkg = p.PkgPath
				w.harnesses[h.Name] = h
			}
		}
	}
	return w, nil
}

func parseDirectives(fd *ast.FuncDecl) (*HarnessCfg, error) {
	h := &HarnessCfg{Name: fd.Name.Name, MaxSteps: 4000000, MaxLoop: 20000, MaxConc: 300, MaxSwitches: 2, SplitMax: 0, TimeSec: 60, ThoroughSec: 600, Witness: 4}
	parts := strings.SplitN(fd.Name.Name, "_", 3)
	h.Prop = parts[1]
	if fd.Doc == nil {
		return h, nil
	}
	for _, c := range fd.Doc.List {
		t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
		switch {
		case strings.HasPrefix(t, "bounds:"):
			h.Bounds += strings.TrimSpace(t[7:]) + " "
		case strings.HasPrefix(t, "outside:"):
			h.Outside += strings.TrimSpace(t[8:]) + " "
		case strings.HasPrefix(t, "vsym:"):
			for _, kv := range strings.Fields(t[5:]) {
				k, v := kv, ""
				if i := strings.Index(kv, "="); i >= 0 {
					k, v = kv[:i], kv[i+1:]
				}
				n, _ := strconv.Atoi(v)
				switch k {
				case "steps":
					h.MaxSteps = n
				case "loop":
					h.MaxLoop = n
				case "conc":
					h.MaxConc = n
				case "switches":
					h.MaxSwitches = n
				case "tswitches":
					h.TSwitches = n
				case "races":
					h.Races = true
				case "split":
					h.SplitMax = uint64(n)
				case "hang":
					h.HangIsViolation = true
				case "merge":
					h.MergeInts = true
				case "thorough":
					h.Thorough = true
				case "quickonly":
					h.QuickOnly = true
				case "time":
					h.TimeSec = n
				case "ttime":
					h.ThoroughSec = n
				case "noreplay":
					h.NoReplay = true
				case "witness":
					h.Witness = n
				default:
					return nil, fmt.Errorf("%s: unknown directive %s", h.Name, kv)
				}
			}
		default:
			h.Doc += t + " "
		}
	}
	return h, nil
}

var initAllow = map[string]bool{
	"errors": false, "io": true, "bytes": true, "bufio": true, "strings": true, "strconv": true,
	"encoding/binary": true, "encoding/hex": true, "hash": true, "hash/adler32": true, "unicode/utf8": true,
	"sort": true, "internal/strconv": true, "math": true, "math/bits": true, "github.com/pkg/errors": true,
	"github.com/google/btree": true, "github.com/phf/go-queue/queue": true, "io/fs": true,
	"github.com/klauspost/readahead": true, "slices": true, "internal/oserror": true, "github.com/satori/go.uuid": false,
}

func (w *World) allowInit(p string) bool {
	if v, ok := initAllow[p]; ok {
		return v
	}
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func (w *World) build(fn *ssa.Function) {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.built[p] {
		w.built[p] = true
		p.Build()
	}
}
