package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// nativeShim makes copies of the program's own files for the native replay in
// which the imports of sync and os are replaced by the stand-ins harness/vsync
// and harness/vos, so that a recorded interleaving or device fault can be
// replayed. Nothing else in the files changes.
func nativeShim(repo, tmp string, race bool) (map[string]string, error) {
	out := map[string]string{}
	cmd := exec.Command("find", repo, "-name", "*.go", "-not", "-name", "*_test.go", "-not", "-path", "*/.git/*")
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	dir := filepath.Join(tmp, fmt.Sprintf("shim%v", race))
	os.MkdirAll(dir, 0755)
	for _, f := range strings.Fields(string(b)) {
		rel := strings.TrimPrefix(f, repo+"/")
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			continue
		}
		type edit struct {
			from, to int
			text     string
		}
		var es []edit
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		sysName, tail := "", ""
		hasOS := false
		for _, im := range af.Imports {
			name := ""
			if im.Name != nil {
				name = im.Name.Name
			}
			sub := ""
			switch im.Path.Value {
			case `"sync"`:
				sub = "vsync"
			case `"os"`:
				if !strings.HasPrefix(rel, "cmd/") {
					sub = "vos"
					hasOS = true
				}
			case `"sync/atomic"`:
				sub = "vatomic"
			case `"github.com/thesues/go-judy"`:
				if race {
					sub = "vjudy"
				}
			case `"syscall"`:
				sysName = name
				if name == "" {
					sysName = "syscall"
				}
			}
			if sub == "" {
				continue
			}
			rep := `"` + modPath + `/internal/` + sub + `"`
			if name == "" {
				p, _ := strconv.Unquote(im.Path.Value)
				switch sub {
				case "vjudy":
					p = "judy"
				case "vatomic":
					p = "atomic"
				}
				rep = p + " " + rep
			}
			es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), rep})
		}
		if sysName != "" && !strings.HasPrefix(rel, "cmd/") {
			n := 0
			ast.Inspect(af, func(x ast.Node) bool {
				se, ok := x.(*ast.SelectorExpr)
				if !ok || (se.Sel.Name != "Fdatasync" && se.Sel.Name != "Fsync") {
					return true
				}
				if id, ok := se.X.(*ast.Ident); ok && id.Name == sysName && id.Obj == nil {
					es = append(es, edit{off(id.Pos()), off(id.End()), "zzvos"})
					n++
				}
				return true
			})
			if n > 0 {
				es = append(es, edit{off(af.Name.End()), off(af.Name.End()), "\n\nimport zzvos \"" + modPath + "/internal/vos\"\n"})
				tail = "\nvar _ = " + sysName + ".EINVAL\n"
			}
		}
		_ = hasOS
		if len(es) == 0 {
			continue
		}
		sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
		s := string(src)
		for _, e := range es {
			s = s[:e.from] + e.text + s[e.to:]
		}
		p := filepath.Join(dir, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(p, []byte(s+tail), 0644); err != nil {
			return nil, err
		}
		out[f] = p
	}
	return out, nil
}

// vosAliases writes the part of the os stand-in that passes package os through.
func vosAliases(osPkg *types.Package, have map[string]bool, file string) error {
	var sb strings.Builder
	sb.WriteString("package vos\n\nimport \"os\"\n\n")
	sc := osPkg.Scope()
	for _, n := range sc.Names() {
		if !token.IsExported(n) || have[n] {
			continue
		}
		switch o := sc.Lookup(n).(type) {
		case *types.Const:
			fmt.Fprintf(&sb, "const %s = os.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&sb, "var %s = os.%s\n", n, n)
		case *types.TypeName:
			fmt.Fprintf(&sb, "type %s = os.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&sb, "var %s = os.%s\n", n, n)
		}
	}
	return os.WriteFile(file, []byte(sb.String()), 0644)
}

// topNames lists the top-level names a Go file declares.
func topNames(file string) (map[string]bool, error) {
	af, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
	if err != nil {
		return nil, err
	}
	m := map[string]bool{}
	for _, d := range af.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil {
				m[x.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					m[y.Name.Name] = true
				case *ast.ValueSpec:
					for _, i := range y.Names {
						m[i.Name] = true
					}
				}
			}
		}
	}
	return m, nil
}
