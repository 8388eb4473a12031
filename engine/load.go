package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/GottfriedHerold/Bandersnatch"

type Harness struct {
	prop      string
	name      string
	pkg       string
	fn        *ssa.Function
	mode      string // "bv", "int", "fld"
	tier      string // "" or "thorough"
	opts      map[string]string
	doc       string
	nFallback atomic.Int32
	nDive     sync.Map // message -> *atomic.Int32
	diveNs    atomic.Int64
	repl      map[string]*ssa.Function // calls answered by a contract of the harness package
	cuts      map[string]*ssa.Function // loop heads at which a contract of the harness package abstracts the state
	replUsed  sync.Map
}

type Program struct {
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	errStringPtr types.Type
	repoDir      string
	overlay      map[string]string // target path -> source file
	overlayJSON  string
	harnesses    []*Harness
	tmp          string
	modfile      string
	dropped      []string
	usedOnly     map[string]*regexp.Regexp
	rtypePtr     types.Type
}

var interpPkgs = map[string]bool{
	"errors": true, "io": true, "bytes": true, "strings": true, "strconv": true, "sort": true,
	"slices": true, "cmp": true, "unicode/utf8": true, "encoding/binary": true, "math/bits": true,
	"internal/stringslite": true, "fmt": true, "iter": true, "maps": true, "math": true, "internal/byteorder": true,
	"internal/bytealg": true, "unicode": true,
}
var initPkgs = map[string]bool{"errors": true, "io": true, "bytes": true, "encoding/binary": true, "strconv": true}

func (p *Program) mayInterpret(path string) bool {
	return interpPkgs[path] || strings.HasPrefix(path, repoModule)
}
func (p *Program) runsInit(path string) bool {
	return initPkgs[path] || strings.HasPrefix(path, repoModule)
}
func (p *Program) isRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return false
	}
	path := f.Pkg.Pkg.Path()
	if !strings.HasPrefix(path, repoModule) || strings.HasSuffix(path, "zzverif") {
		return false
	}
	pos := p.prog.Fset.Position(f.Pos())
	return !strings.Contains(filepath.Base(pos.Filename), "zz_verif")
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// buildOverlay collects the harness files of a property.
func buildOverlay(repo, verif, prop, tmp string) (*Program, error) {
	p := &Program{repoDir: repo, overlay: map[string]string{}, pkgs: map[string]*ssa.Package{}, tmp: tmp}
	// go.mod and go.sum are used through copies, so that no go command can touch /repo
	p.modfile = filepath.Join(tmp, "mod", "go.mod")
	os.MkdirAll(filepath.Dir(p.modfile), 0o755)
	for _, f := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(repo, f)); err == nil {
			must(os.WriteFile(filepath.Join(tmp, "mod", f), b, 0o644))
		}
	}
	root := filepath.Join(verif, "harness", prop)
	var pkgs []string
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		dir, base := filepath.Split(rel)
		target := filepath.Join(repo, dir, "zz_verif_"+base)
		p.overlay[target] = path
		pkgs = append(pkgs, strings.TrimSuffix(dir, "/"))
		return nil
	})
	if err != nil {
		return nil, err
	}
	// USES: harness files of other properties whose contracts this property relies on, and the harnesses that discharge them
	p.usedOnly = map[string]*regexp.Regexp{}
	if b, err := os.ReadFile(filepath.Join(root, "USES")); err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			f := strings.Fields(l)
			if len(f) != 3 {
				return nil, fmt.Errorf("USES: bad line %q", l)
			}
			dir, base := filepath.Split(f[1])
			target := filepath.Join(repo, dir, "zz_verif_"+f[0]+"_"+base)
			p.overlay[target] = filepath.Join(verif, "harness", f[0], f[1])
			p.usedOnly[target] = regexp.MustCompile("^(" + f[2] + ")$")
			pkgs = append(pkgs, strings.TrimSuffix(dir, "/"))
		}
	}
	sup := filepath.Join(verif, "harness", "zzverif")
	ents, err := os.ReadDir(sup)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			p.overlay[filepath.Join(repo, "internal/zzverif", e.Name())] = filepath.Join(sup, e.Name())
		}
	}
	// shared per-package helpers: harness/shared/<pkgdir>/*.go for every package used
	used := map[string]bool{}
	for _, d := range pkgs {
		used[d] = true
	}
	for d := range used {
		sd := filepath.Join(verif, "harness", "shared", d)
		if ents, err := os.ReadDir(sd); err == nil {
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), ".go") {
					p.overlay[filepath.Join(repo, d, "zz_verif_shared_"+e.Name())] = filepath.Join(sd, e.Name())
				}
			}
		}
	}
	return p, nil
}

func (p *Program) writeOverlay() {
	m := map[string]any{"Replace": p.overlay}
	b, _ := json.MarshalIndent(m, "", " ")
	p.overlayJSON = filepath.Join(p.tmp, "overlay.json")
	must(os.WriteFile(p.overlayJSON, b, 0o644))
}

func goEnv() []string {
	env := os.Environ()
	gobin := "/opt/veriftools/go1.27.3/bin"
	out := []string{}
	for _, e := range env {
		if strings.HasPrefix(e, "PATH=") {
			e = "PATH=" + gobin + ":" + e[5:]
		}
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func goCmd(dir string, args ...string) *exec.Cmd {
	bin := "/opt/veriftools/go1.27.3/bin/go"
	if _, err := os.Stat(bin); err != nil {
		bin = "go"
	}
	c := exec.Command(bin, args...)
	c.Dir = dir
	c.Env = goEnv()
	return c
}

// load loads the harness packages; harness files that do not compile against the
// current tree (a renamed internal function, say) are left out and recorded.
func (p *Program) load(prop string) error {
	for {
		err := p.load1(prop)
		le, ok := err.(*loadError)
		if !ok {
			return err
		}
		drop := map[string]bool{}
		for _, e := range le.errs {
			file, _, _ := strings.Cut(e, ":")
			if _, ok := p.overlay[file]; ok && strings.Contains(filepath.Base(file), "zz_verif_") {
				drop[file] = true
			}
		}
		if len(drop) == 0 {
			return err
		}
		for f := range drop {
			p.dropped = append(p.dropped, p.overlay[f])
			fmt.Fprintln(os.Stderr, "harness file left out:", p.overlay[f])
			delete(p.overlay, f)
		}
		for _, e := range le.errs {
			fmt.Fprintln(os.Stderr, "  ", e)
		}
	}
}

type loadError struct{ errs []string }

func (e *loadError) Error() string { return "load errors: " + strings.Join(e.errs, "\n") }

func (h *Harness) noteRepl(n string) { h.replUsed.Store(n, true) }

// fullName qualifies F, T.M or (*T).M with the package path; a leading pkg/path# selects another package.
func fullName(pkg, s string) string {
	if a, b, ok := strings.Cut(s, "#"); ok {
		pkg, s = repoModule+"/"+a, b
	}
	switch {
	case strings.HasPrefix(s, "(*"):
		return "(*" + pkg + "." + s[2:]
	case strings.HasPrefix(s, "("):
		return "(" + pkg + "." + s[1:]
	}
	return pkg + "." + s
}

func (p *Program) load1(prop string) error {
	ov := map[string][]byte{}
	pk := map[string]bool{}
	for t, s := range p.overlay {
		b, err := os.ReadFile(s)
		if err != nil {
			return err
		}
		ov[t] = b
		pk["./"+strings.TrimPrefix(filepath.Dir(t), p.repoDir+"/")] = true
	}
	var pats []string
	for k := range pk {
		pats = append(pats, k)
	}
	sort.Strings(pats)
	os.Setenv("PATH", "/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        p.repoDir,
		Overlay:    ov,
		BuildFlags: []string{"-modfile=" + p.modfile},
		Env:        goEnv(),
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(initial, nil, func(pp *packages.Package) {
		if strings.HasPrefix(pp.PkgPath, repoModule) {
			for _, e := range pp.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return &loadError{errs}
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.BareInits&0)
	p.prog = prog
	prog.Build()
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	ep := p.pkgs["errors"]
	p.errStringPtr = types.NewPointer(ep.Type("errorString").Type())
	if rp := p.pkgs["reflect"]; rp != nil {
		p.rtypePtr = types.NewPointer(rp.Type("rtype").Type())
	}
	p.harnesses = nil
	// discover harnesses
	for _, pp := range initial {
		sp := p.pkgs[pp.PkgPath]
		for _, f := range pp.Syntax {
			fname := pp.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fname), "zz_verif_") || strings.HasPrefix(filepath.Base(fname), "zz_verif_shared_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "ZZ_") {
					continue
				}
				if re := p.usedOnly[fname]; re != nil && !re.MatchString(fd.Name.Name) {
					continue
				}
				h := &Harness{prop: prop, name: fd.Name.Name, pkg: pp.PkgPath, fn: sp.Func(fd.Name.Name), mode: "bv", opts: map[string]string{}}
				if fd.Doc != nil {
					var docl []string
					for _, c := range fd.Doc.List {
						if s, ok := strings.CutPrefix(c.Text, "//zz:"); ok {
							for _, kv := range strings.Fields(s) {
								k, v, _ := strings.Cut(kv, "=")
								switch k {
								case "mode":
									h.mode = v
								case "tier":
									h.tier = v
								case "cut":
									for _, rv := range strings.Split(v, ",") {
										a, b, _ := strings.Cut(rv, ":")
										if h.cuts == nil {
											h.cuts = map[string]*ssa.Function{}
										}
										if f := sp.Func(b); f != nil {
											h.cuts[fullName(pp.PkgPath, a)] = f
										} else {
											return fmt.Errorf("%s: no function %s", h.name, b)
										}
									}
								case "replace":
									for _, rv := range strings.Split(v, ",") {
										a, b, _ := strings.Cut(rv, ":")
										if h.repl == nil {
											h.repl = map[string]*ssa.Function{}
										}
										if f := sp.Func(b); f != nil {
											h.repl[fullName(pp.PkgPath, a)] = f
										} else {
											return fmt.Errorf("%s: no function %s", h.name, b)
										}
									}
								default:
									h.opts[k] = v
								}
							}
						} else {
							docl = append(docl, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
						}
					}
					h.doc = strings.Join(docl, " ")
				}
				p.harnesses = append(p.harnesses, h)
			}
		}
	}
	sort.Slice(p.harnesses, func(i, j int) bool { return p.harnesses[i].name < p.harnesses[j].name })
	if len(p.harnesses) == 0 {
		return fmt.Errorf("no harness found for %s", prop)
	}
	return nil
}
