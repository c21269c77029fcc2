package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Guard: a field (or all maps of a type) that is only touched with a lock held.
type Guard struct {
	Name  string
	T     types.Type
	Field int
	MapT  types.Type
	LockT types.Type
	LockF int
	Props []string
}

func (g *Guard) LockKind(e *Engine) string {
	return fmt.Sprintf("0:%s.%d", e.typeKey(g.LockT), g.LockF)
}

// Harness is one contract: a Go function that states pre- and postconditions around calls of the real code.
type Harness struct {
	Fn          *ssa.Function
	Name        string
	Pkg         string
	File        string
	Props       []string
	SafetyProps []string
	Terminates  []string
	LockProps   []string
	ContractOf  *ssa.Function
	contractRef string
	usesRefs    []string
	Uses        map[*ssa.Function]*Harness
	Guards      []*Guard
	guardSpecs  [][]string
	NoNative    bool
	Unroll      int
	Slow        bool
	Opts        map[string]string
	Doc         string
	Broken      string
}

type Inv struct {
	Fn  *ssa.Function
	All bool
}

type Program struct {
	Fset      *token.FileSet
	Repo      string
	ModPath   string
	Contracts string
	Prog      *ssa.Program
	Pkgs      []*packages.Package
	Overlay   map[string][]byte
	OverSrc   map[string]string // overlay path -> contract file
	Harnesses []*Harness
	Invs      []*Inv
	models    map[string]*ssa.Function
	Broken    map[string]string // contract file -> error
	brokenHs  []*Harness
	mu        sync.Mutex
	globUse   map[*ssa.Global]int
	allFns    []*ssa.Function
}

func (p *Program) isContract(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pos().IsValid() {
			fl := p.Fset.Position(f.Pos()).Filename
			return strings.HasPrefix(filepath.Base(fl), "zz_gvc_")
		}
	}
	if o := fn.Origin(); o != nil && o != fn {
		return p.isContract(o)
	}
	return false
}

func (p *Program) invsFor(fn *ssa.Function) []*Inv {
	con := p.isContract(fn)
	var out []*Inv
	for _, i := range p.Invs {
		if strings.HasPrefix(i.Fn.Name(), "inv_lemma") != con || con && i.Fn.Name() != "inv_"+fn.Name() {
			continue
		}
		if pkgPath(i.Fn) == pkgPath(fn) {
			out = append(out, i)
		}
	}
	return out
}

func contractFiles(root string) (map[string]string, error) {
	m := map[string]string{} // repo-relative overlay path -> file
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		dir, base := filepath.Split(rel)
		if strings.HasPrefix(rel, "gvcspec/") {
			m[filepath.Join(dir, base)] = path
			return nil
		}
		if strings.HasPrefix(dir, "root/") {
			dir = strings.TrimPrefix(dir, "root/")
		}
		m[filepath.Join(dir, "zz_gvc_"+base)] = path
		return nil
	})
	return m, err
}

// Load reads the repository's current source together with the contract files.
func Load(repo, contracts string, wantPkgs map[string]bool) (*Program, error) {
	p := &Program{Repo: repo, Contracts: contracts, Overlay: map[string][]byte{}, OverSrc: map[string]string{}, Broken: map[string]string{}, models: map[string]*ssa.Function{}}
	cf, err := contractFiles(contracts)
	if err != nil {
		return nil, err
	}
	for rel, src := range cf {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		p.Overlay[filepath.Join(repo, rel)] = b
		p.OverSrc[filepath.Join(repo, rel)] = src
	}
	mangle(p.Overlay)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, ln := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(ln); len(f) == 2 && f[0] == "module" {
			p.ModPath = f[1]
		}
	}
	var patterns []string
	dirs := map[string]bool{}
	for rel := range cf {
		if !strings.HasPrefix(rel, "gvcspec/") {
			dirs["./"+filepath.Dir(rel)] = true
		}
	}
	for d := range dirs {
		patterns = append(patterns, d)
	}
	sort.Strings(patterns)
	for try := 0; ; try++ {
		p.Fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: p.Fset, Overlay: p.Overlay, BuildFlags: []string{"-mod=mod"},
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")}
		pkgs, err := packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			for _, e := range pk.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i > 0 {
					f = f[:i]
				}
				if src, ok := p.OverSrc[f]; ok {
					if _, dup := bad[f]; !dup {
						bad[f] = e.Msg
					}
					_ = src
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 && try < 6 {
			for f, msg := range bad {
				p.Broken[p.OverSrc[f]] = msg
				delete(p.Overlay, f)
			}
			// a package directory may have lost all its contract files
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(other, "; "))
		}
		p.Pkgs = pkgs
		break
	}
	prog, _ := ssautil.AllPackages(p.Pkgs, ssa.InstantiateGenerics|ssa.BareInits*0)
	prog.Build()
	p.Prog = prog
	return p, p.collect()
}

func (p *Program) collect() error {
	for _, pk := range p.Pkgs {
		sp := p.Prog.Package(pk.Types)
		for _, f := range pk.Syntax {
			fn := p.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_gvc_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sf := sp.Func(fd.Name.Name)
				if strings.HasPrefix(fd.Name.Name, "inv_") {
					inv := &Inv{Fn: sf}
					if fd.Doc != nil && strings.Contains(fd.Doc.Text()+docRaw(fd), "gvc:all") {
						inv.All = true
					}
					p.Invs = append(p.Invs, inv)
				}
				if fd.Doc == nil {
					continue
				}
				h := &Harness{Fn: sf, Name: fd.Name.Name, Pkg: pk.PkgPath, File: p.OverSrc[fn], Uses: map[*ssa.Function]*Harness{}, Opts: map[string]string{}}
				isH, err := parseDirectives(h, fd.Doc.List)
				if err != nil {
					return err
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//gvc:model ") {
						p.models[pk.PkgPath+"|"+strings.TrimSpace(strings.TrimPrefix(c.Text, "//gvc:model "))] = sf
					}
				}
				if isH {
					p.Harnesses = append(p.Harnesses, h)
				}
			}
		}
	}
	// harnesses of files that no longer compile
	for f := range p.Broken {
		for _, h := range scanHarnesses(f) {
			h.Broken = p.Broken[f]
			p.brokenHs = append(p.brokenHs, h)
		}
	}
	p.allFns = nil
	byName := map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(p.Prog) {
		p.allFns = append(p.allFns, fn)
		if strings.HasPrefix(pkgPath(fn), p.ModPath) {
			byName[strings.ReplaceAll(fn.String(), p.ModPath+"/", "")] = fn
			byName[strings.ReplaceAll(fn.String(), p.ModPath+".", "gozwave.")] = fn
		}
	}
	for _, h := range p.Harnesses {
		if h.contractRef != "" {
			h.ContractOf = byName[h.contractRef]
			if h.ContractOf == nil {
				h.Broken = "function " + h.contractRef + " not found"
			}
		}
	}
	for _, h := range p.Harnesses {
		for _, u := range h.usesRefs {
			fn := byName[u]
			for _, o := range p.Harnesses {
				if o.Name == u && o.ContractOf != nil {
					h.Uses[o.ContractOf] = o
					fn = o.ContractOf
				}
			}
			if fn != nil && h.Uses[fn] != nil {
				continue
			}
			if fn == nil {
				h.Broken = "function " + u + " not found"
				continue
			}
			for _, o := range p.Harnesses {
				if o.ContractOf == fn && o.Opts["weaker"] == "" {
					h.Uses[fn] = o
				}
			}
			if h.Uses[fn] == nil {
				h.Broken = "no contract for " + u
			}
		}
		for _, gs := range h.guardSpecs {
			if err := p.resolveGuard(h, gs); err != nil {
				h.Broken = err.Error()
			}
		}
	}
	return nil
}

func docRaw(fd *ast.FuncDecl) string {
	s := ""
	for _, c := range fd.Doc.List {
		s += c.Text + "\n"
	}
	return s
}

// resolveGuard: "C17 Connection.inFlight by Connection.RWMutex"; with "map" the maps of the field's type as well
func (p *Program) resolveGuard(h *Harness, f []string) error {
	var props, fields []string
	i := 0
	for ; i < len(f) && f[i] != "by"; i++ {
		if !strings.Contains(f[i], ".") {
			props = append(props, f[i])
		} else {
			fields = append(fields, f[i])
		}
	}
	if i+1 >= len(f) {
		return fmt.Errorf("bad guard directive")
	}
	look := func(s string) (types.Type, int, error) {
		a := strings.SplitN(s, ".", 2)
		for _, pk := range p.Pkgs {
			if pk.PkgPath != h.Pkg {
				continue
			}
			o := pk.Types.Scope().Lookup(a[0])
			if o == nil {
				break
			}
			st, ok := under(o.Type()).(*types.Struct)
			if !ok {
				break
			}
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() == a[1] {
					return o.Type(), k, nil
				}
			}
		}
		return nil, 0, fmt.Errorf("guard: %s not found", s)
	}
	lt, lf, err := look(f[i+1])
	if err != nil {
		return err
	}
	for _, s := range fields {
		t, k, err := look(s)
		if err != nil {
			return err
		}
		h.Guards = append(h.Guards, &Guard{Name: s, T: t, Field: k, LockT: lt, LockF: lf, Props: props})
		ft := under(t).(*types.Struct).Field(k).Type()
		if _, ok := under(ft).(*types.Map); ok {
			h.Guards = append(h.Guards, &Guard{Name: s + "'s map", T: t, Field: -1, MapT: ft, LockT: lt, LockF: lf, Props: props})
		}
	}
	return nil
}

func parseDirectives(h *Harness, cs []*ast.Comment) (bool, error) {
	isH := false
	for _, c := range cs {
		if !strings.HasPrefix(c.Text, "//gvc:") {
			h.Doc += strings.TrimPrefix(c.Text, "//") + "\n"
			continue
		}
		f := strings.Fields(strings.TrimPrefix(c.Text, "//gvc:"))
		switch f[0] {
		case "verify":
			isH = true
			h.Props = append(h.Props, f[1:]...)
		case "safety":
			h.SafetyProps = append(h.SafetyProps, f[1:]...)
		case "terminates":
			h.Terminates = append(h.Terminates, f[1:]...)
		case "locks":
			h.LockProps = append(h.LockProps, f[1:]...)
		case "contract":
			h.contractRef = f[1]
		case "uses":
			h.usesRefs = append(h.usesRefs, f[1:]...)
		case "guard":
			h.guardSpecs = append(h.guardSpecs, f[1:])
		case "nonative":
			h.NoNative = true
		case "model", "all":
		case "opt":
			for _, kv := range f[1:] {
				if i := strings.Index(kv, "="); i > 0 {
					h.Opts[kv[:i]] = kv[i+1:]
				} else {
					h.Opts[kv] = "1"
				}
			}
		default:
			return false, fmt.Errorf("unknown directive %s in %s", c.Text, h.Name)
		}
	}
	if len(h.SafetyProps) == 0 {
		h.SafetyProps = h.Props
	}
	if len(h.SafetyProps) == 1 && h.SafetyProps[0] == "none" {
		h.SafetyProps = nil
	}
	return isH, nil
}

func (h *Harness) allProps() map[string]bool {
	m := map[string]bool{}
	for _, l := range [][]string{h.Props, h.SafetyProps, h.Terminates, h.LockProps} {
		for _, x := range l {
			m[x] = true
		}
	}
	for _, g := range h.guardSpecs {
		for _, x := range g {
			if x == "by" {
				break
			}
			if !strings.Contains(x, ".") {
				m[x] = true
			}
		}
	}
	return m
}

// scanHarnesses reads the directives of a contract file that no longer compiles.
func scanHarnesses(file string) []*Harness {
	var out []*Harness
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, nil, parser.ParseComments)
	if err != nil {
		return nil
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		h := &Harness{Name: fd.Name.Name, File: file, Opts: map[string]string{}}
		if is, err := parseDirectives(h, fd.Doc.List); err == nil && is {
			out = append(out, h)
		}
	}
	return out
}
