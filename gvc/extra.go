package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gvc: "+f+"\n", a...)
	os.Exit(2)
}

func (e *Engine) newChan(st *State, r, n *Term) {
	c := e.c
	e.heapSet(st, e.ghostKey("closed", c.Bool), r, c.False)
	e.heapSet(st, e.ghostKey("chlen", c.Int), r, c.N(0))
	e.heapSet(st, e.ghostKey("chcap", c.Int), r, n)
}

// thunk packages a call as a function value without parameters.
func (e *Engine) thunk(f FuncV, args []V) FuncV {
	return FuncV{Fn: f.Fn, Bind: f.Bind, Unk: f.Unk, Pre: append([]V{}, args...), Thunk: true, Racy: f.Racy}
}

// racyCells: the variables captured by a goroutine's closure that its creator writes again later on.
func (e *Engine) racyCells(x *ssa.Go, f FuncV) []racyCell {
	mc, ok := x.Common().Value.(*ssa.MakeClosure)
	if !ok {
		return nil
	}
	var out []racyCell
	for i, b := range mc.Bindings {
		a, ok := b.(*ssa.Alloc)
		if !ok || i >= len(f.Bind) {
			continue
		}
		for _, r := range *a.Referrers() {
			s, ok := r.(*ssa.Store)
			if ok && s.Addr == a && reachesAfter(x, s, a) {
				out = append(out, racyCell{f.Bind[i], a.Type().(*types.Pointer).Elem()})
				break
			}
		}
	}
	return out
}

// reachesAfter: control can flow from x to y without passing the (re-)creation of the variable.
func reachesAfter(x, y, alloc ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == y {
				return true
			}
			if b.Instrs[i] == alloc {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := x.Block()
	for i, in := range b.Instrs {
		if in == x {
			return walk(b, i+1)
		}
	}
	return false
}

func (p *Program) modelFor(h *Harness, fn *ssa.Function) *ssa.Function {
	if h == nil || p.isContract(fn) || h.Opts["nomodel"] == "1" {
		return nil
	}
	m := p.models[h.Pkg+"|"+fn.String()]
	if m != nil && strings.Contains(","+h.Opts["nomodel"]+",", ","+m.Name()+",") {
		return nil
	}
	return m
}

// inlinable: library functions whose own source is executed.
func inlinable(fn *ssa.Function) bool {
	n := origin(fn).String()
	for _, p := range []string{"(encoding/binary.bigEndian).Uint", "(encoding/binary.littleEndian).Uint", "(encoding/binary.bigEndian).Put", "(encoding/binary.littleEndian).Put",
		"(encoding/binary.bigEndian).Append", "(encoding/binary.littleEndian).Append",
		"slices.Contains", "slices.Index", "slices.Clone", "slices.Reverse", "slices.Equal", "maps.Copy", "maps.Clone", "bytes.Clone", "slices.ContainsFunc", "slices.IndexFunc", "(*time.Ticker).", "cmp.Compare", "cmp.Less",
		"bytes.HasPrefix", "slices.Insert", "slices.Delete", "math/bits.", "bytes.IndexByte", "strings.HasPrefix", "strings.HasSuffix"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- package-level variables

// frozenGlobal: 2 = the variable and what it refers to never change after initialisation, 1 = only the variable itself, 0 = anything.
func (e *Engine) frozenGlobal(g *ssa.Global) int {
	if v, ok := e.frozen[g]; ok {
		return v
	}
	if e.frozen == nil {
		e.frozen = map[*ssa.Global]int{}
	}
	res := e.p.frozenGlobal(g)
	e.frozen[g] = res
	return res
}

func (p *Program) frozenGlobal(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.globUse == nil {
		p.globUse = map[*ssa.Global]int{}
		for _, fn := range p.allFns {
			if !strings.HasPrefix(pkgPath(fn), p.ModPath) || p.isContract(fn) {
				continue
			}
			isInit := fn.Name() == "init" && fn.Synthetic != ""
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if _, seen := p.globUse[gl]; !seen {
							p.globUse[gl] = 2
						}
						if isInit {
							continue
						}
						set := func(n int) {
							if p.globUse[gl] > n {
								p.globUse[gl] = n
							}
						}
						u, ok := in.(*ssa.UnOp)
						if !ok || u.Op != token.MUL {
							set(0)
							continue
						}
						if !readOnlyUse(u, 0) {
							set(1)
						}
					}
				}
			}
		}
	}
	v, ok := p.globUse[g]
	if !ok {
		return 2
	}
	return v
}

func readOnlyUse(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch under(v.Type()).(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Interface:
		return types.Identical(v.Type(), types.Universe.Lookup("error").Type())
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.BinOp, *ssa.DebugRef, *ssa.Next:
			if lv, ok := r.(*ssa.Lookup); ok {
				if _, isT := lv.Type().(*types.Tuple); !isT && !readOnlyUse(lv, d+1) {
					return false
				} else if isT {
					for _, e := range *lv.Referrers() {
						if ev, ok := e.(*ssa.Extract); ok && ev.Index == 0 && !readOnlyUse(ev, d+1) {
							return false
						}
					}
				}
			}
			if _, ok := r.(*ssa.Range); ok {
				return false // elements escape through iteration: treat as unknown contents
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return false
		case *ssa.IndexAddr, *ssa.FieldAddr:
			for _, q := range *r.(ssa.Value).Referrers() {
				u, ok := q.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || !readOnlyUse(u, d+1) {
					return false
				}
			}
		case *ssa.Slice:
			if !readOnlyUse(x, d+1) {
				return false
			}
		case *ssa.Index, *ssa.Field:
			if !readOnlyUse(r.(ssa.Value), d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// globalValue gives the value of library variables; the repository's own variables live in the heap.
func (e *Engine) globalValue(st *State, g *ssa.Global) (V, bool) {
	if g.Pkg == nil || e.inRepo(g.Pkg.Pkg.Path()) {
		return nil, false
	}
	c := e.c
	t := g.Type().(*types.Pointer).Elem()
	if e.stdGlobals == nil {
		e.stdGlobals = map[*ssa.Global]int64{}
	}
	id, ok := e.stdGlobals[g]
	if !ok {
		// identities follow the name so that they do not depend on the order of use
		id = int64(len(e.stdGlobals) + 1)
		e.stdGlobals[g] = id
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return IfaceV{e.tagOf(e.errType()), c.N(id)}, true
	}
	if e.opaqueStruct(t) {
		return c.N(id), true
	}
	if _, ok := under(t).(*types.Pointer); ok {
		return c.N(id), true
	}
	return nil, false
}

// initGlobals executes the initialisers of the repository's package-level variables.
func (e *Engine) initGlobals(st *State) {
	pkgs := map[string]*ssa.Package{}
	for _, sp := range e.p.Prog.AllPackages() {
		if e.inRepo(sp.Pkg.Path()) {
			pkgs[sp.Pkg.Path()] = sp
		}
	}
	need := map[string]bool{}
	var add func(tp *types.Package)
	add = func(tp *types.Package) {
		if !e.inRepo(tp.Path()) || need[tp.Path()] {
			return
		}
		need[tp.Path()] = true
		for _, i := range tp.Imports() {
			add(i)
		}
	}
	if e.harness.Fn == nil || e.harness.Fn.Pkg == nil {
		return
	}
	add(e.harness.Fn.Pkg.Pkg)
	var names []string
	for n := range need {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sp := pkgs[n]
		if sp == nil || strings.HasSuffix(n, "/gvcspec") || strings.HasSuffix(n, "/database") && e.harness.Opts["init"] == "" {
			continue
		}
		init := sp.Func("init")
		if init == nil {
			continue
		}
		var gs []*ssa.Global
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" && !strings.HasPrefix(filepath.Base(e.p.Fset.Position(g.Pos()).Filename), "zz_gvc_") {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		if len(gs) == 0 {
			continue
		}
		e.quiet++
		e.pure++
		vals, ok := e.tryInit(st, init, gs)
		e.pure--
		e.quiet--
		if !ok {
			e.assumes["package-level variables of "+n+" are arbitrary"] = true
			continue
		}
		*st = *vals
	}
}

func (e *Engine) tryInit(st0 *State, init *ssa.Function, gs []*ssa.Global) (res *State, ok bool) {
	back := e.mark()
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(*unsupported); is {
				back()
				e.dump("init of", init.Pkg.Pkg.Path(), "not executed:", u.msg)
				ok = false
				return
			}
			panic(r)
		}
	}()
	st := st0.clone()
	// zero values first
	for _, g := range gs {
		t := g.Type().(*types.Pointer).Elem()
		e.zeroInit(st, e.globalRef(g), t)
	}
	guard, _ := init.Pkg.Members["init$guard"].(*ssa.Global)
	if guard != nil {
		e.heapSet(st, e.cellKey(types.Typ[types.Bool]), e.globalRef(guard), e.c.False)
	}
	outs := e.callFn(st, init, nil, nil, token.NoPos)
	if len(outs) != 1 {
		return nil, false
	}
	st = outs[0].st
	for _, g := range gs {
		t := g.Type().(*types.Pointer).Elem()
		switch e.frozenGlobal(g) {
		case 2:
			continue
		case 1:
			// the variable still refers to the same object, whose contents are unknown now
			v := e.load(st, e.globalRef(g), t)
			switch x := v.(type) {
			case *Term:
				switch under(t).(type) {
				case *types.Map:
					e.havocMap(st, x, t)
				case *types.Pointer:
					e.havocObj(st, x, under(t).(*types.Pointer).Elem())
				}
			case SliceV:
				n := e.c.Fresh("hv", e.c.Arr(e.c.Int, e.sortOf(under(t).(*types.Slice).Elem())))
				n.RefHi = e.newEpoch(st)
				e.heapSet(st, e.memKey(under(t).(*types.Slice).Elem()), x.Ref, n)
			}
		case 0:
			hi := e.newEpoch(st)
			if e.isObjStruct(t) {
				e.havocObj(st, e.globalRef(g), t)
			} else {
				e.store(st, e.globalRef(g), t, e.freshVal(st, "g_"+g.Name(), t, hi))
			}
		}
	}
	return st, true
}
