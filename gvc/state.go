package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type hent struct {
	t   *Term
	ver int
}
type spawn struct {
	fn   FuncV
	args []V
	pos  token.Pos
}
type lockEnt struct {
	key  string
	mode byte // 'R' or 'W'
	ref  *Term
	kind string
}

type State struct {
	eng    *Engine
	heap   map[string]hent
	epochs []int64
	pc     *PC
	facts  map[int]bool
	locks  []lockEnt
	spawns []spawn
	hooks  map[string]FuncV // channel / lock / call hooks, keyed by kind + term
	vals   map[string]V     // ghost registers
	steps  int
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]hent, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.facts = make(map[int]bool, len(st.facts)+4)
	for k := range st.facts {
		n.facts[k] = true
	}
	n.locks = append([]lockEnt(nil), st.locks...)
	n.spawns = append([]spawn(nil), st.spawns...)
	n.epochs = append([]int64(nil), st.epochs...)
	n.hooks = map[string]FuncV{}
	for k, v := range st.hooks {
		n.hooks[k] = v
	}
	n.vals = map[string]V{}
	for k, v := range st.vals {
		n.vals[k] = v
	}
	return &n
}

func (st *State) fact(e *Engine, t *Term) {
	if t == e.c.True {
		return
	}
	if t.Bound {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.fact(e, a)
		}
		return
	}
	if st.facts[t.ID] {
		return
	}
	st.facts[t.ID] = true
	st.pc = st.pc.push(t, false, st.eng.nextRef+1)
}
func (st *State) decide(t *Term) { st.pc = st.pc.push(t, true, st.eng.nextRef+1) }

type keyInfo struct {
	sort   *Sort
	scalar bool
	typ    types.Type
	norefs bool // the content holds no references
}

// noRefs: values of the type hold no references to objects. Such content needs no new array for objects
// created by unseen code: the array is arbitrary at their references anyway.
func noRefs(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Array:
		return noRefs(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noRefs(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

type wr struct {
	key string
	idx *Term // nil: everything
}

// Engine runs one harness.
type Engine struct {
	callPos       []token.Pos
	discover      int // looking for the write set of an enclosing loop only
	loopDepth     int
	warm          map[string]*warmLoop
	warmMark      int
	visits        map[string]int
	c             *Ctx
	p             *Program
	tkeys         map[types.Type]string
	structSorts   map[string]*Sort
	funcs         map[int64]FuncV
	funcIDs       map[*ssa.Function]int64
	ptrs          map[int64]PtrV
	ptrIDs        map[string]int64
	nextRef       int64
	globals       map[*ssa.Global]int64
	keys          map[string]*keyInfo
	tags          map[string]int64
	tagTypes      map[int64]types.Type
	base          map[string]*Term // initial heap
	light, full   *Lane
	quiet         int
	pure          int
	rec           []*map[string]wr // active write recorders
	results       []*Oblig
	want          map[string]bool // properties to report
	harness       *Harness
	calls         []*ssa.Function
	inputs        []*Input
	loopInfo      map[*ssa.Function]*loopForest
	recBusy       map[*ssa.Function]int
	deadline      time.Time
	stop          bool
	unrollMax     int
	under         map[string]bool // functions symbolically executed
	contractsUsed map[string]bool
	models        map[string]bool
	assumes       map[string]bool
	pdom          map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	trace         bool
	nloops        int
	proveMS       int
	oneShotS      int
	maxFail       int
	covers        map[string]bool
	houdiniN      int
	useMode       []*useFrame
	initDone      bool
	deferStack    int
	pending       []*Oblig
	curPos        token.Pos
	loopMemo      map[string][]int
	panicOK       int
	dbgBranches   int
	frameCheck    *frameCk
	errT          types.Type
	curSelect     int
	qExtra        func(*State, []V) []V
	recDone       map[int]bool
	recPure       map[*ssa.Function]string
	recBase       map[int]bool
	recDepth      int
	recTerms      []recTerm
	useN          int
	frozen        map[*ssa.Global]int
	stdGlobals    map[*ssa.Global]int64
	spawnDepth    int
	iterFrame     *Frame
	noNative      bool
	modelFin      []func()
}

type Oblig struct {
	Name    string
	Props   []string
	Pos     string
	Kind    string
	Status  string // proved, failed, unknown
	Backend string
	N       int
	Model   map[string]any
	Detail  string
}

type Input struct {
	Name string
	T    types.Type
	V    V
	St   *State
}

func NewEngine(p *Program, h *Harness) *Engine {
	e := &Engine{c: NewCtx(), p: p, harness: h,
		tkeys: map[types.Type]string{}, structSorts: map[string]*Sort{}, funcs: map[int64]FuncV{}, funcIDs: map[*ssa.Function]int64{},
		ptrs: map[int64]PtrV{}, ptrIDs: map[string]int64{}, globals: map[*ssa.Global]int64{}, keys: map[string]*keyInfo{},
		tags: map[string]int64{}, tagTypes: map[int64]types.Type{}, base: map[string]*Term{}, loopInfo: map[*ssa.Function]*loopForest{},
		recBusy: map[*ssa.Function]int{}, unrollMax: 0, under: map[string]bool{}, contractsUsed: map[string]bool{}, models: map[string]bool{}, assumes: map[string]bool{},
		pdom: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, proveMS: 4000, oneShotS: 30, covers: map[string]bool{}, loopMemo: map[string][]int{}}
	e.nextRef = refBase
	e.light = NewLane(e.c, false, 1500)
	e.full = NewLane(e.c, true, 2000)
	if d := os.Getenv("GVC_SMTLOG"); d != "" {
		e.light.log, _ = os.Create(d + ".light")
		e.full.log, _ = os.Create(d + ".full")
	}
	e.trace = os.Getenv("GVC_TRACE") != ""
	return e
}
func (e *Engine) Close() { e.light.Close(); e.full.Close() }

func (e *Engine) newState() *State {
	return &State{eng: e, heap: map[string]hent{}, facts: map[int]bool{}, hooks: map[string]FuncV{}, vals: map[string]V{}}
}

func (e *Engine) inRepo(path string) bool {
	return path == e.p.ModPath || strings.HasPrefix(path, e.p.ModPath+"/")
}

// ---------------------------------------------------------------- heap

func (e *Engine) keyFor(key string, elem types.Type, s *Sort) *keyInfo {
	ki, ok := e.keys[key]
	if !ok {
		sc := false
		if elem != nil {
			sc = e.scalarType(elem)
		} else {
			sc = true
		}
		ki = &keyInfo{sort: s, scalar: sc, typ: elem, norefs: elem != nil && noRefs(elem) || strings.HasPrefix(key, "G:closed") || strings.HasPrefix(key, "G:maplen")}
		e.keys[key] = ki
	}
	return ki
}

func (e *Engine) heapGet(st *State, key string) *Term {
	ki := e.keys[key]
	h, ok := st.heap[key]
	if !ok {
		b, ok := e.base[key]
		if !ok {
			b = e.c.Fresh("H_"+key, e.c.Arr(e.c.Int, ki.sort))
			b.RefHi = refBase
			e.base[key] = b
		}
		h = hent{b, 0}
	}
	if h.ver < len(st.epochs) && !ki.norefs {
		for _, b := range st.epochs[h.ver:] {
			// objects created by unseen code live at references >= b
			n := e.c.Var(fmt.Sprintf("E_%s!%d", clean(key), b), h.t.S)
			n.RefHi = ((b / refBase) + 1) * refBase
			h.t = e.c.Over(h.t, n, b)
		}
		h.ver = len(st.epochs)
		st.heap[key] = h
	}
	return h.t
}
func (e *Engine) heapSet(st *State, key string, idx, val *Term) {
	h := e.heapGet(st, key)
	n := e.c.Store(h, idx, val)
	st.heap[key] = hent{n, len(st.epochs)}
	e.logWrite(key, idx)
}
func (e *Engine) heapSetAll(st *State, key string, t *Term) {
	st.heap[key] = hent{t, len(st.epochs)}
	e.logWrite(key, nil)
}
func (e *Engine) logWrite(key string, idx *Term) {
	for _, m := range e.rec {
		if idx == nil {
			(*m)[key] = wr{key, nil}
			continue
		}
		if o, ok := (*m)[key]; ok && o.idx == nil {
			continue
		}
		(*m)[key+"@"+fmt.Sprint(idx.ID)] = wr{key, idx}
	}
}

// newEpoch: from here on, references may denote objects created by code not seen.
func (e *Engine) newEpoch(st *State) int64 {
	b := (e.nextRef/refBase + 1) * refBase
	e.nextRef = b + refBase // unseen objects live in [b, b+refBase)
	st.epochs = append(st.epochs, b)
	return b + refBase
}

func (e *Engine) fieldKey(t types.Type, i int) string {
	u := under(t).(*types.Struct)
	key := fmt.Sprintf("F:%s:%d", e.typeKey(t), i)
	if _, ok := e.keys[key]; !ok {
		ft := u.Field(i).Type()
		e.keyFor(key, ft, e.sortOf(ft))
	}
	return key
}
func (e *Engine) memKey(elem types.Type) string {
	key := "M:" + e.typeKey(elem)
	if _, ok := e.keys[key]; !ok {
		ki := e.keyFor(key, elem, e.c.Arr(e.c.Int, e.sortOf(elem)))
		_ = ki
	}
	return key
}
func (e *Engine) cellKey(t types.Type) string {
	key := "C:" + e.typeKey(t)
	if _, ok := e.keys[key]; !ok {
		e.keyFor(key, t, e.sortOf(t))
	}
	return key
}
func (e *Engine) boxKey(t types.Type) string {
	key := "B:" + e.typeKey(t)
	if _, ok := e.keys[key]; !ok {
		e.keyFor(key, t, e.sortOf(t))
	}
	return key
}
func (e *Engine) mapKeys(t types.Type) (dom, val string) {
	m := under(t).(*types.Map)
	dom, val = "MD:"+e.typeKey(t), "MV:"+e.typeKey(t)
	if _, ok := e.keys[dom]; !ok {
		e.keyFor(dom, nil, e.c.Arr(e.sortOf(m.Key()), e.c.Bool)).norefs = noRefs(m.Key())
		e.keyFor(val, m.Elem(), e.c.Arr(e.sortOf(m.Key()), e.sortOf(m.Elem())))
	}
	return
}
func (e *Engine) ghostKey(name string, s *Sort) string {
	key := "G:" + name
	e.keyFor(key, nil, s)
	return key
}

// plain structs (not time, not opaque) are split into fields when allocated as objects.
func (e *Engine) isObjStruct(t types.Type) bool {
	if isTime(t) || e.opaqueStruct(t) {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}

func (e *Engine) load(st *State, p V, t types.Type) V {
	c := e.c
	var term *Term
	switch x := p.(type) {
	case *Term:
		if e.isObjStruct(t) {
			u := under(t).(*types.Struct)
			var fs []V
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				ft0 := c.Select(e.heapGet(st, e.fieldKey(t, i)), x)
				v := e.unpack(ft0, ft)
				e.assumeWF(st, v, ft, int64(1)<<62)
				fs = append(fs, v)
			}
			return StructV{fs}
		}
		if a, ok := under(t).(*types.Array); ok && !isTime(t) {
			return ArrV{c.Select(e.heapGet(st, e.memKey(a.Elem())), x), a.Len()}
		}
		term = c.Select(e.heapGet(st, e.cellKey(t)), x)
	case PtrV:
		term = e.loadBase(st, x)
		steps := x.Steps
		if x.Kind == 0 {
			steps = steps[1:]
		}
		for _, s := range steps {
			if s.Idx != nil {
				term = c.Select(term, s.Idx)
			} else {
				term = c.Sel(term, s.Field)
			}
		}
	default:
		panic(unsup("load through %T", p))
	}
	v := e.unpack(term, t)
	e.assumeWF(st, v, t, int64(1)<<62)
	return v
}

func (e *Engine) loadBase(st *State, x PtrV) *Term {
	c := e.c
	switch x.Kind {
	case 0:
		return c.Select(e.heapGet(st, e.fieldKey(x.T, x.Steps[0].Field)), x.Ref)
	case 1:
		return c.Select(c.Select(e.heapGet(st, e.memKey(x.T)), x.Ref), x.Idx)
	}
	panic(unsup("pointer kind"))
}

func (e *Engine) store(st *State, p V, t types.Type, v V) {
	c := e.c
	switch x := p.(type) {
	case *Term:
		if e.isObjStruct(t) {
			sv, ok := v.(StructV)
			if !ok {
				panic(unsup("store %T as struct", v))
			}
			u := under(t).(*types.Struct)
			for i := range sv.F {
				e.heapSet(st, e.fieldKey(t, i), x, e.pack(sv.F[i], u.Field(i).Type()))
			}
			return
		}
		if a, ok := under(t).(*types.Array); ok && !isTime(t) {
			e.heapSet(st, e.memKey(a.Elem()), x, e.pack(v, t))
			return
		}
		e.heapSet(st, e.cellKey(t), x, e.pack(v, t))
	case PtrV:
		val := e.pack(v, t)
		base := e.loadBase(st, x)
		steps := x.Steps
		if x.Kind == 0 {
			steps = steps[1:]
		}
		nb := e.update(base, steps, val)
		if x.Kind == 0 {
			e.heapSet(st, e.fieldKey(x.T, x.Steps[0].Field), x.Ref, nb)
		} else {
			k := e.memKey(x.T)
			obj := c.Select(e.heapGet(st, k), x.Ref)
			e.heapSet(st, k, x.Ref, c.Store(obj, x.Idx, nb))
		}
	default:
		panic(unsup("store through %T", p))
	}
}
func (e *Engine) update(base *Term, steps []Step, val *Term) *Term {
	if len(steps) == 0 {
		return val
	}
	c := e.c
	s := steps[0]
	if s.Idx != nil {
		return c.Store(base, s.Idx, e.update(c.Select(base, s.Idx), steps[1:], val))
	}
	var as []*Term
	for i := range base.S.Fields {
		f := c.Sel(base, i)
		if i == s.Field {
			f = e.update(f, steps[1:], val)
		}
		as = append(as, f)
	}
	return c.MkDT(base.S, as...)
}

func (e *Engine) alloc(st *State, t types.Type) *Term {
	id := e.c.N(e.newRefID())
	e.zeroInit(st, id, t)
	return id
}
func (e *Engine) zeroInit(st *State, id *Term, t types.Type) {
	if e.isObjStruct(t) {
		u := under(t).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			e.heapSet(st, e.fieldKey(t, i), id, e.zeroTerm(u.Field(i).Type()))
			if u.Field(i).Type().String() == "sync.Once" {
				e.heapSet(st, e.ghostKey(fmt.Sprintf("once:0:%s.%d", e.typeKey(t), i), e.c.Bool), id, e.c.False)
			}
		}
		return
	}
	if a, ok := under(t).(*types.Array); ok && !isTime(t) {
		e.heapSet(st, e.memKey(a.Elem()), id, e.zeroTerm(t))
		return
	}
	e.heapSet(st, e.cellKey(t), id, e.zeroTerm(t))
}

// ---------------------------------------------------------------- interface tags

func (e *Engine) tagOf(t types.Type) *Term {
	k := e.typeKey(t)
	id, ok := e.tags[k]
	if !ok {
		id = int64(len(e.tags) + 1)
		e.tags[k] = id
		e.tagTypes[id] = t
	}
	return e.c.N(id)
}

func (e *Engine) makeIface(st *State, v V, t types.Type) V {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	tag := e.tagOf(t)
	if isRefType(t) {
		switch x := v.(type) {
		case *Term:
			return IfaceV{tag, x}
		default:
			return IfaceV{tag, e.pack(v, t)}
		}
	}
	// box; equal constants share a box so that interface equality works
	val := e.pack(v, t)
	id := e.c.N(e.newRefID())
	e.heapSet(st, e.boxKey(t), id, val)
	return IfaceV{tag, id}
}
func (e *Engine) unbox(st *State, iv IfaceV, t types.Type) V {
	if isRefType(t) {
		return e.unpack(iv.Ref, t)
	}
	v := e.unpack(e.c.Select(e.heapGet(st, e.boxKey(t)), iv.Ref), t)
	e.assumeWF(st, v, t, int64(1)<<62)
	return v
}

// ---------------------------------------------------------------- proving

func (e *Engine) feasible(st *State, extra *Term) bool {
	if extra == e.c.False {
		return false
	}
	if extra == e.c.True {
		extra = nil
	}
	return e.light.Check(st.pc, extra) != Unsat
}

// valid reports whether pc implies t (best effort, used for guidance and invariants).
func (e *Engine) valid(st *State, t *Term) bool {
	if t == e.c.True {
		return true
	}
	if t == e.c.False {
		return false
	}
	n := e.c.Not(t)
	if !n.Quant {
		r := e.light.Check(st.pc, n)
		if r == Unsat {
			return true
		}
		if r == Sat && !pcQuant(st.pc) && !e.light.skipped {
			return false
		}
	}
	e.full.SetTimeout(1000)
	return e.full.Check(st.pc, n) == Unsat
}
func pcQuant(p *PC) bool {
	for ; p != nil; p = p.par {
		if p.t.Quant {
			return true
		}
	}
	return false
}

func (e *Engine) prove(st *State, t *Term) (bool, string, string) {
	if t == e.c.True {
		return true, "simplifier", ""
	}
	n := e.c.Not(t)
	if !n.Quant && t != e.c.False {
		r := e.light.Check(st.pc, n)
		if r == Unsat {
			return true, "z3 5.3.2", ""
		}
		if r == Sat && !pcQuant(st.pc) && !e.light.skipped && !e.light.abs {
			return false, "z3 5.3.2", "sat"
		}
	}
	e.full.SetTimeout(e.proveMS)
	if d := os.Getenv("GVC_DUMPALL"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/p%d.smt2", d, n.ID), []byte(Script(e.c, st.pc, n)), 0o644)
	}
	r := e.full.Check(st.pc, n)
	if r == Unsat {
		return true, "z3 5.3.2", ""
	}
	if r == Sat && !e.full.abs {
		return false, "z3 5.3.2", "sat"
	}
	if e.stop || e.oneShotS == 0 {
		return false, "", "unknown"
	}
	or, name := OneShot(e.c, st.pc, n, time.Duration(e.oneShotS)*time.Second)
	if or == Unsat {
		return true, name, ""
	}
	return false, name, or.String()
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.p.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, e.p.Repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige emits a proof obligation; afterwards the condition is assumed. Returns false if the path is dead.
func (e *Engine) oblige(st *State, kind, name string, props []string, cond *Term, pos token.Pos) bool {
	if cond.Bound {
		panic(unsup("obligation %q mentions a bound variable", name))
	}
	rel := false
	for _, p := range props {
		if e.want[p] {
			rel = true
		}
	}
	if kind == "ensures" && !rel {
		return true // what another property states is not taken for granted
	}
	if e.quiet > 0 || e.pure > 0 {
		if cond == e.c.False {
			return false
		}
		st.fact(e, cond)
		return true
	}
	if rel && !e.stop {
		e.checkDeadline()
		ok, backend, why := e.prove(st, cond)
		o := e.record(name, kind, props, e.pos(pos))
		if ok {
			o.N++
			if o.Backend == "" || o.Backend == "simplifier" {
				o.Backend = backend
			}
		} else {
			o.N++
			if o.Status != "failed" {
				o.Status = "failed"
				o.Detail = why
				o.Backend = backend
				if e.trace {
					fmt.Fprintf(os.Stderr, "FAILED %s %s at %s: %s\n", kind, name, o.Pos, why)
					if os.Getenv("GVC_TRACE") == "2" {
						for _, a := range e.c.Axioms {
							fmt.Fprintln(os.Stderr, "    AX", e.c.Str0(a))
						}
						for _, n := range st.pc.list() {
							fmt.Fprintln(os.Stderr, "   ", n.dec, e.c.Str0(n.t))
						}
						fmt.Fprintln(os.Stderr, "   GOAL", e.c.Str0(cond))
					}
				}
				e.extractModel(st, cond, o)
			}
			e.maxFail++
			if e.maxFail > 12 {
				e.stop = true
			}
		}
	}
	if cond == e.c.False {
		return false
	}
	st.fact(e, cond)
	return true
}

func (e *Engine) record(name, kind string, props []string, pos string) *Oblig {
	for _, o := range e.results {
		if o.Name == name && o.Pos == pos && o.Kind == kind {
			return o
		}
	}
	o := &Oblig{Name: name, Kind: kind, Props: props, Pos: pos, Status: "proved"}
	e.results = append(e.results, o)
	return o
}

type timeout struct{}

func (e *Engine) checkDeadline() {
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		panic(timeout{})
	}
}

// safety emits a run-time safety obligation for the current harness.
func (e *Engine) safety(st *State, what string, cond *Term, pos token.Pos) bool {
	if cond == e.c.True {
		return true
	}
	return e.oblige(st, "safety", what, e.harness.SafetyProps, cond, pos)
}
