package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fn   V
	args []V
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]V
	defers []deferred
	use    *useFrame // non-nil: contract function executed at a call site
	depth  int
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]V, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

type path struct {
	st *State
	fr *Frame
}
type arrival struct {
	path
	at   *ssa.BasicBlock
	from *ssa.BasicBlock
}
type outcome struct {
	st  *State
	res []V
}

type useFrame struct {
	target  *ssa.Function
	args    []V
	entry   *State
	called  bool
	callPos token.Pos
	name    string
	quiet   bool
	h       *Harness
	mods    []func(*State)
	key     string
}

// ---------------------------------------------------------------- functions

func (e *Engine) callFn(st *State, fn *ssa.Function, args []V, bind []V, pos token.Pos) []outcome {
	e.callPos = append(e.callPos, pos)
	defer func() { e.callPos = e.callPos[:len(e.callPos)-1] }()
	return e.runFn(st, fn, args, bind, nil)
}

const maxDepth = 60

func (e *Engine) runFn(st *State, fn *ssa.Function, args, bind []V, use *useFrame) []outcome {
	if fn.Blocks == nil {
		panic(unsup("no body for %s", fn))
	}
	if len(e.calls) > maxDepth {
		panic(unsup("call depth at %s", fn))
	}
	n := 0
	for _, g := range e.calls {
		if g == fn {
			n++
		}
	}
	if n > 3 {
		panic(unsup("recursion in %s", fn))
	}
	e.calls = append(e.calls, fn)
	defer func() { e.calls = e.calls[:len(e.calls)-1] }()
	if e.inRepoFn(fn) && e.pure == 0 {
		e.under[fn.String()] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]V{}, use: use}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	base := st.pc
	_, rets := e.run(path{st, fr}, fn.Blocks[0], nil, nil)
	if e.splits(fn) {
		return rets
	}
	return e.mergeOutcomes(base, rets, fn)
}

func (e *Engine) inRepoFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return e.inRepo(f.Pkg.Pkg.Path())
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return e.inRepo(fn.Object().Pkg().Path())
	}
	return fn.Pkg == nil
}

// run executes from block b until a block in stops is reached or the function returns.
func (e *Engine) run(p path, b, from *ssa.BasicBlock, stops map[*ssa.BasicBlock]bool) (arr []arrival, rets []outcome) {
	for {
		if stops[b] {
			return append(arr, arrival{p, b, from}), rets
		}
		lf := e.loops(p.fr.fn)
		if l := lf.header[b]; l != nil && (from == nil || !l.blocks[from]) {
			a2, r2 := e.runLoop(p, l, from, stops)
			return append(arr, a2...), append(rets, r2...)
		}
		next, nfrom, a2, r2, done, np := e.block(p, b, from, stops)
		arr = append(arr, a2...)
		rets = append(rets, r2...)
		if done {
			return
		}
		b, from, p = next, nfrom, np
	}
}

// block executes the instructions of b. If it ends in a single continuing path, done is false.
func (e *Engine) block(p path, b, from *ssa.BasicBlock, stops map[*ssa.BasicBlock]bool) (next, nfrom *ssa.BasicBlock, arr []arrival, rets []outcome, done bool, np path) {
	e.phis(p, b, from)
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return e.instrs(p, b, i, stops)
}

func (e *Engine) phis(p path, b, from *ssa.BasicBlock) {
	if from == nil {
		return
	}
	var vals []V
	idx := -1
	for i, q := range b.Preds {
		if q == from {
			idx = i
		}
	}
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(p, x.Edges[idx]))
		ph = append(ph, x)
	}
	for i, x := range ph {
		p.fr.env[x] = vals[i]
	}
}

func (e *Engine) instrs(p path, b *ssa.BasicBlock, i int, stops map[*ssa.BasicBlock]bool) (next, nfrom *ssa.BasicBlock, arr []arrival, rets []outcome, done bool, np path) {
	for ; i < len(b.Instrs); i++ {
		p.st.steps++
		in := b.Instrs[i]
		if in.Pos().IsValid() {
			e.curPos = in.Pos()
		}
		switch x := in.(type) {
		case *ssa.Jump:
			return b.Succs[0], b, arr, rets, false, p
		case *ssa.If:
			a2, r2 := e.branch(p, x, b, stops)
			return nil, nil, append(arr, a2...), append(rets, r2...), true, p
		case *ssa.Return:
			var rs []V
			for _, r := range x.Results {
				rs = append(rs, e.val(p, r))
			}
			rets = append(rets, outcome{p.st, rs})
			return nil, nil, arr, rets, true, p
		case *ssa.Panic:
			e.safety(p.st, "no panic", e.c.False, x.Pos())
			return nil, nil, arr, rets, true, p
		}
		ps, ok := e.instr(p, in)
		if ok { // simple continuation on the same path
			if len(ps) == 0 {
				continue
			}
		}
		if len(ps) == 0 {
			return nil, nil, arr, rets, true, p // dead
		}
		if len(ps) == 1 {
			p = ps[0]
			continue
		}
		for _, q := range ps {
			n2, f2, a2, r2, d2, q2 := e.instrs(q, b, i+1, stops)
			arr = append(arr, a2...)
			rets = append(rets, r2...)
			if !d2 {
				a3, r3 := e.run(q2, n2, f2, stops)
				arr = append(arr, a3...)
				rets = append(rets, r3...)
			}
		}
		return nil, nil, arr, rets, true, p
	}
	return nil, nil, arr, rets, true, p
}

// splits: the different outcomes of this function of the contract files are followed separately.
func (e *Engine) splits(fn *ssa.Function) bool {
	if e.harness == nil || e.pure != 0 {
		return false
	}
	return e.harness.Opts["splitall"] != "" || e.harness.Opts["split"] == fn.Name() && e.p.isContract(fn)
}

// inRec: a recursive specification function is being unfolded.
func (e *Engine) inRec() bool {
	for i := len(e.calls) - 1; i >= 0; i-- {
		if strings.HasPrefix(e.calls[i].Name(), "rec_") {
			return true
		}
	}
	return false
}

func (e *Engine) branch(p path, x *ssa.If, b *ssa.BasicBlock, stops map[*ssa.BasicBlock]bool) (arr []arrival, rets []outcome) {
	c := e.c
	cond := e.val(p, x.Cond).(*Term)
	if cond == c.True {
		return e.run(p, b.Succs[0], b, stops)
	}
	if cond == c.False {
		return e.run(p, b.Succs[1], b, stops)
	}
	e.checkDeadline()
	e.dbgBranches++
	ft, ff := true, true
	if e.harness.Opts["nofeas"] == "" && e.pure == 0 || e.inRec() { // specification functions are evaluated to one term; only the recursive ones need to know when to stop
		ft = e.feasible(p.st, cond)
		if ft {
			ff = e.feasible(p.st, c.Not(cond))
		}
	}
	if ft && !ff {
		p.st.fact(e, cond)
		return e.run(p, b.Succs[0], b, stops)
	}
	if !ft {
		p.st.fact(e, c.Not(cond))
		return e.run(p, b.Succs[1], b, stops)
	}
	// join point
	var j *ssa.BasicBlock
	if d := e.postdom(p.fr.fn)[b]; d != nil && !stops[d] && !e.splits(p.fr.fn) {
		lf := e.loops(p.fr.fn)
		if lf.inner[d] == lf.inner[b] && lf.header[d] == nil {
			j = d
		}
	}
	st2 := stops
	if j != nil {
		st2 = map[*ssa.BasicBlock]bool{j: true}
		for k := range stops {
			st2[k] = true
		}
	}
	base := p.st.pc
	q := path{p.st.clone(), p.fr.clone()}
	p.st.decide(cond)
	a1, r1 := e.run(p, b.Succs[0], b, st2)
	q.st.decide(c.Not(cond))
	a2, r2 := e.run(q, b.Succs[1], b, st2)
	rets = append(r1, r2...)
	all := append(a1, a2...)
	if j == nil {
		return all, rets
	}
	var atJ []arrival
	for _, a := range all {
		if a.at == j {
			atJ = append(atJ, a)
		} else {
			arr = append(arr, a)
		}
	}
	for _, m := range e.mergeArrivals(base, j, atJ) {
		a3, r3 := e.runAfterPhis(m, j, stops)
		arr = append(arr, a3...)
		rets = append(rets, r3...)
	}
	return
}

// runAfterPhis continues at block j whose phis are already evaluated in m.
func (e *Engine) runAfterPhis(m path, j *ssa.BasicBlock, stops map[*ssa.BasicBlock]bool) ([]arrival, []outcome) {
	i := 0
	for i < len(j.Instrs) {
		if _, ok := j.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	n, f, arr, rets, done, np := e.instrs(m, j, i, stops)
	if !done {
		a, r := e.run(np, n, f, stops)
		arr = append(arr, a...)
		rets = append(rets, r...)
	}
	return arr, rets
}

// ---------------------------------------------------------------- merging

func (e *Engine) mergeArrivals(base *PC, j *ssa.BasicBlock, as []arrival) []path {
	var ps []path
	for _, a := range as {
		e.phis(a.path, j, a.from)
		ps = append(ps, a.path)
	}
	if len(ps) < 2 {
		return ps
	}
	var phs []*ssa.Phi
	for _, in := range j.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phs = append(phs, x)
	}
	var out []path
	for _, p := range ps {
		merged := false
		for k := range out {
			if m, ok := e.mergePaths(base, j, out[k], p, phs); ok {
				out[k] = m
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, p)
		}
	}
	return out
}

// selector of the suffix of pc above base: conjunction of decisions
func suffix(base, pc *PC) (dec, facts []*Term) {
	for q := pc; q != base && q != nil; q = q.par {
		if q.dec {
			dec = append([]*Term{q.t}, dec...)
		} else {
			facts = append([]*Term{q.t}, facts...)
		}
	}
	return
}

func (e *Engine) mergeable(a, b V, t types.Type) bool {
	if a == nil || b == nil {
		return a == b
	}
	if e.sameV(a, b) {
		return true
	}
	if !e.scalarType(t) {
		return false
	}
	return true
}
func (e *Engine) sameV(a, b V) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x == y
	case ArrV:
		y, ok := b.(ArrV)
		return ok && x == y
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !e.sameV(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case PtrV:
		y, ok := b.(PtrV)
		return ok && e.ptrKey(x) == e.ptrKey(y)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || x.Blt != y.Blt || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !e.sameV(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == nil && b == nil
}

func (e *Engine) iteV(g *Term, a, b V, t types.Type) V {
	if e.sameV(a, b) {
		return a
	}
	return e.unpack(e.c.Ite(g, e.pack(a, t), e.pack(b, t)), t)
}

func sameLocks(a, b []lockEnt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Engine) mergeStates(base *PC, a, b *State) (*State, *Term, bool) {
	if !sameLocks(a.locks, b.locks) || len(a.spawns) != len(b.spawns) || len(a.hooks) != len(b.hooks) || len(a.epochs) != len(b.epochs) || len(a.vals) != len(b.vals) {
		return nil, nil, false
	}
	for i := range a.epochs {
		if a.epochs[i] != b.epochs[i] {
			return nil, nil, false
		}
	}
	for k, v := range a.hooks {
		if w, ok := b.hooks[k]; !ok || !e.sameV(v, w) {
			return nil, nil, false
		}
	}
	for k, v := range a.vals {
		if w, ok := b.vals[k]; !ok || !e.sameV(v, w) {
			return nil, nil, false
		}
	}
	for i := range a.spawns {
		if a.spawns[i].pos != b.spawns[i].pos || !e.sameV(a.spawns[i].fn, b.spawns[i].fn) || !e.sameV(TupleV(a.spawns[i].args), TupleV(b.spawns[i].args)) {
			return nil, nil, false
		}
	}
	fork := forkRef(a.pc, b.pc)
	if fork == 0 {
		fork = e.nextRef + 1
	}
	da, fa := suffix(base, a.pc)
	db, fb := suffix(base, b.pc)
	ga, gb := e.c.And(da...), e.c.And(db...)
	type mh struct {
		k    string
		a, b *Term
	}
	var diff []mh
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	nh := map[string]hent{}
	for k := range keys {
		x, y := e.heapGet(a, k), e.heapGet(b, k)
		if x == y {
			nh[k] = hent{x, len(a.epochs)}
			continue
		}
		if !e.keys[k].scalar && !e.onlyFreshDiff(x, y, fork) {
			return nil, nil, false
		}
		diff = append(diff, mh{k, x, y})
	}
	n := a.clone()
	n.pc = base
	n.facts = map[int]bool{}
	for k := range a.facts {
		if b.facts[k] {
			n.facts[k] = true
		}
	}
	inB := map[int]bool{}
	for _, t := range fb {
		inB[t.ID] = true
	}
	inA := map[int]bool{}
	for _, t := range fa {
		inA[t.ID] = true
	}
	if or := e.c.Or(ga, gb); or != e.c.True {
		n.pc = n.pc.push(or, true, fork)
	}
	for _, t := range fa {
		if inB[t.ID] {
			n.pc = n.pc.push(t, false, fork)
		} else if x := e.c.Imp(ga, t); x != e.c.True {
			n.pc = n.pc.push(x, false, fork)
		}
	}
	for _, t := range fb {
		if !inA[t.ID] {
			if x := e.c.Imp(gb, t); x != e.c.True {
				n.pc = n.pc.push(x, false, fork)
			}
		}
	}
	for _, d := range diff {
		nh[d.k] = hent{e.mergeArr(ga, d.a, d.b, fork), len(a.epochs)}
	}
	n.heap = nh
	return n, ga, true
}

// onlyFreshDiff: the arrays differ only at literal references known to one side.
func (e *Engine) onlyFreshDiff(a, b *Term, fork int64) bool {
	base := map[int]bool{}
	sa := map[int]*Term{}
	x := a
	for x.Op == "store" {
		if _, ok := sa[x.Args[1].ID]; !ok {
			sa[x.Args[1].ID] = x.Args[2]
		}
		base[x.ID] = true
		x = x.Args[0]
	}
	base[x.ID] = true
	y := b
	sb := map[int]*Term{}
	for y.Op == "store" && !base[y.ID] {
		if _, ok := sb[y.Args[1].ID]; !ok {
			sb[y.Args[1].ID] = y.Args[2]
		}
		y = y.Args[0]
	}
	if !base[y.ID] {
		return false
	}
	// indices written on both sides must agree
	x = a
	da := map[int]*Term{}
	for x != y {
		if x.Args[1].Op != "int" {
			return false
		}
		if _, ok := da[x.Args[1].ID]; !ok {
			da[x.Args[1].ID] = x.Args[2]
		}
		x = x.Args[0]
	}
	for id, v := range sb {
		if w, ok := da[id]; ok && w != v {
			return false
		}
		found := false
		z := b
		for z != y {
			if z.Args[1].ID == id && z.Args[1].Op == "int" {
				found = true
			}
			z = z.Args[0]
		}
		if !found {
			return false
		}
	}
	// a value present on one side only is garbage on the other (object not allocated there) when the
	// reference was handed out after the paths separated
	chk := func(o map[int]*Term, side *Term) bool {
		for z := side; z != y; z = z.Args[0] {
			if _, ok := o[z.Args[1].ID]; !ok && !bornAfter(z.Args[1], fork) {
				return false
			}
		}
		return true
	}
	return chk(sb, a) && chk(da, b)
}

// bornAfter: t denotes an object allocated after the paths being merged separated.
func bornAfter(t *Term, fork int64) bool {
	return t.Op == "int" && t.I.IsInt64() && t.I.Int64() >= max(fork, refBase)
}

func (e *Engine) mergeArr(g, a, b *Term, fork int64) *Term {
	c := e.c
	chain := map[int]bool{}
	for x := a; ; x = x.Args[0] {
		chain[x.ID] = true
		if x.Op != "store" {
			break
		}
	}
	y := b
	for !chain[y.ID] && y.Op == "store" {
		y = y.Args[0]
	}
	if !chain[y.ID] {
		return c.Ite(g, a, b)
	}
	var idxs []*Term
	add := func(t *Term) bool {
		for _, o := range idxs {
			switch c.idxCmp(o, t) {
			case 1:
				return true
			case 0:
				return false
			}
		}
		idxs = append(idxs, t)
		return true
	}
	for x := a; x != y; x = x.Args[0] {
		if !add(x.Args[1]) {
			return c.Ite(g, a, b)
		}
	}
	for x := b; x != y; x = x.Args[0] {
		if !add(x.Args[1]) {
			return c.Ite(g, a, b)
		}
	}
	stored := func(side, id *Term) bool {
		for ; side != y; side = side.Args[0] {
			if side.Args[1] == id {
				return true
			}
		}
		return false
	}
	out := y
	for i := len(idxs) - 1; i >= 0; i-- {
		id := idxs[i]
		va, vb := c.Select(a, id), c.Select(b, id)
		if bornAfter(id, fork) {
			// an object that exists on one side only
			if !stored(a, id) {
				va = vb
			} else if !stored(b, id) {
				vb = va
			}
		}
		out = c.Store(out, id, c.Ite(g, va, vb))
	}
	return out
}

func (e *Engine) mergePaths(base *PC, j *ssa.BasicBlock, a, b path, phs []*ssa.Phi) (path, bool) {
	if len(a.fr.defers) != len(b.fr.defers) {
		return path{}, false
	}
	for _, ph := range phs {
		if !e.mergeable(a.fr.env[ph], b.fr.env[ph], ph.Type()) {
			return path{}, false
		}
	}
	// values that were computed before the join on both ways (in different iterations of a loop)
	var differ, dead []ssa.Value
	for k, v := range a.fr.env {
		w, ok := b.fr.env[k]
		if !ok {
			dead = append(dead, k)
			continue
		}
		in, isInstr := k.(ssa.Instruction)
		if !isInstr || in.Block() == j && isPhi(k) || e.sameV(v, w) {
			continue
		}
		if in.Block() == nil || in.Block() == j || !in.Block().Dominates(j) {
			dead = append(dead, k)
			continue
		}
		if !e.mergeable(v, w, k.Type()) {
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "not merged: %s = %s in %s\n", k.Name(), k, j.Parent())
			}
			return path{}, false
		}
		differ = append(differ, k)
	}
	n, g, ok := e.mergeStates(base, a.st, b.st)
	if !ok {
		return path{}, false
	}
	fr := a.fr.clone()
	for _, ph := range phs {
		fr.env[ph] = e.iteV(g, a.fr.env[ph], b.fr.env[ph], ph.Type())
	}
	for _, k := range differ {
		fr.env[k] = e.iteV(g, a.fr.env[k], b.fr.env[k], k.Type())
	}
	for _, k := range dead {
		delete(fr.env, k)
	}
	return path{n, fr}, true
}

func isPhi(v ssa.Value) bool {
	_, ok := v.(*ssa.Phi)
	return ok
}

func (e *Engine) mergeOutcomes(base *PC, os []outcome, fn *ssa.Function) []outcome {
	if len(os) < 2 {
		return os
	}
	rt := fn.Signature.Results()
	var out []outcome
	for _, o := range os {
		done := false
		for k := range out {
			ok := true
			for i := 0; i < rt.Len(); i++ {
				if !e.mergeable(out[k].res[i], o.res[i], rt.At(i).Type()) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			n, g, ok := e.mergeStates(base, out[k].st, o.st)
			if !ok {
				continue
			}
			var rs []V
			for i := 0; i < rt.Len(); i++ {
				rs = append(rs, e.iteV(g, out[k].res[i], o.res[i], rt.At(i).Type()))
			}
			out[k] = outcome{n, rs}
			done = true
			break
		}
		if !done {
			out = append(out, o)
		}
	}
	return out
}

// ---------------------------------------------------------------- values

func (e *Engine) globalRef(g *ssa.Global) *Term {
	id, ok := e.globals[g]
	if !ok {
		id = -int64(len(e.globals) + 1)
		e.globals[g] = id
	}
	return e.c.N(id)
}

func (e *Engine) val(p path, v ssa.Value) V {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constV(x)
	case *ssa.Global:
		return e.globalRef(x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Blt: x}
	}
	r, ok := p.fr.env[v]
	if !ok {
		panic(unsup("value %s of %s not available", v.Name(), p.fr.fn))
	}
	return r
}

func (e *Engine) constV(x *ssa.Const) V {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	return e.constTerm(x.Value, t)
}
func (e *Engine) constTerm(val constant.Value, t types.Type) V {
	s := e.sortOf(t)
	switch s.K {
	case KBool:
		return e.c.B(constant.BoolVal(val))
	case KStr:
		return e.c.StrLit(constant.StringVal(val))
	case KFP:
		f, _ := constant.Float64Val(constant.ToFloat(val))
		return e.c.FPc(f)
	case KInt:
		i := constant.ToInt(val)
		n, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			panic(unsup("const %s", val))
		}
		return e.c.BigN(n)
	case KBV:
		i := constant.ToInt(val)
		n, _ := new(big.Int).SetString(i.ExactString(), 10)
		m := new(big.Int).Mod(n, new(big.Int).Lsh(bigOne, uint(s.W)))
		return e.c.BVc(m.Uint64(), s.W)
	}
	panic(unsup("const %s of %s", val, t))
}

func (e *Engine) wrap(st *State, t *Term, ty types.Type) *Term {
	w, signed, asInt, ok := intInfo(ty)
	if !ok || !asInt {
		return t
	}
	lo, hi := int64Min, int64Max
	if !signed {
		lo, hi = bigZero, uintMax
	}
	if t.Lo != nil && t.Lo.Cmp(lo) >= 0 && t.Hi != nil && t.Hi.Cmp(hi) <= 0 {
		return t
	}
	c := e.c
	if t.Bound {
		return t // indices inside quantifiers are mathematical
	}
	if e.pure > 0 {
		return t
	}
	inr := c.And(c.Le(c.BigN(lo), t), c.Le(t, c.BigN(hi)))
	if e.light.Check(st.pc, c.Not(inr)) == Unsat {
		return t
	}
	mod := new(big.Int).Lsh(bigOne, uint(w))
	if !signed {
		return c.Mod(t, c.BigN(mod))
	}
	half := c.BigN(new(big.Int).Lsh(bigOne, uint(w-1)))
	return c.Ite(inr, t, c.Sub(c.Mod(c.Add(t, half), c.BigN(mod)), half))
}

func (e *Engine) toBV64(t *Term) *Term { return e.c.Int2BV(64, t) }
func (e *Engine) fromBV64(t *Term, signed bool) *Term {
	return e.c.BV2Int(t, signed)
}

func (e *Engine) goDiv(a, b *Term) *Term {
	c := e.c
	// truncated division by b (b != 0)
	q := func(x, y *Term) *Term { return c.Div(x, y) }
	if b.Op == "int" && b.I.Sign() > 0 {
		if a.Lo != nil && a.Lo.Sign() >= 0 {
			return q(a, b)
		}
		na := c.MulC(big.NewInt(-1), a)
		return c.Ite(c.Le(c.N(0), a), q(a, b), c.MulC(big.NewInt(-1), q(na, b)))
	}
	neg := func(x *Term) *Term { return c.MulC(big.NewInt(-1), x) }
	abs := func(x *Term) *Term { return c.Ite(c.Le(c.N(0), x), x, neg(x)) }
	m := q(abs(a), abs(b))
	return c.Ite(c.Eq(c.Le(c.N(0), a), c.Le(c.N(0), b)), m, neg(m))
}

func (e *Engine) binop(p path, x *ssa.BinOp) (V, bool) {
	a, b := e.val(p, x.X), e.val(p, x.Y)
	return e.binopV(p.st, x.Op, a, b, x.X.Type(), x.Y.Type(), x.Type(), x.Pos())
}

func (e *Engine) binopV(st *State, op token.Token, a, b V, xt, yt, rt types.Type, pos token.Pos) (V, bool) {
	c := e.c
	switch op {
	case token.EQL, token.NEQ:
		r := e.eqV(st, a, b, xt, yt)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r, true
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsup("binop %s on %T %T", op, a, b))
	}
	_, signed, asInt, isInt := intInfo(xt)
	if isInt {
		if op == token.SHL || op == token.SHR {
			return e.shift(st, op, ta, tb, xt, yt, pos)
		}
		if asInt {
			switch op {
			case token.ADD:
				return e.wrap(st, c.Add(ta, tb), xt), true
			case token.SUB:
				return e.wrap(st, c.Sub(ta, tb), xt), true
			case token.MUL:
				return e.wrap(st, c.Mul(ta, tb), xt), true
			case token.QUO, token.REM:
				if !e.safety(st, "no division by zero", c.Not(c.Eq(tb, c.N(0))), pos) {
					return nil, false
				}
				q := e.goDiv(ta, tb)
				if op == token.QUO {
					return e.wrap(st, q, xt), true
				}
				if tb.Op == "int" && tb.I.Sign() > 0 && ta.Lo != nil && ta.Lo.Sign() >= 0 {
					return c.Mod(ta, tb), true
				}
				return c.Sub(ta, c.Mul(q, tb)), true
			case token.LSS:
				return c.Lt(ta, tb), true
			case token.LEQ:
				return c.Le(ta, tb), true
			case token.GTR:
				return c.Lt(tb, ta), true
			case token.GEQ:
				return c.Le(tb, ta), true
			case token.AND:
				if tb.Op != "int" {
					ta, tb = tb, ta
				}
				if tb.Op == "int" && tb.I.Sign() >= 0 {
					m := new(big.Int).Add(tb.I, bigOne)
					if m.BitLen() == int(m.TrailingZeroBits())+1 { // 2^k - 1
						return c.Mod(ta, c.BigN(m)), true
					}
				}
				return e.fromBV64(c.BVBin("bvand", e.toBV64(ta), e.toBV64(tb)), signed), true
			case token.OR:
				return e.fromBV64(c.BVBin("bvor", e.toBV64(ta), e.toBV64(tb)), signed), true
			case token.XOR:
				return e.fromBV64(c.BVXor(e.toBV64(ta), e.toBV64(tb)), signed), true
			case token.AND_NOT:
				return e.fromBV64(c.BVBin("bvand", e.toBV64(ta), c.BVNot(e.toBV64(tb))), signed), true
			}
		} else {
			cmp := func(o string) Op {
				if signed {
					return Op("bvs" + o)
				}
				return Op("bvu" + o)
			}
			switch op {
			case token.ADD:
				return c.BVBin("bvadd", ta, tb), true
			case token.SUB:
				return c.BVBin("bvsub", ta, tb), true
			case token.MUL:
				return c.BVBin("bvmul", ta, tb), true
			case token.QUO, token.REM:
				if !e.safety(st, "no division by zero", c.Not(c.Eq(tb, c.BVc(0, tb.S.W))), pos) {
					return nil, false
				}
				o := Op("bvudiv")
				if op == token.REM {
					o = "bvurem"
				}
				if signed {
					o = "bvsdiv"
					if op == token.REM {
						o = "bvsrem"
					}
				}
				return c.BVBin(o, ta, tb), true
			case token.AND:
				return c.BVBin("bvand", ta, tb), true
			case token.OR:
				return c.BVBin("bvor", ta, tb), true
			case token.XOR:
				return c.BVXor(ta, tb), true
			case token.AND_NOT:
				return c.BVBin("bvand", ta, c.BVNot(tb)), true
			case token.LSS:
				return c.BVCmp(cmp("lt"), ta, tb), true
			case token.LEQ:
				return c.BVCmp(cmp("le"), ta, tb), true
			case token.GTR:
				return c.BVCmp(cmp("lt"), tb, ta), true
			case token.GEQ:
				return c.BVCmp(cmp("le"), tb, ta), true
			}
		}
	}
	switch ta.S.K {
	case KFP:
		switch op {
		case token.ADD:
			return c.FP("fp.add", c.F64, ta, tb), true
		case token.SUB:
			return c.FP("fp.sub", c.F64, ta, tb), true
		case token.MUL:
			return c.FP("fp.mul", c.F64, ta, tb), true
		case token.QUO:
			return c.FP("fp.div", c.F64, ta, tb), true
		case token.LSS:
			return c.FP("fp.lt", c.Bool, ta, tb), true
		case token.LEQ:
			return c.FP("fp.leq", c.Bool, ta, tb), true
		case token.GTR:
			return c.FP("fp.lt", c.Bool, tb, ta), true
		case token.GEQ:
			return c.FP("fp.leq", c.Bool, tb, ta), true
		}
	case KStr:
		switch op {
		case token.ADD:
			return e.strcat(st, ta, tb), true
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				ta, tb = tb, ta
			}
			lt := c.App("strlt", c.Bool, ta, tb)
			if op == token.LEQ || op == token.GEQ {
				return c.Or(lt, c.Eq(ta, tb)), true
			}
			return lt, true
		}
	case KBool:
		switch op {
		case token.AND:
			return c.And(ta, tb), true
		case token.OR:
			return c.Or(ta, tb), true
		}
	}
	panic(unsup("binop %s on %s", op, xt))
}

func (e *Engine) strcat(st *State, a, b *Term) *Term {
	c := e.c
	if a.Op == "strlit" && b.Op == "strlit" {
		return c.StrLit(c.litVal(a) + c.litVal(b))
	}
	if a.Op == "strlit" && c.litVal(a) == "" {
		return b
	}
	if b.Op == "strlit" && c.litVal(b) == "" {
		return a
	}
	// push through ite with constant leaves so that tables stay comparable
	if a.Op == "ite" && b.Op == "strlit" {
		return c.Ite(a.Args[0], e.strcat(st, a.Args[1], b), e.strcat(st, a.Args[2], b))
	}
	// right-associate
	if a.Op == "app" && a.Name == "strcat" {
		return e.strcat(st, a.Args[0], e.strcat(st, a.Args[1], b))
	}
	return c.App("strcat", c.Str, a, b)
}

func (e *Engine) shift(st *State, op token.Token, a, n *Term, xt, yt types.Type, pos token.Pos) (V, bool) {
	c := e.c
	w, signed, asInt, _ := intInfo(xt)
	_, nsigned, nAsInt, _ := intInfo(yt)
	// count as Int
	cnt := n
	if !nAsInt {
		cnt = c.BV2Int(n, nsigned)
	}
	if nsigned {
		if !e.safety(st, "shift count not negative", c.Le(c.N(0), cnt), pos) {
			return nil, false
		}
	}
	if asInt {
		if cnt.Op == "int" {
			if cnt.I.Cmp(big.NewInt(64)) >= 0 {
				if op == token.SHR && signed {
					return c.Ite(c.Lt(a, c.N(0)), c.N(-1), c.N(0)), true
				}
				return c.N(0), true
			}
			k := new(big.Int).Lsh(bigOne, uint(cnt.I.Int64()))
			if op == token.SHL {
				return e.wrap(st, c.MulC(k, a), xt), true
			}
			return c.Div(a, c.BigN(k)), true // floor
		}
		bw := c.BVc(uint64(w), 64)
		_ = bw
		av := e.toBV64(a)
		cv := c.Int2BV(64, cnt)
		o := Op("bvshl")
		if op == token.SHR {
			o = "bvlshr"
			if signed {
				o = "bvashr"
			}
		}
		big64 := c.Le(c.N(64), cnt)
		r := e.fromBV64(c.BVBin(o, av, cv), signed)
		over := c.N(0)
		if op == token.SHR && signed {
			over = c.Ite(c.Lt(a, c.N(0)), c.N(-1), c.N(0))
		}
		return c.Ite(big64, over, r), true
	}
	var cv *Term
	if !nAsInt && n.S.W <= w {
		cv = c.ZExt(n, w)
	} else {
		cv = c.Int2BV(w, cnt)
	}
	o := Op("bvshl")
	if op == token.SHR {
		o = "bvlshr"
		if signed {
			o = "bvashr"
		}
	}
	r := c.BVBin(o, a, cv)
	var big_ *Term
	if !nAsInt && n.S.W <= w {
		big_ = c.False // SMT shift semantics saturate already
	} else {
		big_ = c.Le(c.N(int64(w)), cnt)
	}
	over := c.BVc(0, w)
	if op == token.SHR && signed {
		over = c.BVBin("bvashr", a, c.BVc(uint64(w-1), w))
	}
	return c.Ite(big_, over, r), true
}

func (e *Engine) eqV(st *State, a, b V, at, bt types.Type) *Term {
	c := e.c
	_, ai := under(at).(*types.Interface)
	_, bi := under(bt).(*types.Interface)
	if ai && !bi {
		b = e.makeIface(st, b, bt)
		bt = at
	} else if bi && !ai {
		a = e.makeIface(st, a, at)
		at = bt
	}
	if isTime(at) || e.opaqueStruct(at) {
		return c.Eq(a.(*Term), b.(*Term))
	}
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.S.K == KFP {
				return c.FP("fp.eq", c.Bool, x, y)
			}
			return c.Eq(x, y)
		case FuncV, PtrV:
			return c.Eq(x, e.pack(b, bt))
		}
	case PtrV, FuncV:
		if _, ok := a.(FuncV); ok {
			if t, ok := b.(*Term); ok && t.Op == "int" && t.I.Sign() == 0 {
				return c.False
			}
		}
		if xp, ok := a.(PtrV); ok {
			if yp, ok := b.(PtrV); ok && e.ptrKey(xp) == e.ptrKey(yp) {
				return c.True
			}
			if t, ok := b.(*Term); ok && t.Op == "int" && t.I.Sign() == 0 {
				return c.False
			}
		}
		return c.Eq(e.pack(a, at), e.pack(b, bt))
	case SliceV:
		y := b.(SliceV)
		if y.Ref.Op == "int" && y.Ref.I.Sign() == 0 {
			return c.Eq(x.Ref, c.N(0))
		}
		return c.Eq(y.Ref, c.N(0))
	case IfaceV:
		y := b.(IfaceV)
		if x.Tag.Op == "int" && x.Tag.I.Sign() == 0 {
			return c.Eq(y.Tag, c.N(0))
		}
		if y.Tag.Op == "int" && y.Tag.I.Sign() == 0 {
			return c.Eq(x.Tag, c.N(0))
		}
		te := c.Eq(x.Tag, y.Tag)
		if te == c.False {
			return c.False
		}
		// boxed values compare by content when the type is known
		known := x.Tag
		if known.Op != "int" {
			known = y.Tag
		}
		if known.Op == "int" {
			t := e.tagTypes[known.I.Int64()]
			if t != nil && !isRefType(t) {
				return c.And(te, e.eqV(st, e.unbox(st, x, t), e.unbox(st, y, t), t, t))
			}
		}
		return c.And(te, c.Eq(x.Ref, y.Ref))
	case StructV:
		y := b.(StructV)
		u := under(at).(*types.Struct)
		var cs []*Term
		for i := range x.F {
			if u.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, e.eqV(st, x.F[i], y.F[i], u.Field(i).Type(), u.Field(i).Type()))
		}
		return c.And(cs...)
	case ArrV:
		y := b.(ArrV)
		el := under(at).(*types.Array).Elem()
		if x.A == y.A {
			return c.True
		}
		var cs []*Term
		for i := int64(0); i < x.N; i++ {
			cs = append(cs, e.eqV(st, e.unpack(c.Select(x.A, c.N(i)), el), e.unpack(c.Select(y.A, c.N(i)), el), el, el))
		}
		return c.And(cs...)
	}
	panic(unsup("equality on %T/%T", a, b))
}

func (e *Engine) convert(st *State, v V, from, to types.Type) V {
	c := e.c
	fw, fs, fInt, fok := intInfo(from)
	tw, ts, tInt, tok := intInfo(to)
	_ = fw
	fb, _ := under(from).(*types.Basic)
	tb, _ := under(to).(*types.Basic)
	if fok && tok {
		t := v.(*Term)
		switch {
		case fInt && tInt:
			if fs == ts {
				return t
			}
			return e.wrap(st, t, to)
		case fInt && !tInt:
			return c.Int2BV(tw, t)
		case !fInt && tInt:
			n := c.BV2Int(t, fs)
			if fs && !ts {
				return e.wrap(st, n, to)
			}
			return n
		default:
			if tw <= fw {
				return c.Extract(tw-1, 0, t)
			}
			if fs {
				return c.SExt(t, tw)
			}
			return c.ZExt(t, tw)
		}
	}
	isF := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsFloat != 0 }
	if fok && isF(tb) {
		t := v.(*Term)
		if t.Op == "int" || t.Op == "bv" {
			var f float64
			if t.Op == "int" {
				f, _ = new(big.Float).SetInt(t.I).Float64()
			} else if fs {
				f = float64(sx(t.U, t.S.W))
			} else {
				f = float64(t.U)
			}
			return c.FPc(f)
		}
		if fInt {
			// narrow when the range is small
			if t.Op == "bv2nat" {
				return c.FP("fp.from_ubv", c.F64, t.Args[0])
			}
			bv := c.Int2BV(64, t)
			if fs {
				return c.FP("fp.from_sbv", c.F64, bv)
			}
			return c.FP("fp.from_ubv", c.F64, bv)
		}
		if fs {
			return c.FP("fp.from_sbv", c.F64, t)
		}
		return c.FP("fp.from_ubv", c.F64, t)
	}
	if isF(fb) && tok {
		t := v.(*Term)
		if t.Op == "fp" {
			f := math.Trunc(math.Float64frombits(t.U))
			if math.Abs(f) < 1e18 {
				n := c.N(int64(f))
				if tInt {
					return n
				}
				return c.Int2BV(tw, n)
			}
		}
		w := tw
		// amd64: conversion to a narrow type goes through a 64-bit conversion and truncation;
		// out-of-range results are implementation-defined: keep them arbitrary
		in := c.And(c.FP("fp.lt", c.Bool, c.FPc(-9223372036854775809), t), c.FP("fp.lt", c.Bool, t, c.FPc(9223372036854775807)))
		sb := c.mk(&Term{Op: "fp.to_sbv", S: c.BV(64), Args: []*Term{t}})
		bv := c.Ite(in, sb, c.Fresh("fpconv", c.BV(64)))
		if tInt {
			return e.fromBV64(bv, ts)
		}
		// exact small conversion keeps the solver happy
		if w == 8 && !ts {
			small := c.And(c.FP("fp.leq", c.Bool, c.FPc(0), t), c.FP("fp.lt", c.Bool, t, c.FPc(256)))
			return c.Ite(small, c.mk(&Term{Op: "fp.to_ubv", S: c.BV(8), Args: []*Term{t}}), c.Extract(7, 0, bv))
		}
		return c.Extract(w-1, 0, bv)
	}
	if isF(fb) && isF(tb) {
		return v
	}
	fstr := fb != nil && fb.Info()&types.IsString != 0
	tstr := tb != nil && tb.Info()&types.IsString != 0
	if fstr && tstr {
		return v
	}
	if fstr {
		if sl, ok := under(to).(*types.Slice); ok {
			// []byte(s)
			s := v.(*Term)
			if eb, ok := under(sl.Elem()).(*types.Basic); ok && eb.Kind() == types.Uint8 {
				r := c.N(e.newRefID())
				n := e.strlen(st, s)
				arr := c.App("strbytes", c.Arr(c.Int, c.BV(8)), s)
				if s.Op == "strlit" {
					arr = e.zeroTerm(types.NewArray(types.Typ[types.Uint8], 1))
					for i, ch := range []byte(c.litVal(s)) {
						arr = c.Store(arr, c.N(int64(i)), c.BVc(uint64(ch), 8))
					}
				}
				e.heapSet(st, e.memKey(sl.Elem()), r, arr)
				return SliceV{r, c.N(0), n, n}
			}
		}
	}
	if tstr {
		if sl, ok := under(from).(*types.Slice); ok {
			x := v.(SliceV)
			arr := c.Select(e.heapGet(st, e.memKey(sl.Elem())), x.Ref)
			return e.strFromBytes(st, arr, x.Off, x.Len)
		}
		if fok {
			return c.App("strrune", c.Str, e.toInt(v.(*Term), from))
		}
	}
	if _, ok := under(to).(*types.Pointer); ok {
		return v
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	panic(unsup("convert %s to %s", from, to))
}

func (e *Engine) strFromBytes(st *State, arr, off, n *Term) *Term {
	c := e.c
	if n.Op == "int" && n.I.Int64() <= 64 && off.Op == "int" {
		all := true
		bs := []byte{}
		for i := int64(0); i < n.I.Int64(); i++ {
			b := c.Select(arr, c.AddN(off, i))
			if b.Op != "bv" {
				all = false
				break
			}
			bs = append(bs, byte(b.U))
		}
		if all {
			return c.StrLit(string(bs))
		}
	}
	s := c.App("strof", c.Str, arr, off, n)
	st.fact(e, c.Eq(e.strlen(st, s), n))
	return s
}

func (e *Engine) toInt(t *Term, ty types.Type) *Term {
	if t.S.K == KInt {
		return t
	}
	_, s, _, _ := intInfo(ty)
	return e.c.BV2Int(t, s)
}

func (e *Engine) strlen(st *State, s *Term) *Term {
	c := e.c
	if s.Op == "strlit" {
		return c.N(int64(len(c.litVal(s))))
	}
	if s.Op == "ite" {
		return c.Ite(s.Args[0], e.strlen(st, s.Args[1]), e.strlen(st, s.Args[2]))
	}
	if s.Op == "app" && s.Name == "strcat" {
		return c.Add(e.strlen(st, s.Args[0]), e.strlen(st, s.Args[1]))
	}
	t := c.mk(&Term{Op: "app", S: c.Int, Name: "strlen", Args: []*Term{s}})
	st.fact(e, c.Le(c.N(0), t))
	st.fact(e, c.Le(t, c.BigN(new(big.Int).Lsh(bigOne, 47))))
	st.fact(e, c.Eq(c.Eq(t, c.N(0)), c.Eq(s, c.StrLit(""))))
	return t
}

// ---------------------------------------------------------------- pointers

// addr builds the address of field i of the struct p points to.
func (e *Engine) fieldAddr(st *State, p V, st0 types.Type, i int, pos token.Pos) (V, bool) {
	c := e.c
	u := under(st0).(*types.Struct)
	switch x := p.(type) {
	case *Term:
		if !e.safety(st, "no nil dereference", c.Not(c.Eq(x, c.N(0))), pos) {
			return nil, false
		}
		return PtrV{Kind: 0, Ref: x, T: st0, Steps: []Step{{Field: i, T: u.Field(i).Type()}}}, true
	case PtrV:
		n := x
		n.Steps = append(append([]Step(nil), x.Steps...), Step{Field: i, T: u.Field(i).Type()})
		return n, true
	}
	panic(unsup("field address of %T", p))
}

func (e *Engine) indexAddr(p path, x *ssa.IndexAddr) (V, bool) {
	c := e.c
	base := e.val(p, x.X)
	idx := e.toInt(e.val(p, x.Index).(*Term), x.Index.Type())
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s := base.(SliceV)
		if !e.safety(p.st, "index in range", c.And(c.Le(c.N(0), idx), c.Lt(idx, s.Len)), x.Pos()) {
			return nil, false
		}
		return PtrV{Kind: 1, Ref: s.Ref, Idx: c.Add(s.Off, idx), T: u.Elem()}, true
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		if !e.safety(p.st, "index in range", c.And(c.Le(c.N(0), idx), c.Lt(idx, c.N(a.Len()))), x.Pos()) {
			return nil, false
		}
		switch b := base.(type) {
		case *Term:
			if !e.safety(p.st, "no nil dereference", c.Not(c.Eq(b, c.N(0))), x.Pos()) {
				return nil, false
			}
			return PtrV{Kind: 1, Ref: b, Idx: idx, T: a.Elem()}, true
		case PtrV:
			n := b
			n.Steps = append(append([]Step(nil), b.Steps...), Step{Idx: idx, T: a.Elem()})
			return n, true
		}
	}
	panic(unsup("index address on %s", x.X.Type()))
}

// derefOK checks a pointer before load/store.
func (e *Engine) derefOK(st *State, p V, pos token.Pos) bool {
	if t, ok := p.(*Term); ok {
		return e.safety(st, "no nil dereference", e.c.Not(e.c.Eq(t, e.c.N(0))), pos)
	}
	return true
}

// ---------------------------------------------------------------- instructions

// instr executes one instruction. (nil,true): continue on the same path. Otherwise the returned
// paths continue (none: the path is dead).
func (e *Engine) instr(p path, in ssa.Instruction) (ps []path, same bool) {
	c := e.c
	st, env := p.st, p.fr.env
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil, true
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		env[x] = e.alloc(st, t)
		return nil, true
	case *ssa.BinOp:
		v, ok := e.binop(p, x)
		if !ok {
			return nil, false
		}
		env[x] = v
		return nil, true
	case *ssa.UnOp:
		return e.unop(p, x)
	case *ssa.ChangeType:
		env[x] = e.val(p, x.X)
		return nil, true
	case *ssa.ChangeInterface:
		env[x] = e.val(p, x.X)
		return nil, true
	case *ssa.Convert:
		env[x] = e.convert(st, e.val(p, x.X), x.X.Type(), x.Type())
		return nil, true
	case *ssa.MultiConvert:
		env[x] = e.convert(st, e.val(p, x.X), x.X.Type(), x.Type())
		return nil, true
	case *ssa.MakeInterface:
		env[x] = e.makeIface(st, e.val(p, x.X), x.X.Type())
		return nil, true
	case *ssa.MakeClosure:
		var bs []V
		for _, b := range x.Bindings {
			bs = append(bs, e.val(p, b))
		}
		env[x] = FuncV{Fn: x.Fn.(*ssa.Function), Bind: bs}
		return nil, true
	case *ssa.MakeMap:
		env[x] = e.makeMap(st, x.Type())
		return nil, true
	case *ssa.MakeChan:
		r := c.N(e.newRefID())
		n := e.toInt(e.val(p, x.Size).(*Term), x.Size.Type())
		if !e.safety(st, "make size in range", c.Le(c.N(0), n), x.Pos()) {
			return nil, false
		}
		e.newChan(st, r, n)
		env[x] = r
		return nil, true
	case *ssa.MakeSlice:
		el := under(x.Type()).(*types.Slice).Elem()
		n := e.toInt(e.val(p, x.Len).(*Term), x.Len.Type())
		cp := e.toInt(e.val(p, x.Cap).(*Term), x.Cap.Type())
		if !e.safety(st, "make size in range", c.And(c.Le(c.N(0), n), c.Le(n, cp)), x.Pos()) {
			return nil, false
		}
		r := c.N(e.newRefID())
		e.heapSet(st, e.memKey(el), r, e.zeroTerm(types.NewArray(el, 0)))
		env[x] = SliceV{r, c.N(0), n, cp}
		return nil, true
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		v, ok := e.fieldAddr(st, e.val(p, x.X), t, x.Field, x.Pos())
		if !ok {
			return nil, false
		}
		env[x] = v
		return nil, true
	case *ssa.Field:
		sv, ok := e.val(p, x.X).(StructV)
		if !ok {
			panic(unsup("field of %s", x.X.Type()))
		}
		env[x] = sv.F[x.Field]
		return nil, true
	case *ssa.IndexAddr:
		v, ok := e.indexAddr(p, x)
		if !ok {
			return nil, false
		}
		env[x] = v
		return nil, true
	case *ssa.Index:
		idx := e.toInt(e.val(p, x.Index).(*Term), x.Index.Type())
		switch b := e.val(p, x.X).(type) {
		case ArrV:
			if !e.safety(st, "index in range", c.And(c.Le(c.N(0), idx), c.Lt(idx, c.N(b.N))), x.Pos()) {
				return nil, false
			}
			env[x] = e.unpack(c.Select(b.A, idx), x.Type())
			return nil, true
		case *Term: // string
			n := e.strlen(st, b)
			if !e.safety(st, "index in range", c.And(c.Le(c.N(0), idx), c.Lt(idx, n)), x.Pos()) {
				return nil, false
			}
			env[x] = e.strIndex(st, b, idx)
			return nil, true
		}
		panic(unsup("index of %s", x.X.Type()))
	case *ssa.Slice:
		v, ok := e.sliceOp(p, x)
		if !ok {
			return nil, false
		}
		env[x] = v
		return nil, true
	case *ssa.Store:
		a := e.val(p, x.Addr)
		if !e.derefOK(st, a, x.Pos()) {
			return nil, false
		}
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		if !e.guardCheck(st, a, t, true, x.Pos()) {
			return nil, false
		}
		e.store(st, a, t, e.val(p, x.Val))
		return nil, true
	case *ssa.Extract:
		tv, ok := e.val(p, x.Tuple).(TupleV)
		if !ok {
			panic(unsup("extract"))
		}
		env[x] = tv[x.Index]
		return nil, true
	case *ssa.TypeAssert:
		return e.typeAssert(p, x)
	case *ssa.Lookup:
		return e.lookup(p, x)
	case *ssa.MapUpdate:
		return e.mapUpdate(p, x)
	case *ssa.Range:
		return e.rangeInit(p, x)
	case *ssa.Next:
		return e.next(p, x)
	case *ssa.Call:
		outs := e.call(p, x.Common(), x.Pos(), x)
		return e.resume(p, outs, x)
	case *ssa.Defer:
		d := deferred{call: x.Common(), pos: x.Pos()}
		d.fn, d.args = e.callee(p, x.Common())
		p.fr.defers = append(p.fr.defers, d)
		return nil, true
	case *ssa.RunDefers:
		paths := []path{p}
		for len(p.fr.defers) > 0 {
			d := p.fr.defers[len(p.fr.defers)-1]
			p.fr.defers = p.fr.defers[:len(p.fr.defers)-1]
			var nxt []path
			for _, q := range paths {
				for _, o := range e.invoke(q, d.call, d.fn, d.args, d.pos, nil) {
					nxt = append(nxt, path{o.st, q.fr})
				}
			}
			paths = nxt
		}
		for i := range paths {
			if i > 0 {
				paths[i].fr = paths[i].fr.clone()
			}
			paths[i].fr.defers = nil
		}
		return paths, false
	case *ssa.Go:
		fn, args := e.callee(p, x.Common())
		fv, ok := e.goTarget(p, x.Common(), fn, args)
		if !ok {
			panic(unsup("go statement target"))
		}
		fv.fn.Racy = e.racyCells(x, fv.fn)
		if h, ok := st.hooks["go"]; ok {
			st2 := st
			nf := e.thunk(fv.fn, fv.args)
			var ps []path
			outs := e.callFunc(path{st2, &Frame{fn: p.fr.fn}}, h, []V{nf}, x.Common(), x.Pos())
			for i, o := range outs {
				fr := p.fr
				if i > 0 {
					fr = fr.clone()
				}
				ps = append(ps, path{o.st, fr})
			}
			return ps, false
		}
		st.spawns = append(st.spawns, spawn{fv.fn, fv.args, x.Pos()})
		return nil, true
	case *ssa.Send:
		outs := e.send(st, e.val(p, x.Chan), e.val(p, x.X), x.Chan.Type(), x.Pos(), false)
		var ps []path
		for i, o := range outs {
			fr := p.fr
			if i > 0 {
				fr = fr.clone()
			}
			ps = append(ps, path{o, fr})
		}
		return ps, false
	case *ssa.Select:
		return e.selectOp(p, x)
	case *ssa.SliceToArrayPointer:
		panic(unsup("slice to array pointer"))
	}
	panic(unsup("instruction %T", in))
}

func (e *Engine) resume(p path, outs []outcome, x *ssa.Call) ([]path, bool) {
	var ps []path
	for i, o := range outs {
		fr := p.fr
		if i < len(outs)-1 {
			fr = p.fr.clone()
		}
		if x != nil {
			switch rt := x.Type().(type) {
			case *types.Tuple:
				if rt.Len() == 0 {
				} else {
					fr.env[x] = TupleV(o.res)
				}
			default:
				if len(o.res) > 0 {
					fr.env[x] = o.res[0]
				}
			}
		}
		ps = append(ps, path{o.st, fr})
	}
	return ps, false
}

func (e *Engine) unop(p path, x *ssa.UnOp) ([]path, bool) {
	c := e.c
	st, env := p.st, p.fr.env
	v := e.val(p, x.X)
	switch x.Op {
	case token.MUL:
		if !e.derefOK(st, v, x.Pos()) {
			return nil, false
		}
		if !e.guardCheck(st, v, x.Type(), false, x.Pos()) {
			return nil, false
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if gv, ok := e.globalValue(st, g); ok {
				env[x] = gv
				return nil, true
			}
		}
		env[x] = e.load(st, v, x.Type())
		return nil, true
	case token.NOT:
		env[x] = c.Not(v.(*Term))
		return nil, true
	case token.SUB:
		t := v.(*Term)
		switch t.S.K {
		case KInt:
			env[x] = e.wrap(st, c.MulC(big.NewInt(-1), t), x.Type())
		case KBV:
			env[x] = c.BVBin("bvsub", c.BVc(0, t.S.W), t)
		case KFP:
			env[x] = c.FP("fp.neg", c.F64, t)
		}
		return nil, true
	case token.XOR:
		t := v.(*Term)
		if t.S.K == KBV {
			env[x] = c.BVNot(t)
		} else {
			_, signed, _, _ := intInfo(x.Type())
			if signed {
				env[x] = c.Sub(c.N(-1), t)
			} else {
				env[x] = c.Sub(c.BigN(uintMax), t)
			}
		}
		return nil, true
	case token.ARROW:
		outs := e.recv(st, v, x.X.Type(), x.CommaOk, x.Pos())
		var ps []path
		for i, o := range outs {
			fr := p.fr
			if i < len(outs)-1 {
				fr = p.fr.clone()
			}
			if x.CommaOk {
				fr.env[x] = TupleV(o.res)
			} else {
				fr.env[x] = o.res[0]
			}
			ps = append(ps, path{o.st, fr})
		}
		return ps, false
	}
	panic(unsup("unop %s", x.Op))
}

func (e *Engine) strIndex(st *State, s, idx *Term) *Term {
	c := e.c
	if s.Op == "strlit" {
		lit := c.litVal(s)
		if idx.Op == "int" {
			return c.BVc(uint64(lit[idx.I.Int64()]), 8)
		}
		if len(lit) <= 64 {
			out := c.BVc(0, 8)
			for i := len(lit) - 1; i >= 0; i-- {
				out = c.Ite(c.Eq(idx, c.N(int64(i))), c.BVc(uint64(lit[i]), 8), out)
			}
			return out
		}
	}
	return c.App("strat", c.BV(8), s, idx)
}

func (e *Engine) sliceOp(p path, x *ssa.Slice) (V, bool) {
	c := e.c
	st := p.st
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.toInt(e.val(p, v).(*Term), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.N(0)
	}
	base := e.val(p, x.X)
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s := base.(SliceV)
		if hi == nil {
			hi = s.Len
		}
		m := s.Cap
		cond := c.And(c.Le(c.N(0), lo), c.Le(lo, hi), c.Le(hi, s.Cap))
		if mx != nil {
			cond = c.And(c.Le(c.N(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, s.Cap))
			m = mx
		}
		if !e.safety(st, "slice bounds in range", cond, x.Pos()) {
			return nil, false
		}
		ref := s.Ref
		return SliceV{ref, c.Add(s.Off, lo), c.Sub(hi, lo), c.Sub(m, lo)}, true
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		n := c.N(a.Len())
		if hi == nil {
			hi = n
		}
		m := n
		if mx != nil {
			m = mx
		}
		if !e.safety(st, "slice bounds in range", c.And(c.Le(c.N(0), lo), c.Le(lo, hi), c.Le(hi, m), c.Le(m, n)), x.Pos()) {
			return nil, false
		}
		switch b := base.(type) {
		case *Term:
			return SliceV{b, lo, c.Sub(hi, lo), c.Sub(m, lo)}, true
		case PtrV:
			// slice of an array inside another object: a snapshot view is not sound for writes
			panic(unsup("slice of array field"))
		}
	case *types.Basic: // string
		s := base.(*Term)
		n := e.strlen(st, s)
		if hi == nil {
			hi = n
		}
		if !e.safety(st, "slice bounds in range", c.And(c.Le(c.N(0), lo), c.Le(lo, hi), c.Le(hi, n)), x.Pos()) {
			return nil, false
		}
		if s.Op == "strlit" && lo.Op == "int" && hi.Op == "int" {
			return c.StrLit(c.litVal(s)[lo.I.Int64():hi.I.Int64()]), true
		}
		if lo.Op == "int" && lo.I.Sign() == 0 && hi == n {
			return s, true
		}
		r := c.App("strsub", c.Str, s, lo, hi)
		st.fact(e, c.Eq(e.strlen(st, r), c.Sub(hi, lo)))
		return r, true
	}
	panic(unsup("slice of %s", x.X.Type()))
}

// implementers of an interface among known tags
func (e *Engine) implTag(tag int64, it *types.Interface) bool {
	t := e.tagTypes[tag]
	return t != nil && types.Implements(t, it)
}

func (e *Engine) typeAssert(p path, x *ssa.TypeAssert) ([]path, bool) {
	c := e.c
	st := p.st
	iv := e.val(p, x.X).(IfaceV)
	var cond *Term
	var mk func(st *State) V
	if it, ok := under(x.AssertedType).(*types.Interface); ok {
		mk = func(*State) V { return iv }
		switch {
		case iv.Tag.Op == "int":
			cond = c.B(iv.Tag.I.Sign() != 0 && (e.implTag(iv.Tag.I.Int64(), it) || it.NumMethods() == 0))
		case types.Implements(x.X.Type(), it) || it.NumMethods() == 0:
			cond = c.Not(c.Eq(iv.Tag, c.N(0)))
		default:
			var alts []*Term
			for id := range e.tagTypes {
				if e.implTag(id, it) {
					alts = append(alts, c.Eq(iv.Tag, c.N(id)))
				}
			}
			u := c.App("impl_"+clean(e.typeKey(x.AssertedType)), c.Bool, iv.Tag)
			alts = append(alts, c.And(u, c.Lt(c.N(1<<30), iv.Tag)))
			cond = c.Or(alts...)
		}
	} else {
		tag := e.tagOf(x.AssertedType)
		cond = c.Eq(iv.Tag, tag)
		t := x.AssertedType
		mk = func(st *State) V { return e.unbox(st, IfaceV{tag, iv.Ref}, t) }
	}
	if !x.CommaOk {
		if !e.safety(st, "type assertion holds", cond, x.Pos()) {
			return nil, false
		}
		p.fr.env[x] = mk(st)
		return nil, true
	}
	zero := e.zero(x.AssertedType)
	if cond == c.True {
		p.fr.env[x] = TupleV{mk(st), c.True}
		return nil, true
	}
	if cond == c.False {
		p.fr.env[x] = TupleV{zero, c.False}
		return nil, true
	}
	ft := e.feasible(st, cond)
	ff := e.feasible(st, c.Not(cond))
	var ps []path
	if ft {
		q := path{st.clone(), p.fr.clone()}
		q.st.decide(cond)
		q.fr.env[x] = TupleV{mk(q.st), c.True}
		ps = append(ps, q)
	}
	if ff {
		st.decide(c.Not(cond))
		p.fr.env[x] = TupleV{zero, c.False}
		ps = append(ps, p)
	}
	return ps, false
}

func (e *Engine) dump(a ...any) {
	if e.trace {
		fmt.Fprintln(os.Stderr, a...)
	}
}

var _ = strings.Contains
