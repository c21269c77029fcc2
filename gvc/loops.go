package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	exits  []*ssa.BasicBlock
	ord    int
}
type loopForest struct {
	header map[*ssa.BasicBlock]*loop
	inner  map[*ssa.BasicBlock]*loop // innermost loop of a block
	all    []*loop
}

func (e *Engine) loops(fn *ssa.Function) *loopForest {
	if lf, ok := e.loopInfo[fn]; ok {
		return lf
	}
	lf := &loopForest{header: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := lf.header[s]
			if l == nil {
				l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}, ord: len(lf.all)}
				lf.header[s] = l
				lf.all = append(lf.all, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	sort.Slice(lf.all, func(i, j int) bool { return len(lf.all[i].blocks) > len(lf.all[j].blocks) })
	for _, l := range lf.all {
		for b := range l.blocks {
			if p := lf.inner[b]; b == l.head && p != nil {
				l.parent = p
			}
			lf.inner[b] = l
		}
		seen := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			if !l.blocks[b] {
				continue
			}
			for _, s := range b.Succs {
				if !l.blocks[s] && !seen[s] {
					seen[s] = true
					l.exits = append(l.exits, s)
				}
			}
		}
	}
	e.loopInfo[fn] = lf
	return lf
}

// postdom gives immediate postdominators (nil for blocks whose only postdominator is the exit).
func (e *Engine) postdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if m, ok := e.pdom[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	// sets as bitmaps; virtual exit = n
	full := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(n+1)), bigOne)
	pd := make([]*big.Int, n+1)
	for i := range pd {
		pd[i] = full
	}
	pd[n] = new(big.Int).SetBit(new(big.Int), n, 1)
	isPanic := func(b *ssa.BasicBlock) bool {
		if len(b.Instrs) == 0 {
			return false
		}
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return ok
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var s *big.Int
			if len(b.Succs) == 0 {
				if isPanic(b) {
					continue // panicking blocks constrain nothing
				}
				s = pd[n]
			} else {
				s = full
				for _, q := range b.Succs {
					s = new(big.Int).And(s, pd[q.Index])
				}
			}
			s = new(big.Int).SetBit(new(big.Int).Set(s), i, 1)
			if s.Cmp(pd[i]) != 0 {
				pd[i] = s
				ch = true
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	cnt := func(x *big.Int) int {
		k := 0
		for i := 0; i <= n; i++ {
			k += int(x.Bit(i))
		}
		return k
	}
	for i, b := range fn.Blocks {
		if pd[i].Cmp(full) == 0 {
			continue
		}
		var best *ssa.BasicBlock
		bc := -1
		for j := 0; j < n; j++ {
			if j != i && pd[i].Bit(j) == 1 && pd[j].Cmp(full) != 0 {
				if k := cnt(pd[j]); k > bc {
					bc, best = k, fn.Blocks[j]
				}
			}
		}
		if best != nil {
			m[b] = best
		}
	}
	e.pdom[fn] = m
	return m
}

// ---------------------------------------------------------------- running loops

type cand struct {
	name string
	eval func(p path) *Term
	args func(p path) string // identifies the arguments
	desc string
	id   string
}

// warmLoop remembers, while an enclosing loop is analysed again and again, what was found out about an inner one.
type warmLoop struct {
	writes  [2]map[string]wr           // heap components written (outside and inside of write discovery)
	dropped map[string]map[string]bool // for each visit, the candidates that are not inductive
	ncand   map[string]int
}

func (e *Engine) loopKey(fn *ssa.Function, l *loop) string {
	k := ""
	for i, f := range e.calls {
		k += f.Name() + "/"
		if i < len(e.callPos) {
			k += fmt.Sprint(int(e.callPos[i])) + "/"
		}
	}
	return k + fn.String() + fmt.Sprintf("#%d", l.ord)
}

const unrollCap = 300

func (e *Engine) runLoop(p path, l *loop, from *ssa.BasicBlock, stops map[*ssa.BasicBlock]bool) (arr []arrival, rets []outcome) {
	base := p.st.pc
	e.phis(p, l.head, from)
	inner := map[*ssa.BasicBlock]bool{l.head: true}
	for s := range stops {
		inner[s] = true
	}
	for _, x := range l.exits {
		inner[x] = true
	}
	var outs []arrival
	if a, r, ok := e.unroll(p, l, inner, 0); ok {
		outs, rets = a, r
	} else {
		outs, rets = e.invLoop(p, l, inner)
	}
	// continue after the loop, merging per exit block
	seen := map[*ssa.BasicBlock]bool{}
	for _, o := range outs {
		if stops[o.at] {
			arr = append(arr, o)
			continue
		}
		if seen[o.at] {
			continue
		}
		seen[o.at] = true
		var same []arrival
		for _, q := range outs {
			if q.at == o.at {
				same = append(same, q)
			}
		}
		lf := e.loops(p.fr.fn)
		if hl := lf.header[o.at]; hl != nil {
			for _, q := range same {
				a, r := e.run(q.path, q.at, q.from, stops)
				arr = append(arr, a...)
				rets = append(rets, r...)
			}
			continue
		}
		for _, m := range e.mergeArrivals(base, o.at, same) {
			a, r := e.runAfterPhis(m, o.at, stops)
			arr = append(arr, a...)
			rets = append(rets, r...)
		}
	}
	return
}

// unroll executes the loop iteration by iteration as long as one single path goes round and
// the loop condition is decided without help of the solver.
func (e *Engine) unroll(p path, l *loop, inner map[*ssa.BasicBlock]bool, it int) (outs []arrival, rets []outcome, ok bool) {
	if !e.worthUnrolling(p, l) {
		return nil, nil, false
	}
	q := path{p.st.clone(), p.fr.clone()}
	nres := len(e.results)
	save := make([]Oblig, nres)
	for i, o := range e.results {
		save[i] = *o
	}
	limit := unrollCap
	if n, err := strconv.Atoi(e.harness.Opts["unroll"]); err == nil {
		limit = n
	}
	for it0 := it; it < limit; it++ {
		if it > it0 && !e.worthUnrolling(q, l) {
			e.results = e.results[:nres]
			for i := range save {
				*e.results[i] = save[i]
			}
			return nil, nil, false
		}
		base := q.st.pc
		a, r := e.runAfterPhis(q, l.head, inner)
		rets = append(rets, r...)
		var back []arrival
		for _, x := range a {
			if x.at == l.head {
				back = append(back, x)
			} else {
				outs = append(outs, x)
			}
		}
		if len(back) == 0 {
			return outs, rets, true
		}
		ms := e.mergeArrivals(base, l.head, back)
		if len(ms) > 1 {
			if it < 8 && len(ms) <= 4 {
				// several genuinely different ways round: unroll each
				for _, m := range ms {
					o2, r2, ok2 := e.unroll(m, l, inner, it+1)
					if !ok2 {
						e.results = e.results[:nres]
						for i := range save {
							*e.results[i] = save[i]
						}
						return nil, nil, false
					}
					outs = append(outs, o2...)
					rets = append(rets, r2...)
				}
				return outs, rets, true
			}
			e.results = e.results[:nres]
			for i := range save {
				*e.results[i] = save[i]
			}
			return nil, nil, false
		}
		q = ms[0]
	}
	e.results = e.results[:nres]
	for i := range save {
		*e.results[i] = save[i]
	}
	return nil, nil, false
}

// worthUnrolling: the condition controlling the loop evaluates to a constant in the header block.
func (e *Engine) worthUnrolling(p path, l *loop) bool {
	// find the first conditional branch inside the loop that can leave it
	b := l.head
	fr := p.fr.clone()
	q := path{p.st, fr}
	for step := 0; step < 8; step++ {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				if ph, ok := in.(*ssa.Phi); ok && b != l.head {
					_ = ph
					return false
				}
			case *ssa.BinOp:
				func() {
					defer func() { recover() }()
					e.quiet++
					defer func() { e.quiet-- }()
					s := p.st.clone()
					if v, ok := e.binop(path{s, fr}, x); ok {
						fr.env[x] = v
					}
				}()
			case *ssa.Call:
				if bl, ok := x.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" {
					func() {
						defer func() { recover() }()
						switch v := e.val(q, x.Call.Args[0]).(type) {
						case SliceV:
							fr.env[x] = v.Len
						}
					}()
					continue
				}
				return false
			case *ssa.Next:
				return false
			case *ssa.If:
				v, ok := func() (v V, ok bool) {
					defer func() {
						if recover() != nil {
							ok = false
						}
					}()
					return e.val(q, x.Cond), true
				}()
				if !ok {
					return false
				}
				t, ok := v.(*Term)
				return ok && (t == e.c.True || t == e.c.False)
			case *ssa.Jump:
			case *ssa.Return, *ssa.Panic:
				return false
			case *ssa.UnOp:
				if x.Op == token.MUL {
					func() {
						defer func() { recover() }()
						s := p.st.clone()
						e.quiet++
						defer func() { e.quiet-- }()
						fr.env[x] = e.load(s, e.val(q, x.X), x.Type())
					}()
				}
			case *ssa.Extract, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Store, *ssa.Slice, *ssa.Convert:
			default:
				return false
			}
		}
		if len(b.Succs) != 1 || !l.blocks[b.Succs[0]] {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

type loopVar struct {
	ph   *ssa.Phi
	init V
}

// invLoop handles a loop with an inductive invariant found among candidate formulas.
func (e *Engine) invLoop(p path, l *loop, inner map[*ssa.BasicBlock]bool) (outs []arrival, rets []outcome) {
	c := e.c
	e.nloops++
	e.checkDeadline()
	if e.loopDepth == 0 {
		e.warm, e.warmMark = map[string]*warmLoop{}, c.n
	}
	e.loopDepth++
	defer func() { e.loopDepth-- }()
	lk := e.loopKey(p.fr.fn, l)
	wl := e.warm[lk]
	if e.trace {
		t0, q0 := time.Now(), e.light.Checks+e.full.Checks
		e.dump(strings.Repeat("  ", e.loopDepth), "> loop", l.ord, "of", p.fr.fn.Name(), "discover", e.discover, "quiet", e.quiet)
		defer func() {
			e.dump(strings.Repeat("  ", e.loopDepth+1), "< loop", l.ord, "of", p.fr.fn.Name(), "outs", len(outs), "rets", len(rets), "q", e.light.Checks+e.full.Checks-q0, time.Since(t0))
		}()
	}
	if wl == nil {
		wl = &warmLoop{dropped: map[string]map[string]bool{}, ncand: map[string]int{}}
		e.warm[lk] = wl
	}
	vk := lk + fmt.Sprintf("@%d", e.visits[lk])
	if e.visits != nil {
		e.visits[lk]++
	}
	dropped := wl.dropped[vk]
	if dropped == nil {
		dropped = map[string]bool{}
		wl.dropped[vk] = dropped
	}
	phase := 0
	if e.discover > 0 {
		phase = 1
	}
	if wl.writes[phase] == nil {
		wl.writes[phase] = map[string]wr{}
	}
	entry := path{p.st.clone(), p.fr.clone()}
	var vars []loopVar
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vars = append(vars, loopVar{ph, p.fr.env[ph]})
	}
	limit := e.nextRef
	// havoc makes the arbitrary-iteration state
	writes := map[string]wr{}
	havoc := func() path {
		q := path{entry.st.clone(), entry.fr.clone()}
		st := q.st
		hi := e.newEpoch(st)
		keys := map[string]bool{}
		for _, w := range writes {
			if w.idx == nil {
				keys[w.key] = true
			}
		}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			ki := e.keys[k]
			old := e.heapGet(st, k)
			n := c.Fresh("L_"+k, old.S)
			n.RefHi = hi
			_ = ki
			// objects allocated before the loop by seen code and never written keep their value only
			// through invariants; everything may have changed
			e.heapSetAll(st, k, n)
		}
		var ws []string
		for k, w := range writes {
			if w.idx != nil && !keys[w.key] {
				ws = append(ws, k)
			}
		}
		sort.Strings(ws)
		for _, k := range ws {
			w := writes[k]
			ki := e.keys[w.key]
			n := c.Fresh("L_"+w.key, ki.sort)
			n.RefHi = hi
			e.heapSet(st, w.key, w.idx, n)
			if ki.typ != nil && ki.sort == e.sortOf(ki.typ) {
				e.assumeWF(st, e.unpack(n, ki.typ), ki.typ, hi)
			}
		}
		for _, v := range vars {
			if e.constPhi(l, v.ph) {
				continue
			}
			q.fr.env[v.ph] = e.freshVal(st, "l_"+v.ph.Comment, v.ph.Type(), hi)
		}
		// hooks and ghost registers are not allowed to change in a loop
		return q
	}
	run := func(q path) (a []arrival, r []outcome) {
		sv := e.visits
		e.visits = map[string]int{}
		a, r = e.runAfterPhis(q, l.head, inner)
		e.visits = sv
		return
	}
	// note adds what a run wrote to the write set
	note := func(m map[string]wr, hstart int64, mark int) (ch bool) {
		for k, w := range m {
			if w.idx != nil {
				if w.idx.Op == "int" && w.idx.I.IsInt64() && w.idx.I.Int64() > hstart {
					continue // object allocated inside the iteration
				}
				if !e.stable(w.idx, limit, mark) {
					w = wr{w.key, nil}
					k = w.key
				}
			}
			if o, ok := writes[w.key]; ok && o.idx == nil {
				continue
			}
			if _, ok := writes[k]; !ok {
				writes[k] = w
				if e.trace {
					e.dump(strings.Repeat("  ", e.loopDepth+1), "loop", l.ord, "writes", w.key[strings.LastIndexAny(w.key, ".}:]")+1:])
				}
				if w.idx == nil || w.idx.ID < e.warmMark && !w.idx.Bound && !e.mentionsLoopVar(w.idx) {
					wl.writes[phase][k] = w
				}
				ch = true
			}
		}
		return
	}
	recorded := func(f func()) bool {
		hstart := e.nextRef
		m := map[string]wr{}
		e.rec = append(e.rec, &m)
		e.quiet++
		mark := c.n
		f()
		e.quiet--
		e.rec = e.rec[:len(e.rec)-1]
		return note(m, hstart, mark)
	}
	for k, w := range wl.writes[phase] {
		if e.keys[w.key] != nil {
			writes[k] = w
		}
	}
	// discover writes
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsup("loop write set does not stabilise in %s", p.fr.fn))
		}
		h := havoc()
		var a []arrival
		var r []outcome
		e.discover++
		ch := recorded(func() { a, r = run(h) })
		e.discover--
		if !ch {
			if e.discover > 0 {
				for _, x := range a {
					if x.at != l.head {
						outs = append(outs, x)
					}
				}
				return outs, r
			}
			break
		}
	}
	cs := e.candidates(entry, l, vars, havoc, inner)
	nth := map[string]int{}
	for i := range cs {
		cs[i].id = fmt.Sprintf("%s#%d", cs[i].name, nth[cs[i].name])
		nth[cs[i].name]++
	}
	if wl.ncand[vk] != len(cs) {
		wl.ncand[vk] = len(cs)
		dropped = map[string]bool{}
		wl.dropped[vk] = dropped
	}
	// keep candidates true on entry, one of each kind
	var live []cand
	type twin struct{ a, b int }
	seen := map[twin]bool{}
	seenArgs := map[string]bool{}
	h1 := havoc()
	for _, x := range cs {
		if dropped[x.id] {
			continue
		}
		t, ok := e.evalCand(entry, x)
		if !ok {
			continue
		}
		if x.args != nil {
			k := x.name + x.args(entry) + "|" + x.args(h1)
			if seenArgs[k] {
				continue
			}
			seenArgs[k] = true
		} else if t2, ok := e.evalCand(h1, x); ok && t2 != c.True && !t2.Bound {
			if seen[twin{t.ID, t2.ID}] {
				continue
			}
			seen[twin{t.ID, t2.ID}] = true
		}
		if e.valid(entry.st, t) {
			live = append(live, x)
		} else {
			if os.Getenv("GVC_TRACE") == x.id {
				e.dump("  not at entry:", x.id, x.desc, "in loop", l.ord, fmt.Sprintf("%.30000s", e.c.Str0(t)))
				for _, n := range entry.st.pc.list() {
					e.dump("      ", n.dec, e.c.Str0(n.t))
				}
			}
			dropped[x.id] = true
		}
	}
	if e.trace {
		e.dump(strings.Repeat("  ", e.loopDepth+1), "candidates", len(cs), "live", len(live), "q", e.light.Checks+e.full.Checks)
	}
	var h0 path
	var a []arrival
	var r []outcome
	var backs []path
	goRound := func() {
		h := havoc()
		h0 = path{}
		for _, x := range live {
			if t, ok := e.evalCand(h, x); ok {
				h.st.fact(e, t)
			}
		}
		h0 = path{h.st.clone(), h.fr.clone()}
		a, r = run(h)
		backs = nil
		for _, x := range a {
			if x.at == l.head {
				q := path{x.st, x.fr}
				e.phis(q, l.head, x.from)
				backs = append(backs, q)
			}
		}
	}
	for round := 0; ; round++ {
		e.checkDeadline()
		e.houdiniN++
		again := recorded(goRound)
		known := map[int]bool{}
		for _, x := range live {
			if t, ok := e.evalCand(h0, x); ok {
				known[t.ID] = true
			}
		}
		var next []cand
		for _, x := range live {
			keep := true
			for _, b := range backs {
				t, ok := e.evalCand(b, x)
				if ok && known[t.ID] {
					continue
				}
				if !ok || !e.valid(b.st, t) {
					keep = false
					if e.trace {
						e.dump("  drop", x.id, x.desc, "in loop", l.ord)
						if os.Getenv("GVC_TRACE") == x.id && ok {
							for _, n := range b.st.pc.list() {
								if n.dec {
									e.dump("      ", fmt.Sprintf("%.200s", e.c.Str0(n.t)))
								}
							}
							e.dump("   GOAL", fmt.Sprintf("%.30000s", e.c.Str0(t)))
						}
					}
					break
				}
			}
			if keep {
				next = append(next, x)
			} else {
				again = true
				dropped[x.id] = true
			}
		}
		if e.trace {
			e.dump(strings.Repeat("  ", e.loopDepth+1), "round", round, "of loop", l.ord, "candidates", len(live), "->", len(next), "backs", len(backs), "q", e.light.Checks+e.full.Checks)
		}
		live = next
		if !again {
			break
		}
	}
	if e.trace {
		e.dump("loop in", p.fr.fn, "keeps")
		for _, x := range live {
			e.dump("   ", x.name, x.desc)
		}
	}
	if e.quiet == 0 || e.pure > 0 {
		goRound() // once more, emitting obligations
	}
	for _, x := range a {
		if x.at != l.head {
			outs = append(outs, x)
		}
	}
	rets = r
	for _, b := range backs {
		if !sameLocks(entry.st.locks, b.st.locks) {
			e.oblige(b.st.clone(), "lock", "a loop iteration leaves the locks as it found them", e.harness.LockProps, c.False, loopPos(l))
		}
		if len(b.st.spawns) != len(entry.st.spawns) && e.harness.Opts["dropgo"] == "" && e.pure == 0 {
			panic(unsup("goroutine started inside a loop at %s", e.pos(loopPos(l))))
		}
	}
	if e.quiet == 0 && e.pure == 0 && len(e.harness.Terminates) > 0 && e.spawnDepth == 0 && !e.blocks(l) {
		e.termination(h0, backs, vars, l)
	}
	return
}

// blocks: the loop waits for the outside world in each iteration (its termination is not claimed).
func (e *Engine) blocks(l *loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				return true
			case *ssa.Select:
				timed := !x.Blocking
				for _, s := range x.States {
					timed = timed || isTimer(s.Chan.Type())
				}
				if !timed {
					return true
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && !isTimer(x.X.Type()) {
					return true
				}
			case *ssa.Call:
				if x.Call.IsInvoke() && (x.Call.Method.Name() == "Read" || x.Call.Method.Name() == "Decode") {
					return true
				}
			}
		}
	}
	return false
}

// stable: the term denotes the same value in every iteration.
func (e *Engine) stable(t *Term, limit int64, mark int) bool {
	if t.Op == "int" {
		return true
	}
	if t.ID < mark {
		// created before the run; fresh loop variables are created in havoc, i.e. before mark too
		return !e.mentionsLoopVar(t)
	}
	return false
}
func (e *Engine) mentionsLoopVar(t *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if t.Op == "var" && len(t.Name) > 2 && (t.Name[:2] == "l_" || t.Name[:2] == "L_" || t.Name[:2] == "E_") {
			return true
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// constPhi: all edges of the phi carry the same value.
func (e *Engine) constPhi(l *loop, ph *ssa.Phi) bool {
	var outer ssa.Value
	for i, q := range l.head.Preds {
		if !l.blocks[q] {
			if outer != nil && outer != ph.Edges[i] {
				return false
			}
			outer = ph.Edges[i]
		}
	}
	for i, q := range l.head.Preds {
		if l.blocks[q] && ph.Edges[i] != ph {
			return false
		}
	}
	return true
}

func (e *Engine) evalCand(p path, x cand) (t *Term, ok bool) {
	back := e.mark()
	defer func() {
		if r := recover(); r != nil {
			back()
			if _, is := r.(*unsupported); is {
				if e.trace {
					e.dump("candidate", x.name, "not evaluable:", r)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	sv := e.iterFrame
	e.iterFrame = p.fr
	defer func() { e.iterFrame = sv }()
	t = x.eval(p)
	return t, t != nil
}

// atEntry: the value an expression of the loop has when the loop is entered (nil: not known).
func (e *Engine) atEntry(p path, v ssa.Value, l *loop, depth int) V {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !l.blocks[in.Block()] {
		return e.val(p, v)
	}
	if _, done := p.fr.env[v]; done {
		return p.fr.env[v]
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return nil
		}
	case *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp:
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return nil
		}
	default:
		return nil
	}
	if depth == 0 {
		return nil
	}
	for _, o := range in.Operands(nil) {
		if *o == nil {
			continue
		}
		if _, is := (*o).(*ssa.Builtin); is {
			continue
		}
		if e.atEntry(p, *o, l, depth-1) == nil {
			return nil
		}
	}
	if ps, same := e.instr(p, in); !same || len(ps) != 0 {
		return nil
	}
	return p.fr.env[v]
}

func (e *Engine) candidates(entry path, l *loop, vars []loopVar, havoc func() path, inner map[*ssa.BasicBlock]bool) []cand {
	c := e.c
	var cs []cand
	add := func(name string, f func(p path) *Term) { cs = append(cs, cand{name: name, eval: f}) }
	// loop-invariant integer terms appearing in comparisons of the loop
	var bounds []*Term
	seenB := map[int]bool{}
	addB := func(t *Term) {
		if t != nil && t.S.K == KInt && !t.Bound && !seenB[t.ID] {
			seenB[t.ID] = true
			bounds = append(bounds, t)
		}
	}
	var ints []loopVar
	for _, v := range vars {
		if _, _, asInt, ok := intInfo(v.ph.Type()); ok && asInt {
			ints = append(ints, v)
		}
	}
	scratch := path{entry.st.clone(), entry.fr.clone()}
	getv := func(x ssa.Value) (t *Term) {
		back := e.mark()
		defer func() {
			if recover() != nil {
				back()
				t = nil
			}
		}()
		e.quiet++
		e.pure++
		v := e.atEntry(scratch, x, l, 8)
		e.pure--
		e.quiet--
		switch y := v.(type) {
		case *Term:
			return y
		case SliceV:
			return y.Len
		}
		return nil
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					for _, o := range []ssa.Value{x.X, x.Y} {
						if _, _, asInt, ok := intInfo(o.Type()); ok && asInt {
							if _, isPhi := o.(*ssa.Phi); !isPhi {
								addB(getv(o))
							}
						}
					}
				}
			case *ssa.Call:
				if bl, ok := x.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" {
					if _, ok := under(x.Call.Args[0].Type()).(*types.Slice); ok {
						addB(getv(x.Call.Args[0]))
					}
				}
			}
		}
	}
	for v, x := range entry.fr.env {
		if sv, ok := x.(SliceV); ok {
			if _, isPhi := v.(*ssa.Phi); !isPhi || true {
				addB(sv.Len)
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].ID < bounds[j].ID })
	for _, v := range ints {
		ph := v.ph
		v0, ok := v.init.(*Term)
		if !ok {
			continue
		}
		get := func(p path) *Term { return p.fr.env[ph].(*Term) }
		add(ph.Comment+">=init", func(p path) *Term { return c.Le(v0, get(p)) })
		add(ph.Comment+"<=init", func(p path) *Term { return c.Le(get(p), v0) })
		add(ph.Comment+">=0", func(p path) *Term { return c.Le(c.N(0), get(p)) })
		add(ph.Comment+">=-1", func(p path) *Term { return c.Le(c.N(-1), get(p)) })
		for _, b := range bounds {
			for k := int64(-1); k <= 1; k++ {
				add(fmt.Sprintf("%s<=bound%+d", ph.Comment, k), func(p path) *Term { return c.Le(get(p), c.AddN(b, k)) })
				add(fmt.Sprintf("%s=init or <=bound%+d", ph.Comment, k), func(p path) *Term { return c.Or(c.Eq(get(p), v0), c.Le(get(p), c.AddN(b, k))) })
			}
		}
		for _, w := range ints {
			if w.ph == ph {
				continue
			}
			w0, ok := w.init.(*Term)
			if !ok {
				continue
			}
			add("lockstep", func(p path) *Term {
				return c.Eq(c.Sub(get(p), v0), c.Sub(p.fr.env[w.ph].(*Term), w0))
			})
			add("antistep", func(p path) *Term {
				return c.Eq(c.Sub(get(p), v0), c.Sub(w0, p.fr.env[w.ph].(*Term)))
			})
		}
	}
	// slices
	for _, v := range vars {
		if v0, ok := v.init.(SliceV); ok {
			ph := v.ph
			get := func(p path) SliceV { return p.fr.env[ph].(SliceV) }
			add(ph.Comment+" same object", func(p path) *Term { return c.Eq(get(p).Ref, v0.Ref) })
			add(ph.Comment+" same end", func(p path) *Term {
				s := get(p)
				return c.Eq(c.Add(s.Off, s.Len), c.Add(v0.Off, v0.Len))
			})
			add(ph.Comment+" same capend", func(p path) *Term {
				s := get(p)
				return c.Eq(c.Add(s.Off, s.Cap), c.Add(v0.Off, v0.Cap))
			})
			add(ph.Comment+" same off", func(p path) *Term { return c.Eq(get(p).Off, v0.Off) })
			add(ph.Comment+" off0", func(p path) *Term { return c.Le(v0.Off, get(p).Off) })
			add(ph.Comment+" same len", func(p path) *Term { return c.Eq(get(p).Len, v0.Len) })
			add(ph.Comment+" shrinks", func(p path) *Term { return c.Le(get(p).Len, v0.Len) })
			add(ph.Comment+" non-nil", func(p path) *Term { return c.Not(c.Eq(get(p).Ref, c.N(0))) })
			for _, w := range ints {
				w0, ok := w.init.(*Term)
				if !ok {
					continue
				}
				wp := w.ph
				add(ph.Comment+" len grows with counter", func(p path) *Term {
					return c.Eq(c.Sub(get(p).Len, v0.Len), c.Sub(p.fr.env[wp].(*Term), w0))
				})
				add(ph.Comment+" len shrinks with counter", func(p path) *Term {
					return c.Eq(c.Sub(v0.Len, get(p).Len), c.Sub(p.fr.env[wp].(*Term), w0))
				})
			}
		}
		if v0, ok := v.init.(IfaceV); ok {
			ph := v.ph
			add(ph.Comment+" same iface", func(p path) *Term {
				s := p.fr.env[ph].(IfaceV)
				return c.And(c.Eq(s.Tag, v0.Tag), c.Eq(s.Ref, v0.Ref))
			})
		}
		if v0, ok := v.init.(*Term); ok && (v0.S.K == KBool || v0.S.K == KBV || v0.S.K == KInt || v0.S.K == KStr) {
			ph := v.ph
			add(ph.Comment+" unchanged", func(p path) *Term { return c.Eq(p.fr.env[ph].(*Term), v0) })
		}
	}
	cs = append(cs, e.userCands(entry, l, vars)...)
	return cs
}

// userCands instantiates inv_* functions of the contract files with loop variables, parameters and free variables.
func (e *Engine) userCands(entry path, l *loop, vars []loopVar) []cand {
	var cs []cand
	fn := entry.fr.fn
	for _, inv := range e.p.invsFor(fn) {
		sig := inv.Fn.Signature
		np := sig.Params().Len()
		// value pool
		type item struct {
			v  ssa.Value
			ty types.Type
		}
		var pool []item
		seen := map[ssa.Value]bool{}
		addv := func(v ssa.Value) {
			if !seen[v] {
				seen[v] = true
				pool = append(pool, item{v, v.Type()})
			}
		}
		for _, v := range vars {
			addv(v.ph)
		}
		for _, pr := range fn.Params {
			addv(pr)
		}
		for _, fv := range fn.FreeVars {
			addv(fv)
		}
		{
			var ks []ssa.Value
			for v := range entry.fr.env {
				if _, basic := under(v.Type()).(*types.Basic); basic && !inv.All {
					continue
				}
				if in, ok := v.(ssa.Instruction); ok && (in.Parent() != fn || l.blocks[in.Block()] || !in.Block().Dominates(l.head)) {
					continue
				}
				ks = append(ks, v)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
			for _, v := range ks {
				addv(v)
			}
		}
		pick := make([]ssa.Value, np)
		n := 0
		var rec func(i int)
		rec = func(i int) {
			if n > 4000 {
				return
			}
			if i == np {
				args := append([]ssa.Value(nil), pick...)
				n++
				vals := func(p path) []V {
					var as []V
					for k, a := range args {
						v, ok := p.fr.env[a]
						if !ok {
							return nil
						}
						// free variables and allocs are addresses: load when the template wants the value
						pt := sig.Params().At(k).Type()
						if !types.Identical(pt, a.Type()) {
							v = e.load(p.st.clone(), v, pt)
						}
						as = append(as, v)
					}
					return as
				}
				cs = append(cs, cand{name: inv.Fn.Name(), eval: func(p path) *Term {
					as := vals(p)
					if len(as) < np {
						return nil
					}
					return e.evalPure(p.st, inv.Fn, as, nil)
				}, desc: fmt.Sprint(args), args: func(p path) string {
					s := ""
					for _, v := range vals(p) {
						s += "," + e.ident(v)
					}
					return s
				}})
				return
			}
			pt := sig.Params().At(i).Type()
			for _, it := range pool {
				ok := types.Identical(it.ty, pt)
				if !ok {
					if ptr, isP := it.ty.(*types.Pointer); isP && types.Identical(ptr.Elem(), pt) {
						switch it.v.(type) {
						case *ssa.FreeVar, *ssa.Alloc:
							ok = true
						}
					}
				}
				if !ok {
					continue
				}
				dup := false
				for k := 0; k < i; k++ {
					if pick[k] == it.v {
						dup = true
					}
				}
				if dup {
					continue
				}
				pick[i] = it.v
				rec(i + 1)
			}
		}
		rec(0)
	}
	return cs
}

// termination proves that some measure decreases and is bounded below.
func (e *Engine) termination(h path, backs []path, vars []loopVar, l *loop) {
	c := e.c
	if len(backs) == 0 {
		return
	}
	type meas struct {
		name string
		f    func(p path) *Term
	}
	var ms []meas
	var bounds []*Term
	for _, x := range h.fr.env {
		switch v := x.(type) {
		case SliceV:
			bounds = append(bounds, v.Len)
		case *Term:
			if v.S.K == KInt {
				bounds = append(bounds, v)
			}
		}
	}
	for _, v := range vars {
		ph := v.ph
		switch v.init.(type) {
		case SliceV:
			ms = append(ms, meas{"len", func(p path) *Term { return p.fr.env[ph].(SliceV).Len }})
		case *Term:
			if _, _, asInt, ok := intInfo(ph.Type()); ok && asInt {
				ms = append(ms, meas{"down", func(p path) *Term { return p.fr.env[ph].(*Term) }})
				for _, b := range bounds {
					ms = append(ms, meas{"up", func(p path) *Term { return c.AddN(c.Sub(b, p.fr.env[ph].(*Term)), 2) }})
				}
			}
		}
	}
	pos := e.pos(loopPos(l))
	for _, m := range ms {
		m0 := m.f(h)
		ok := true
		for _, b := range backs {
			if !e.valid(b.st, c.And(c.Le(c.N(0), m0), c.Lt(m.f(b), m0))) {
				ok = false
				break
			}
		}
		if ok {
			o := e.record("loop terminates", "termination", e.harness.Terminates, pos)
			o.N++
			o.Backend = "z3 5.3.2"
			return
		}
	}
	// map iteration: finite by the semantics of range
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && e.loops(h.fr.fn).inner[b] == l {
				_ = nx
				return
			}
		}
	}
	want := false
	for _, pr := range e.harness.Terminates {
		want = want || e.want[pr]
	}
	if !want {
		return
	}
	o := e.record("loop terminates", "termination", e.harness.Terminates, pos)
	o.N++
	o.Status = "failed"
	o.Detail = "no decreasing measure found"
	if os.Getenv("GVC_TRACE") != "" {
		e.dump("termination failed at", pos)
	}
}

func loopPos(l *loop) token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range l.head.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// mark remembers where the engine is; the function returned puts it back there after a panic.
func (e *Engine) mark() func() {
	s := *e
	busy := map[*ssa.Function]int{}
	for k, v := range e.recBusy {
		busy[k] = v
	}
	return func() {
		e.quiet, e.pure, e.rec, e.calls, e.callPos, e.discover, e.loopDepth = s.quiet, s.pure, s.rec, s.calls, s.callPos, s.discover, s.loopDepth
		e.useMode, e.deferStack, e.curPos, e.panicOK, e.frameCheck, e.curSelect = s.useMode, s.deferStack, s.curPos, s.panicOK, s.frameCheck, s.curSelect
		e.visits, e.qExtra, e.recDepth, e.spawnDepth, e.iterFrame, e.dbgBranches = s.visits, s.qExtra, s.recDepth, s.spawnDepth, s.iterFrame, s.dbgBranches
		e.recBusy = busy
	}
}

// ident tells values apart.
func (e *Engine) ident(v V) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprint(x.ID)
	case SliceV:
		return fmt.Sprint(x.Ref.ID, x.Off.ID, x.Len.ID, x.Cap.ID)
	case IfaceV:
		return fmt.Sprint(x.Tag.ID, x.Ref.ID)
	}
	return fmt.Sprintf("%v", v)
}
