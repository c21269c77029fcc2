package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// propsOf extracts the property ids of an obligation name such as "C01,C05.short frames".
func propsOf(id string) []string {
	i := strings.Index(id, ".")
	if i < 0 {
		return []string{id}
	}
	return strings.Split(id[:i], ",")
}

func (e *Engine) strArg(v V) string {
	t, ok := v.(*Term)
	if !ok || t.Op != "strlit" {
		panic(unsup("name must be a literal"))
	}
	return e.c.litVal(t)
}

// evalPure evaluates a specification function without side effects to one term.
func (e *Engine) evalPure(st *State, fn *ssa.Function, args, bind []V) *Term {
	c := e.c
	s := st.clone()
	base := s.pc
	e.pure++
	e.quiet++
	outs := e.callFn(s, fn, args, bind, token.NoPos)
	e.quiet--
	e.pure--
	if len(outs) == 0 {
		return c.True
	}
	var res *Term
	for i := len(outs) - 1; i >= 0; i-- {
		t, ok := outs[i].res[0].(*Term)
		if !ok {
			panic(unsup("specification function does not yield a scalar"))
		}
		dec, facts := suffix(base, outs[i].st.pc)
		if len(outs) == 1 {
			for _, f := range facts {
				st.fact(e, f)
			}
		}
		if res == nil {
			res = t
		} else {
			res = c.Ite(c.And(dec...), t, res)
		}
	}
	return res
}

// quantify evaluates a closure for an arbitrary argument.
func (e *Engine) quantify(st *State, f FuncV, ks []*Sort, kts []types.Type, rng func(q []*Term, st *State) *Term, all bool) *Term {
	c := e.c
	s := st.clone()
	var qs []*Term
	var args []V
	for i, k := range ks {
		q := c.Fresh("q", k)
		qs = append(qs, q)
		args = append(args, e.unpack(q, kts[i]))
	}
	r := rng(qs, s)
	if r == c.False {
		return c.B(all)
	}
	s.fact(e, r)
	if e.light.Check(s.pc, nil) == Unsat {
		return c.B(all)
	}
	ex := args
	if e.qExtra != nil {
		ex = e.qExtra(s, args)
	}
	body := e.evalPure(s, f.Fn, ex, f.Bind)
	var form *Term
	if all {
		form = c.Imp(r, body)
	} else {
		form = c.And(r, body)
	}
	sub := map[int]*Term{}
	var bs []*Term
	for i, q := range qs {
		b := c.BoundVar(ks[i])
		bs = append(bs, b)
		sub[q.ID] = b
	}
	if !all {
		form = c.Not(form)
	}
	var out *Term
	if len(qs) == 1 && ks[0].K == KInt {
		out = e.forallInt(form, qs[0])
	} else {
		f2 := c.Subst(form, sub)
		if !f2.Bound {
			out = f2
		} else {
			out = c.Forall(bs, f2, e.autoPats(f2, bs))
		}
	}
	if !all {
		out = c.Not(out)
	}
	return out
}

// forallInt builds forall q. form, reparametrised so that array accesses are triggers.
func (e *Engine) forallInt(form, q *Term) *Term {
	c := e.c
	if !mentions(form, q) {
		return form
	}
	// offsets d with select(arr, q+d)
	type od struct {
		d   *Term
		arr *Term
	}
	var offs []od
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "select" && t.Args[1].S.K == KInt && mentions(t.Args[1], q) && !mentions(t.Args[0], q) && !t.Args[0].Bound {
			d := c.Sub(t.Args[1], q)
			if !mentions(d, q) && !d.Bound {
				dup := false
				for _, o := range offs {
					if o.d == d {
						dup = true
					}
				}
				if !dup {
					offs = append(offs, od{d, t.Args[0]})
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(form)
	if len(offs) == 0 {
		b := c.BoundVar(c.Int)
		f := c.Subst(form, map[int]*Term{q.ID: b})
		return c.Forall([]*Term{b}, f, e.autoPats(f, []*Term{b}))
	}
	if len(offs) > 3 {
		offs = offs[:3]
	}
	var fs []*Term
	for _, o := range offs {
		b := c.BoundVar(c.Int)
		f := c.Subst(form, map[int]*Term{q.ID: c.Sub(b, o.d)})
		if !f.Bound {
			fs = append(fs, f)
			continue
		}
		fs = append(fs, c.Forall([]*Term{b}, f, e.autoPats(f, []*Term{b})))
	}
	return c.And(fs...)
}

func mentions(t, q *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == q {
			return true
		}
		if len(t.Args) == 0 || seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// autoPats: single-term triggers containing all bound variables, index exactly the bound variable.
func (e *Engine) autoPats(f *Term, bs []*Term) [][]*Term {
	var pats [][]*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] || t.Op == "forall" {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			walk(a)
		}
		if len(bs) == 1 && t.Op == "select" && t.Args[1] == bs[0] && !t.Args[0].Bound && patOK(t.Args[0]) {
			pats = append(pats, []*Term{t})
		}
		if t.Op == "app" && len(bs) == 1 {
			for _, a := range t.Args {
				if a == bs[0] {
					pats = append(pats, []*Term{t})
					break
				}
			}
		}
	}
	walk(f)
	if len(pats) > 6 {
		pats = pats[:6]
	}
	return pats
}
func patOK(t *Term) bool {
	switch t.Op {
	case "ite", "constarr":
		return false
	}
	return true
}

// ---------------------------------------------------------------- recursive specification functions

type recTerm struct {
	name string
	t    *Term
	arr  *Term
	lo   *Term
	hi   *Term
	ext  []*Term
	fn   *ssa.Function
}

// recApp applies rec_f(s []T, lo, hi int, extra...).
func (e *Engine) recApp(st *State, fn *ssa.Function, args []V) V {
	c := e.c
	sig := fn.Signature
	if why := e.recImpure(fn, map[*ssa.Function]bool{}); why != "" {
		panic(unsup("%s %s", fn.Name(), why))
	}
	s, ok := args[0].(SliceV)
	if !ok {
		panic(unsup("first argument of %s must be a slice", fn.Name()))
	}
	el := under(sig.Params().At(0).Type()).(*types.Slice).Elem()
	arr := c.Select(e.heapGet(st, e.memKey(el)), s.Ref)
	lo := c.Add(s.Off, args[1].(*Term))
	hi := c.Add(s.Off, args[2].(*Term))
	as := []*Term{arr, lo, hi}
	var ext []*Term
	for i := 3; i < len(args); i++ {
		ext = append(ext, e.pack(args[i], sig.Params().At(i).Type()))
	}
	as = append(as, ext...)
	rs := e.sortOf(sig.Results().At(0).Type())
	t := c.App(fn.Name(), rs, as...)
	if e.recDone == nil {
		e.recDone = map[int]bool{}
		e.recBase = map[int]bool{}
	}
	if d := c.Sub(hi, lo); !t.Bound && !e.recDone[t.ID] && e.recDepth >= 2 && !(d.Op == "int" && d.I.IsInt64() && d.I.Int64() <= 16) {
		if !e.recBase[t.ID] {
			e.recBase[t.ID] = true
			e.unfoldRec(fn, t, el, arr, lo, hi, args[3:], true)
		}
	} else if !t.Bound && !e.recDone[t.ID] {
		e.recDone[t.ID] = true
		e.recDepth++
		e.unfoldRec(fn, t, el, arr, lo, hi, args[3:], false)
		e.recDepth--
		// extensionality against earlier applications
		for _, o := range e.recTerms {
			if o.name != fn.Name() || o.t == t || o.arr == arr && o.lo == lo && o.hi == hi {
				continue
			}
			var prem []*Term
			for i := range ext {
				prem = append(prem, c.Eq(ext[i], o.ext[i]))
			}
			prem = append(prem, c.Eq(c.Sub(hi, lo), c.Sub(o.hi, o.lo)))
			if !(o.arr == arr && o.lo == lo) {
				q := c.Fresh("q", c.Int)
				body := c.Imp(c.And(c.Le(lo, q), c.Lt(q, hi)), c.Eq(c.Select(arr, q), c.Select(o.arr, c.Add(c.Sub(q, lo), o.lo))))
				prem = append(prem, e.forallInt(body, q))
			}
			c.Axioms = append(c.Axioms, c.Imp(c.And(prem...), c.Eq(t, o.t)))
		}
		e.recTerms = append(e.recTerms, recTerm{fn.Name(), t, arr, lo, hi, ext, fn})
	}
	return e.unpack(t, sig.Results().At(0).Type())
}

// recImpure: a recursive specification function may depend on nothing but the elements of its
// slice and its other parameters; says what else it reads.
func (e *Engine) recImpure(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] || fn.Blocks == nil {
		return ""
	}
	seen[fn] = true
	if len(seen) == 1 {
		if w, ok := e.recPure[fn]; ok {
			return w
		}
	}
	why := ""
	var base func(v ssa.Value) bool
	base = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Parameter:
			_, isSlice := under(x.Type()).(*types.Slice)
			return isSlice && x.Parent().Params[0] == x
		case *ssa.IndexAddr:
			return base(x.X)
		case *ssa.FieldAddr:
			return base(x.X)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && !base(x.X) {
					why = "reads more than its parameters"
				}
			case *ssa.Lookup:
				if _, ok := under(x.X.Type()).(*types.Map); ok {
					why = "reads a map"
				}
			case ssa.CallInstruction:
				f := x.Common().StaticCallee()
				if f == nil {
					if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
						why = "calls something unknown"
					}
				} else if f != fn && f.Blocks != nil && f.Pkg != nil && e.inRepo(f.Pkg.Pkg.Path()) {
					if w := e.recImpure(f, seen); w != "" {
						why = w
					}
				}
			}
		}
	}
	if e.recPure == nil {
		e.recPure = map[*ssa.Function]string{}
	}
	e.recPure[fn] = why
	return why
}

func (e *Engine) unfoldRec(fn *ssa.Function, t *Term, el types.Type, arr, lo, hi *Term, ext []V, base bool) {
	c := e.c
	s := e.newState()
	r := c.N(e.newRefID())
	e.keyFor(e.memKey(el), el, c.Arr(c.Int, e.sortOf(el)))
	saved := e.rec
	e.rec = nil
	e.heapSet(s, e.memKey(el), r, arr)
	args := []V{SliceV{r, c.N(0), c.BigN(maxLen), c.BigN(maxLen)}, lo, hi}
	args = append(args, ext...)
	// the definition is read over mathematical integers; it is well-founded because hi-lo decreases
	lim := c.N(1 << 60)
	for _, x := range []*Term{lo, hi} {
		s.fact(e, c.And(c.Le(c.N(-(1<<60)), x), c.Le(x, lim)))
	}
	empty := c.Le(hi, lo)
	if base {
		if empty == c.False {
			e.rec = saved
			return
		}
		s.fact(e, empty)
	}
	body := e.evalPure(s, fn, args, nil)
	e.rec = saved
	if base {
		c.Axioms = append(c.Axioms, c.Imp(empty, c.Eq(t, body)))
		return
	}
	c.Axioms = append(c.Axioms, c.Eq(t, body))
}

// ---------------------------------------------------------------- intrinsics

func (e *Engine) intrinsic(p path, fn *ssa.Function, args []V, cc *ssa.CallCommon, pos token.Pos) []outcome {
	c := e.c
	st := p.st
	one := func(vs ...V) []outcome { return []outcome{{st, vs}} }
	name := origin(fn).Name()
	use := p.fr.use
	targ := func(i int) types.Type { return fn.TypeArgs()[i] }
	switch name {
	case "Requires":
		t := args[0].(*Term)
		if use != nil {
			q := e.quiet
			if !use.quiet {
				e.quiet = 0
			}
			ok := e.oblige(st, "requires", "precondition of "+use.name, e.harness.SafetyProps, t, use.callPos)
			e.quiet = q
			if !ok {
				return nil
			}
			return one()
		}
		st.fact(e, t)
		if !e.feasible(st, nil) {
			return nil
		}
		return one()
	case "Assume":
		t := args[0].(*Term)
		st.fact(e, t)
		if t == c.False || !e.feasible(st, nil) {
			return nil
		}
		return one()
	case "Ensures":
		id := e.strArg(args[0])
		t := args[1].(*Term)
		if os.Getenv("GVC_ENS") == id {
			fmt.Println("ENS", t.ID, e.quiet, e.c.Str0(t), Script(c, st.pc, c.Not(t)))
		}
		if use != nil {
			st.fact(e, t)
			if t == c.False || !e.feasible(st, nil) {
				return nil
			}
			return one()
		}
		if !e.oblige(st, "ensures", id, propsOf(id), t, pos) {
			return nil
		}
		return one()
	case "Cover":
		id := e.strArg(args[0])
		if use == nil && e.quiet == 0 && !e.covers[id] {
			if e.feasible(st, nil) {
				e.covers[id] = true
			} else if _, ok := e.covers[id]; !ok {
				e.covers[id] = false
			}
		}
		return one()
	case "Any":
		v := e.freshVal(st, e.strArg(args[0]), targ(0), e.curRefHi(st))
		if e.quiet == 0 {
			e.addInput(st, e.strArg(args[0]), targ(0), v)
		}
		return one(v)
	case "Snapshot":
		s := args[0].(SliceV)
		k := e.memKey(targ(0))
		r := c.N(e.newRefID())
		e.heapSet(st, k, r, c.Select(e.heapGet(st, k), s.Ref))
		return one(SliceV{r, s.Off, s.Len, s.Cap})
	case "MapSnapshot":
		m := args[0].(*Term)
		mt := fn.Signature.Params().At(0).Type()
		dk, vk := e.mapKeys(mt)
		r := c.N(e.newRefID())
		mk := under(mt).(*types.Map)
		dom := c.Select(e.heapGet(st, dk), m)
		if m.Op == "int" && m.I.Sign() == 0 {
			dom = c.ConstArr(c.Arr(e.sortOf(mk.Key()), c.Bool), c.False)
		} else if m.Op != "int" {
			st.fact(e, c.Imp(c.Eq(m, c.N(0)), c.Eq(dom, c.ConstArr(dom.S, c.False))))
		}
		e.heapSet(st, dk, r, dom)
		e.heapSet(st, vk, r, c.Select(e.heapGet(st, vk), m))
		e.heapSet(st, e.ghostKey("maplen", c.Int), r, e.mapLen(st, m, mt))
		return one(r)
	case "Forall", "Exists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		f := e.funcArg(args[2])
		t := e.quantify(st, f, []*Sort{c.Int}, []types.Type{types.Typ[types.Int]}, func(q []*Term, _ *State) *Term {
			return c.And(c.Le(lo, q[0]), c.Lt(q[0], hi))
		}, name == "Forall")
		return one(t)
	case "ForallVal", "ExistsVal":
		f := e.funcArg(args[0])
		t := e.quantify(st, f, []*Sort{e.sortOf(targ(0))}, []types.Type{targ(0)}, func(q []*Term, s *State) *Term {
			return e.wfTerm(q[0], targ(0))
		}, name == "ForallVal")
		return one(t)
	case "ForallKeys":
		m := args[0].(*Term)
		f := e.funcArg(args[1])
		mt := fn.Signature.Params().At(0).Type()
		_, vk := e.mapKeys(mt)
		e.qExtra = func(s *State, a []V) []V {
			e.qExtra = nil
			k := e.pack(a[0], targ(0))
			v := e.unpack(c.Select(c.Select(e.heapGet(s, vk), m), k), targ(1))
			return append(a, v)
		}
		t := e.quantify(st, f, []*Sort{e.sortOf(targ(0))}, []types.Type{targ(0)}, func(q []*Term, s *State) *Term {
			d, _ := e.mapGet(s, m, mt, q[0])
			return d
		}, true)
		e.qExtra = nil
		return one(t)
	case "SameBacking":
		a, b := args[0].(SliceV), args[1].(SliceV)
		return one(c.And(c.Eq(a.Ref, b.Ref), c.Not(c.Eq(a.Ref, c.N(0)))))
	case "SameMap", "SameRef":
		return one(c.Eq(e.pack(args[0], fn.Signature.Params().At(0).Type()), e.pack(args[1], fn.Signature.Params().At(1).Type())))
	case "SameFloat":
		return one(c.Eq(args[0].(*Term), args[1].(*Term)))
	case "DeepEqual":
		x, y := args[0].(IfaceV), args[1].(IfaceV)
		return one(e.deepEq(st, x, y, types.NewInterfaceType(nil, nil), 0))
	case "IsFresh":
		// the object did not exist when the harness started
		var r *Term
		switch x := args[0].(type) {
		case SliceV:
			r = x.Ref
		case *Term:
			r = x
		case IfaceV:
			r = x.Ref
		}
		return one(c.Le(c.N(refBase), r))
	case "ModifiesSlice":
		if use != nil {
			s := args[0].(SliceV)
			k := e.memKey(targ(0))
			n := c.Fresh("mod", c.Arr(c.Int, e.sortOf(targ(0))))
			use.mods = append(use.mods, func(st *State) { e.heapSet(st, k, s.Ref, n) })
		} else if e.frameCheck != nil {
			e.frameCheck.refs = append(e.frameCheck.refs, args[0].(SliceV).Ref)
		}
		return one()
	case "ModifiesObj":
		ptr := args[0].(*Term)
		t := targ(0)
		if use != nil {
			use.mods = append(use.mods, func(st *State) { e.havocObj(st, ptr, t) })
		} else if e.frameCheck != nil {
			e.frameCheck.refs = append(e.frameCheck.refs, ptr)
		}
		return one()
	case "ModifiesMap":
		m := args[0].(*Term)
		mt := fn.Signature.Params().At(0).Type()
		if use != nil {
			use.mods = append(use.mods, func(st *State) { e.havocMap(st, m, mt) })
		} else if e.frameCheck != nil {
			e.frameCheck.refs = append(e.frameCheck.refs, m)
		}
		return one()
	case "HavocObj":
		e.havocObj(st, args[0].(*Term), targ(0))
		return one()
	case "HavocMap":
		e.havocMap(st, args[0].(*Term), fn.Signature.Params().At(0).Type())
		return one()
	case "Havoc":
		v := e.freshVal(st, "havoc", targ(0), e.newEpoch(st))
		e.store(st, args[0], targ(0), v)
		return one()
	case "HavocEvery":
		// one field of every object of its type
		x, ok := args[0].(PtrV)
		if !ok || x.Kind != 0 || len(x.Steps) != 1 {
			panic(unsup("HavocEvery needs the address of a field"))
		}
		k := e.fieldKey(x.T, x.Steps[0].Field)
		n := c.Fresh("hv", e.heapGet(st, k).S)
		n.RefHi = e.newEpoch(st)
		e.heapSetAll(st, k, n)
		return one()
	case "HavocClosed":
		// other threads may have closed channels meanwhile
		k := e.ghostKey("closed", c.Bool)
		old := e.heapGet(st, k)
		n := c.Fresh("hvclosed", old.S)
		e.heapSetAll(st, k, n)
		b := c.BoundVar(c.Int)
		sel := c.Select(n, b)
		st.fact(e, c.Forall([]*Term{b}, c.Imp(c.Select(old, b), sel), [][]*Term{{sel}}))
		return one()
	case "HavocSlice":
		s := args[0].(SliceV)
		n := c.Fresh("hv", c.Arr(c.Int, e.sortOf(targ(0))))
		n.RefHi = e.newEpoch(st)
		e.heapSet(st, e.memKey(targ(0)), s.Ref, n)
		return one()
	case "OnSend":
		st.hooks["send:"+fmt.Sprint(args[0].(*Term).ID)] = e.funcArg(args[1])
		return one()
	case "OnRecv":
		st.hooks["recv:"+fmt.Sprint(args[0].(*Term).ID)] = e.funcArg(args[1])
		return one()
	case "OnClose":
		st.hooks["close:"+fmt.Sprint(args[0].(*Term).ID)] = e.funcArg(args[1])
		return one()
	case "OnSendAny":
		st.hooks["sendany:"+e.typeKey(targ(0))] = e.funcArg(args[0])
		return one()
	case "OnRecvAny":
		st.hooks["recvany:"+e.typeKey(targ(0))] = e.funcArg(args[0])
		return one()
	case "OnSleep":
		st.hooks["sleep"] = e.funcArg(args[0])
		return one()
	case "OnTimer":
		st.hooks["timerstarted"] = e.funcArg(args[0])
		st.hooks["timerfired"] = e.funcArg(args[1])
		return one()
	case "PointsTo":
		iv, ok := args[0].(IfaceV)
		ptr, ok2 := args[1].(*Term)
		if !ok || !ok2 {
			panic(unsup("PointsTo"))
		}
		return one(c.And(c.Not(c.Eq(iv.Tag, c.N(0))), c.Eq(iv.Ref, ptr)))
	case "OnBlock":
		st.hooks["block"] = e.funcArg(args[0])
		return one()
	case "OnGo":
		st.hooks["go"] = e.funcArg(args[0])
		return one()
	case "OnLock", "OnUnlock":
		kind, ref := e.lockKey(args[0])
		k := "lock:"
		if name == "OnUnlock" {
			k = "unlock:"
		}
		st.hooks[k+kind+"@"+fmt.Sprint(ref.ID)] = e.funcArg(args[1])
		return one()
	case "Held":
		kind, ref := e.lockKey(args[0])
		return one(c.B(e.heldMode(st, kind, ref) != 0))
	case "HeldW":
		kind, ref := e.lockKey(args[0])
		return one(c.B(e.heldMode(st, kind, ref) == 'W'))
	case "NLocks":
		return one(c.N(int64(len(st.locks))))
	case "Closed", "ClosedRecv":
		return one(e.closedOf(st, args[0].(*Term)))
	case "Publish":
		t := args[0].(*Term)
		e.heapSet(st, e.ghostKey("published", c.Bool), t, c.True)
		return one()
	case "SetClosed":
		e.heapSet(st, e.ghostKey("closed", c.Bool), args[0].(*Term), args[1].(*Term))
		return one()
	case "HexDigit":
		return one(e.hexDigit(st, c.Extract(3, 0, args[0].(*Term))))
	case "ChanLen":
		return one(c.Select(e.heapGet(st, e.ghostKey("chlen", c.Int)), args[0].(*Term)))
	case "SetChan":
		e.heapSet(st, e.ghostKey("chlen", c.Int), args[0].(*Term), args[1].(*Term))
		e.heapSet(st, e.ghostKey("chcap", c.Int), args[0].(*Term), args[2].(*Term))
		return one()
	case "Spawned":
		return one(c.N(int64(len(st.spawns))))
	case "RunSpawned":
		sp := st.spawns
		st.spawns = nil
		outs := []outcome{{st, nil}}
		for _, s := range sp {
			var nxt []outcome
			for _, o := range outs {
				nxt = append(nxt, e.runSpawn(o.st, s)...)
			}
			outs = nxt
		}
		return outs
	case "DropSpawned":
		st.spawns = nil
		return one()
	case "TimeNs":
		return one(args[0])
	case "Time":
		return one(args[0])
	case "SetFunc":
		// behaviour of an unknown function value
		t, ok := args[0].(*Term)
		if !ok {
			panic(unsup("SetFunc on a known function"))
		}
		st.hooks["fn:"+fmt.Sprint(t.ID)] = e.funcArg(args[1])
		return one()
	case "StringOf":
		v := e.unpackAny(args[0])
		return one(v)
	case "Unreachable":
		e.oblige(st, "ensures", e.strArg(args[0]), propsOf(e.strArg(args[0])), c.False, pos)
		return nil
	case "EachFunc":
		// the argument is called for every function of the package that has the type, each time from the same state
		want, ok := under(targ(0)).(*types.Signature)
		if !ok {
			panic(unsup("EachFunc needs a function type"))
		}
		f := e.funcArg(args[0])
		var names []string
		ms := e.harness.Fn.Pkg.Members
		for n := range ms {
			names = append(names, n)
		}
		sort.Strings(names)
		var outs []outcome
		which := c.Fresh("func", c.Int)
		for i, n := range names {
			g, ok := ms[n].(*ssa.Function)
			if !ok || e.p.isContract(g) || g.Signature.TypeParams().Len() > 0 || !types.Identical(g.Signature, want) {
				continue
			}
			e.checkDeadline()
			s := st.clone()
			s.decide(c.Eq(which, c.N(int64(i))))
			outs = append(outs, e.callFn(s, f.Fn, []V{FuncV{Fn: g}}, f.Bind, pos)...)
		}
		return outs
	case "OnceDone":
		// whether a sync.Once of the object has run
		res := c.False
		if stt, ok := under(targ(0)).(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Type().String() == "sync.Once" {
					k := e.ghostKey(fmt.Sprintf("once:0:%s.%d", e.typeKey(targ(0)), i), c.Bool)
					res = c.Or(res, c.Select(e.heapGet(st, k), args[0].(*Term)))
				}
			}
		}
		return one(res)
	case "Visited":
		// Visited(m, k): key k was already handed out by the current iteration over m
		m := args[0].(*Term)
		mt := fn.Signature.Params().At(0).Type()
		k := e.pack(args[1], targ(0))
		it, ok := e.currentIter(m, mt)
		if !ok {
			panic(unsup("no iteration"))
		}
		return one(c.Select(c.Select(e.heapGet(st, e.iterKey(mt)), it.Ref), k))
	}
	panic(unsup("intrinsic %s", name))
}

func (e *Engine) unpackAny(v V) V { return v }

func (e *Engine) runSpawn(st *State, s spawn) []outcome {
	locks := st.locks
	st.locks = nil
	for _, r := range s.fn.Racy {
		e.store(st, r.addr, r.t, e.freshVal(st, "racy", r.t, e.newEpoch(st)))
	}
	e.spawnDepth++
	defer func() { e.spawnDepth-- }()
	outs := e.callFunc(path{st, &Frame{}}, s.fn, s.args, nil, s.pos)
	for i := range outs {
		if len(outs[i].st.locks) > 0 {
			e.lockLeak(outs[i].st, s.pos)
		}
		outs[i].st.locks = locks
		outs[i].res = nil
	}
	return outs
}

func (e *Engine) lockLeak(st *State, pos token.Pos) {
	e.oblige(st.clone(), "lock", "all locks released at the end", e.harness.LockProps, e.c.False, pos)
}

func (e *Engine) currentIter(m *Term, mt types.Type) (iterV, bool) {
	if e.iterFrame == nil {
		return iterV{}, false
	}
	var best *iterV
	var bestN string
	for k, v := range e.iterFrame.env {
		it, ok := v.(iterV)
		if !ok || it.MT == nil || e.typeKey(it.MT) != e.typeKey(mt) || it.M != m {
			continue
		}
		if best == nil || k.Name() < bestN {
			x := it
			best, bestN = &x, k.Name()
		}
	}
	if best == nil {
		return iterV{}, false
	}
	return *best, true
}

func (e *Engine) curRefHi(st *State) int64 {
	if len(st.epochs) == 0 {
		return refBase
	}
	return e.newEpoch(st)
}

func (e *Engine) wfTerm(q *Term, t types.Type) *Term {
	c := e.c
	if _, signed, asInt, ok := intInfo(t); ok && asInt {
		if signed {
			return c.And(c.Le(c.BigN(int64Min), q), c.Le(q, c.BigN(int64Max)))
		}
		return c.And(c.Le(c.N(0), q), c.Le(q, c.BigN(uintMax)))
	}
	return c.True
}

func (e *Engine) funcArg(v V) FuncV {
	f, ok := v.(FuncV)
	if !ok {
		panic(unsup("function argument must be known"))
	}
	return f
}

func (e *Engine) havocObj(st *State, ptr *Term, t types.Type) {
	c := e.c
	hi := e.newEpoch(st)
	u, ok := under(t).(*types.Struct)
	if !ok {
		n := c.Fresh("hv", e.sortOf(t))
		n.RefHi = hi
		e.heapSet(st, e.cellKey(t), ptr, n)
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		n := c.Fresh("hv", e.sortOf(u.Field(i).Type()))
		n.RefHi = hi
		e.heapSet(st, e.fieldKey(t, i), ptr, n)
	}
}
func (e *Engine) havocMap(st *State, m *Term, mt types.Type) {
	c := e.c
	hi := e.newEpoch(st)
	dk, vk := e.mapKeys(mt)
	mm := under(mt).(*types.Map)
	d := c.Fresh("hvd", c.Arr(e.sortOf(mm.Key()), c.Bool))
	v := c.Fresh("hvm", c.Arr(e.sortOf(mm.Key()), e.sortOf(mm.Elem())))
	v.RefHi = hi
	e.heapSet(st, dk, m, d)
	e.heapSet(st, vk, m, v)
	e.heapSet(st, e.ghostKey("maplen", c.Int), m, c.FreshRange("ml", bigZero, maxLen))
}

// ---------------------------------------------------------------- contracts at call sites

func (e *Engine) useContract(p path, ct *Harness, fn *ssa.Function, args []V, pos token.Pos) []outcome {
	e.contractsUsed[ct.Name] = true
	u := &useFrame{target: fn, callPos: pos, name: fn.Name(), quiet: e.quiet > 0, h: ct}
	e.useMode = append(e.useMode, u)
	e.quiet++
	e.useN++
	defer func() { e.quiet--; e.useMode = e.useMode[:len(e.useMode)-1] }()
	key := fmt.Sprintf("use:%d", e.useN)
	u.key = key
	outs := e.runFn(p.st, ct.Fn, args, nil, u)
	for i := range outs {
		tv, ok := outs[i].st.vals[key].(TupleV)
		if !ok {
			panic(unsup("contract %s does not call its function on every path", ct.Name))
		}
		delete(outs[i].st.vals, key)
		outs[i].res = []V(tv)
	}
	return outs
}

// useCall stands for the call of the function under contract inside its contract.
func (e *Engine) useCall(p path, u *useFrame, args []V) []outcome {
	st := p.st
	hi := e.newEpoch(st)
	for _, m := range u.mods {
		m(st)
	}
	rt := u.target.Signature.Results()
	var rs TupleV
	for i := 0; i < rt.Len(); i++ {
		rs = append(rs, e.freshVal(st, "r_"+u.target.Name(), rt.At(i).Type(), hi))
	}
	st.vals[u.key] = rs
	return []outcome{{st, []V(rs)}}
}

type frameCk struct {
	fn     *ssa.Function
	refs   []*Term
	active int
}

// verifyCall runs the function under contract and checks that nothing else is modified.
func (e *Engine) verifyCall(p path, f FuncV, args []V, pos token.Pos) []outcome {
	c := e.c
	st := p.st
	e.frameCheck.active++
	entry := st.clone()
	lim := e.nextRef
	m := map[string]wr{}
	e.rec = append(e.rec, &m)
	outs := e.callFn(st, f.Fn, args, f.Bind, pos)
	e.rec = e.rec[:len(e.rec)-1]
	e.frameCheck.active--
	for _, o := range outs {
		for k := range o.st.heap {
			if strings.HasPrefix(k, "G:") {
				continue
			}
			a, b := e.heapGet(entry, k), e.heapGet(o.st, k)
			if a == b {
				continue
			}
			// strip stores to new or declared objects
			for b != a && b.Op == "store" {
				i := b.Args[1]
				if i.Op == "int" && i.I.IsInt64() && i.I.Int64() > lim {
					b = b.Args[0]
					continue
				}
				ok := false
				for _, r := range e.frameCheck.refs {
					if r == i {
						ok = true
					}
				}
				if !ok {
					break
				}
				b = b.Args[0]
			}
			for b != a && b.Op == "over" {
				b = b.Args[0]
			}
			if a == b {
				continue
			}
			q := c.BoundVar(c.Int)
			sa, sb := c.Select(a, q), c.Select(e.heapGet(o.st, k), q)
			prem := []*Term{c.Le(q, c.N(lim))}
			for _, r := range e.frameCheck.refs {
				prem = append(prem, c.Not(c.Eq(q, r)))
			}
			e.oblige(o.st, "frame", "frame of "+f.Fn.Name(), e.harness.Props, c.Forall([]*Term{q}, c.Imp(c.And(prem...), c.Eq(sa, sb)), pat1(sa)), pos)
		}
	}
	if len(outs) > 0 && e.wantAny(e.harness.Props) && e.quiet == 0 {
		o := e.record("frame of "+f.Fn.Name(), "frame", e.harness.Props, e.pos(pos))
		o.N++
		if o.Backend == "" {
			o.Backend = "simplifier"
		}
	}
	return outs
}
