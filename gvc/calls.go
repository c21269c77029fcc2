package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- call dispatch

func (e *Engine) callee(p path, cc *ssa.CallCommon) (V, []V) {
	var args []V
	if cc.IsInvoke() {
		recv := e.val(p, cc.Value)
		args = append(args, recv)
		for _, a := range cc.Args {
			args = append(args, e.val(p, a))
		}
		return nil, args
	}
	for _, a := range cc.Args {
		args = append(args, e.val(p, a))
	}
	return e.val(p, cc.Value), args
}

func (e *Engine) call(p path, cc *ssa.CallCommon, pos token.Pos, x *ssa.Call) []outcome {
	fn, args := e.callee(p, cc)
	return e.invoke(p, cc, fn, args, pos, x)
}

func (e *Engine) invoke(p path, cc *ssa.CallCommon, fn V, args []V, pos token.Pos, x *ssa.Call) []outcome {
	st := p.st
	if cc.IsInvoke() {
		return e.dynInvoke(p, cc, args, pos)
	}
	switch f := fn.(type) {
	case FuncV:
		if f.Blt != nil {
			return e.builtin(p, f.Blt.Name(), cc, args, pos)
		}
		return e.callFunc(p, f, args, cc, pos)
	case *Term:
		// function value of unknown identity
		c := e.c
		if h, ok := st.hooks["fn:"+fmt.Sprint(f.ID)]; ok {
			return e.callFunc(p, h, args, cc, pos)
		}
		if !e.safety(st, "no call of a nil function", c.Not(c.Eq(f, c.N(0))), pos) {
			return nil
		}
		panic(unsup("call of unknown function value at %s", e.pos(pos)))
	}
	panic(unsup("call of %T", fn))
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func pkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	return ""
}

func (e *Engine) callFunc(p path, f FuncV, args []V, cc *ssa.CallCommon, pos token.Pos) []outcome {
	if f.Thunk {
		// a goroutine: it holds none of the locks of its creator
		args = append(append([]V{}, f.Pre...), args...)
		return e.runSpawn(p.st, spawn{FuncV{Fn: f.Fn, Bind: f.Bind, Unk: f.Unk, Racy: f.Racy}, args, pos})
	}
	if f.Fn == nil && f.Unk != nil {
		panic(unsup("call of unknown function value"))
	}
	fn := f.Fn
	st := p.st
	path0 := pkgPath(fn)
	if path0 == e.p.ModPath+"/gvcspec" {
		return e.intrinsic(p, fn, args, cc, pos)
	}
	if strings.HasPrefix(fn.Name(), "rec_") && e.p.isContract(fn) {
		return []outcome{{st, []V{e.recApp(st, fn, args)}}}
	}
	if len(e.useMode) > 0 {
		u := e.useMode[len(e.useMode)-1]
		if fn == u.target && !u.called && p.fr.use == u {
			return e.useCall(p, u, args)
		}
	}
	if m := e.p.modelFor(e.harness, fn); m != nil && !e.inCall(m) {
		e.models[fn.String()] = true
		return e.callFn(st, m, args, nil, pos)
	}
	if e.harness != nil && e.pure == 0 {
		if ct := e.harness.Uses[fn]; ct != nil && !(ct == e.harness) {
			return e.useContract(p, ct, fn, args, pos)
		}
	}
	if outs, ok := e.stdlib(p, fn, args, cc, pos); ok {
		return outs
	}
	if !e.inRepo(path0) && !(fn.Synthetic != "" && fn.Blocks != nil) {
		if inlinable(fn) || e.p.isContract(fn) {
			return e.callFn(st, fn, args, f.Bind, pos)
		}
		panic(unsup("no model for %s (called at %s)", fn, e.pos(pos)))
	}
	if e.frameCheck != nil && fn == e.frameCheck.fn && e.frameCheck.active == 0 && p.fr.fn == e.harness.Fn && e.pure == 0 {
		return e.verifyCall(p, f, args, pos)
	}
	return e.callFn(st, fn, args, f.Bind, pos)
}

// dynInvoke dispatches an interface method call.
func (e *Engine) dynInvoke(p path, cc *ssa.CallCommon, args []V, pos token.Pos) []outcome {
	c := e.c
	iv, ok := args[0].(IfaceV)
	if !ok {
		panic(unsup("invoke on %T", args[0]))
	}
	st := p.st
	if !e.safety(st, "no method call on a nil interface", c.Not(c.Eq(iv.Tag, c.N(0))), pos) {
		return nil
	}
	it := under(cc.Value.Type()).(*types.Interface)
	name := cc.Method.Name()
	callTag := func(p path, id int64) []outcome {
		t := e.tagTypes[id]
		if t == nil {
			panic(unsup("unknown tag"))
		}
		if e.isErrTag(id) {
			return e.errMethod(p.st, name, IfaceV{c.N(id), iv.Ref})
		}
		sel := e.p.Prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), name)
		if sel == nil {
			panic(unsup("method %s of %s", name, t))
		}
		m := e.p.Prog.MethodValue(sel)
		if m == nil {
			panic(unsup("method value %s of %s", name, t))
		}
		as := append([]V{e.unbox(p.st, IfaceV{c.N(id), iv.Ref}, t)}, args[1:]...)
		return e.callFunc(p, FuncV{Fn: m}, as, cc, pos)
	}
	if iv.Tag.Op == "int" {
		return callTag(p, iv.Tag.I.Int64())
	}
	if h, ok := st.hooks["iface:"+e.typeKey(cc.Value.Type())+"."+name]; ok {
		return e.callFunc(p, h, args, cc, pos)
	}
	if types.Identical(cc.Value.Type(), types.Universe.Lookup("error").Type()) {
		return e.errMethod(st, name, iv)
	}
	// split over the known types
	var outs []outcome
	rest := []*Term{}
	for id := int64(1); id <= int64(len(e.tags)); id++ {
		if !e.implTag(id, it) {
			continue
		}
		cond := c.Eq(iv.Tag, c.N(id))
		rest = append(rest, c.Not(cond))
		if !e.feasible(st, cond) {
			continue
		}
		q := path{st.clone(), p.fr}
		q.st.decide(cond)
		outs = append(outs, callTag(q, id)...)
	}
	if e.feasible(st, c.And(rest...)) {
		panic(unsup("call of %s on an unknown implementation at %s", name, e.pos(pos)))
	}
	return outs
}

func (e *Engine) isErrTag(id int64) bool {
	return e.typeKey(e.tagTypes[id]) == "gvc.error"
}

// errors made by the modelled library carry one opaque type.
func (e *Engine) errType() types.Type {
	if e.errT == nil {
		e.errT = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("gvc", "gvc"), "error", nil), types.NewStruct(nil, nil), nil)
		e.tkeys[e.errT] = "gvc.error"
	}
	return e.errT
}
func (e *Engine) newError(st *State) IfaceV {
	return IfaceV{e.tagOf(e.errType()), e.c.N(e.newRefID())}
}
func (e *Engine) errMethod(st *State, name string, iv IfaceV) []outcome {
	if name == "Error" {
		s := e.c.App("errstr", e.c.Str, iv.Tag, iv.Ref)
		e.strlen(st, s)
		return []outcome{{st, []V{s}}}
	}
	panic(unsup("method %s of error", name))
}

type goCall struct {
	fn   FuncV
	args []V
}

func (e *Engine) goTarget(p path, cc *ssa.CallCommon, fn V, args []V) (goCall, bool) {
	if cc.IsInvoke() {
		iv := args[0].(IfaceV)
		if iv.Tag.Op != "int" {
			return goCall{}, false
		}
		t := e.tagTypes[iv.Tag.I.Int64()]
		sel := e.p.Prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
		m := e.p.Prog.MethodValue(sel)
		as := append([]V{e.unbox(p.st, iv, t)}, args[1:]...)
		return goCall{FuncV{Fn: m}, as}, true
	}
	switch f := fn.(type) {
	case FuncV:
		if f.Blt != nil {
			return goCall{}, false
		}
		return goCall{f, args}, true
	case *Term:
		if h, ok := p.st.hooks["fn:"+fmt.Sprint(f.ID)]; ok {
			return goCall{h, args}, true
		}
		return goCall{FuncV{Unk: f}, args}, true
	}
	return goCall{}, false
}

// ---------------------------------------------------------------- builtins

func (e *Engine) builtin(p path, name string, cc *ssa.CallCommon, args []V, pos token.Pos) []outcome {
	c := e.c
	st := p.st
	one := func(vs ...V) []outcome { return []outcome{{st, vs}} }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return one(x.Len)
		case ArrV:
			return one(c.N(x.N))
		case *Term:
			if x.S.K == KStr {
				return one(e.strlen(st, x))
			}
			switch under(cc.Args[0].Type()).(type) {
			case *types.Map:
				return one(e.mapLen(st, x, cc.Args[0].Type()))
			case *types.Chan:
				l := c.Select(e.heapGet(st, e.ghostKey("chlen", c.Int)), x)
				st.fact(e, c.Le(c.N(0), l))
				return one(l)
			case *types.Pointer:
				return one(c.N(under(under(cc.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return one(x.Cap)
		case *Term:
			if _, ok := under(cc.Args[0].Type()).(*types.Chan); ok {
				l := c.Select(e.heapGet(st, e.ghostKey("chcap", c.Int)), x)
				st.fact(e, c.Le(c.N(0), l))
				return one(l)
			}
		}
	case "append":
		return e.appendOp(p, cc, args, pos)
	case "copy":
		return e.copyOp(p, cc, args, pos)
	case "delete":
		m := args[0].(*Term)
		mt := cc.Args[0].Type()
		if !e.guardMap(st, m, mt, true, pos) {
			return nil
		}
		dk, _ := e.mapKeys(mt)
		dom := c.Select(e.heapGet(st, dk), m)
		k := e.pack(args[1], under(mt).(*types.Map).Key())
		// delete on a nil map is a no-op
		nd := c.Store(dom, k, c.False)
		if m.Op == "int" && m.I.Sign() == 0 {
			return one()
		}
		st.fact(e, c.Imp(c.Eq(m, c.N(0)), c.Eq(nd, dom)))
		e.setMapLen(st, m, mt, dom, k, false)
		e.heapSet(st, dk, m, nd)
		return one()
	case "close":
		ch := args[0].(*Term)
		return e.closeChan(st, ch, pos)
	case "print", "println":
		return one()
	case "recover":
		return one(IfaceV{c.N(0), c.N(0)})
	case "ssa:wrapnilchk":
		if !e.derefOK(st, args[0], pos) {
			return nil
		}
		return one(args[0])
	case "min", "max":
		acc := args[0]
		for _, b := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			t := cc.Args[0].Type()
			r, _ := e.binopV(st, op, b, acc, t, t, types.Typ[types.Bool], pos)
			acc = e.iteV(r.(*Term), b, acc, t)
		}
		return one(acc)
	}
	panic(unsup("builtin %s", name))
}

func (e *Engine) appendOp(p path, cc *ssa.CallCommon, args []V, pos token.Pos) []outcome {
	c := e.c
	st := p.st
	s := args[0].(SliceV)
	el := under(cc.Args[0].Type()).(*types.Slice).Elem()
	mk := e.memKey(el)
	var srcArr, srcOff, n *Term
	switch y := args[1].(type) {
	case SliceV:
		srcArr = c.Select(e.heapGet(st, mk), y.Ref)
		srcOff, n = y.Off, y.Len
	case *Term: // string
		n = e.strlen(st, y)
		srcArr = c.App("strbytes", c.Arr(c.Int, c.BV(8)), y)
		if y.Op == "strlit" {
			srcArr = e.zeroTerm(types.NewArray(types.Typ[types.Uint8], 1))
			for i, ch := range []byte(c.litVal(y)) {
				srcArr = c.Store(srcArr, c.N(int64(i)), c.BVc(uint64(ch), 8))
			}
		}
		srcOff = c.N(0)
	default:
		panic(unsup("append of %T", args[1]))
	}
	if n == c.N(0) {
		return []outcome{{st, []V{s}}}
	}
	newLen := c.Add(s.Len, n)
	fits := c.Le(newLen, s.Cap)
	blit := func(dst, doff *Term) *Term {
		if n.Op == "int" && n.I.Int64() <= 300 {
			out := dst
			for i := int64(0); i < n.I.Int64(); i++ {
				out = c.Store(out, c.AddN(doff, i), c.Select(srcArr, c.AddN(srcOff, i)))
			}
			return out
		}
		return c.CopyArr(dst, doff, srcArr, srcOff, n)
	}
	inPlace := func(st *State) V {
		dst := c.Select(e.heapGet(st, mk), s.Ref)
		e.heapSet(st, mk, s.Ref, blit(dst, c.Add(s.Off, s.Len)))
		return SliceV{s.Ref, s.Off, newLen, s.Cap}
	}
	grow := func(st *State) V {
		old := c.Select(e.heapGet(st, mk), s.Ref)
		r := c.N(e.newRefID())
		var base *Term
		if s.Len.Op == "int" && s.Len.I.Int64() <= 300 {
			base = e.zeroTerm(types.NewArray(el, 0))
			for i := int64(0); i < s.Len.I.Int64(); i++ {
				base = c.Store(base, c.N(i), c.Select(old, c.AddN(s.Off, i)))
			}
		} else {
			base = c.CopyArr(e.zeroTerm(types.NewArray(el, 0)), c.N(0), old, s.Off, s.Len)
		}
		e.heapSet(st, mk, r, blit(base, s.Len))
		cp := c.FreshRange("cap", bigZero, maxLen)
		st.fact(e, c.Le(newLen, cp))
		return SliceV{r, c.N(0), newLen, cp}
	}
	ff := e.feasible(st, fits)
	fn := true
	if ff {
		fn = e.feasible(st, c.Not(fits))
	}
	// an empty append of a symbolic count keeps the slice
	if !fn {
		return []outcome{{st, []V{inPlace(st)}}}
	}
	if !ff {
		return []outcome{{st, []V{grow(st)}}}
	}
	st2 := st.clone()
	st.decide(fits)
	v1 := inPlace(st)
	st2.decide(c.Not(fits))
	v2 := grow(st2)
	return []outcome{{st, []V{v1}}, {st2, []V{v2}}}
}

func (e *Engine) copyOp(p path, cc *ssa.CallCommon, args []V, pos token.Pos) []outcome {
	c := e.c
	st := p.st
	d := args[0].(SliceV)
	el := under(cc.Args[0].Type()).(*types.Slice).Elem()
	mk := e.memKey(el)
	var srcArr, srcOff, sn *Term
	switch y := args[1].(type) {
	case SliceV:
		srcArr = c.Select(e.heapGet(st, mk), y.Ref)
		srcOff, sn = y.Off, y.Len
	case *Term:
		sn = e.strlen(st, y)
		srcArr = c.App("strbytes", c.Arr(c.Int, c.BV(8)), y)
		srcOff = c.N(0)
	}
	n := c.Ite(c.Le(d.Len, sn), d.Len, sn)
	if n.Op == "ite" {
		if e.valid(st, c.Le(d.Len, sn)) {
			n = d.Len
		} else if e.valid(st, c.Le(sn, d.Len)) {
			n = sn
		}
	}
	dst := c.Select(e.heapGet(st, mk), d.Ref)
	if n.Op == "int" && n.I.Int64() <= 300 {
		out := dst
		for i := int64(0); i < n.I.Int64(); i++ {
			out = c.Store(out, c.AddN(d.Off, i), c.Select(srcArr, c.AddN(srcOff, i)))
		}
		e.heapSet(st, mk, d.Ref, out)
	} else {
		e.heapSet(st, mk, d.Ref, c.CopyArr(dst, d.Off, srcArr, srcOff, n))
	}
	return []outcome{{st, []V{n}}}
}

// ---------------------------------------------------------------- maps

func (e *Engine) makeMap(st *State, t types.Type) V {
	c := e.c
	m := under(t).(*types.Map)
	dk, vk := e.mapKeys(t)
	r := c.N(e.newRefID())
	e.heapSet(st, dk, r, c.ConstArr(c.Arr(e.sortOf(m.Key()), c.Bool), c.False))
	e.heapSet(st, vk, r, c.ConstArr(c.Arr(e.sortOf(m.Key()), e.sortOf(m.Elem())), e.zeroTerm(m.Elem())))
	e.heapSet(st, e.ghostKey("maplen", c.Int), r, c.N(0))
	return r
}
func (e *Engine) mapLen(st *State, m *Term, t types.Type) *Term {
	c := e.c
	l := c.Select(e.heapGet(st, e.ghostKey("maplen", c.Int)), m)
	if !c.IsConst(l) {
		dk, _ := e.mapKeys(t)
		st.fact(e, c.Le(c.N(0), l))
		st.fact(e, c.Le(l, c.BigN(maxLen)))
		// empty iff no key
		dom := c.Select(e.heapGet(st, dk), m)
		k := c.BoundVar(e.sortOf(under(t).(*types.Map).Key()))
		sel := c.Select(dom, k)
		st.fact(e, c.Imp(c.Eq(l, c.N(0)), c.Forall([]*Term{k}, c.Not(sel), pat1(sel))))
		st.fact(e, c.Imp(c.Eq(m, c.N(0)), c.Eq(l, c.N(0))))
	}
	return l
}
func pat1(t *Term) [][]*Term {
	if t.Op == "select" || t.Op == "app" {
		return [][]*Term{{t}}
	}
	return nil
}
func (e *Engine) setMapLen(st *State, m *Term, t types.Type, dom, k *Term, add bool) {
	c := e.c
	lk := e.ghostKey("maplen", c.Int)
	l := c.Select(e.heapGet(st, lk), m)
	in := c.Select(dom, k)
	var n *Term
	if add {
		n = c.Ite(in, l, c.AddN(l, 1))
	} else {
		n = c.Ite(in, c.AddN(l, -1), l)
		if !c.IsConst(l) {
			st.fact(e, c.Imp(in, c.Le(c.N(1), l)))
		}
	}
	e.heapSet(st, lk, m, n)
}

func (e *Engine) keyTerm(st *State, k V, kt types.Type) *Term {
	if _, ok := under(kt).(*types.Interface); ok {
		panic(unsup("map with interface keys"))
	}
	return e.pack(k, kt)
}

func (e *Engine) mapGet(st *State, m *Term, mt types.Type, k *Term) (dom, val *Term) {
	c := e.c
	dk, vk := e.mapKeys(mt)
	d := c.Select(c.Select(e.heapGet(st, dk), m), k)
	v := c.Select(c.Select(e.heapGet(st, vk), m), k)
	if m.Op != "int" {
		d = c.And(c.Not(c.Eq(m, c.N(0))), d)
	} else if m.I.Sign() == 0 {
		d = c.False
	}
	return d, v
}

func (e *Engine) lookup(p path, x *ssa.Lookup) ([]path, bool) {
	c := e.c
	st := p.st
	if mt, ok := under(x.X.Type()).(*types.Map); ok {
		m := e.val(p, x.X).(*Term)
		if !e.guardMap(st, m, x.X.Type(), false, x.Pos()) {
			return nil, false
		}
		k := e.keyTerm(st, e.val(p, x.Index), mt.Key())
		d, v := e.mapGet(st, m, x.X.Type(), k)
		if e.light != nil && d.Op != "true" && d.Op != "false" && isRefType(mt.Elem()) && !e.inPure() {
			// references: split, so that values stay plain
			if !e.feasible(st, d) {
				st.fact(e, c.Not(d))
				d = c.False
			} else if !e.feasible(st, c.Not(d)) {
				st.fact(e, d)
				d = c.True
			}
		}
		val := e.unpack(v, mt.Elem())
		st.factIf(e, d, func(s *State) { e.assumeWF(s, val, mt.Elem(), 1<<62) })
		res := e.iteAny(d, val, e.zero(mt.Elem()), mt.Elem())
		if x.CommaOk {
			p.fr.env[x] = TupleV{res, d}
		} else {
			p.fr.env[x] = res
		}
		return nil, true
	}
	// string index
	s := e.val(p, x.X).(*Term)
	idx := e.toInt(e.val(p, x.Index).(*Term), x.Index.Type())
	n := e.strlen(st, s)
	if !e.safety(st, "index in range", c.And(c.Le(c.N(0), idx), c.Lt(idx, n)), x.Pos()) {
		return nil, false
	}
	p.fr.env[x] = e.strIndex(st, s, idx)
	return nil, true
}

// factIf records well-formedness facts (they hold for whatever the map contains).
func (st *State) factIf(e *Engine, g *Term, f func(*State)) { f(st) }

func (e *Engine) inPure() bool { return e.pure > 0 }

func (e *Engine) iteAny(g *Term, a, b V, t types.Type) V {
	if g == e.c.True {
		return a
	}
	if g == e.c.False {
		return b
	}
	return e.unpack(e.c.Ite(g, e.pack(a, t), e.pack(b, t)), t)
}

func (e *Engine) mapUpdate(p path, x *ssa.MapUpdate) ([]path, bool) {
	c := e.c
	st := p.st
	mt := under(x.Map.Type()).(*types.Map)
	m := e.val(p, x.Map).(*Term)
	if !e.safety(st, "no assignment to a nil map", c.Not(c.Eq(m, c.N(0))), x.Pos()) {
		return nil, false
	}
	if !e.guardMap(st, m, x.Map.Type(), true, x.Pos()) {
		return nil, false
	}
	k := e.keyTerm(st, e.val(p, x.Key), mt.Key())
	e.mapPut(st, m, x.Map.Type(), k, e.pack(e.val(p, x.Value), mt.Elem()))
	return nil, true
}
func (e *Engine) mapPut(st *State, m *Term, t types.Type, k, v *Term) {
	c := e.c
	dk, vk := e.mapKeys(t)
	dom := c.Select(e.heapGet(st, dk), m)
	e.setMapLen(st, m, t, dom, k, true)
	e.heapSet(st, dk, m, c.Store(dom, k, c.True))
	e.heapSet(st, vk, m, c.Store(c.Select(e.heapGet(st, vk), m), k, v))
}

// iterV is the state of a map or string iteration.
type iterV struct {
	M   *Term
	MT  types.Type
	Ref *Term // object holding the set of visited keys
	Dom *Term // domain at the start
	Str *Term
}

func (e *Engine) iterKey(mt types.Type) string {
	m := under(mt).(*types.Map)
	return e.ghostKey("iter:"+e.typeKey(mt), e.c.Arr(e.sortOf(m.Key()), e.c.Bool))
}

func (e *Engine) rangeInit(p path, x *ssa.Range) ([]path, bool) {
	c := e.c
	if _, ok := under(x.X.Type()).(*types.Map); !ok {
		s := e.val(p, x.X).(*Term)
		r := c.N(e.newRefID())
		e.heapSet(p.st, e.ghostKey("striter", c.Int), r, c.N(0))
		p.fr.env[x] = iterV{Str: s, Ref: r}
		return nil, true
	}
	m := e.val(p, x.X).(*Term)
	st := p.st
	if !e.guardMap(st, m, x.X.Type(), false, x.Pos()) {
		return nil, false
	}
	mt := under(x.X.Type()).(*types.Map)
	ik := e.iterKey(x.X.Type())
	r := c.N(e.newRefID())
	e.heapSet(st, ik, r, c.ConstArr(c.Arr(e.sortOf(mt.Key()), c.Bool), c.False))
	dk, _ := e.mapKeys(x.X.Type())
	p.fr.env[x] = iterV{M: m, MT: x.X.Type(), Ref: r, Dom: c.Select(e.heapGet(st, dk), m)}
	return nil, true
}

func (e *Engine) next(p path, x *ssa.Next) ([]path, bool) {
	c := e.c
	it, ok := e.val(p, x.Iter).(iterV)
	if !ok {
		panic(unsup("range over %T", e.val(p, x.Iter)))
	}
	if x.IsString {
		panic(unsup("range over string"))
	}
	st := p.st
	if !e.guardMap(st, it.M, it.MT, false, x.Pos()) {
		return nil, false
	}
	mt := under(it.MT).(*types.Map)
	ik := e.iterKey(it.MT)
	dk, vk := e.mapKeys(it.MT)
	vis := c.Select(e.heapGet(st, ik), it.Ref)
	dom := c.Select(e.heapGet(st, dk), it.M)
	if it.M.Op == "int" && it.M.I.Sign() == 0 {
		p.fr.env[x] = TupleV{c.False, e.zero(mt.Key()), e.zero(mt.Elem())}
		return nil, true
	}
	// one more element
	q := path{st.clone(), p.fr.clone()}
	k := c.Fresh("k", e.sortOf(mt.Key()))
	in := c.And(c.Not(c.Eq(it.M, c.N(0))), c.Select(dom, k), c.Not(c.Select(vis, k)))
	q.st.decide(in)
	var ps []path
	if e.feasible(q.st, nil) {
		kv := e.unpack(k, mt.Key())
		e.assumeWF(q.st, kv, mt.Key(), 1<<62)
		v := e.unpack(c.Select(c.Select(e.heapGet(q.st, vk), it.M), k), mt.Elem())
		e.assumeWF(q.st, v, mt.Elem(), 1<<62)
		e.heapSet(q.st, ik, it.Ref, c.Store(vis, k, c.True))
		q.fr.env[x] = TupleV{c.True, kv, v}
		ps = append(ps, q)
	}
	// finished: everything that was there from the start and still is has been visited
	b := c.BoundVar(e.sortOf(mt.Key()))
	ds := c.Select(dom, b)
	d0 := c.Select(it.Dom, b)
	vs := c.Select(vis, b)
	var pats [][]*Term
	for _, s := range []*Term{ds, vs} {
		if s.Op == "select" {
			pats = append(pats, []*Term{s})
		}
	}
	done := c.Or(c.Eq(it.M, c.N(0)), c.Forall([]*Term{b}, c.Imp(c.And(ds, d0), vs), pats))
	st.decide(done)
	// with no key at all feasibility matters
	p.fr.env[x] = TupleV{c.False, e.zero(mt.Key()), e.zero(mt.Elem())}
	ps = append(ps, p)
	return ps, false
}

// ---------------------------------------------------------------- channels

func (e *Engine) chanHook(st *State, kind string, ch *Term) (FuncV, bool) {
	if h, ok := st.hooks[kind+":"+fmt.Sprint(ch.ID)]; ok {
		return h, true
	}
	return FuncV{}, false
}
func (e *Engine) closedOf(st *State, ch *Term) *Term {
	return e.c.Select(e.heapGet(st, e.ghostKey("closed", e.c.Bool)), ch)
}

func (e *Engine) closeChan(st *State, ch *Term, pos token.Pos) []outcome {
	c := e.c
	if h, ok := e.chanHook(st, "close", ch); ok {
		return e.dropRes(e.callFunc(path{st, &Frame{}}, h, nil, nil, pos))
	}
	if h, ok := st.hooks["closeany"]; ok {
		return e.dropRes(e.callFunc(path{st, &Frame{}}, h, nil, nil, pos))
	}
	if !e.safety(st, "no close of a nil channel", c.Not(c.Eq(ch, c.N(0))), pos) {
		return nil
	}
	if !e.safety(st, "no close of a closed channel", c.Not(e.closedOf(st, ch)), pos) {
		return nil
	}
	e.heapSet(st, e.ghostKey("closed", c.Bool), ch, c.True)
	return []outcome{{st, nil}}
}
func (e *Engine) dropRes(os []outcome) []outcome {
	for i := range os {
		os[i].res = nil
	}
	return os
}

// isTimer: a channel of times comes from the time package.
func isTimer(t types.Type) bool {
	ch, ok := under(t).(*types.Chan)
	return ok && ch.Elem().String() == "time.Time"
}

// blockPoint: a thread that waits without bound must not hold a lock.
func (e *Engine) blockPoint(st *State, pos token.Pos) {
	if h, ok := st.hooks["block"]; ok {
		e.callFunc(path{st.clone(), &Frame{}}, h, nil, nil, pos)
	}
	if len(e.harness.LockProps) == 0 || len(st.locks) == 0 {
		return
	}
	st2 := st.clone()
	e.oblige(st2, "lock", "no lock held while waiting for others", e.harness.LockProps, e.c.False, pos)
}

func (e *Engine) send(st *State, ch, v V, ct types.Type, pos token.Pos, nonblock bool) []*State {
	c := e.c
	cht := ch.(*Term)
	if !nonblock {
		e.blockPoint(st, pos)
	}
	if !e.feasible(st, c.Not(c.Eq(cht, c.N(0)))) {
		return nil // blocks for ever
	}
	st.fact(e, c.Not(c.Eq(cht, c.N(0))))
	if h, ok := e.chanHook(st, "send", cht); ok {
		var out []*State
		for _, o := range e.callFunc(path{st, &Frame{}}, h, []V{v}, nil, pos) {
			out = append(out, o.st)
		}
		return out
	}
	if h, ok := st.hooks["sendany:"+e.typeKey(under(ct).(*types.Chan).Elem())]; ok {
		var out []*State
		for _, o := range e.callFunc(path{st, &Frame{}}, h, []V{cht, v}, nil, pos) {
			out = append(out, o.st)
		}
		return out
	}
	if !e.safety(st, "no send on a closed channel", c.Not(e.closedOf(st, cht)), pos) {
		return nil
	}
	lk := e.ghostKey("chlen", c.Int)
	e.heapSet(st, lk, cht, c.AddN(c.Select(e.heapGet(st, lk), cht), 1))
	return []*State{st}
}

func (e *Engine) recv(st *State, ch V, ct types.Type, commaOk bool, pos token.Pos) []outcome {
	c := e.c
	cht := ch.(*Term)
	el := under(ct).(*types.Chan).Elem()
	if isTimer(ct) {
		if e.curSelect == 0 {
			if n := c.Eq(cht, c.N(0)); e.feasible(st, n) { // waits for ever
				s := st.clone()
				s.decide(n)
				e.blockPoint(s, pos)
				st.decide(c.Not(n))
				if !e.feasible(st, nil) {
					return nil
				}
			}
		}
		if len(e.harness.LockProps) > 0 && len(st.locks) > 0 && e.curSelect == 0 {
			e.blockPoint(st, pos)
		}
		if h, ok := st.hooks["timerfired"]; ok {
			d := c.Select(e.heapGet(st, e.ghostKey("timerdur", c.Int)), cht)
			var out []outcome
			for _, o := range e.callFunc(path{st, &Frame{}}, h, []V{cht, d}, nil, pos) {
				out = append(out, outcome{o.st, []V{e.freshVal(o.st, "t", el, refBase), c.True}})
			}
			return out
		}
		if h, ok := st.hooks["sleep"]; ok {
			d := c.Select(e.heapGet(st, e.ghostKey("timerdur", c.Int)), cht)
			var out []outcome
			for _, o := range e.callFunc(path{st, &Frame{}}, h, []V{d}, nil, pos) {
				out = append(out, outcome{o.st, []V{e.freshVal(o.st, "t", el, refBase), c.True}})
			}
			return out
		}
		return []outcome{{st, []V{e.freshVal(st, "t", el, refBase), c.True}}}
	}
	if e.curSelect == 0 {
		e.blockPoint(st, pos)
	}
	st.fact(e, c.Not(c.Eq(cht, c.N(0))))
	if !e.feasible(st, nil) {
		return nil
	}
	if h, ok := e.chanHook(st, "recv", cht); ok {
		return e.callFunc(path{st, &Frame{}}, h, nil, nil, pos)
	}
	if h, ok := st.hooks["recvany:"+e.typeKey(el)]; ok {
		return e.callFunc(path{st, &Frame{}}, h, []V{cht}, nil, pos)
	}
	// anything may arrive; a closed channel yields the zero value
	hi := e.newEpoch(st)
	st2 := st.clone()
	v := e.freshVal(st, "recv", el, hi)
	e.assumes["values received from unhooked channels are arbitrary"] = true
	some := c.Fresh("received", c.Bool)
	st.decide(some)
	st2.decide(c.Not(some))
	return []outcome{{st, []V{v, c.True}}, {st2, []V{e.zero(el), c.False}}}
}

func (e *Engine) selectOp(p path, x *ssa.Select) ([]path, bool) {
	c := e.c
	var ps []path
	nRecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nRecv++
		}
	}
	if x.Blocking { // without a timer it may wait for ever
		st := p.st.clone()
		for _, s := range x.States {
			if s.Dir == types.RecvOnly && isTimer(s.Chan.Type()) {
				st.decide(c.Eq(e.val(p, s.Chan).(*Term), c.N(0)))
			}
		}
		if e.feasible(st, nil) {
			e.blockPoint(st, x.Pos())
		}
	}
	mkRes := func(idx int, ok *Term, ri int, v V) TupleV {
		t := TupleV{c.N(int64(idx)), ok}
		j := 0
		for _, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if j == ri {
				t = append(t, v)
			} else {
				t = append(t, e.zero(under(s.Chan.Type()).(*types.Chan).Elem()))
			}
			j++
		}
		return t
	}
	notReady := []*Term{}
	ri := 0
	// which one of the cases that are ready is taken: without this decision their paths would not exclude each other
	which := c.Fresh("case", c.Int)
	for i, s := range x.States {
		st := p.st.clone()
		st.decide(c.Eq(which, c.N(int64(i))))
		ch := e.val(p, s.Chan).(*Term)
		st.decide(c.Not(c.Eq(ch, c.N(0))))
		if s.Dir == types.SendOnly {
			cp := c.Select(e.heapGet(st, e.ghostKey("chcap", c.Int)), ch)
			ln := c.Select(e.heapGet(st, e.ghostKey("chlen", c.Int)), ch)
			room := c.Lt(ln, cp)
			st.decide(c.Or(c.Le(cp, c.N(0)), room))
			notReady = append(notReady, c.Or(c.Le(cp, c.N(0)), c.Not(room), c.Eq(ch, c.N(0))))
			if !e.feasible(st, nil) {
				continue
			}
			e.curSelect++
			outs := e.send(st, ch, e.val(p, s.Send), s.Chan.Type(), x.Pos(), true)
			e.curSelect--
			for _, o := range outs {
				fr := p.fr.clone()
				fr.env[x] = mkRes(i, c.False, -1, nil)
				ps = append(ps, path{o, fr})
			}
			continue
		}
		if e.feasible(st, nil) {
			e.curSelect++
			outs := e.recv(st, ch, s.Chan.Type(), true, x.Pos())
			e.curSelect--
			for _, o := range outs {
				fr := p.fr.clone()
				ok := c.True
				if len(o.res) > 1 {
					ok = o.res[1].(*Term)
				}
				fr.env[x] = mkRes(i, ok, ri, o.res[0])
				ps = append(ps, path{o.st, fr})
			}
		}
		ri++
	}
	if !x.Blocking {
		st := p.st
		st.decide(c.Eq(which, c.N(-1)))
		st.decide(c.And(notReady...))
		if e.feasible(st, nil) {
			p.fr.env[x] = mkRes(-1, c.False, -1, nil)
			ps = append(ps, p)
		}
	}
	return ps, false
}

// ---------------------------------------------------------------- locks

func (e *Engine) lockKey(p V) (string, *Term) {
	switch x := p.(type) {
	case PtrV:
		k := fmt.Sprintf("%d:%s", x.Kind, e.typeKey(x.T))
		for _, s := range x.Steps {
			k += fmt.Sprintf(".%d", s.Field)
		}
		return k, x.Ref
	case *Term:
		return "obj", x
	}
	panic(unsup("lock %T", p))
}

func (e *Engine) lockOp(p path, op string, l V, pos token.Pos) []outcome {
	c := e.c
	st := p.st
	if !e.derefOK(st, l, pos) {
		return nil
	}
	kind, ref := e.lockKey(l)
	id := fmt.Sprintf("%s@%d", kind, ref.ID)
	held := -1
	for i, k := range st.locks {
		if k.key == id {
			held = i
		}
	}
	if held < 0 {
		for i, k := range st.locks {
			if strings.HasPrefix(k.key, kind+"@") && k.ref != nil && e.valid(st, c.Eq(k.ref, ref)) {
				held = i
			}
		}
	}
	lp := e.harness.LockProps
	fail := func(what string) { e.oblige(st.clone(), "lock", what, lp, c.False, pos) }
	switch op {
	case "Lock", "RLock":
		if held >= 0 {
			fail("lock not already held by this thread")
			return nil
		}
		for _, k := range st.locks {
			if strings.HasPrefix(k.key, kind+"@") && k.ref != nil {
				if !e.oblige(st, "lock", "lock not already held by this thread", lp, c.Not(c.Eq(k.ref, ref)), pos) {
					return nil
				}
			}
		}
		m := byte('W')
		if op == "RLock" {
			m = 'R'
		}
		st.locks = append(append([]lockEnt(nil), st.locks...), lockEnt{key: id, mode: m, ref: ref, kind: kind})
		if len(lp) > 0 && e.quiet == 0 && e.pure == 0 && e.wantAny(lp) {
			o := e.record("lock balance", "lock", lp, e.pos(pos))
			o.N++
			o.Backend = "symbolic lock set"
		}
		if h, ok := e.findHook(st, "lock:"+kind, ref); ok {
			return e.dropRes(e.callFunc(path{st, &Frame{}}, h, nil, nil, pos))
		}
		return []outcome{{st, nil}}
	case "Unlock", "RUnlock":
		want := byte('W')
		if op == "RUnlock" {
			want = 'R'
		}
		if held < 0 || st.locks[held].mode != want {
			fail("lock is held when it is released")
			return nil
		}
		os := []outcome{{st, nil}}
		if h, ok := e.findHook(st, "unlock:"+kind, ref); ok {
			os = e.dropRes(e.callFunc(path{st, &Frame{}}, h, nil, nil, pos))
		}
		for i := range os {
			ls := os[i].st.locks
			os[i].st.locks = append(append([]lockEnt(nil), ls[:held]...), ls[held+1:]...)
		}
		return os
	}
	panic(unsup("lock operation %s", op))
}

func (e *Engine) wantAny(ps []string) bool {
	for _, p := range ps {
		if e.want[p] {
			return true
		}
	}
	return false
}

func (e *Engine) findHook(st *State, prefix string, ref *Term) (FuncV, bool) {
	if h, ok := st.hooks[prefix+"@"+fmt.Sprint(ref.ID)]; ok {
		return h, true
	}
	return FuncV{}, false
}

func (e *Engine) heldMode(st *State, kind string, ref *Term) byte {
	for _, k := range st.locks {
		if k.kind == kind && (ref == nil || k.ref == ref || e.valid(st, e.c.Eq(k.ref, ref))) {
			return k.mode
		}
	}
	return 0
}

// guardCheck: fields declared as guarded are only touched with the lock held.
func (e *Engine) guardCheck(st *State, a V, t types.Type, write bool, pos token.Pos) bool {
	if len(e.harness.Guards) == 0 || e.pure > 0 || e.specCode() {
		return true
	}
	x, ok := a.(PtrV)
	if !ok || x.Kind != 0 || len(x.Steps) == 0 {
		return true
	}
	for _, g := range e.harness.Guards {
		if g.Field < 0 || e.typeKey(x.T) != e.typeKey(g.T) || x.Steps[0].Field != g.Field {
			continue
		}
		if x.Ref.Op == "int" && x.Ref.I.Int64() >= refBase && !e.published(st, x.Ref) {
			continue // object not yet visible to other threads
		}
		e.guardOblige(st, g, x.Ref, write, pos)
	}
	return true
}

func (e *Engine) published(st *State, ref *Term) bool {
	return e.c.Select(e.heapGet(st, e.ghostKey("published", e.c.Bool)), ref) == e.c.True
}

func (e *Engine) guardOblige(st *State, g *Guard, ref *Term, write bool, pos token.Pos) {
	m := e.heldMode(st, g.LockKind(e), ref)
	ok := m == 'W' || (m == 'R' && !write)
	what := "read of " + g.Name + " with its lock held"
	if write {
		what = "write of " + g.Name + " with its lock held for writing"
	}
	if ok {
		if e.quiet == 0 && e.wantAny(g.Props) {
			o := e.record(what, "guard", g.Props, e.pos(pos))
			o.N++
			o.Backend = "symbolic lock set"
		}
		return
	}
	s2 := st.clone()
	e.oblige(s2, "guard", what, g.Props, e.c.False, pos)
}

// guardMap: maps of a guarded type are only touched with (some) lock of that kind held.
func (e *Engine) guardMap(st *State, m *Term, mt types.Type, write bool, pos token.Pos) bool {
	if len(e.harness.Guards) == 0 || e.pure > 0 || e.specCode() {
		return true
	}
	for _, g := range e.harness.Guards {
		if g.MapT == nil || !types.Identical(under(g.MapT), under(mt)) {
			continue
		}
		if m.Op == "int" && (m.I.Sign() == 0 || m.I.Int64() >= refBase && !e.published(st, m)) {
			continue
		}
		e.guardOblige(st, g, nil, write, pos)
	}
	return true
}

// inCall: fn is being executed.
func (e *Engine) inCall(fn *ssa.Function) bool {
	for _, f := range e.calls {
		if f == fn {
			return true
		}
	}
	return false
}

// specCode: the innermost function being executed belongs to the contract files.
func (e *Engine) specCode() bool {
	return len(e.calls) > 0 && e.p.isContract(e.calls[len(e.calls)-1])
}
