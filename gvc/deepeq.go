package main

import (
	"go/types"
	"sort"
)

// tagLeaves collects the constant type tags an interface value may have; ok is false when there may be others.
func (e *Engine) tagLeaves(t *Term, out map[int64]bool) bool {
	switch {
	case t.Op == "int" && t.I.IsInt64():
		out[t.I.Int64()] = true
		return true
	case t.Op == "ite":
		a := e.tagLeaves(t.Args[1], out)
		b := e.tagLeaves(t.Args[2], out)
		return a && b
	}
	return false
}

// deepEq says that two values are equal including what they refer to. Sound in both directions as
// long as pointers are followed less than a fixed depth; deeper structure is compared by an unknown predicate.
func (e *Engine) deepEq(st *State, a, b V, t types.Type, depth int) *Term {
	c := e.c
	if depth > 8 {
		return c.Or(c.Eq(e.pack(a, t), e.pack(b, t)), c.Fresh("deep", c.Bool))
	}
	if isTime(t) || e.opaqueStruct(t) {
		return c.Eq(a.(*Term), b.(*Term))
	}
	switch u := under(t).(type) {
	case *types.Basic, *types.Chan:
		return c.Eq(e.pack(a, t), e.pack(b, t))
	case *types.Signature:
		z := c.N(0)
		x, y := e.pack(a, t), e.pack(b, t)
		return c.Eq(c.Eq(x, z), c.Eq(y, z))
	case *types.Pointer:
		x, y := e.pack(a, t), e.pack(b, t)
		z := c.N(0)
		same := c.Eq(x, y)
		if same == c.True {
			return same
		}
		if c.Eq(x, z) == c.True || c.Eq(y, z) == c.True {
			return same
		}
		n := e.nextRef
		_ = n
		va, vb := e.load(st, a, u.Elem()), e.load(st, b, u.Elem())
		return c.Or(same, c.And(c.Not(c.Eq(x, z)), c.Not(c.Eq(y, z)), e.deepEq(st, va, vb, u.Elem(), depth+1)))
	case *types.Slice:
		x, y := a.(SliceV), b.(SliceV)
		z := c.N(0)
		head := c.And(c.Eq(c.Eq(x.Ref, z), c.Eq(y.Ref, z)), c.Eq(x.Len, y.Len))
		if head == c.False {
			return head
		}
		m := e.heapGet(st, e.memKey(u.Elem()))
		return c.And(head, e.deepRange(st, c.Select(m, x.Ref), x.Off, c.Select(m, y.Ref), y.Off, x.Len, u.Elem(), depth))
	case *types.Array:
		x, y := a.(ArrV), b.(ArrV)
		return e.deepRange(st, x.A, c.N(0), y.A, c.N(0), c.N(x.N), u.Elem(), depth)
	case *types.Struct:
		x, y := a.(StructV), b.(StructV)
		var as []*Term
		for i := range x.F {
			as = append(as, e.deepEq(st, x.F[i], y.F[i], u.Field(i).Type(), depth))
		}
		return c.And(as...)
	case *types.Map:
		x, y := a.(*Term), b.(*Term)
		if x == y {
			return c.True
		}
		dk, vk := e.mapKeys(t)
		z := c.N(0)
		ks := e.sortOf(u.Key())
		none := c.ConstArr(c.Arr(ks, c.Bool), c.False)
		dom := func(m *Term) *Term { return c.Ite(c.Eq(m, z), none, c.Select(e.heapGet(st, dk), m)) }
		dx, dy := dom(x), dom(y)
		q := c.Fresh("q", ks)
		va := e.unpack(c.Select(c.Select(e.heapGet(st, vk), x), q), u.Elem())
		vb := e.unpack(c.Select(c.Select(e.heapGet(st, vk), y), q), u.Elem())
		s := st.clone()
		body := c.Imp(c.Select(dx, q), e.deepEq(s, va, vb, u.Elem(), depth+1))
		bv := c.BoundVar(ks)
		f := c.Subst(body, map[int]*Term{q.ID: bv})
		vals := f
		if f.Bound {
			vals = c.Forall([]*Term{bv}, f, e.autoPats(f, []*Term{bv}))
		}
		return c.And(c.Eq(c.Eq(x, z), c.Eq(y, z)), c.Eq(dx, dy), vals)
	case *types.Interface:
		x, y := a.(IfaceV), b.(IfaceV)
		tags := map[int64]bool{}
		all := e.tagLeaves(x.Tag, tags)
		all = e.tagLeaves(y.Tag, tags) && all
		alts := []*Term{c.And(c.Eq(x.Tag, y.Tag), c.Eq(x.Ref, y.Ref))}
		if !all {
			for id := int64(1); id <= int64(len(e.tags)); id++ {
				if tt := e.tagTypes[id]; tt != nil && types.Implements(tt, u) {
					tags[id] = true
				}
			}
		}
		var ids []int64
		for id := range tags {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			if id == 0 || e.isErrTag(id) {
				continue
			}
			tt := e.tagTypes[id]
			both := c.And(c.Eq(x.Tag, c.N(id)), c.Eq(y.Tag, c.N(id)))
			if both == c.False {
				continue
			}
			va, vb := e.unbox(st, IfaceV{c.N(id), x.Ref}, tt), e.unbox(st, IfaceV{c.N(id), y.Ref}, tt)
			alts = append(alts, c.And(both, e.deepEq(st, va, vb, tt, depth+1)))
		}
		return c.Or(alts...)
	}
	panic(unsup("deep equality of %s", t))
}

func (e *Engine) deepRange(st *State, aa, ao, ba, bo, n *Term, el types.Type, depth int) *Term {
	c := e.c
	if aa == ba && ao == bo {
		return c.True
	}
	if n.Op == "int" && n.I.IsInt64() && n.I.Int64() <= 8 {
		var as []*Term
		for i := int64(0); i < n.I.Int64(); i++ {
			as = append(as, e.deepEq(st, e.unpack(c.Select(aa, c.AddN(ao, i)), el), e.unpack(c.Select(ba, c.AddN(bo, i)), el), el, depth+1))
		}
		return c.And(as...)
	}
	q := c.Fresh("q", c.Int)
	s := st.clone()
	body := e.deepEq(s, e.unpack(c.Select(aa, c.Add(ao, q)), el), e.unpack(c.Select(ba, c.Add(bo, q)), el), el, depth+1)
	return e.forallInt(c.Imp(c.And(c.Le(c.N(0), q), c.Lt(q, n)), body), q)
}
