package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a symbolic value: *Term (scalars, plain references), SliceV, IfaceV, StructV, ArrV, PtrV, TupleV, FuncV.
type V interface{}

type SliceV struct{ Ref, Off, Len, Cap *Term }
type IfaceV struct{ Tag, Ref *Term }
type StructV struct{ F []V }
type ArrV struct {
	A *Term
	N int64
}
type TupleV []V
type FuncV struct {
	Fn    *ssa.Function
	Bind  []V
	Blt   *ssa.Builtin
	Unk   *Term // unknown function value
	Pre   []V   // arguments already supplied (thunks)
	Thunk bool
	Racy  []racyCell // captured variables the spawning function writes again after the go statement
}

type racyCell struct {
	addr V
	t    types.Type
}

// PtrV is an interior pointer: a base location plus a path of field/index steps.
type PtrV struct {
	Kind  int // 0: object of struct type (Ref), 1: element Idx of slice memory object Ref, 2: cell of type T at Ref
	Ref   *Term
	Idx   *Term
	T     types.Type // type of the base location
	Steps []Step
}
type Step struct {
	Field int
	Idx   *Term // index step when non-nil
	T     types.Type
}

type unsupported struct{ msg string }

func (u *unsupported) Error() string { return u.msg }
func unsup(f string, a ...any) *unsupported {
	return &unsupported{fmt.Sprintf(f, a...)}
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// opaqueStruct: struct types of other modules with a hidden part are carried as one abstract scalar.
func (e *Engine) opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	u, ok := n.Underlying().(*types.Struct)
	if !ok || e.inRepo(n.Obj().Pkg().Path()) {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		if !u.Field(i).Exported() {
			return true
		}
	}
	return u.NumFields() == 0
}

// identical types must have one key
var aliasRE = regexp.MustCompile(`(^|[^.\w/])(byte|rune|any)\b`)

func (e *Engine) typeKey(t types.Type) string {
	if k, ok := e.tkeys[t]; ok {
		return k
	}
	k := aliasRE.ReplaceAllStringFunc(types.TypeString(types.Unalias(t), nil), func(m string) string {
		n := len(m)
		for i, w := range []string{"byte", "rune", "any"} {
			if strings.HasSuffix(m, w) {
				return m[:n-len(w)] + []string{"uint8", "int32", "interface{}"}[i]
			}
		}
		return m
	})
	e.tkeys[t] = k
	return k
}

// intInfo describes integer types: width, signedness, and whether carried as mathematical Int.
func intInfo(t types.Type) (w int, signed, asInt, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true, true
	case types.Int8:
		return 8, true, false, true
	case types.Int16:
		return 16, true, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, false, true
	case types.Uint8:
		return 8, false, false, true
	case types.Uint16:
		return 16, false, false, true
	case types.Uint32:
		return 32, false, false, true
	}
	return
}

func (e *Engine) sortOf(t types.Type) *Sort {
	if isTime(t) {
		return e.c.Int
	}
	if e.opaqueStruct(t) {
		return e.c.Int
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.Bool
		case u.Info()&types.IsString != 0:
			return e.c.Str
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				panic(unsup("float32"))
			}
			return e.c.F64
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return e.c.Int
		}
		w, _, asInt, ok := intInfo(t)
		if ok {
			if asInt {
				return e.c.Int
			}
			return e.c.BV(w)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return e.c.Int
	case *types.Slice:
		return e.c.Slice
	case *types.Interface:
		return e.c.Iface
	case *types.Array:
		return e.c.Arr(e.c.Int, e.sortOf(u.Elem()))
	case *types.Struct:
		k := e.typeKey(t)
		if s, ok := e.structSorts[k]; ok {
			return s
		}
		name := fmt.Sprintf("S%d_%s", len(e.structSorts), clean(k))
		if len(name) > 40 {
			name = name[:40]
		}
		var fs []DTField
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, DTField{fmt.Sprintf("%s-f%d", name, i), e.sortOf(u.Field(i).Type())})
		}
		if len(fs) == 0 {
			fs = []DTField{{name + "-e", e.c.Bool}}
		}
		s := e.c.DT(name, fs)
		e.structSorts[k] = s
		return s
	}
	panic(unsup("sort of %s", t))
}

func isRefType(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// scalarType: values of the type may be merged by ite without losing precision that matters.
func (e *Engine) scalarType(t types.Type) bool {
	if isTime(t) || e.opaqueStruct(t) {
		return true
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer && u.Kind() != types.UntypedNil
	case *types.Array:
		return e.scalarType(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !e.scalarType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) zeroTerm(t types.Type) *Term {
	c := e.c
	if isTime(t) || e.opaqueStruct(t) {
		return c.N(0)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		s := e.sortOf(t)
		switch s.K {
		case KBool:
			return c.False
		case KInt:
			return c.N(0)
		case KBV:
			return c.BVc(0, s.W)
		case KFP:
			return c.FPc(0)
		case KStr:
			return c.StrLit("")
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return c.N(0)
	case *types.Slice:
		z := c.N(0)
		return c.MkDT(c.Slice, z, z, z, z)
	case *types.Interface:
		z := c.N(0)
		return c.MkDT(c.Iface, z, z)
	case *types.Array:
		return c.ConstArr(e.sortOf(t), e.zeroTerm(u.Elem()))
	case *types.Struct:
		s := e.sortOf(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, e.zeroTerm(u.Field(i).Type()))
		}
		if len(as) == 0 {
			as = []*Term{c.True}
		}
		return c.MkDT(s, as...)
	}
	panic(unsup("zero of %s", t))
}
func (e *Engine) zero(t types.Type) V { return e.unpack(e.zeroTerm(t), t) }

func (e *Engine) pack(v V, t types.Type) *Term {
	c := e.c
	switch x := v.(type) {
	case *Term:
		return x
	case SliceV:
		return c.MkDT(c.Slice, x.Ref, x.Off, x.Len, x.Cap)
	case IfaceV:
		return c.MkDT(c.Iface, x.Tag, x.Ref)
	case StructV:
		s := e.sortOf(t)
		u := under(t).(*types.Struct)
		var as []*Term
		for i, f := range x.F {
			as = append(as, e.pack(f, u.Field(i).Type()))
		}
		if len(as) == 0 {
			as = []*Term{c.True}
		}
		return c.MkDT(s, as...)
	case ArrV:
		return x.A
	case FuncV:
		return e.regFunc(x)
	case PtrV:
		// interior pointer escaping into memory: give it an identity
		return e.regPtr(x)
	}
	panic(unsup("pack %T as %s", v, t))
}

func (e *Engine) unpack(t *Term, ty types.Type) V {
	c := e.c
	if isTime(ty) || e.opaqueStruct(ty) {
		return t
	}
	switch u := under(ty).(type) {
	case *types.Slice:
		return SliceV{c.Sel(t, 0), c.Sel(t, 1), c.Sel(t, 2), c.Sel(t, 3)}
	case *types.Interface:
		return IfaceV{c.Sel(t, 0), c.Sel(t, 1)}
	case *types.Struct:
		var fs []V
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.unpack(c.Sel(t, i), u.Field(i).Type()))
		}
		return StructV{fs}
	case *types.Array:
		return ArrV{t, u.Len()}
	case *types.Signature:
		if t.Op == "int" && t.I.IsInt64() {
			if f, ok := e.funcs[t.I.Int64()]; ok {
				return f
			}
		}
		return t
	case *types.Pointer:
		if t.Op == "int" && t.I.IsInt64() {
			if p, ok := e.ptrs[t.I.Int64()]; ok {
				return p
			}
		}
		return t
	case *types.Tuple:
		panic(unsup("unpack tuple"))
	}
	return t
}

func (e *Engine) regFunc(f FuncV) *Term {
	if f.Fn != nil && len(f.Bind) == 0 {
		if id, ok := e.funcIDs[f.Fn]; ok {
			return e.c.N(id)
		}
	}
	id := e.newRefID()
	e.funcs[id] = f
	if f.Fn != nil && len(f.Bind) == 0 {
		e.funcIDs[f.Fn] = id
	}
	return e.c.N(id)
}
func (e *Engine) regPtr(p PtrV) *Term {
	k := e.ptrKey(p)
	if id, ok := e.ptrIDs[k]; ok {
		return e.c.N(id)
	}
	id := e.newRefID()
	e.ptrs[id] = p
	e.ptrIDs[k] = id
	return e.c.N(id)
}
func (e *Engine) ptrKey(p PtrV) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d:%d:", p.Kind, p.Ref.ID)
	if p.Idx != nil {
		fmt.Fprintf(&b, "i%d", p.Idx.ID)
	}
	for _, s := range p.Steps {
		if s.Idx != nil {
			fmt.Fprintf(&b, "[%d]", s.Idx.ID)
		} else {
			fmt.Fprintf(&b, ".%d", s.Field)
		}
	}
	return b.String()
}

func (e *Engine) newRefID() int64 { e.nextRef++; return e.nextRef }

// freshVal makes an arbitrary value of type t; facts about it are assumed in st.
func (e *Engine) freshVal(st *State, name string, t types.Type, refHi int64) V {
	s := e.sortOf(t)
	v := e.c.Fresh(name, s)
	v.RefHi = refHi
	delete(e.c.rh, v.ID)
	if s.K == KDT && (s == e.c.Slice || s == e.c.Iface) {
		// make the components plain variables: keeps terms small
		var as []*Term
		for _, f := range s.Fields {
			x := e.c.Fresh(name+"_"+f.Name, e.c.Int)
			x.RefHi = refHi
			as = append(as, x)
		}
		v = e.c.MkDT(s, as...)
	}
	val := e.unpack(v, t)
	e.assumeWF(st, val, t, refHi)
	return val
}

var (
	maxLen   = new(big.Int).Lsh(bigOne, 47)
	int64Max = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 63), bigOne)
	int64Min = new(big.Int).Neg(new(big.Int).Lsh(bigOne, 63))
	uintMax  = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 64), bigOne)
)

// assumeWF adds the type invariants of a value obtained from an unknown source.
func (e *Engine) assumeWF(st *State, v V, t types.Type, refHi int64) {
	c := e.c
	switch x := v.(type) {
	case *Term:
		if x.Bound || e.c.IsConst(x) {
			return
		}
		if isTime(t) || e.opaqueStruct(t) {
			return
		}
		switch u := under(t).(type) {
		case *types.Basic:
			w, signed, asInt, ok := intInfo(t)
			_ = w
			if ok && asInt && u.Kind() != types.UntypedInt {
				lo, hi := int64Min, int64Max
				if !signed {
					lo, hi = bigZero, uintMax
				}
				if x.Lo == nil || x.Lo.Cmp(lo) < 0 || x.Hi == nil || x.Hi.Cmp(hi) > 0 {
					st.fact(e, c.And(c.Le(c.BigN(lo), x), c.Le(x, c.BigN(hi))))
				}
			}
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			hi := refHi
			if h := c.refHi(x); h < hi {
				hi = h
			}
			st.fact(e, c.And(c.Le(c.N(0), x), c.Lt(x, c.N(hi))))
		}
	case SliceV:
		if x.Ref.Bound || x.Len.Bound || x.Off.Bound {
			return
		}
		if e.c.IsConst(x.Ref) && e.c.IsConst(x.Len) && c.IsConst(x.Cap) && c.IsConst(x.Off) {
			return
		}
		hi := refHi
		if h := c.refHi(x.Ref); h < hi {
			hi = h
		}
		st.fact(e, c.Le(c.N(0), x.Ref))
		st.fact(e, c.Lt(x.Ref, c.N(hi)))
		st.fact(e, c.Le(c.N(0), x.Off))
		st.fact(e, c.Le(c.N(0), x.Len))
		st.fact(e, c.Le(x.Len, x.Cap))
		st.fact(e, c.Le(x.Cap, c.BigN(maxLen)))
		st.fact(e, c.Le(x.Off, c.BigN(maxLen)))
		st.fact(e, c.Imp(c.Eq(x.Ref, c.N(0)), c.And(c.Eq(x.Cap, c.N(0)), c.Eq(x.Off, c.N(0)))))
	case IfaceV:
		if x.Tag.Bound || x.Ref.Bound {
			return
		}
		if c.IsConst(x.Tag) && c.IsConst(x.Ref) {
			return
		}
		hi := refHi
		if h := c.refHi(x.Ref); h < hi {
			hi = h
		}
		st.fact(e, c.Le(c.N(0), x.Tag))
		st.fact(e, c.And(c.Le(c.N(0), x.Ref), c.Lt(x.Ref, c.N(hi))))
		st.fact(e, c.Imp(c.Eq(x.Tag, c.N(0)), c.Eq(x.Ref, c.N(0))))
	case StructV:
		u := under(t).(*types.Struct)
		for i, f := range x.F {
			e.assumeWF(st, f, u.Field(i).Type(), refHi)
		}
	}
}
