package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// A concrete counterexample is read back from the solver for the inputs of a harness
// and handed to the native replay; it is only a candidate until the replay fails.

type modelReq struct {
	terms []*Term
	set   []func(string)
}

func (m *modelReq) add(t *Term, f func(string)) {
	m.terms = append(m.terms, t)
	m.set = append(m.set, f)
}

func (e *Engine) addInput(st *State, name string, t types.Type, v V) {
	e.inputs = append(e.inputs, &Input{Name: name, T: t, V: v, St: st.clone()})
}

func (e *Engine) extractModel(st *State, cond *Term, o *Oblig) {
	if len(e.inputs) == 0 || o.Model != nil {
		return
	}
	back := e.mark()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*unsupported); !ok {
				panic(r)
			}
			back()
		}
	}()
	c := e.c
	base := c.Not(cond)
	// first round: lengths of slices, kept small
	var small []*Term
	var lens []*Term
	var walk func(v V, t types.Type, in *Input, d int)
	walk = func(v V, t types.Type, in *Input, d int) {
		switch x := v.(type) {
		case SliceV:
			small = append(small, c.Le(x.Len, c.N(40)), c.Le(x.Cap, c.N(60)))
			lens = append(lens, x.Len, x.Cap)
		case StructV:
			u := under(t).(*types.Struct)
			for i := range x.F {
				walk(x.F[i], u.Field(i).Type(), in, d)
			}
		}
	}
	for _, in := range e.inputs {
		walk(in.V, in.T, in, 2)
	}
	var fix []*Term
	ok := false
	for _, lim := range [][]*Term{small, nil} {
		r, vals := e.light.CheckModel(st.pc, c.And(append(append([]*Term{}, lim...), base)...), lens)
		if r == Unsat {
			continue
		}
		if len(vals) == len(lens) {
			fix = nil
			for i, s := range vals {
				if n, err := parseInt(s); err == nil {
					fix = append(fix, c.Eq(lens[i], c.BigN(n)))
				}
			}
			ok = true
			break
		}
	}
	if !ok && len(lens) > 0 {
		return
	}
	lenOf := map[int]int64{}
	for _, f := range fix {
		for i, l := range lens {
			_ = i
			if f.Op == "=" && (f.Args[0] == l || f.Args[1] == l) {
				k := f.Args[1]
				if f.Args[1] == l {
					k = f.Args[0]
				}
				if k.Op == "int" && k.I.IsInt64() {
					lenOf[l.ID] = k.I.Int64()
				}
			}
		}
	}
	req := &modelReq{}
	root := map[string]any{}
	e.quiet++
	e.pure++
	for _, in := range e.inputs {
		e.reqValue(req, in.St, in.V, in.T, lenOf, 3, func(x any) {
			if _, dup := root[in.Name]; !dup {
				root[in.Name] = x
			}
		})
	}
	e.pure--
	e.quiet--
	r, vals := e.light.CheckModel(st.pc, c.And(append(fix, base)...), req.terms)
	if r == Unsat || len(vals) != len(req.terms) {
		return
	}
	for i, s := range vals {
		req.set[i](s)
	}
	// containers are closed in reverse order of creation
	for i := len(e.modelFin) - 1; i >= 0; i-- {
		e.modelFin[i]()
	}
	e.modelFin = nil
	o.Model = root
}

func parseInt(s string) (*big.Int, error) {
	s = strings.NewReplacer("(", "", ")", "", " ", "").Replace(s)
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, fmt.Errorf("not an integer: %s", s)
	}
	return n, nil
}
func parseBV(s string) uint64 {
	switch {
	case strings.HasPrefix(s, "#x"):
		n, _ := strconv.ParseUint(s[2:], 16, 64)
		return n
	case strings.HasPrefix(s, "#b"):
		n, _ := strconv.ParseUint(s[2:], 2, 64)
		return n
	}
	return 0
}
func parseFP(s string) float64 {
	switch {
	case strings.Contains(s, "NaN"):
		return math.NaN()
	case strings.Contains(s, "+oo"):
		return math.Inf(1)
	case strings.Contains(s, "-oo"):
		return math.Inf(-1)
	case strings.Contains(s, "+zero"):
		return 0
	case strings.Contains(s, "-zero"):
		return math.Copysign(0, -1)
	}
	p := splitSexp(s)
	if len(p) == 4 && p[0] == "fp" {
		return math.Float64frombits(parseBV(p[1])<<63 | parseBV(p[2])<<52 | parseBV(p[3]))
	}
	return 0
}

func (e *Engine) reqValue(req *modelReq, st *State, v V, t types.Type, lenOf map[int]int64, d int, set func(any)) {
	c := e.c
	switch x := v.(type) {
	case *Term:
		if isTime(t) || e.opaqueStruct(t) {
			return
		}
		switch u := under(t).(type) {
		case *types.Pointer:
			if !e.isObjStruct(u.Elem()) || d <= 0 {
				return
			}
			m := map[string]any{}
			e.modelFin = append(e.modelFin, func() {})
			isNil := false
			req.add(x, func(s string) {
				if n, err := parseInt(s); err == nil && n.Sign() == 0 {
					isNil = true
				}
				if isNil {
					set(nil)
				} else {
					set(m)
				}
			})
			us := under(u.Elem()).(*types.Struct)
			for i := 0; i < us.NumFields(); i++ {
				ft := us.Field(i).Type()
				if e.opaqueStruct(ft) {
					continue
				}
				if _, isP := under(ft).(*types.Pointer); isP {
					continue
				}
				name := us.Field(i).Name()
				fv := e.unpack(c.Select(e.heapGet(st, e.fieldKey(u.Elem(), i)), x), ft)
				e.reqValue(req, st, fv, ft, lenOf, d-1, func(y any) { m[name] = y })
			}
			return
		case *types.Basic:
			info := u.Info()
			_, signed, asInt, isInt := intInfo(t)
			req.add(x, func(s string) {
				switch {
				case info&types.IsBoolean != 0:
					set(s == "true")
				case info&types.IsFloat != 0:
					set(fmt.Sprint(parseFP(s)))
				case info&types.IsString != 0:
				case isInt && asInt:
					if n, err := parseInt(s); err == nil {
						set(n.String())
					}
				case isInt:
					b := parseBV(s)
					if signed {
						w := x.S.W
						if w < 64 && b>>(w-1) != 0 {
							set(fmt.Sprint(int64(b) - (1 << w)))
							return
						}
					}
					set(fmt.Sprint(b))
				}
			})
			if info&types.IsString != 0 && len(e.c.litIDs) < 60 {
				for _, l := range e.c.litIDs {
					lit := l
					req.add(c.Eq(x, c.StrLit(lit)), func(s string) {
						if s == "true" {
							set(lit)
						}
					})
				}
			}
		}
	case SliceV:
		b, ok := under(under(t).(*types.Slice).Elem()).(*types.Basic)
		if !ok || b.Kind() != types.Uint8 {
			return
		}
		n, okN := lenOf[x.Len.ID]
		k, okK := lenOf[x.Cap.ID]
		if !okN || !okK {
			// a slice inside an object: small by default
			n, k = 24, 24
			if x.Len.Op == "int" {
				n = x.Len.I.Int64()
			}
			if x.Cap.Op == "int" {
				k = x.Cap.I.Int64()
			}
			okN = false
		}
		if k > 400 {
			k = max(n, 0)
			if k > 400 {
				return
			}
		}
		buf := make([]byte, k)
		m := map[string]any{"len": float64(n), "nil": false}
		if !okN {
			req.add(x.Len, func(s string) {
				if z, err := parseInt(s); err == nil && z.IsInt64() && z.Int64() <= int64(len(buf)) {
					m["len"] = float64(z.Int64())
				}
			})
		}
		req.add(x.Ref, func(s string) {
			if z, err := parseInt(s); err == nil && z.Sign() == 0 {
				m["nil"] = true
			}
		})
		arr := c.Select(e.heapGet(st, e.memKey(types.Typ[types.Uint8])), x.Ref)
		for i := int64(0); i < k; i++ {
			i := i
			req.add(c.Select(arr, c.Add(x.Off, c.N(i))), func(s string) { buf[i] = byte(parseBV(s)) })
		}
		e.modelFin = append(e.modelFin, func() { m["hex"] = hex.EncodeToString(buf) })
		set(m)
	case StructV:
		u := under(t).(*types.Struct)
		m := map[string]any{}
		for i := range x.F {
			name := u.Field(i).Name()
			e.reqValue(req, st, x.F[i], u.Field(i).Type(), lenOf, d-1, func(y any) { m[name] = y })
		}
		set(m)
	}
}
