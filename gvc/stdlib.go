package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stdlib gives the contracts assumed for library functions (the trusted base; reported in the evidence).
func (e *Engine) stdlib(p path, fn *ssa.Function, args []V, cc *ssa.CallCommon, pos token.Pos) ([]outcome, bool) {
	c := e.c
	st := p.st
	pp := pkgPath(fn)
	if e.inRepo(pp) {
		if fn.Name() == "init" && fn.Synthetic != "" && len(e.calls) > 0 && e.calls[len(e.calls)-1].Name() == "init" && fn != e.calls[len(e.calls)-1] {
			return []outcome{{st, nil}}, true
		}
		return nil, false
	}
	one := func(vs ...V) ([]outcome, bool) {
		e.models[fn.String()] = true
		return []outcome{{st, vs}}, true
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		return []outcome{{st, nil}}, true
	}
	n := origin(fn).String()
	nilErr := func() IfaceV { return IfaceV{c.N(0), c.N(0)} }
	switch pp {
	case "github.com/sirupsen/logrus":
		switch fn.Name() {
		case "Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Warning", "Warningf", "Error", "Errorf", "Print", "Printf", "Println", "Debugln", "Infoln", "Warnln", "Errorln", "Trace", "Tracef":
			return one(e.zeroResults(fn)...)
		case "Fatal", "Fatalf", "Panic", "Panicf", "Fatalln":
			e.safety(st, "no fatal exit", c.False, pos)
			return nil, true
		}
	case "log":
		switch fn.Name() {
		case "Print", "Printf", "Println":
			return one()
		case "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln":
			e.safety(st, "no fatal exit", c.False, pos)
			return nil, true
		}
	case "github.com/davecgh/go-spew/spew":
		if fn.Name() == "Dump" {
			return one()
		}
	}
	switch n {
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		v := e.freshVal(st, "n", types.Typ[types.Int], refBase)
		return one(v, IfaceV{c.N(0), c.N(0)})
	case "fmt.Errorf", "errors.New":
		er := e.newError(st)
		if f, ok := args[0].(*Term); ok && f.Op == "strlit" && !strings.Contains(c.litVal(f), "%") {
			plain := fn.Name() == "New"
			if !plain {
				vs, ok := e.variadic(st, args[1])
				plain = ok && len(vs) == 0
			}
			if plain {
				st.fact(e, c.Eq(c.App("errstr", c.Str, er.Tag, er.Ref), f))
			}
		}
		return one(er)
	case "errors.Is":
		a, b := args[0].(IfaceV), args[1].(IfaceV)
		same := c.And(c.Eq(a.Tag, b.Tag), c.Eq(a.Ref, b.Ref))
		return one(c.Or(same, c.And(c.Not(c.Eq(a.Tag, c.N(0))), c.Not(c.Eq(b.Tag, c.N(0))), c.Fresh("errIs", c.Bool))))
	case "fmt.Sprintf":
		return one(e.sprintf(st, args))
	case "fmt.Sprint", "fmt.Sprintln":
		s := c.Fresh("sprint", c.Str)
		e.strlen(st, s)
		return one(s)
	case "strconv.Itoa":
		return one(e.itoa(st, args[0].(*Term)))
	case "strconv.FormatInt":
		if b, ok := args[1].(*Term); ok && b == c.N(10) {
			return one(e.itoa(st, args[0].(*Term)))
		}
	case "strconv.Atoi":
		s := args[0].(*Term)
		v := e.freshVal(st, "atoi", types.Typ[types.Int], refBase)
		er := e.freshVal(st, "err", types.Universe.Lookup("error").Type(), refBase)
		_ = s
		return one(v, er)
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		s := args[0].(*Term)
		if s.Op == "strlit" {
			switch fn.Name() {
			case "ToLower":
				return one(c.StrLit(strings.ToLower(c.litVal(s))))
			case "ToUpper":
				return one(c.StrLit(strings.ToUpper(c.litVal(s))))
			case "TrimSpace":
				return one(c.StrLit(strings.TrimSpace(c.litVal(s))))
			}
		}
		if fn.Name() == "ToLower" {
			return one(e.lower(st, s))
		}
		r := c.App("fn_"+clean(n), c.Str, s)
		e.strlen(st, r)
		return one(r)
	case "strings.EqualFold":
		return one(c.Eq(e.lower(st, args[0].(*Term)), e.lower(st, args[1].(*Term))))
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		a, b := args[0].(*Term), args[1].(*Term)
		if a.Op == "strlit" && b.Op == "strlit" {
			x, y := c.litVal(a), c.litVal(b)
			return one(c.B(map[string]bool{"strings.Contains": strings.Contains(x, y), "strings.HasPrefix": strings.HasPrefix(x, y), "strings.HasSuffix": strings.HasSuffix(x, y)}[n]))
		}
		return one(c.App("fn_"+clean(n), c.Bool, a, b))
	case "strings.Join":
		// joins a slice of known length
		s, ok := args[0].(SliceV)
		if ok && s.Len.Op == "int" && s.Len.I.Int64() < 20 {
			arr := c.Select(e.heapGet(st, e.memKey(types.Typ[types.String])), s.Ref)
			r := c.StrLit("")
			for i := int64(0); i < s.Len.I.Int64(); i++ {
				if i > 0 {
					r = e.strcat(st, r, args[1].(*Term))
				}
				r = e.strcat(st, r, c.Select(arr, c.AddN(s.Off, i)))
			}
			return one(r)
		}
	case "encoding/hex.EncodeToString":
		s := args[0].(SliceV)
		if s.Len.Op == "int" && s.Len.I.Int64() < 40 {
			arr := c.Select(e.heapGet(st, e.memKey(types.Typ[types.Uint8])), s.Ref)
			r := c.StrLit("")
			for i := int64(0); i < s.Len.I.Int64(); i++ {
				r = e.strcat(st, r, e.hexOf(st, c.Select(arr, c.AddN(s.Off, i)), 2))
			}
			return one(r)
		}
	case "math.Min", "math.Max":
		a, b := args[0].(*Term), args[1].(*Term)
		nan := c.Or(c.FP("fp.isNaN", c.Bool, a), c.FP("fp.isNaN", c.Bool, b))
		op := Op("fp.lt")
		x, y := a, b
		if n == "math.Max" {
			x, y = b, a
		}
		// a and b of opposite zero signs: either zero may come back
		r := c.Ite(c.FP(op, c.Bool, x, y), a, b)
		if n == "math.Max" {
			r = c.Ite(c.FP(op, c.Bool, x, y), a, b)
		}
		nanT := c.FPc(math.NaN())
		return one(c.Ite(nan, nanT, r))
	case "math.Pow":
		a, b := args[0].(*Term), args[1].(*Term)
		if a.Op == "fp" {
			base := math.Float64frombits(a.U)
			if b.Op == "fp" {
				return one(c.FPc(math.Pow(base, math.Float64frombits(b.U))))
			}
			r := c.App("math_Pow", c.F64, a, b)
			out := r
			for i := 10; i >= -10; i-- {
				out = c.Ite(c.FP("fp.eq", c.Bool, b, c.FPc(float64(i))), c.FPc(math.Pow(base, float64(i))), out)
			}
			return one(out)
		}
		return one(c.App("math_Pow", c.F64, a, b))
	case "math.Pow10":
		b := args[0].(*Term)
		out := c.App("math_Pow10", c.F64, b)
		for i := 10; i >= -10; i-- {
			out = c.Ite(c.Eq(b, c.N(int64(i))), c.FPc(math.Pow10(i)), out)
		}
		return one(out)
	case "math.Floor", "math.Ceil", "math.Trunc", "math.Round", "math.Abs":
		a := args[0].(*Term)
		m := map[string]string{"math.Floor": "fp.rti_RTN", "math.Ceil": "fp.rti_RTP", "math.Trunc": "fp.rti_RTZ", "math.Round": "fp.rti_RNA", "math.Abs": "fp.abs"}[n]
		if n == "math.Abs" {
			return one(c.FP("fp.abs", c.F64, a))
		}
		_ = m
		return one(c.App("fn_"+clean(n), c.F64, a))
	case "math.IsNaN":
		return one(c.FP("fp.isNaN", c.Bool, args[0].(*Term)))
	case "math.Float64bits":
	case "bytes.NewReader", "bytes.NewBuffer":
		s := args[0].(SliceV)
		r := c.N(e.newRefID())
		for k, t := range map[string]*Term{"rdref": s.Ref, "rdoff": s.Off, "rdlen": s.Len, "rdpos": c.N(0)} {
			e.heapSet(st, e.ghostKey(k, c.Int), r, t)
		}
		return one(r)
	case "bytes.Equal":
		a, b := args[0].(SliceV), args[1].(SliceV)
		return one(e.bytesEqual(st, a, b))
	case "encoding/binary.Read":
		return e.binaryRead(p, fn, args, pos)
	case "time.Now":
		return one(e.now(st))
	case "time.Since":
		return one(c.Sub(e.now(st), args[0].(*Term)))
	case "time.Until":
		return one(c.Sub(args[0].(*Term), e.now(st)))
	case "(time.Time).Sub":
		// the difference saturates
		d := c.Sub(args[0].(*Term), args[1].(*Term))
		lo, hi := c.N(math.MinInt64), c.N(math.MaxInt64)
		return one(c.Ite(c.Lt(d, lo), lo, c.Ite(c.Lt(hi, d), hi, d)))
	case "(time.Time).Add":
		return one(c.Add(args[0].(*Term), args[1].(*Term)))
	case "(time.Time).Before":
		return one(c.Lt(args[0].(*Term), args[1].(*Term)))
	case "(time.Time).After":
		return one(c.Lt(args[1].(*Term), args[0].(*Term)))
	case "(time.Time).Equal":
		return one(c.Eq(args[0].(*Term), args[1].(*Term)))
	case "(time.Time).Compare":
		a, b := args[0].(*Term), args[1].(*Term)
		return one(c.Ite(c.Lt(a, b), c.N(-1), c.Ite(c.Lt(b, a), c.N(1), c.N(0))))
	case "(time.Time).IsZero":
		return one(c.Eq(args[0].(*Term), c.N(0)))
	case "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).UnixMilli":
		return one(c.App("fn_"+clean(n), c.Int, args[0].(*Term)))
	case "(time.Time).Format", "(time.Time).String":
		s := c.Fresh("timestr", c.Str)
		e.strlen(st, s)
		return one(s)
	case "(time.Duration).String":
		s := c.App("fn_durstr", c.Str, args[0].(*Term))
		e.strlen(st, s)
		return one(s)
	case "(time.Duration).Seconds":
		return one(c.App("fn_durseconds", c.F64, args[0].(*Term)))
	case "(time.Duration).Abs":
		d := args[0].(*Term)
		lo, hi := c.N(math.MinInt64), c.N(math.MaxInt64)
		return one(c.Ite(c.Le(c.N(0), d), d, c.Ite(c.Eq(d, lo), hi, c.Sub(c.N(0), d))))
	case "(time.Duration).Milliseconds":
		return one(e.goDiv(args[0].(*Term), c.N(1000000)))
	case "(time.Duration).Microseconds":
		return one(e.goDiv(args[0].(*Term), c.N(1000)))
	case "(time.Duration).Nanoseconds":
		return one(args[0])
	case "time.After", "time.Tick":
		return e.startTimer(p, nil, args[0].(*Term), pos, func(_ *State, ch *Term) V { return ch }), true
	case "time.NewTimer":
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return e.startTimer(p, nil, args[0].(*Term), pos, func(st *State, ch *Term) V {
			r := c.N(e.newRefID())
			e.heapSet(st, e.fieldKey(t, 0), r, ch)
			return r
		}), true
	case "(*time.Timer).Reset":
		if !e.derefOK(st, args[0], pos) {
			return nil, true
		}
		ch := c.Select(e.heapGet(st, e.fieldKey(fn.Signature.Recv().Type().(*types.Pointer).Elem(), 0)), args[0].(*Term))
		return e.startTimer(p, ch, args[1].(*Term), pos, func(*State, *Term) V { return c.Fresh("timerstop", c.Bool) }), true
	case "(*time.Timer).Stop":
		return one(c.Fresh("timerstop", c.Bool))
	case "time.AfterFunc":
		f := args[1].(FuncV)
		if h, ok := st.hooks["go"]; ok {
			_ = h
			panic(unsup("time.AfterFunc with a go hook"))
		}
		st.spawns = append(st.spawns, spawn{e.thunk(f, nil), nil, pos})
		return one(c.N(e.newRefID()))
	case "time.Sleep":
		if h, ok := st.hooks["sleep"]; ok {
			e.models[n] = true
			return e.dropRes(e.callFunc(path{st, &Frame{fn: p.fr.fn}}, h, []V{args[0]}, cc, pos)), true
		}
		return one()
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		e.models[n] = true
		return e.lockOp(p, fn.Name(), args[0], pos), true
	case "(*sync.RWMutex).TryLock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryRLock":
	case "(*sync.Once).Do":
		return e.onceDo(p, args, cc, pos), true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
		return one()
	case "(*sync.WaitGroup).Wait":
		e.blockPoint(st, pos)
		return one()
	case "reflect.DeepEqual":
		return one(c.Fresh("deepeq", c.Bool))
	case "github.com/pborman/uuid.New", "github.com/google/uuid.NewString", "github.com/google/uuid.New":
		s := c.Fresh("uuid", c.Str)
		e.strlen(st, s)
		st.fact(e, c.Not(c.Eq(s, c.StrLit(""))))
		e.assumes["uuid.New returns a string never used before"] = true
		e.freshString(st, s)
		return one(s)
	case "sort.Sort", "sort.Stable":
	case "runtime.Gosched":
		return one()
	case "encoding/json.Marshal":
		e.models[n] = true
		hi := e.newEpoch(st)
		v := e.freshVal(st, "json", types.NewSlice(types.Typ[types.Uint8]), hi)
		er := e.freshVal(st, "err", types.Universe.Lookup("error").Type(), refBase)
		return one(v, er)
	case "encoding/json.Unmarshal":
		// fills *v with anything
		iv := args[1].(IfaceV)
		if err := e.havocThrough(st, iv); err == "" {
			er := e.freshVal(st, "err", types.Universe.Lookup("error").Type(), refBase)
			return one(er)
		}
	}
	_ = strconv.Itoa
	_ = nilErr
	return nil, false
}

func (e *Engine) zeroResults(fn *ssa.Function) []V {
	var vs []V
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		vs = append(vs, e.zero(fn.Signature.Results().At(i).Type()))
	}
	return vs
}

// havocThrough gives the object behind a pointer in an interface arbitrary contents.
func (e *Engine) havocThrough(st *State, iv IfaceV) string {
	if iv.Tag.Op != "int" {
		return "unknown"
	}
	t := e.tagTypes[iv.Tag.I.Int64()]
	pt, ok := under(t).(*types.Pointer)
	if !ok {
		return "not a pointer"
	}
	p := e.unbox(st, iv, t)
	hi := e.newEpoch(st)
	if x, ok := p.(*Term); ok && e.isObjStruct(pt.Elem()) {
		e.havocObj(st, x, pt.Elem())
		return ""
	}
	e.store(st, p, pt.Elem(), e.freshVal(st, "hv", pt.Elem(), hi))
	return ""
}

func (e *Engine) now(st *State) *Term {
	c := e.c
	t := c.Fresh("now", c.Int)
	prev, ok := st.vals["now"].(*Term)
	if !ok {
		prev = c.N(1)
	}
	st.fact(e, c.Le(prev, t))
	st.fact(e, c.Le(t, c.BigN(maxLen)))
	st.vals["now"] = t
	return t
}

func (e *Engine) newTimer(st *State, d *Term) *Term {
	c := e.c
	r := c.N(e.newRefID())
	e.newChan(st, r, c.N(1))
	e.heapSet(st, e.ghostKey("timerdur", c.Int), r, d)
	return r
}

// startTimer: a new timer, or an old one (ch) again.
func (e *Engine) startTimer(p path, ch, d *Term, pos token.Pos, res func(st *State, ch *Term) V) []outcome {
	st := p.st
	if ch == nil {
		ch = e.newTimer(st, d)
	} else {
		e.heapSet(st, e.ghostKey("timerdur", e.c.Int), ch, d)
	}
	h, ok := st.hooks["timerstarted"]
	if !ok {
		return []outcome{{st, []V{res(st, ch)}}}
	}
	var out []outcome
	for _, o := range e.callFunc(path{st, &Frame{fn: p.fr.fn}}, h, []V{ch, d}, nil, pos) {
		out = append(out, outcome{o.st, []V{res(o.st, ch)}})
	}
	return out
}

func (e *Engine) onceDo(p path, args []V, cc *ssa.CallCommon, pos token.Pos) []outcome {
	c := e.c
	st := p.st
	if !e.derefOK(st, args[0], pos) {
		return nil
	}
	kind, ref := e.lockKey(args[0])
	k := e.ghostKey("once:"+kind, c.Bool)
	done := c.Select(e.heapGet(st, k), ref)
	var outs []outcome
	f := e.funcArg(args[1])
	e.models["(*sync.Once).Do"] = true
	if done != c.True && e.feasible(st, c.Not(done)) {
		s2 := st.clone()
		s2.decide(c.Not(done))
		for _, o := range e.callFunc(path{s2, p.fr}, f, nil, cc, pos) {
			e.heapSet(o.st, k, ref, c.True)
			outs = append(outs, outcome{o.st, nil})
		}
	}
	if done != c.False && e.feasible(st, done) {
		st.decide(done)
		outs = append(outs, outcome{st, nil})
	}
	return outs
}

// freshString: the string is not a key of any string-keyed map.
func (e *Engine) freshString(st *State, s *Term) {
	c := e.c
	for k, ki := range e.keys {
		if strings.HasPrefix(k, "MD:") && ki.sort.K == KArr && ki.sort.Dom == c.Str {
			h := e.heapGet(st, k)
			b := c.BoundVar(c.Int)
			row := c.Select(h, b)
			st.fact(e, c.Forall([]*Term{b}, c.Not(c.Select(row, s)), [][]*Term{{row}}))
			// ground instances for the known maps
			seen := map[int]bool{}
			for hh := h; hh.Op == "store"; hh = hh.Args[0] {
				if !seen[hh.Args[1].ID] {
					seen[hh.Args[1].ID] = true
					st.fact(e, c.Not(c.Select(c.Select(h, hh.Args[1]), s)))
				}
			}
		}
	}
	st.vals["uuid"] = s
}

func (e *Engine) lower(st *State, s *Term) *Term {
	c := e.c
	switch {
	case s.Op == "strlit":
		return c.StrLit(strings.ToLower(c.litVal(s)))
	case s.Op == "ite":
		return c.Ite(s.Args[0], e.lower(st, s.Args[1]), e.lower(st, s.Args[2]))
	case s.Op == "app" && s.Name == "strcat":
		return e.strcat(st, e.lower(st, s.Args[0]), e.lower(st, s.Args[1]))
	case s.Op == "app" && (s.Name == "strlower" || s.Name == "hexdig" || s.Name == "itoa"):
		return s
	}
	r := c.App("strlower", c.Str, s)
	e.strlen(st, r)
	return r
}

func (e *Engine) itoa(st *State, t *Term) *Term {
	c := e.c
	if t.Op == "int" {
		return c.StrLit(t.I.String())
	}
	r := c.App("itoa", c.Str, t)
	st.fact(e, c.Le(c.N(1), e.strlen(st, r)))
	// different numbers are written differently
	if !r.Bound {
		st.fact(e, c.Eq(c.App("atoi", c.Int, r), t))
	}
	if !c.itoaAx {
		c.itoaAx = true
		b := c.BoundVar(c.Int)
		x := c.App("itoa", c.Str, b)
		c.Axioms = append(c.Axioms, c.Forall([]*Term{b}, c.Eq(c.App("atoi", c.Int, x), b), [][]*Term{{x}}))
	}
	return r
}

// hexOf writes n lower-case hex digits of a fixed-width integer.
func (e *Engine) hexOf(st *State, t *Term, n int) *Term {
	c := e.c
	r := c.StrLit("")
	w := t.S.W
	for i := n - 1; i >= 0; i-- {
		var d *Term
		if i*4 >= w {
			d = c.BVc(0, 4)
		} else {
			d = c.Extract(i*4+3, i*4, t)
		}
		r = e.strcat(st, r, e.hexDigit(st, d))
	}
	return r
}
func (e *Engine) hexDigit(st *State, d *Term) *Term {
	c := e.c
	if d.Op == "bv" {
		return c.StrLit(string("0123456789abcdef"[d.U]))
	}
	r := c.App("hexdig", c.Str, d)
	if !r.Bound {
		st.fact(e, c.Eq(e.strlen(st, r), c.N(1)))
		st.fact(e, c.Eq(c.App("hexval", c.BV(4), r), d))
	}
	return r
}

// sprintf expands a literal format.
func (e *Engine) sprintf(st *State, args []V) V {
	c := e.c
	f, ok := args[0].(*Term)
	vs, ok2 := e.variadic(st, args[1])
	if !ok || f.Op != "strlit" || !ok2 {
		s := c.Fresh("sprintf", c.Str)
		e.strlen(st, s)
		return s
	}
	format := c.litVal(f)
	out := c.StrLit("")
	lit := func(s string) { out = e.strcat(st, out, c.StrLit(s)) }
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit(string(format[i]))
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("0123456789.+-# ", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[j]
		flags := format[i+1 : j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(vs) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		iv := vs[ai]
		ai++
		out = e.strcat(st, out, e.fmtArg(st, verb, flags, iv))
	}
	if ai < len(vs) {
		s := c.Fresh("sprintf", c.Str)
		e.strlen(st, s)
		return s
	}
	return out
}

func (e *Engine) variadic(st *State, v V) ([]IfaceV, bool) {
	c := e.c
	s, ok := v.(SliceV)
	if !ok || s.Len.Op != "int" || s.Len.I.Int64() > 30 {
		return nil, false
	}
	it := types.NewInterfaceType(nil, nil)
	arr := c.Select(e.heapGet(st, e.memKey(it)), s.Ref)
	var out []IfaceV
	for i := int64(0); i < s.Len.I.Int64(); i++ {
		out = append(out, e.unpack(c.Select(arr, c.AddN(s.Off, i)), it).(IfaceV))
	}
	return out, true
}

func (e *Engine) fmtArg(st *State, verb byte, flags string, iv IfaceV) *Term {
	c := e.c
	uf := func(name string, as ...*Term) *Term {
		r := c.App(name, c.Str, as...)
		e.strlen(st, r)
		return r
	}
	if iv.Tag.Op == "int" && iv.Tag.I.Sign() != 0 {
		t := e.tagTypes[iv.Tag.I.Int64()]
		hasMethod := types.NewMethodSet(t).Len() > 0
		if b, ok := under(t).(*types.Basic); ok && (!hasMethod || verb == 'x' || verb == 'd') {
			v, ok := e.unbox(st, iv, t).(*Term)
			if ok {
				w, signed, asInt, isInt := intInfo(t)
				switch {
				case isInt && verb == 'd' && flags == "" || isInt && verb == 'v' && flags == "":
					if !asInt {
						v = c.BV2Int(v, signed)
					}
					return e.itoa(st, v)
				case isInt && !asInt && !signed && verb == 'x' && strings.HasPrefix(flags, "0"):
					n, err := strconv.Atoi(flags)
					if err == nil && n*4 >= w && n < 40 {
						return e.hexOf(st, v, n)
					}
				case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') && flags == "":
					return v
				case b.Kind() == types.Bool && (verb == 't' || verb == 'v'):
					return c.Ite(v, c.StrLit("true"), c.StrLit("false"))
				}
				return uf(fmt.Sprintf("fmt_%d_%s_%s", verb, clean(flags), clean(e.typeKey(t))), v)
			}
		}
		if s, ok := under(t).(*types.Slice); ok && verb == 'x' {
			if el, ok := under(s.Elem()).(*types.Basic); ok && el.Kind() == types.Uint8 && flags == "" {
				if sv, ok := e.unbox(st, iv, t).(SliceV); ok && sv.Len.Op == "int" && sv.Len.I.Int64() < 40 {
					arr := c.Select(e.heapGet(st, e.memKey(s.Elem())), sv.Ref)
					r := c.StrLit("")
					for i := int64(0); i < sv.Len.I.Int64(); i++ {
						r = e.strcat(st, r, e.hexOf(st, c.Select(arr, c.AddN(sv.Off, i)), 2))
					}
					return r
				}
			}
		}
	}
	s := c.Fresh("fmtarg", c.Str)
	e.strlen(st, s)
	return s
}

func (e *Engine) bytesEqual(st *State, a, b SliceV) *Term {
	c := e.c
	arr := e.heapGet(st, e.memKey(types.Typ[types.Uint8]))
	aa, ba := c.Select(arr, a.Ref), c.Select(arr, b.Ref)
	q := c.Fresh("q", c.Int)
	body := c.Imp(c.And(c.Le(a.Off, q), c.Lt(q, c.Add(a.Off, a.Len))), c.Eq(c.Select(aa, q), c.Select(ba, c.Add(c.Sub(q, a.Off), b.Off))))
	return c.And(c.Eq(a.Len, b.Len), e.forallInt(body, q))
}

// binaryRead models binary.Read from a *bytes.Reader.
func (e *Engine) binaryRead(p path, fn *ssa.Function, args []V, pos token.Pos) ([]outcome, bool) {
	c := e.c
	st := p.st
	rd, ord, data := args[0].(IfaceV), args[1].(IfaceV), args[2].(IfaceV)
	if rd.Tag.Op != "int" || ord.Tag.Op != "int" || data.Tag.Op != "int" {
		return nil, false
	}
	rt := e.typeKey(e.tagTypes[rd.Tag.I.Int64()])
	if rt != "*bytes.Reader" && rt != "*bytes.Buffer" {
		return nil, false
	}
	big := strings.HasSuffix(e.typeKey(e.tagTypes[ord.Tag.I.Int64()]), "bigEndian")
	dt := e.tagTypes[data.Tag.I.Int64()]
	pt, ok := under(dt).(*types.Pointer)
	if !ok {
		return nil, false
	}
	size, ok := fixedSize(pt.Elem())
	if !ok {
		return nil, false
	}
	e.models[fn.String()] = true
	g := func(k string) *Term { return c.Select(e.heapGet(st, e.ghostKey(k, c.Int)), rd.Ref) }
	ref, off, ln, rp := g("rdref"), g("rdoff"), g("rdlen"), g("rdpos")
	rest := c.Sub(ln, rp)
	arr := c.Select(e.heapGet(st, e.memKey(types.Typ[types.Uint8])), ref)
	var outs []outcome
	enough := c.Le(c.N(size), rest)
	if e.feasible(st, enough) {
		s2 := st.clone()
		s2.decide(enough)
		at := c.Add(off, rp)
		v, _ := e.decodeFixed(arr, at, pt.Elem(), big)
		ptr := e.unbox(s2, data, dt)
		e.store(s2, ptr, pt.Elem(), v)
		e.heapSet(s2, e.ghostKey("rdpos", c.Int), rd.Ref, c.AddN(rp, size))
		outs = append(outs, outcome{s2, []V{IfaceV{c.N(0), c.N(0)}}})
	}
	if e.feasible(st, c.Not(enough)) {
		st.decide(c.Not(enough))
		e.heapSet(st, e.ghostKey("rdpos", c.Int), rd.Ref, ln)
		outs = append(outs, outcome{st, []V{e.newError(st)}})
	}
	return outs, true
}

func fixedSize(t types.Type) (int64, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return 1, true
		}
		switch u.Kind() {
		case types.Int8, types.Uint8:
			return 1, true
		case types.Int16, types.Uint16:
			return 2, true
		case types.Int32, types.Uint32:
			return 4, true
		case types.Int64, types.Uint64:
			return 8, true
		}
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			k, ok := fixedSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	case *types.Array:
		k, ok := fixedSize(u.Elem())
		return k * u.Len(), ok
	}
	return 0, false
}

func (e *Engine) decodeFixed(arr, at *Term, t types.Type, big bool) (V, *Term) {
	c := e.c
	switch u := under(t).(type) {
	case *types.Basic:
		n, _ := fixedSize(t)
		if u.Kind() == types.Bool {
			return c.Not(c.Eq(c.Select(arr, at), c.BVc(0, 8))), c.AddN(at, 1)
		}
		var bs []*Term
		for i := int64(0); i < n; i++ {
			bs = append(bs, c.Select(arr, c.AddN(at, i)))
		}
		w := int(n * 8)
		v := c.BVc(0, w)
		for i := range bs {
			sh := i
			if big {
				sh = len(bs) - 1 - i
			}
			v = c.BVBin("bvor", v, c.BVBin("bvshl", c.ZExt(bs[i], w), c.BVc(uint64(8*sh), w)))
		}
		if w == 64 {
			_, signed, _, _ := intInfo(t)
			return e.fromBV64(v, signed), c.AddN(at, n)
		}
		return v, c.AddN(at, n)
	case *types.Struct:
		var fs []V
		for i := 0; i < u.NumFields(); i++ {
			v, nx := e.decodeFixed(arr, at, u.Field(i).Type(), big)
			fs = append(fs, v)
			at = nx
		}
		return StructV{fs}, at
	case *types.Array:
		a := e.zeroTerm(t)
		for i := int64(0); i < u.Len(); i++ {
			v, nx := e.decodeFixed(arr, at, u.Elem(), big)
			a = c.Store(a, c.N(i), e.pack(v, u.Elem()))
			at = nx
		}
		return ArrV{a, u.Len()}, at
	}
	panic(unsup("binary.Read into %s", t))
}
