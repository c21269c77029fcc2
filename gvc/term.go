package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SKind int

const (
	KBool SKind = iota
	KInt
	KBV
	KFP
	KStr
	KArr
	KDT
)

type Sort struct {
	K        SKind
	W        int
	Dom, Ran *Sort
	Name     string // SMT name
	Fields   []DTField
	Key      string
}
type DTField struct {
	Name string
	S    *Sort
}

func (s *Sort) SMT() string { return s.Name }

// ---------------------------------------------------------------- terms

type Op string

type Term struct {
	Op    Op
	S     *Sort
	Args  []*Term
	ID    int
	Name  string   // var / uf / datatype selector name
	I     *big.Int // int const; lin constant
	C     []*big.Int
	U     uint64 // bv / fp const
	Bound bool   // contains a bound variable
	Quant bool   // contains a quantifier
	Lo    *big.Int
	Hi    *big.Int
	RefHi int64 // for variables: refs inside are < RefHi
	Dist  map[int]bool
	Pats  [][]*Term
	Defd  string
}

type Ctx struct {
	patBad map[int]bool
	itoaAx bool
	fvs    map[int][]int // free bound variables of terms
	tab    map[string]*Term
	sorts  map[string]*Sort
	n      int
	fresh  int
	Bool   *Sort
	Int    *Sort
	Str    *Sort
	F64    *Sort
	Slice  *Sort
	Iface  *Sort
	dts    []*Sort
	lits   map[string]*Term
	litIDs []string
	rh     map[int]int64
	True   *Term
	False  *Term
	varDef []*Term           // declared variables in order
	ufs    map[string]string // uf name -> declaration
	ufSeq  []string
	kids   map[int]map[int]bool
	Axioms []*Term // definitions of recursive specification functions
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}, lits: map[string]*Term{}, rh: map[int]int64{}, ufs: map[string]string{}}
	c.Bool = c.mkSort(&Sort{K: KBool, Name: "Bool", Key: "Bool"})
	c.Int = c.mkSort(&Sort{K: KInt, Name: "Int", Key: "Int"})
	c.Str = c.mkSort(&Sort{K: KStr, Name: "Str", Key: "Str"})
	c.F64 = c.mkSort(&Sort{K: KFP, Name: "Float64", Key: "F64", W: 64})
	c.Slice = c.DT("Slice", []DTField{{"sl-ref", c.Int}, {"sl-off", c.Int}, {"sl-len", c.Int}, {"sl-cap", c.Int}})
	c.Iface = c.DT("Iface", []DTField{{"if-tag", c.Int}, {"if-ref", c.Int}})
	c.True = c.mk(&Term{Op: "true", S: c.Bool})
	c.False = c.mk(&Term{Op: "false", S: c.Bool})
	return c
}

func (c *Ctx) mkSort(s *Sort) *Sort {
	if o, ok := c.sorts[s.Key]; ok {
		return o
	}
	c.sorts[s.Key] = s
	return s
}
func (c *Ctx) BV(w int) *Sort {
	k := fmt.Sprintf("BV%d", w)
	if o, ok := c.sorts[k]; ok {
		return o
	}
	return c.mkSort(&Sort{K: KBV, W: w, Name: fmt.Sprintf("(_ BitVec %d)", w), Key: k})
}
func (c *Ctx) Arr(d, r *Sort) *Sort {
	k := "A(" + d.Key + "," + r.Key + ")"
	if o, ok := c.sorts[k]; ok {
		return o
	}
	return c.mkSort(&Sort{K: KArr, Dom: d, Ran: r, Name: "(Array " + d.Name + " " + r.Name + ")", Key: k})
}
func (c *Ctx) DT(name string, fs []DTField) *Sort {
	if o, ok := c.sorts["D:"+name]; ok {
		return o
	}
	s := c.mkSort(&Sort{K: KDT, Name: name, Fields: fs, Key: "D:" + name})
	c.dts = append(c.dts, s)
	return s
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(string(t.Op))
	b.WriteByte('|')
	b.WriteString(t.S.Key)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	if t.I != nil {
		b.WriteString(t.I.String())
	}
	for _, x := range t.C {
		b.WriteByte(',')
		b.WriteString(x.String())
	}
	if t.Op == "bv" || t.Op == "fp" || t.Op == "extract" {
		fmt.Fprintf(&b, "#%d", t.U)
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, " %d", a.ID)
	}
	if len(t.Pats) > 0 {
		b.WriteString("P")
		for _, p := range t.Pats {
			b.WriteByte(';')
			for _, a := range p {
				fmt.Fprintf(&b, " %d", a.ID)
			}
		}
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.ID = c.n
	if t.Op == "bound" {
		t.Bound = true
	}
	for _, a := range t.Args {
		if a.Quant {
			t.Quant = true
		}
		if a.Bound {
			t.Bound = true
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		t.Quant = true
		t.Bound = true
		t.Bound = len(c.freeBound(t)) > 0
	}
	c.tab[k] = t
	c.setRange(t)
	return t
}

// freeBound lists the bound variables (by ID, ascending) that occur free in t.
func (c *Ctx) freeBound(t *Term) []int {
	if !t.Bound {
		return nil
	}
	if t.Op == "bound" {
		return []int{t.ID}
	}
	if r, ok := c.fvs[t.ID]; ok {
		return r
	}
	args := t.Args
	var own []*Term
	if t.Op == "forall" || t.Op == "exists" {
		own = args[:len(args)-1]
		args = args[len(args)-1:]
	}
	set := map[int]bool{}
	for _, a := range args {
		for _, v := range c.freeBound(a) {
			set[v] = true
		}
	}
	for _, v := range own {
		delete(set, v.ID)
	}
	var r []int
	for v := range set {
		r = append(r, v)
	}
	sort.Ints(r)
	if c.fvs == nil {
		c.fvs = map[int][]int{}
	}
	c.fvs[t.ID] = r
	return r
}

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
)

func (c *Ctx) setRange(t *Term) {
	if t.S.K != KInt {
		return
	}
	switch t.Op {
	case "int":
		t.Lo, t.Hi = t.I, t.I
	case "bv2nat":
		t.Lo = bigZero
		t.Hi = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(t.Args[0].S.W)), bigOne)
	case "mod":
		t.Lo = bigZero
		if t.Args[1].Op == "int" {
			t.Hi = new(big.Int).Sub(t.Args[1].I, bigOne)
		}
	case "div":
		if t.Args[1].Op == "int" && t.Args[1].I.Sign() > 0 && t.Args[0].Lo != nil && t.Args[0].Hi != nil {
			t.Lo = new(big.Int).Div(t.Args[0].Lo, t.Args[1].I)
			t.Hi = new(big.Int).Div(t.Args[0].Hi, t.Args[1].I)
		}
	case "ite":
		a, b := t.Args[1], t.Args[2]
		if a.Lo != nil && b.Lo != nil {
			t.Lo = minB(a.Lo, b.Lo)
		}
		if a.Hi != nil && b.Hi != nil {
			t.Hi = maxB(a.Hi, b.Hi)
		}
	case "lin":
		lo, hi := new(big.Int).Set(t.I), new(big.Int).Set(t.I)
		for i, a := range t.Args {
			k := t.C[i]
			al, ah := a.Lo, a.Hi
			if k.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(k, al))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(k, ah))
				}
			}
		}
		t.Lo, t.Hi = lo, hi
	case "app":
		if t.Name == "strlen" {
			t.Lo = bigZero
			t.Hi = new(big.Int).Lsh(bigOne, 48)
		}
	}
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// ---------------------------------------------------------------- leaves

func (c *Ctx) Var(name string, s *Sort) *Term {
	t := c.mk(&Term{Op: "var", S: s, Name: name})
	if t.Dist == nil {
		t.Dist = map[int]bool{}
		c.varDef = append(c.varDef, t)
	}
	return t
}
func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", clean(prefix), c.fresh), s)
}
func (c *Ctx) FreshRange(prefix string, lo, hi *big.Int) *Term {
	t := c.Fresh(prefix, c.Int)
	t.Lo, t.Hi = lo, hi
	return t
}
func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '-' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "v"
	}
	return b.String()
}
func (c *Ctx) BoundVar(s *Sort) *Term {
	c.fresh++
	return c.mk(&Term{Op: "bound", S: s, Name: fmt.Sprintf("q%d", c.fresh)})
}
func (c *Ctx) B(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) N(n int64) *Term       { return c.BigN(big.NewInt(n)) }
func (c *Ctx) BigN(n *big.Int) *Term { return c.mk(&Term{Op: "int", S: c.Int, I: n}) }
func (c *Ctx) BVc(u uint64, w int) *Term {
	if w < 64 {
		u &= (1 << uint(w)) - 1
	}
	return c.mk(&Term{Op: "bv", S: c.BV(w), U: u})
}
func (c *Ctx) FPc(f float64) *Term {
	return c.mk(&Term{Op: "fp", S: c.F64, U: math.Float64bits(f)})
}
func (c *Ctx) StrLit(s string) *Term {
	if t, ok := c.lits[s]; ok {
		return t
	}
	t := c.mk(&Term{Op: "strlit", S: c.Str, Name: fmt.Sprintf("lit!%d", len(c.lits)), U: uint64(len(c.lits))})
	c.lits[s] = t
	c.litIDs = append(c.litIDs, s)
	return t
}
func (c *Ctx) litVal(t *Term) string { return c.litIDs[t.U] }

func (c *Ctx) IsConst(t *Term) bool {
	switch t.Op {
	case "true", "false", "int", "bv", "fp", "strlit":
		return true
	}
	return false
}

// App builds an uninterpreted function application.
func (c *Ctx) App(name string, s *Sort, args ...*Term) *Term {
	name = clean(name)
	if _, ok := c.ufs[name]; !ok {
		var b strings.Builder
		fmt.Fprintf(&b, "(declare-fun %s (", name)
		for i, a := range args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.S.SMT())
		}
		fmt.Fprintf(&b, ") %s)", s.SMT())
		c.ufs[name] = b.String()
		c.ufSeq = append(c.ufSeq, name)
	}
	if len(args) == 0 {
		return c.mk(&Term{Op: "app", S: s, Name: name})
	}
	return c.mk(&Term{Op: "app", S: s, Name: name, Args: args})
}

// ---------------------------------------------------------------- bool

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	}
	return c.mk(&Term{Op: "not", S: c.Bool, Args: []*Term{a}})
}
func (c *Ctx) And(xs ...*Term) *Term { return c.nary("and", c.True, c.False, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary("or", c.False, c.True, xs) }
func (c *Ctx) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.ID] {
			return true
		}
		seen[x.ID] = true
		n := c.Not(x)
		if seen[n.ID] {
			return false
		}
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.mk(&Term{Op: op, S: c.Bool, Args: out})
}
func (c *Ctx) Imp(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	if a == b {
		return c.True
	}
	return c.mk(&Term{Op: "=>", S: c.Bool, Args: []*Term{a, b}})
}
func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g == c.True || a == b {
		return a
	}
	if g == c.False {
		return b
	}
	if g.Op == "not" {
		return c.Ite(g.Args[0], b, a)
	}
	if a.S.K == KBool {
		if a == c.True && b == c.False {
			return g
		}
		if a == c.False && b == c.True {
			return c.Not(g)
		}
		if a == c.True {
			return c.Or(g, b)
		}
		if b == c.False {
			return c.And(g, a)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
	}
	if a.Op == "ite" && a.Args[0] == g {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == g {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.S.K == KDT && a.Op == "mk" && b.Op == "mk" {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = c.Ite(g, a.Args[i], b.Args[i])
		}
		return c.MkDT(a.S, args...)
	}
	return c.mk(&Term{Op: "ite", S: a.S, Args: []*Term{g, a, b}})
}

// matchLit compares a concatenation of literals and single hex digits with a literal, piece by piece (nil: not of that form).
func (c *Ctx) matchLit(t *Term, lit string) *Term {
	out := c.True
	for {
		x, rest := t, (*Term)(nil)
		if t.Op == "app" && t.Name == "strcat" {
			x, rest = t.Args[0], t.Args[1]
		}
		switch {
		case x.Op == "strlit":
			v := c.litVal(x)
			if !strings.HasPrefix(lit, v) {
				return c.False
			}
			lit = lit[len(v):]
		case x.Op == "app" && x.Name == "hexdig":
			if lit == "" {
				return c.False
			}
			d := strings.IndexByte("0123456789abcdef", lit[0])
			if d < 0 {
				return c.False
			}
			out = c.And(out, c.Eq(x.Args[0], c.BVc(uint64(d), 4)))
			lit = lit[1:]
		default:
			return nil
		}
		if rest == nil {
			return c.And(out, c.B(lit == ""))
		}
		t = rest
	}
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sorts %s %s: %s %s", a.S.Key, b.S.Key, c.Str0(a), c.Str0(b)))
	}
	if c.IsConst(a) && c.IsConst(b) && a.S.K != KFP {
		return c.False
	}
	if a.S == c.Str {
		cat := func(t *Term) bool { return t.Op == "app" && t.Name == "strcat" }
		switch {
		case cat(a) && a.Args[0] == b:
			return c.Eq(a.Args[1], c.StrLit(""))
		case cat(b) && b.Args[0] == a:
			return c.Eq(b.Args[1], c.StrLit(""))
		case cat(a) && cat(b) && a.Args[0] == b.Args[0]:
			return c.Eq(a.Args[1], b.Args[1])
		case cat(a) && cat(b) && a.Args[1] == b.Args[1]:
			return c.Eq(a.Args[0], b.Args[0])
		}
		for i, t := range []*Term{a, b} {
			if o := []*Term{b, a}[i]; o.Op == "strlit" {
				if r := c.matchLit(t, c.litVal(o)); r != nil {
					return r
				}
			}
			if o := []*Term{b, a}[i]; o.Op == "strlit" && c.litVal(o) == "" && cat(t) {
				return c.And(c.Eq(t.Args[0], o), c.Eq(t.Args[1], o))
			}
		}
	}
	switch a.S.K {
	case KBool:
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	case KInt:
		d := c.Sub(a, b)
		if d.Op == "int" {
			return c.B(d.I.Sign() == 0)
		}
		if d.Lo != nil && d.Lo.Sign() > 0 || d.Hi != nil && d.Hi.Sign() < 0 {
			return c.False
		}
		// fresh reference versus older reference
		if c.refDistinct(a, b) {
			return c.False
		}
		// push constant into ite of constants
		if x, k := iteConst(a, b); x != nil && constLeaves(x, 0) {
			return c.Ite(x.Args[0], c.Eq(x.Args[1], k), c.Eq(x.Args[2], k))
		}
		if d.Op == "lin" {
			// normalise: atoms = rest
			if len(d.Args) == 1 {
				q, r := new(big.Int).QuoRem(new(big.Int).Neg(d.I), d.C[0], new(big.Int))
				if r.Sign() != 0 {
					return c.False
				}
				a, b = d.Args[0], c.BigN(q)
				if x, k := iteConst(a, b); x != nil && constLeaves(x, 0) {
					return c.Ite(x.Args[0], c.Eq(x.Args[1], k), c.Eq(x.Args[2], k))
				}
			} else if len(d.Args) == 2 && d.I.Sign() == 0 && d.C[0].IsInt64() && d.C[1].IsInt64() && d.C[0].Int64()*d.C[1].Int64() == -1 {
				a, b = d.Args[0], d.Args[1]
			} else {
				b = c.N(0)
				a = d
				if d.C[0].Sign() < 0 {
					a = c.MulC(big.NewInt(-1), d)
				}
			}
		}
	case KBV, KStr:
		if x, k := iteConst(a, b); x != nil && constLeaves(x, 0) {
			return c.Ite(x.Args[0], c.Eq(x.Args[1], k), c.Eq(x.Args[2], k))
		}
		if a.S.K == KBV {
			// x^c == d
			if a.Op == "bvxor" && b.Op == "bv" {
				if l := a.Args[len(a.Args)-1]; l.Op == "bv" {
					return c.Eq(c.BVXor(a, l), c.BVXor(b, l))
				}
			}
			if b.Op == "bvxor" && a.Op == "bv" {
				return c.Eq(b, a)
			}
			if a.Op == "zext" && b.Op == "zext" && a.Args[0].S == b.Args[0].S {
				return c.Eq(a.Args[0], b.Args[0])
			}
		}
	case KDT:
		if a.Op == "mk" || b.Op == "mk" {
			var cs []*Term
			for i := range a.S.Fields {
				cs = append(cs, c.Eq(c.Sel(a, i), c.Sel(b, i)))
			}
			return c.And(cs...)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: "=", S: c.Bool, Args: []*Term{a, b}})
}

func iteConst(a, b *Term) (*Term, *Term) {
	isC := func(t *Term) bool { return t.Op == "int" || t.Op == "bv" || t.Op == "strlit" }
	if a.Op == "ite" && isC(b) {
		return a, b
	}
	if b.Op == "ite" && isC(a) {
		return b, a
	}
	return nil, nil
}
func constLeaves(t *Term, d int) bool {
	if d > 200 {
		return false
	}
	switch t.Op {
	case "ite":
		// one constant branch is enough to make progress
		return isLeafConst(t.Args[1]) || isLeafConst(t.Args[2])
	}
	return isLeafConst(t)
}
func isLeafConst(t *Term) bool { return t.Op == "int" || t.Op == "bv" || t.Op == "strlit" }

// ---------------------------------------------------------------- int

func (c *Ctx) linParts(t *Term) (args []*Term, cs []*big.Int, k *big.Int) {
	switch t.Op {
	case "int":
		return nil, nil, t.I
	case "lin":
		return t.Args, t.C, t.I
	}
	return []*Term{t}, []*big.Int{bigOne}, bigZero
}
func (c *Ctx) mkLin(m map[int]*big.Int, at map[int]*Term, k *big.Int) *Term {
	var ids []int
	for id, v := range m {
		if v.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return c.BigN(k)
	}
	sort.Ints(ids)
	if len(ids) == 1 && m[ids[0]].Cmp(bigOne) == 0 && k.Sign() == 0 {
		return at[ids[0]]
	}
	t := &Term{Op: "lin", S: c.Int, I: k}
	for _, id := range ids {
		t.Args = append(t.Args, at[id])
		t.C = append(t.C, m[id])
	}
	return c.mk(t)
}
func (c *Ctx) lincomb(a *Term, ka *big.Int, b *Term, kb *big.Int) *Term {
	m := map[int]*big.Int{}
	at := map[int]*Term{}
	k := new(big.Int)
	add := func(t *Term, f *big.Int) {
		as, cs, kk := c.linParts(t)
		k.Add(k, new(big.Int).Mul(kk, f))
		for i, x := range as {
			v := new(big.Int).Mul(cs[i], f)
			if o, ok := m[x.ID]; ok {
				v.Add(v, o)
			}
			m[x.ID] = v
			at[x.ID] = x
		}
	}
	add(a, ka)
	if b != nil {
		add(b, kb)
	}
	return c.mkLin(m, at, k)
}
func (c *Ctx) Add(a, b *Term) *Term           { return c.lincomb(a, bigOne, b, bigOne) }
func (c *Ctx) AddN(a *Term, n int64) *Term    { return c.Add(a, c.N(n)) }
func (c *Ctx) Sub(a, b *Term) *Term           { return c.lincomb(a, bigOne, b, big.NewInt(-1)) }
func (c *Ctx) MulC(k *big.Int, a *Term) *Term { return c.lincomb(a, k, nil, nil) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == "int" {
		return c.MulC(a.I, b)
	}
	if b.Op == "int" {
		return c.MulC(b.I, a)
	}
	return c.mk(&Term{Op: "*", S: c.Int, Args: []*Term{a, b}})
}

// Div and Mod are SMT-LIB euclidean division by a positive constant.
func (c *Ctx) Div(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() > 0 {
		q, _ := new(big.Int).DivMod(a.I, b.I, new(big.Int))
		return c.BigN(q)
	}
	if b.Op == "int" && b.I.Cmp(bigOne) == 0 {
		return a
	}
	return c.mk(&Term{Op: "div", S: c.Int, Args: []*Term{a, b}})
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() > 0 {
		return c.BigN(new(big.Int).Mod(a.I, b.I))
	}
	if b.Op == "int" && b.I.Sign() > 0 && a.Lo != nil && a.Hi != nil && a.Lo.Sign() >= 0 && a.Hi.Cmp(b.I) < 0 {
		return a
	}
	return c.mk(&Term{Op: "mod", S: c.Int, Args: []*Term{a, b}})
}
func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a) // 0 <= d
	if d.Lo != nil && d.Lo.Sign() >= 0 {
		return c.True
	}
	if d.Hi != nil && d.Hi.Sign() < 0 {
		return c.False
	}
	if d.Op == "lin" && len(d.Args) == 1 {
		// k*x + c >= 0
		k := d.C[0]
		if k.CmpAbs(bigOne) == 0 {
			if k.Sign() > 0 {
				return c.mk(&Term{Op: "<=", S: c.Bool, Args: []*Term{c.BigN(new(big.Int).Neg(d.I)), d.Args[0]}})
			}
			return c.mk(&Term{Op: "<=", S: c.Bool, Args: []*Term{d.Args[0], c.BigN(d.I)}})
		}
	}
	return c.mk(&Term{Op: "<=", S: c.Bool, Args: []*Term{c.N(0), d}})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.AddN(a, 1), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// ---------------------------------------------------------------- refs

func (c *Ctx) refHi(t *Term) int64 {
	if v, ok := c.rh[t.ID]; ok {
		return v
	}
	const inf = int64(1) << 62
	v := inf
	switch t.Op {
	case "int":
		if t.I.IsInt64() {
			v = t.I.Int64() + 1
		}
	case "var":
		if t.RefHi == 0 {
			return inf // may be set later
		}
		v = t.RefHi
	case "app":
		if t.RefHi != 0 {
			v = t.RefHi
		} else {
			return inf
		}
	case "select", "sel":
		v = c.refHi(t.Args[0])
	case "store":
		v = max(c.refHi(t.Args[0]), c.refHi(t.Args[2]))
	case "constarr":
		v = c.refHi(t.Args[0])
	case "ite":
		v = max(c.refHi(t.Args[1]), c.refHi(t.Args[2]))
	case "mk":
		v = 0
		for i, a := range t.Args {
			if t.S == c.Slice && i > 0 || t.S == c.Iface && i == 0 {
				continue
			}
			if a.S.K == KInt || a.S.K == KDT || a.S.K == KArr {
				v = max(v, c.refHi(a))
			}
		}
	case "copyarr":
		v = max(c.refHi(t.Args[0]), c.refHi(t.Args[2]))
	case "over":
		v = max(c.refHi(t.Args[0]), c.refHi(t.Args[1]))
	}
	c.rh[t.ID] = v
	return v
}
func (c *Ctx) refDistinct(a, b *Term) bool {
	lit := func(l, o *Term) bool {
		return l.Op == "int" && l.I.IsInt64() && l.I.Int64() >= refBase && o.Op != "int" && o.Op != "lin" && c.refHi(o) <= l.I.Int64()
	}
	return lit(a, b) || lit(b, a)
}

const refBase = int64(1) << 40

// ---------------------------------------------------------------- arrays and datatypes

func (c *Ctx) MkDT(s *Sort, args ...*Term) *Term {
	// eta: mk(sel0(x), sel1(x), ...) = x
	if len(args) > 0 && args[0].Op == "sel" && args[0].Args[0].S == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != "sel" || a.Args[0] != x || a.Name != s.Fields[i].Name {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return c.mk(&Term{Op: "mk", S: s, Args: args, Name: s.Name})
}
func (c *Ctx) Sel(t *Term, i int) *Term {
	if t.Op == "mk" {
		return t.Args[i]
	}
	if t.Op == "ite" && (t.Args[1].Op == "mk" || t.Args[2].Op == "mk") {
		return c.Ite(t.Args[0], c.Sel(t.Args[1], i), c.Sel(t.Args[2], i))
	}
	return c.mk(&Term{Op: "sel", S: t.S.Fields[i].S, Name: t.S.Fields[i].Name, Args: []*Term{t}})
}

// idxEq: 1 equal, -1 distinct, 0 unknown
func (c *Ctx) idxCmp(a, b *Term) int {
	if a == b {
		return 1
	}
	switch c.Eq(a, b) {
	case c.True:
		return 1
	case c.False:
		return -1
	}
	return 0
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case "store":
			switch c.idxCmp(a.Args[1], i) {
			case 1:
				return a.Args[2]
			case -1:
				a = a.Args[0]
				continue
			}
			// unknown: expand only if the array is small nesting; keep as ite over scalars
			if a.S.Ran.K != KArr || true {
				e := c.Eq(a.Args[1], i)
				return c.Ite(e, a.Args[2], c.Select(a.Args[0], i))
			}
		case "constarr":
			return a.Args[0]
		case "copyarr":
			// args: dst, dstOff, src, srcOff, n
			in := c.And(c.Le(a.Args[1], i), c.Lt(i, c.Add(a.Args[1], a.Args[4])))
			if in == c.False {
				a = a.Args[0]
				continue
			}
			src := c.Select(a.Args[2], c.Add(c.Sub(i, a.Args[1]), a.Args[3]))
			if in == c.True {
				return src
			}
			return c.Ite(in, src, c.Select(a.Args[0], i))
		case "over":
			b := a.I.Int64()
			if i.Op == "int" {
				if i.I.Cmp(a.I) < 0 {
					a = a.Args[0]
				} else {
					a = a.Args[1]
				}
				continue
			}
			if c.refHi(i) <= b || i.Hi != nil && i.Hi.Cmp(a.I) < 0 {
				a = a.Args[0]
				continue
			}
			if i.Lo != nil && i.Lo.Cmp(a.I) >= 0 {
				a = a.Args[1]
				continue
			}
			return c.Ite(c.Lt(i, c.N(b)), c.Select(a.Args[0], i), c.Select(a.Args[1], i))
		case "ite":
			return c.Ite(a.Args[0], c.Select(a.Args[1], i), c.Select(a.Args[2], i))
		}
		break
	}
	return c.mk(&Term{Op: "select", S: a.S.Ran, Args: []*Term{a, i}})
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.S.Ran != v.S {
		panic(fmt.Sprintf("Store sort %s <- %s", a.S.Key, v.S.Key))
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Op == "store" {
		switch c.idxCmp(a.Args[1], i) {
		case 1:
			return c.Store(a.Args[0], i, v)
		case -1:
			// canonical order for literal indices keeps chains comparable
			if a.Args[1].Op == "int" && i.Op == "int" && a.Args[1].I.Cmp(i.I) > 0 {
				in := c.Store(a.Args[0], i, v)
				return c.mk(&Term{Op: "store", S: a.S, Args: []*Term{in, a.Args[1], a.Args[2]}})
			}
		}
	}
	return c.mk(&Term{Op: "store", S: a.S, Args: []*Term{a, i, v}})
}
func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{Op: "constarr", S: s, Args: []*Term{v}})
}

// Over is the array that agrees with old below the reference bound b and with fresh from b on.
func (c *Ctx) Over(old, fresh *Term, b int64) *Term {
	return c.mk(&Term{Op: "over", S: old.S, Args: []*Term{old, fresh}, I: big.NewInt(b)})
}
func (c *Ctx) CopyArr(dst, doff, src, soff, n *Term) *Term {
	if n.Op == "int" && n.I.Sign() <= 0 {
		return dst
	}
	if n.Op == "int" && n.I.IsInt64() && n.I.Int64() <= 16 {
		out := dst
		for k := int64(0); k < n.I.Int64(); k++ {
			out = c.Store(out, c.AddN(doff, k), c.Select(src, c.AddN(soff, k)))
		}
		return out
	}
	return c.mk(&Term{Op: "copyarr", S: dst.S, Args: []*Term{dst, doff, src, soff, n}})
}

// ---------------------------------------------------------------- bit vectors

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << uint(w)) - 1
}
func sx(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	if u>>(uint(w)-1)&1 == 1 {
		return int64(u | ^mask(w))
	}
	return int64(u)
}

func (c *Ctx) BVXor(xs ...*Term) *Term {
	w := xs[0].S.W
	cnt := map[int]int{}
	at := map[int]*Term{}
	var k uint64
	var add func(x *Term)
	add = func(x *Term) {
		if x.Op == "bv" {
			k ^= x.U
			return
		}
		if x.Op == "bvxor" {
			for _, y := range x.Args {
				add(y)
			}
			return
		}
		cnt[x.ID]++
		at[x.ID] = x
	}
	for _, x := range xs {
		add(x)
	}
	var ids []int
	for id, n := range cnt {
		if n%2 == 1 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var out []*Term
	for _, id := range ids {
		out = append(out, at[id])
	}
	if k != 0 || len(out) == 0 {
		out = append(out, c.BVc(k, w))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{Op: "bvxor", S: c.BV(w), Args: out})
}

func (c *Ctx) BVBin(op Op, a, b *Term) *Term {
	w := a.S.W
	if a.Op == "bv" && b.Op == "bv" {
		x, y := a.U, b.U
		switch op {
		case "bvadd":
			return c.BVc(x+y, w)
		case "bvsub":
			return c.BVc(x-y, w)
		case "bvmul":
			return c.BVc(x*y, w)
		case "bvand":
			return c.BVc(x&y, w)
		case "bvor":
			return c.BVc(x|y, w)
		case "bvxor":
			return c.BVc(x^y, w)
		case "bvshl":
			if y >= uint64(w) {
				return c.BVc(0, w)
			}
			return c.BVc(x<<y, w)
		case "bvlshr":
			if y >= uint64(w) {
				return c.BVc(0, w)
			}
			return c.BVc(x>>y, w)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.BVc(uint64(sx(x, w)>>y), w)
		case "bvudiv":
			if y != 0 {
				return c.BVc(x/y, w)
			}
		case "bvurem":
			if y != 0 {
				return c.BVc(x%y, w)
			}
		}
	}
	switch op {
	case "bvxor":
		return c.BVXor(a, b)
	case "bvand":
		if a.Op == "bv" {
			a, b = b, a
		}
		if b.Op == "bv" {
			if b.U == 0 {
				return b
			}
			if b.U == mask(w) {
				return a
			}
			if a.Op == "bvand" && a.Args[1].Op == "bv" {
				return c.BVBin("bvand", a.Args[0], c.BVc(a.Args[1].U&b.U, w))
			}
		}
		if a == b {
			return a
		}
	case "bvor":
		if a.Op == "bv" {
			a, b = b, a
		}
		if b.Op == "bv" {
			if b.U == 0 {
				return a
			}
			if b.U == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case "bvadd":
		if a.Op == "bv" {
			a, b = b, a
		}
		if b.Op == "bv" && b.U == 0 {
			return a
		}
		if b.Op == "bv" && a.Op == "bvadd" && a.Args[1].Op == "bv" {
			return c.BVBin("bvadd", a.Args[0], c.BVc(a.Args[1].U+b.U, w))
		}
		// conversion to w bits is a homomorphism
		if b.Op == "bv" && a.Op == "int2bv" {
			return c.Int2BV(w, c.AddN(a.Args[0], sx(b.U, w)))
		}
		if a.Op == "int2bv" && b.Op == "int2bv" {
			return c.Int2BV(w, c.Add(a.Args[0], b.Args[0]))
		}
	case "bvsub":
		if b.Op == "bv" {
			return c.BVBin("bvadd", a, c.BVc(-b.U, w))
		}
		if a == b {
			return c.BVc(0, w)
		}
	case "bvshl", "bvlshr", "bvashr":
		if b.Op == "bv" && b.U == 0 {
			return a
		}
		if b.Op == "bv" && b.U >= uint64(w) && op != "bvashr" {
			return c.BVc(0, w)
		}
	}
	if (op == "bvand" || op == "bvor" || op == "bvadd" || op == "bvmul") && b.Op != "bv" && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: op, S: a.S, Args: []*Term{a, b}})
}
func (c *Ctx) BVNot(a *Term) *Term { return c.BVXor(a, c.BVc(mask(a.S.W), a.S.W)) }
func (c *Ctx) BVCmp(op Op, a, b *Term) *Term { // bvult bvule bvslt bvsle
	w := a.S.W
	if a.Op == "bv" && b.Op == "bv" {
		switch op {
		case "bvult":
			return c.B(a.U < b.U)
		case "bvule":
			return c.B(a.U <= b.U)
		case "bvslt":
			return c.B(sx(a.U, w) < sx(b.U, w))
		case "bvsle":
			return c.B(sx(a.U, w) <= sx(b.U, w))
		}
	}
	if a == b {
		return c.B(op == "bvule" || op == "bvsle")
	}
	if op == "bvult" && b.Op == "bv" && b.U == 0 {
		return c.False
	}
	if op == "bvule" && a.Op == "bv" && a.U == 0 {
		return c.True
	}
	if op == "bvule" && b.Op == "bv" && b.U == mask(w) {
		return c.True
	}
	if op == "bvult" && a.Op == "bv" && a.U == 0 {
		return c.Not(c.Eq(b, a))
	}
	// canonical: (bvult a b) = not (bvule b a)
	if op == "bvult" {
		return c.Not(c.BVCmp("bvule", b, a))
	}
	if op == "bvslt" {
		return c.Not(c.BVCmp("bvsle", b, a))
	}
	return c.mk(&Term{Op: op, S: c.Bool, Args: []*Term{a, b}})
}
func (c *Ctx) Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	if w == a.S.W {
		return a
	}
	switch a.Op {
	case "bv":
		return c.BVc(a.U>>uint(lo), w)
	case "zext", "sext":
		in := a.Args[0]
		if hi < in.S.W {
			return c.Extract(hi, lo, in)
		}
		if lo == 0 && w >= in.S.W {
			return c.ext(a.Op, in, w)
		}
	case "bvor", "bvand":
		return c.BVBin(a.Op, c.Extract(hi, lo, a.Args[0]), c.Extract(hi, lo, a.Args[1]))
	case "bvxor":
		var xs []*Term
		for _, x := range a.Args {
			xs = append(xs, c.Extract(hi, lo, x))
		}
		return c.BVXor(xs...)
	case "bvadd", "bvsub", "bvmul":
		if lo == 0 {
			return c.BVBin(a.Op, c.Extract(hi, 0, a.Args[0]), c.Extract(hi, 0, a.Args[1]))
		}
	case "int2bv":
		if lo == 0 {
			return c.Int2BV(w, a.Args[0])
		}
	}
	return c.mk(&Term{Op: "extract", S: c.BV(w), U: uint64(hi)<<16 | uint64(lo), Args: []*Term{a}})
}
func (c *Ctx) ext(op Op, a *Term, w int) *Term {
	if w == a.S.W {
		return a
	}
	if a.Op == "bv" {
		if op == "sext" {
			return c.BVc(uint64(sx(a.U, a.S.W)), w)
		}
		return c.BVc(a.U, w)
	}
	if a.Op == op {
		return c.ext(op, a.Args[0], w)
	}
	return c.mk(&Term{Op: op, S: c.BV(w), Args: []*Term{a}})
}
func (c *Ctx) ZExt(a *Term, w int) *Term { return c.ext("zext", a, w) }
func (c *Ctx) SExt(a *Term, w int) *Term { return c.ext("sext", a, w) }
func (c *Ctx) Int2BV(w int, a *Term) *Term {
	if a.Op == "int" {
		m := new(big.Int).Mod(a.I, new(big.Int).Lsh(bigOne, uint(w)))
		return c.BVc(m.Uint64(), w)
	}
	if a.Op == "bv2nat" {
		x := a.Args[0]
		if x.S.W == w {
			return x
		}
		if x.S.W < w {
			return c.ZExt(x, w)
		}
		return c.Extract(w-1, 0, x)
	}
	if a.Op == "ite" {
		return c.Ite(a.Args[0], c.Int2BV(w, a.Args[1]), c.Int2BV(w, a.Args[2]))
	}
	if a.Op == "mod" && a.Args[1].Op == "int" {
		m := new(big.Int).Mod(a.Args[1].I, new(big.Int).Lsh(bigOne, uint(w)))
		if m.Sign() == 0 {
			return c.Int2BV(w, a.Args[0])
		}
	}
	if a.Op == "lin" {
		// pull bv2nat atoms (only when every atom is one) : sum of bytes
		all := true
		for _, x := range a.Args {
			if x.Op != "bv2nat" {
				all = false
			}
		}
		if all {
			m := new(big.Int).Mod(a.I, new(big.Int).Lsh(bigOne, uint(w)))
			out := c.BVc(m.Uint64(), w)
			for i, x := range a.Args {
				k := new(big.Int).Mod(a.C[i], new(big.Int).Lsh(bigOne, uint(w)))
				v := c.Int2BV(w, x)
				if k.Cmp(bigOne) != 0 {
					v = c.BVBin("bvmul", v, c.BVc(k.Uint64(), w))
				}
				out = c.BVBin("bvadd", v, out)
			}
			return out
		}
	}
	return c.mk(&Term{Op: "int2bv", S: c.BV(w), Args: []*Term{a}})
}
func (c *Ctx) BV2Nat(a *Term) *Term {
	switch a.Op {
	case "bv":
		return c.BigN(new(big.Int).SetUint64(a.U))
	case "zext":
		return c.BV2Nat(a.Args[0])
	case "int2bv":
		return c.Mod(a.Args[0], c.BigN(new(big.Int).Lsh(bigOne, uint(a.S.W))))
	case "ite":
		return c.Ite(a.Args[0], c.BV2Nat(a.Args[1]), c.BV2Nat(a.Args[2]))
	}
	return c.mk(&Term{Op: "bv2nat", S: c.Int, Args: []*Term{a}})
}

// BV2Int is the signed or unsigned value.
func (c *Ctx) BV2Int(a *Term, signed bool) *Term {
	if !signed {
		return c.BV2Nat(a)
	}
	w := a.S.W
	if a.Op == "bv" {
		return c.N(sx(a.U, w))
	}
	n := c.BV2Nat(a)
	neg := c.Not(c.BVCmp("bvsle", c.BVc(0, w), a))
	return c.Ite(neg, c.Sub(n, c.BigN(new(big.Int).Lsh(bigOne, uint(w)))), n)
}

// ---------------------------------------------------------------- floats

func (c *Ctx) FP(op Op, s *Sort, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if a.Op != "fp" {
			allc = false
		}
	}
	if allc && len(args) > 0 {
		f := func(i int) float64 { return math.Float64frombits(args[i].U) }
		switch op {
		case "fp.add":
			return c.FPc(f(0) + f(1))
		case "fp.sub":
			return c.FPc(f(0) - f(1))
		case "fp.mul":
			return c.FPc(f(0) * f(1))
		case "fp.div":
			return c.FPc(f(0) / f(1))
		case "fp.neg":
			return c.FPc(-f(0))
		case "fp.lt":
			return c.B(f(0) < f(1))
		case "fp.leq":
			return c.B(f(0) <= f(1))
		case "fp.eq":
			return c.B(f(0) == f(1))
		}
	}
	if op == "fp.div" && args[1].Op == "fp" && args[1].U == math.Float64bits(1) {
		return args[0]
	}
	if op == "fp.div" && args[1].Op == "ite" && fpLeaves(args[1], 40) >= 0 {
		y := args[1]
		return c.Ite(y.Args[0], c.FP(op, s, args[0], y.Args[1]), c.FP(op, s, args[0], y.Args[2]))
	}
	if op == "fp.from_sbv" || op == "fp.from_ubv" {
		x := args[0]
		switch {
		case x.Op == "sext" && op == "fp.from_sbv":
			return c.FP(op, s, x.Args[0])
		case x.Op == "zext":
			return c.FP("fp.from_ubv", s, x.Args[0])
		case x.Op == "ite" && (convArg(x.Args[1]) || convArg(x.Args[2])):
			return c.Ite(x.Args[0], c.FP(op, s, x.Args[1]), c.FP(op, s, x.Args[2]))
		case x.Op == "bv" && op == "fp.from_sbv":
			return c.FPc(float64(sx(x.U, x.S.W)))
		case x.Op == "bv":
			return c.FPc(float64(x.U))
		}
	}
	if len(args) == 2 && (op == "fp.eq" || op == "fp.lt" || op == "fp.leq") {
		for k := 0; k < 2; k++ {
			if r := c.fpIntCmp(op, args, k); r != nil {
				return r
			}
		}
	}
	if op == "fp.eq" && args[0].ID > args[1].ID {
		args[0], args[1] = args[1], args[0]
	}
	return c.mk(&Term{Op: op, S: s, Args: args})
}

// ---------------------------------------------------------------- quantifiers

func (c *Ctx) Forall(vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	return c.mk(&Term{Op: "forall", S: c.Bool, Args: append(append([]*Term{}, vars...), body), Pats: pats})
}

// Subst replaces terms (by ID) by others, rebuilding through the simplifying constructors.
func (c *Ctx) Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t.ID]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		var pats [][]*Term
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					y := f(x)
					if y != x {
						ch = true
					}
					q = append(q, y)
				}
				pats = append(pats, q)
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as, pats)
		}
		memo[t.ID] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term, pats [][]*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "=>":
		return c.Imp(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "=":
		return c.Eq(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "*":
		return c.Mul(as[0], as[1])
	case "div":
		return c.Div(as[0], as[1])
	case "mod":
		return c.Mod(as[0], as[1])
	case "lin":
		out := c.BigN(t.I)
		for i, a := range as {
			out = c.lincomb(out, bigOne, a, t.C[i])
		}
		return out
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "constarr":
		return c.ConstArr(t.S, as[0])
	case "over":
		return c.Over(as[0], as[1], t.I.Int64())
	case "copyarr":
		return c.CopyArr(as[0], as[1], as[2], as[3], as[4])
	case "mk":
		return c.MkDT(t.S, as...)
	case "sel":
		for i, f := range as[0].S.Fields {
			if f.Name == t.Name {
				return c.Sel(as[0], i)
			}
		}
	case "app":
		return c.App(t.Name, t.S, as...)
	case "bvxor":
		return c.BVXor(as...)
	case "bvule", "bvult", "bvslt", "bvsle":
		return c.BVCmp(t.Op, as[0], as[1])
	case "extract":
		return c.Extract(int(t.U>>16), int(t.U&0xffff), as[0])
	case "zext", "sext":
		return c.ext(t.Op, as[0], t.S.W)
	case "int2bv":
		return c.Int2BV(t.S.W, as[0])
	case "bv2nat":
		return c.BV2Nat(as[0])
	case "forall":
		return c.Forall(as[:len(as)-1], as[len(as)-1], pats)
	}
	if strings.HasPrefix(string(t.Op), "bv") {
		return c.BVBin(t.Op, as[0], as[1])
	}
	if strings.HasPrefix(string(t.Op), "fp.") && t.Op != "fp.to_sbv" && t.Op != "fp.to_ubv" {
		return c.FP(t.Op, t.S, as...)
	}
	return c.mk(&Term{Op: t.Op, S: t.S, Args: as, Name: t.Name, I: t.I, C: t.C, U: t.U, Pats: pats})
}

// Str0 renders a term for diagnostics.
func (c *Ctx) Str0(t *Term) string {
	s := c.SMTInline(t, nil)
	if len(s) > 600 && os.Getenv("GVC_LONG") == "" {
		s = s[:600] + "..."
	}
	return s
}

// SMTInline renders t; name(t) may give a defined name for a subterm.
func (c *Ctx) SMTInline(t *Term, name func(*Term) string) string {
	var b strings.Builder
	c.smtw(&b, t, name, true)
	return b.String()
}

func bigSMT(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (c *Ctx) smtw(b *strings.Builder, t *Term, name func(*Term) string, top bool) {
	if b.Len() > 1<<22 {
		return
	}
	if !top && name != nil {
		if n := name(t); n != "" {
			b.WriteString(n)
			return
		}
	}
	app := func(op string, args ...*Term) {
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range args {
			b.WriteByte(' ')
			c.smtw(b, a, name, false)
		}
		b.WriteByte(')')
	}
	switch t.Op {
	case "true", "false":
		b.WriteString(string(t.Op))
	case "int":
		b.WriteString(bigSMT(t.I))
	case "bv":
		fmt.Fprintf(b, "(_ bv%d %d)", t.U, t.S.W)
	case "fp":
		u := t.U
		fmt.Fprintf(b, "(fp #b%01b #b%011b #b%052b)", u>>63, u>>52&0x7ff, u&(1<<52-1))
	case "var", "bound", "strlit", "rawvar":
		b.WriteString(t.Name)
	case "lin":
		b.WriteString("(+")
		if t.I.Sign() != 0 {
			b.WriteByte(' ')
			b.WriteString(bigSMT(t.I))
		}
		for i, a := range t.Args {
			b.WriteByte(' ')
			if t.C[i].Cmp(bigOne) == 0 {
				c.smtw(b, a, name, false)
			} else {
				fmt.Fprintf(b, "(* %s ", bigSMT(t.C[i]))
				c.smtw(b, a, name, false)
				b.WriteByte(')')
			}
		}
		if t.I.Sign() == 0 && len(t.Args) == 1 {
			b.WriteString(" 0")
		}
		b.WriteByte(')')
	case "app":
		if len(t.Args) == 0 {
			b.WriteString(t.Name)
		} else {
			app(t.Name, t.Args...)
		}
	case "mk":
		app("mk-"+t.S.Name, t.Args...)
	case "sel":
		app(t.Name, t.Args...)
	case "constarr":
		app("(as const "+t.S.SMT()+")", t.Args...)
	case "bvxor":
		// binary nesting
		s := c.SMTInlineSub(t.Args[0], name)
		for _, a := range t.Args[1:] {
			s = "(bvxor " + s + " " + c.SMTInlineSub(a, name) + ")"
		}
		b.WriteString(s)
	case "extract":
		app(fmt.Sprintf("(_ extract %d %d)", t.U>>16, t.U&0xffff), t.Args...)
	case "zext":
		app(fmt.Sprintf("(_ zero_extend %d)", t.S.W-t.Args[0].S.W), t.Args...)
	case "sext":
		app(fmt.Sprintf("(_ sign_extend %d)", t.S.W-t.Args[0].S.W), t.Args...)
	case "int2bv":
		app(fmt.Sprintf("(_ int2bv %d)", t.S.W), t.Args...)
	case "fp.add", "fp.sub", "fp.mul", "fp.div":
		app(string(t.Op)+" RNE", t.Args...)
	case "fp.from_sbv":
		app("(_ to_fp 11 53) RNE", t.Args...)
	case "fp.from_ubv":
		app("(_ to_fp_unsigned 11 53) RNE", t.Args...)
	case "fp.to_sbv", "fp.to_ubv":
		app(fmt.Sprintf("(_ %s %d) RTZ", t.Op, t.S.W), t.Args...)
	case "forall", "exists":
		b.WriteString("(" + string(t.Op) + " (")
		for _, v := range t.Args[:len(t.Args)-1] {
			fmt.Fprintf(b, "(%s %s)", v.Name, v.S.SMT())
		}
		b.WriteString(") ")
		var pats [][]*Term
		for _, p := range t.Pats {
			if c.patOK(p) {
				pats = append(pats, p)
			}
		}
		if len(pats) > 0 {
			b.WriteString("(! ")
		}
		c.smtw(b, t.Args[len(t.Args)-1], name, false)
		if len(pats) > 0 {
			for _, p := range pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					c.smtw(b, x, name, false)
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
		}
		b.WriteByte(')')
	default:
		app(string(t.Op), t.Args...)
	}
}

// patOK: solvers accept no connectives in patterns.
func (c *Ctx) patOK(p []*Term) bool {
	if c.patBad == nil {
		c.patBad = map[int]bool{}
	}
	var bad func(t *Term) bool
	bad = func(t *Term) bool {
		if b, ok := c.patBad[t.ID]; ok {
			return b
		}
		b := t.S == c.Bool && t.Op != "select" && t.Op != "app" && t.Op != "var" || t.Op == "ite"
		for _, a := range t.Args {
			b = b || bad(a)
		}
		c.patBad[t.ID] = b
		return b
	}
	for _, t := range p {
		if bad(t) {
			return false
		}
	}
	return true
}

func (c *Ctx) SMTInlineSub(t *Term, name func(*Term) string) string {
	var b strings.Builder
	c.smtw(&b, t, name, false)
	return b.String()
}

// fpIntCmp compares a converted integer (exactly representable) with a constant as integers.
func (c *Ctx) fpIntCmp(op Op, args []*Term, k int) *Term {
	x, y := args[k], args[1-k]
	if y.Op != "fp" || (x.Op != "fp.from_sbv" && x.Op != "fp.from_ubv") || x.Args[0].S.W > 53 {
		return nil
	}
	f := math.Float64frombits(y.U)
	if f != f {
		return c.False
	}
	a, w, signed := x.Args[0], x.Args[0].S.W, x.Op == "fp.from_sbv"
	lo, hi := 0.0, math.Ldexp(1, w)-1
	if signed {
		lo, hi = -math.Ldexp(1, w-1), math.Ldexp(1, w-1)-1
	}
	le := Op("bvule")
	if signed {
		le = "bvsle"
	}
	bv := func(v float64) *Term { return c.BVc(uint64(int64(v))&(1<<uint(w)-1), w) }
	atMost := func(v float64) *Term { // a <= v
		if v = math.Floor(v); v < lo {
			return c.False
		} else if v >= hi {
			return c.True
		}
		return c.BVCmp(le, a, bv(v))
	}
	switch {
	case op == "fp.eq":
		if f != math.Floor(f) || f < lo || f > hi {
			return c.False
		}
		return c.Eq(a, bv(f))
	case op == "fp.leq" && k == 0: // x <= f
		return atMost(f)
	case op == "fp.lt" && k == 1: // f < x
		return c.Not(atMost(f))
	case op == "fp.lt" && k == 0: // x < f: x <= ceil(f)-1
		return atMost(math.Ceil(f) - 1)
	case op == "fp.leq" && k == 1: // f <= x: not x < f
		return c.Not(atMost(math.Ceil(f) - 1))
	}
	return nil
}

// fpLeaves counts the budget left when t is an ite tree over constants, -1 otherwise.
func fpLeaves(t *Term, n int) int {
	if n <= 0 {
		return -1
	}
	switch t.Op {
	case "fp":
		return n - 1
	case "ite":
		if n = fpLeaves(t.Args[1], n); n < 0 {
			return -1
		}
		return fpLeaves(t.Args[2], n)
	}
	return -1
}

func convArg(t *Term) bool {
	return t.Op == "sext" || t.Op == "zext" || t.Op == "bv" || t.Op == "ite" && (convArg(t.Args[1]) || convArg(t.Args[2]))
}
