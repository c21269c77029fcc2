package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// PC is a persistent list of assertions (the path condition).
type PC struct {
	par   *PC
	t     *Term
	dec   bool // a branch decision (as opposed to a fact that follows from the semantics or a contract)
	depth int
	ref   int64 // every reference below it had been handed out when the node was pushed
}

func (p *PC) push(t *Term, dec bool, ref int64) *PC {
	d := 1
	if p != nil {
		d = p.depth + 1
	}
	return &PC{p, t, dec, d, ref}
}
func (p *PC) dep() int {
	if p == nil {
		return 0
	}
	return p.depth
}
func (p *PC) list() []*PC {
	out := make([]*PC, p.dep())
	for q := p; q != nil; q = q.par {
		out[q.depth-1] = q
	}
	return out
}
func commonPC(a, b *PC) *PC {
	for a.dep() > b.dep() {
		a = a.par
	}
	for b.dep() > a.dep() {
		b = b.par
	}
	for a != b {
		a, b = a.par, b.par
	}
	return a
}

// forkRef: references at or above it were handed out after the paths separated (0: not known).
func forkRef(a, b *PC) int64 {
	base := commonPC(a, b)
	var r int64
	for _, p := range []*PC{a, b} {
		for ; p != base; p = p.par {
			if p.par == base && (r == 0 || p.ref < r) {
				r = p.ref
			}
		}
	}
	return r
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type level struct {
	nodes []*PC
	nax   int // axioms asserted before this level was pushed
}

// Lane is one incremental solver process.
type Lane struct {
	c       *Ctx
	bin     []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     bytes.Buffer
	quant   bool // keep quantified assertions
	stack   []level
	named   map[int]string
	axioms  []*Term
	axDone  int // number of axioms asserted at the current level
	nvar    int
	nuf     int
	ndt     int
	lits    map[int]bool // string literals mentioned so far
	nctx    int
	skipped bool // some quantified axiom was left out
	abs     bool // some floating-point operation was replaced by an uninterpreted function
	Checks  int
	Time    time.Duration
	dead    bool
	timeout int
	log     *os.File
}

func NewLane(c *Ctx, quant bool, timeoutMS int) *Lane {
	l := &Lane{c: c, quant: quant, named: map[int]string{}, timeout: timeoutMS}
	l.bin = []string{"z3-new", "-in", "-smt2"}
	l.start()
	return l
}

func (l *Lane) start() {
	l.cmd = exec.Command(l.bin[0], l.bin[1:]...)
	in, _ := l.cmd.StdinPipe()
	out, _ := l.cmd.StdoutPipe()
	l.cmd.Stderr = os.Stderr
	if err := l.cmd.Start(); err != nil {
		fatal("cannot start solver: %v", err)
	}
	l.in, l.out = in, bufio.NewReaderSize(out, 1<<16)
	l.stack = nil
	l.named = map[int]string{}
	l.lits = map[int]bool{}
	l.axioms = nil
	l.axDone, l.nvar, l.nuf, l.ndt, l.nctx = 0, 0, 0, 0, 0
	l.dead = false
	l.send("(set-option :print-success false)(set-option :global-declarations true)(set-option :auto_config false)(set-option :smt.mbqi false)(set-option :model.completion true)(set-option :smt.random_seed 1)\n")
	for _, o := range []string{"add", "sub", "mul", "div"} {
		fmt.Fprintf(&l.buf, "(declare-fun abs.fp.%s ((_ FloatingPoint 11 53) (_ FloatingPoint 11 53)) (_ FloatingPoint 11 53))\n", o)
	}
	fmt.Fprintf(&l.buf, "(set-option :timeout %d)\n", l.timeout)
	l.send("(declare-sort Str 0)(declare-fun strid (Str) Int)(declare-fun strlen (Str) Int)\n")
}
func (l *Lane) Close() {
	if l.cmd != nil && l.cmd.Process != nil {
		l.in.Close()
		l.cmd.Process.Kill()
		l.cmd.Wait()
	}
}

func (l *Lane) send(s string) { l.buf.WriteString(s) }
func (l *Lane) flush() {
	if l.log != nil {
		l.log.Write(l.buf.Bytes())
	}
	if _, err := l.in.Write(l.buf.Bytes()); err != nil {
		l.dead = true
	}
	l.buf.Reset()
}

func (l *Lane) SetTimeout(ms int) {
	if ms != l.timeout {
		l.timeout = ms
		l.send(fmt.Sprintf("(set-option :timeout %d)\n", ms))
	}
}

// declare makes sure all sorts, variables and functions known to the context are declared.
func (l *Lane) declare() {
	c := l.c
	for ; l.ndt < len(c.dts); l.ndt++ {
		l.send(dtDecl(c.dts[l.ndt]))
	}
	for ; l.nuf < len(c.ufSeq); l.nuf++ {
		n := c.ufSeq[l.nuf]
		if n != "strid" && n != "strlen" {
			l.send(c.ufs[n] + "\n")
		}
	}
	for ; l.nvar < len(c.varDef); l.nvar++ {
		v := c.varDef[l.nvar]
		l.send(fmt.Sprintf("(declare-const %s %s)\n", v.Name, v.S.SMT()))
		if v.Lo != nil {
			l.axioms = append(l.axioms, c.mk(&Term{Op: "<=", S: c.Bool, Args: []*Term{c.BigN(v.Lo), v}}))
		}
		if v.Hi != nil {
			l.axioms = append(l.axioms, c.mk(&Term{Op: "<=", S: c.Bool, Args: []*Term{v, c.BigN(v.Hi)}}))
		}
	}
	for ; l.nctx < len(c.Axioms); l.nctx++ {
		l.axioms = append(l.axioms, c.Axioms[l.nctx])
	}
}

// useLit declares a string literal that is mentioned for the first time.
func (l *Lane) useLit(t *Term) {
	if l.lits[t.ID] {
		return
	}
	l.lits[t.ID] = true
	c := l.c
	l.send(fmt.Sprintf("(declare-const %s Str)\n", t.Name))
	l.axioms = append(l.axioms,
		c.mk(&Term{Op: "=", S: c.Bool, Args: []*Term{c.App("strid", c.Int, t), c.N(int64(t.ID))}}),
		c.mk(&Term{Op: "=", S: c.Bool, Args: []*Term{c.mk(&Term{Op: "app", S: c.Int, Name: "strlen", Args: []*Term{t}}), c.N(int64(len(c.litVal(t))))}}))
}

func dtDecl(s *Sort) string {
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk-%s", s.Name, s.Name)
	for _, f := range s.Fields {
		fmt.Fprintf(&b, " (%s %s)", f.Name, f.S.SMT())
	}
	b.WriteString("))))\n")
	return b.String()
}

func trivialLeaf(t *Term) bool {
	switch t.Op {
	case "true", "false", "int", "bv", "fp", "var", "bound", "strlit":
		return true
	}
	return len(t.Args) == 0
}

// ref returns text for t, defining names for its ground subterms first.
func (l *Lane) ref(t *Term) string {
	if t.Op == "strlit" {
		l.useLit(t)
	}
	if n, ok := l.named[t.ID]; ok {
		return n
	}
	l.define(t)
	if n, ok := l.named[t.ID]; ok {
		return n
	}
	return l.c.SMTInlineSub(t, l.nameOf)
}
func (l *Lane) nameOf(t *Term) string { return l.named[t.ID] }

func (l *Lane) define(root *Term) {
	type fr struct {
		t *Term
		i int
	}
	if _, ok := l.named[root.ID]; ok || trivialLeaf(root) {
		return
	}
	visited := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == "strlit" {
			l.useLit(t)
		}
		if trivialLeaf(t) || visited[t.ID] {
			return
		}
		if _, ok := l.named[t.ID]; ok {
			return
		}
		visited[t.ID] = true
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				rec(a)
			}
		}
		if t.Bound {
			return
		}
		if t.Op == "copyarr" || t.Op == "over" {
			n := fmt.Sprintf("cp%d", t.ID)
			l.send(fmt.Sprintf("(declare-const %s %s)\n", n, t.S.SMT()))
			l.named[t.ID] = n
			// axiom via a variable standing for the array
			q := l.c.BoundVar(l.c.Int)
			v := l.c.mk(&Term{Op: "rawvar", S: t.S, Name: n})
			sel := l.c.mk(&Term{Op: "select", S: t.S.Ran, Args: []*Term{v, q}})
			ax := l.c.Forall([]*Term{q}, l.c.mk(&Term{Op: "=", S: l.c.Bool, Args: []*Term{sel, l.c.Select(t, q)}}), [][]*Term{{sel}})
			for _, a := range t.Args {
				rec(a)
			}
			l.axioms = append(l.axioms, ax)
			return
		}
		n := fmt.Sprintf("t%d", t.ID)
		if l.cmd != nil && (t.Op == "fp.add" || t.Op == "fp.sub" || t.Op == "fp.mul" || t.Op == "fp.div") {
			// rounding arithmetic is left uninterpreted in the incremental solvers
			a, b := l.c.SMTInlineSub(t.Args[0], l.nameOf), l.c.SMTInlineSub(t.Args[1], l.nameOf)
			l.send(fmt.Sprintf("(define-fun %s () %s (abs.%s %s %s))\n", n, t.S.SMT(), t.Op, a, b))
			l.named[t.ID] = n
			fin := fmt.Sprintf("(not (fp.isNaN %s)) (not (fp.isInfinite %s)) (not (fp.isNaN %s)) (not (fp.isInfinite %s))", a, a, b, b)
			if t.Op == "fp.div" {
				fin += " (not (fp.isZero " + b + "))"
			}
			l.axioms = append(l.axioms, l.c.mk(&Term{Op: "rawvar", S: l.c.Bool, Name: fmt.Sprintf("(=> (and %s) (not (fp.isNaN %s)))", fin, n)}))
			l.abs = true
			return
		}
		var b strings.Builder
		fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.S.SMT())
		l.c.smtw(&b, t, l.nameOf, true)
		b.WriteString(")\n")
		l.send(b.String())
		l.named[t.ID] = n
	}
	rec(root)
}

func (l *Lane) assertAxioms() {
	for l.axDone < len(l.axioms) {
		a := l.axioms[l.axDone]
		if a.Quant && !l.quant {
			l.axDone++
			l.skipped = true
			continue
		}
		s := l.ref(a) // may append axioms
		l.send("(assert " + s + ")\n")
		l.axDone++
	}
}

func (l *Lane) sync(pc *PC) {
	l.declare()
	want := pc.list()
	// find matching prefix by levels
	pos := 0
	keep := 0
	for keep < len(l.stack) {
		ns := l.stack[keep].nodes
		if pos+len(ns) > len(want) {
			break
		}
		ok := true
		for i, n := range ns {
			if want[pos+i] != n {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		pos += len(ns)
		keep++
	}
	if k := len(l.stack) - keep; k > 0 {
		l.send(fmt.Sprintf("(pop %d)\n", k))
		l.axDone = l.stack[keep].nax
		l.stack = l.stack[:keep]
	}
	if pos < len(want) {
		l.stack = append(l.stack, level{nodes: want[pos:], nax: l.axDone})
		l.send("(push 1)\n")
		for _, n := range want[pos:] {
			if n.t.Quant && !l.quant {
				continue
			}
			s := l.ref(n.t)
			l.send("(assert " + s + ")\n")
		}
	}
	l.assertAxioms()
}

// Check decides pc /\ extra.
func (l *Lane) Check(pc *PC, extra *Term) Res {
	r, _ := l.CheckModel(pc, extra, nil)
	return r
}

func (l *Lane) CheckModel(pc *PC, extra *Term, get []*Term) (Res, []string) {
	if l.dead {
		l.Close()
		l.start()
	}
	t0 := time.Now()
	l.Checks++
	l.sync(pc)
	// definitions for get terms must precede check
	var gs []string
	for _, g := range get {
		gs = append(gs, l.ref(g))
	}
	s := ""
	if extra != nil {
		s = l.ref(extra)
	}
	l.declare()
	l.assertAxioms()
	l.send("(push 1)\n")
	if extra != nil && (!extra.Quant || l.quant) {
		l.send("(assert " + s + ")\n")
	}
	l.send("(check-sat)\n")
	l.flush()
	r := Unknown
	for {
		line, err := l.readLine()
		if err != nil {
			l.dead = true
			l.Time += time.Since(t0)
			return Unknown, nil
		}
		line = strings.TrimSpace(line)
		if line == "sat" {
			r = Sat
			break
		}
		if line == "unsat" {
			r = Unsat
			break
		}
		if line == "unknown" || line == "timeout" {
			r = Unknown
			break
		}
		if strings.HasPrefix(line, "(error") {
			fatalSolver(line, l)
		}
	}
	var vals []string
	if r != Unsat && len(get) > 0 {
		vals = l.getValues(gs)
	}
	l.send("(pop 1)\n")
	l.flush()
	l.Time += time.Since(t0)
	if d := time.Since(t0); slowLog && d > 100*time.Millisecond {
		x := ""
		if extra != nil {
			x = l.c.Str0(extra)
		}
		fmt.Fprintf(os.Stderr, "SLOW %v quant=%v %v pc=%d ax=%d %.300s\n", d, l.quant, r, len(pc.list()), len(l.c.Axioms), x)
	}
	return r, vals
}

var slowLog = os.Getenv("GVC_SLOW") != ""

var solverErrs int

func fatalSolver(line string, l *Lane) {
	solverErrs++
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", line)
	}
	panic(&unsupported{"solver: " + line})
}

func (l *Lane) readLine() (string, error) {
	s, err := l.out.ReadString('\n')
	return s, err
}

// getValues reads one s-expression per requested term.
func (l *Lane) getValues(gs []string) []string {
	var out []string
	for i := 0; i < len(gs); i += 50 {
		j := min(i+50, len(gs))
		l.send("(get-value (" + strings.Join(gs[i:j], " ") + "))\n")
		l.flush()
		sx, err := readSexp(l.out)
		if err != nil {
			return nil
		}
		// ((t v) (t v) ...)
		parts := splitSexp(sx)
		for _, p := range parts {
			kv := splitSexp(p)
			if len(kv) != 2 {
				return nil
			}
			out = append(out, kv[1])
		}
	}
	return out
}

func readSexp(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	for {
		ch, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if !started && (ch == ' ' || ch == '\n' || ch == '\r') {
			continue
		}
		started = true
		b.WriteByte(ch)
		if ch == '(' {
			depth++
		}
		if ch == ')' {
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		}
		if depth == 0 && ch == '\n' {
			return strings.TrimSpace(b.String()), nil
		}
	}
}

// splitSexp splits "(a (b c) d)" into its elements.
func splitSexp(s string) []string {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '(' {
		return nil
	}
	s = s[1 : len(s)-1]
	var out []string
	depth := 0
	st := -1
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '(':
			if depth == 0 && st < 0 {
				st = i
			}
			depth++
		case ch == ')':
			depth--
			if depth == 0 {
				out = append(out, s[st:i+1])
				st = -1
			}
		case ch == ' ' || ch == '\n' || ch == '\t':
			if depth == 0 && st >= 0 {
				out = append(out, s[st:i])
				st = -1
			}
		default:
			if st < 0 {
				st = i
			}
		}
	}
	if st >= 0 {
		out = append(out, s[st:])
	}
	return out
}

// Script renders a self-contained script for pc /\ extra.
func Script(c *Ctx, pc *PC, extra *Term) string {
	l := &Lane{c: c, quant: true, named: map[int]string{}, lits: map[int]bool{}}
	l.send("(set-logic ALL)\n(declare-sort Str 0)(declare-fun strid (Str) Int)(declare-fun strlen (Str) Int)\n")
	// relevant variables only
	l.declare()
	for _, n := range pc.list() {
		s := l.ref(n.t)
		l.send("(assert " + s + ")\n")
	}
	if extra != nil {
		s := l.ref(extra)
		l.send("(assert " + s + ")\n")
	}
	l.declare()
	l.assertAxioms()
	l.send("(check-sat)\n")
	return l.buf.String()
}

// OneShot runs a portfolio of fresh solver processes.
func OneShot(c *Ctx, pc *PC, extra *Term, timeout time.Duration) (Res, string) {
	script := Script(c, pc, extra)
	if d := os.Getenv("GVC_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(script), 0o644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r Res
		n string
	}
	cfgs := [][]string{
		{"z3-new", "-in", "-smt2"},
		{"z3-new", "-in", "-smt2", "smt.mbqi=false", "auto_config=false", "smt.random_seed=7"},
		{"cvc5", "--lang=smt2", "-q"},
		{"z3", "-in", "-smt2"},
	}
	ch := make(chan ans, len(cfgs))
	for _, cfg := range cfgs {
		go func() {
			cmd := exec.CommandContext(ctx, cfg[0], cfg[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			s := strings.TrimSpace(string(out))
			r := Unknown
			if strings.HasPrefix(s, "unsat") {
				r = Unsat
			} else if strings.HasPrefix(s, "sat") {
				r = Sat
			}
			ch <- ans{r, cfg[0]}
		}()
	}
	best := ans{Unknown, ""}
	for range cfgs {
		a := <-ch
		if a.r == Unsat {
			return Unsat, a.n
		}
		if a.r == Sat {
			best = a
		}
	}
	return best.r, best.n
}
