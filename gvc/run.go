package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HResult is the outcome of verifying one harness for one property.
type HResult struct {
	H         *Harness
	Obligs    []*Oblig
	Undecided string
	Covers    map[string]bool
	Under     []string
	Contracts []string
	Models    []string
	Assumes   []string
	Checks    int
	SolverS   float64
	WallS     float64
	Queries   int
}

// reachable obligations of the harness without any property restriction are assumed (see oblige)
func (p *Program) runHarness(h *Harness, prop string, tier string, all bool) (res *HResult) {
	t0 := time.Now()
	res = &HResult{H: h}
	if h.Broken != "" {
		res.Undecided = h.Broken
		return res
	}
	e := NewEngine(p, h)
	defer e.Close()
	e.want = map[string]bool{prop: true}
	if all {
		for q := range h.allProps() {
			e.want[q] = true
		}
	}
	lim := 200 * time.Second
	if tier == "thorough" {
		lim = 600 * time.Second
		e.oneShotS = 120
		e.proveMS = 10000
	}
	if n, err := strconv.Atoi(os.Getenv("GVC_LIMIT")); err == nil {
		lim = time.Duration(n) * time.Second
	}
	e.deadline = t0.Add(lim)
	defer func() {
		res.Obligs = nil
		for _, o := range e.results {
			for _, q := range o.Props {
				if e.want[q] {
					res.Obligs = append(res.Obligs, o)
					break
				}
			}
		}
		res.Covers = e.covers
		res.Under = keys(e.under)
		res.Contracts = keys(e.contractsUsed)
		res.Models = keys(e.models)
		res.Assumes = keys(e.assumes)
		res.Checks = e.light.Checks + e.full.Checks
		res.SolverS = (e.light.Time + e.full.Time).Seconds()
		res.WallS = time.Since(t0).Seconds()
	}()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *unsupported:
				res.Undecided = "outside the verifier's reach: " + x.msg + e.where()
				if os.Getenv("GVC_STACK") != "" {
					debug.PrintStack()
				}
			case timeout:
				res.Undecided = "verification time limit reached" + e.where()
			default:
				res.Undecided = fmt.Sprintf("verifier error: %v", r)
				if os.Getenv("GVC_STACK") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	st := e.newState()
	e.initGlobals(st)
	var args []V
	for _, pr := range h.Fn.Params {
		v := e.freshVal(st, "in_"+clean(pr.Name()), pr.Type(), e.curRefHi(st))
		args = append(args, v)
	}
	for i, pr := range h.Fn.Params {
		e.addInput(st, pr.Name(), pr.Type(), args[i])
	}
	if h.ContractOf != nil {
		e.frameCheck = &frameCk{fn: h.ContractOf}
	}
	outs := e.callFn(st, h.Fn, args, nil, h.Fn.Pos())
	for _, o := range outs {
		if len(o.st.locks) > 0 && len(h.LockProps) > 0 {
			e.lockLeak(o.st, h.Fn.Pos())
		}
		if len(o.st.spawns) > 0 && h.Opts["dropgo"] == "" {
			panic(unsup("goroutine started but not accounted for"))
		}
	}
	if len(outs) == 0 && h.Opts["noreturn"] == "" {
		// no path reaches the end: nothing would be proved about results
		e.covers["end of "+h.Name] = false
	}
	return res
}

func (e *Engine) where() string {
	if len(e.calls) == 0 {
		return ""
	}
	var s []string
	for _, f := range e.calls {
		s = append(s, f.Name())
	}
	return " (in " + strings.Join(s, " > ") + ")"
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = types.Typ
var _ ssa.Value
