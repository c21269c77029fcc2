// Command gvc is a deductive verifier for Go contracts written as harness functions.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func main() {
	debug.SetGCPercent(200)
	if f := os.Getenv("GVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fatal("usage: gvc check|list|fuzz ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet("gvc", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	only := fs.String("only", "", "run only harnesses with this name")
	par := fs.Int("j", 0, "")
	verbose := fs.Bool("v", false, "")
	nonat := fs.Bool("nonative", false, "")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list":
		p, err := Load(*repo, filepath.Join(*verif, "contracts"), nil)
		if err != nil {
			fatal("%v", err)
		}
		byProp := map[string][]string{}
		for _, h := range p.Harnesses {
			for q := range h.allProps() {
				byProp[q] = append(byProp[q], h.Name)
			}
		}
		var ps []string
		for q := range byProp {
			ps = append(ps, q)
		}
		sort.Strings(ps)
		for _, q := range ps {
			sort.Strings(byProp[q])
			fmt.Println(q, strings.Join(byProp[q], " "))
		}
		for f, m := range p.Broken {
			fmt.Println("BROKEN", f, m)
		}
	case "check":
		rc := check(*repo, *verif, *prop, *tier, *only, *par, *verbose, *nonat)
		pprof.StopCPUProfile()
		os.Exit(rc)
	case "fuzz":
		// cross-check of the specifications: the contracts that can be run as ordinary code, on generated inputs
		p, err := Load(*repo, filepath.Join(*verif, "contracts"), nil)
		if err != nil {
			fatal("%v", err)
		}
		var nh []*Harness
		var jobs []*njob
		for _, h := range p.Harnesses {
			if h.NoNative || h.Fn == nil || *only != "" && h.Name != *only || *prop != "" && !h.allProps()[*prop] {
				continue
			}
			nh = append(nh, h)
			jobs = append(jobs, &njob{Harness: h.Name, Prop: "", Safety: true, Terminates: true, Runs: 100000, Millis: 3000, Seed: 1})
		}
		work, err := os.MkdirTemp("", "gvc")
		if err != nil {
			fatal("%v", err)
		}
		rs, lg := p.nativeReplay(nh, jobs, work)
		os.RemoveAll(work)
		fmt.Print(lg)
		bad := 0
		for _, h := range nh {
			r := rs[h.Name]
			switch {
			case r == nil:
				fmt.Println(h.Name, "did not run")
				bad = 1
			case r.Failed:
				fmt.Printf("%s FAILS: %s on %s\n", h.Name, r.What, short(r.Inputs))
				bad = 1
			default:
				fmt.Printf("%s: %d runs, %d outside the precondition\n", h.Name, r.Runs, r.Skipped)
			}
		}
		if *only == "" {
			rs, lg := scenarioReplay(*repo, *verif, *prop, 10000)
			fmt.Print(lg)
			for n, r := range rs {
				if r.Failed {
					b, _ := json.Marshal(r.Inputs)
					fmt.Printf("%s FAILS: %s on %s\n", n, r.What, b)
					bad = 1
				} else {
					fmt.Printf("%s: %d runs\n", n, r.Runs)
				}
			}
		}
		os.Exit(bad)
	default:
		fatal("unknown command %s", cmd)
	}
}

func check(repo, verif, prop, tier, only string, par int, verbose, nonat bool) int {
	t0 := time.Now()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	replay := filepath.Join(evDir, "replay", prop+".json")
	os.Remove(replay)
	ev := &evidence{Property: prop, Tier: tier, Seed: seed, Level: "proof", Coverage: map[string]any{}, Assumptions: []string{}}
	writeEv := func() {
		ev.WallS = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
	}
	ev.Coverage["checker_cmd"] = fmt.Sprintf("/verif/check.sh %s %s", prop, tier)
	p, err := Load(repo, filepath.Join(verif, "contracts"), nil)
	if err != nil {
		ev.Coverage["obligations"], ev.Coverage["discharged"], ev.Coverage["trusted_base"] = 1, 0, []string{"nothing was checked"}
		ev.Violations = 1
		writeEv()
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "failed": "repository source could not be loaded", "output": err.Error()}, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		return 1
	}
	loadS := time.Since(t0).Seconds()
	var hs []*Harness
	for _, h := range append(append([]*Harness{}, p.Harnesses...), p.brokenHs...) {
		if h.allProps()[prop] && (only == "" || h.Name == only || only[0] == 33 && h.Name != only[1:]) {
			if tier == "quick" && h.Opts["thorough"] != "" {
				continue
			}
			hs = append(hs, h)
		}
	}
	// contracts relied upon at call sites are verified in full as well
	dep := map[*Harness]bool{}
	have := map[*Harness]bool{}
	for _, h := range hs {
		have[h] = true
	}
	for i := 0; i < len(hs); i++ {
		for _, u := range sortedUses(hs[i]) {
			dep[u] = true
			if !have[u] {
				have[u] = true
				hs = append(hs, u)
			}
		}
	}
	if len(hs) == 0 {
		fmt.Printf("no contract for property %s\n", prop)
		return 2
	}
	if par == 0 {
		par = min(runtime.NumCPU(), 8)
	}
	results := make([]*HResult, len(hs))
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, h := range hs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			results[i] = p.runHarness(h, prop, tier, dep[h])
			<-sem
		}()
	}
	wg.Wait()

	// collect
	type failure struct {
		Harness string         `json:"contract"`
		Oblig   string         `json:"obligation"`
		Kind    string         `json:"kind"`
		Pos     string         `json:"at"`
		Detail  string         `json:"verifier_output"`
		Model   map[string]any `json:"counterexample,omitempty"`
		h       *Harness
	}
	var fails []*failure
	total, disch := 0, 0
	names, disNames := 0, 0
	back := map[string]int{}
	under, ctr, models, assumes := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	solver := 0.0
	queries := 0
	var perH []map[string]any
	for _, r := range results {
		n, bad := 0, 0
		for _, o := range r.Obligs {
			names++
			total += o.N
			n += o.N
			if o.Status == "proved" {
				disch += o.N
				disNames++
				back[o.Backend] += o.N
			} else {
				bad++
				disch += o.N - 1
				fails = append(fails, &failure{r.H.Name, o.Name, o.Kind, o.Pos, "obligation not discharged: solver answered " + o.Detail, o.Model, r.H})
			}
		}
		if r.Undecided != "" {
			total++
			bad++
			fails = append(fails, &failure{r.H.Name, "all obligations of " + r.H.Name, "undecided", r.H.File, r.Undecided, nil, r.H})
		} else {
			var cs []string
			for k := range r.Covers {
				cs = append(cs, k)
			}
			sort.Strings(cs)
			for _, k := range cs {
				if strings.HasPrefix(k, "C") && strings.Contains(k, ".") {
					m := dep[r.H]
					for _, q := range propsOf(k) {
						m = m || q == prop
					}
					if !m {
						continue
					}
				}
				total++
				if r.Covers[k] {
					disch++
					back["reachability"]++
				} else {
					bad++
					fails = append(fails, &failure{r.H.Name, "reachable: " + k, "vacuity", r.H.File, "this point is unreachable: what the contract states about it would hold of nothing", nil, r.H})
				}
			}
			locksOnly := contains(r.H.LockProps, prop) && !contains(r.H.Props, prop) // without locks they are balanced
			if n == 0 && r.H.Opts["mayempty"] == "" && !locksOnly {
				bad++
				total++
				fails = append(fails, &failure{r.H.Name, "obligations of " + r.H.Name, "vacuity", r.H.File, "the contract generated no obligation for this property", nil, r.H})
			}
		}
		solver += r.SolverS
		queries += r.Checks
		for _, x := range r.Under {
			under[strings.ReplaceAll(x, p.ModPath, "gozwave")] = true
		}
		for _, x := range r.Contracts {
			ctr[x] = true
		}
		for _, x := range r.Models {
			models[x] = true
		}
		for _, x := range r.Assumes {
			assumes[x] = true
		}
		perH = append(perH, map[string]any{"contract": r.H.Name, "obligations": n, "failed": bad, "wall_s": round(r.WallS), "solver_s": round(r.SolverS), "solver_queries": r.Checks})
		if verbose {
			fmt.Printf("  %-40s oblig %4d failed %d  wall %.1fs solver %.1fs q %d %s\n", r.H.Name, n, bad, r.WallS, r.SolverS, r.Checks, r.Undecided)
			if verbose && os.Getenv("GVC_LIST") != "" {
				for _, o := range r.Obligs {
					fmt.Printf("      %-8s %-10s x%d %s @ %s [%s]\n", o.Status, o.Kind, o.N, o.Name, o.Pos, o.Backend)
				}
				fmt.Println("      covers", r.Covers)
			}
		}
	}
	var fns []string
	for f := range under {
		if !strings.Contains(f, "spec_") && !strings.Contains(f, "gvc") {
			fns = append(fns, f)
		}
	}
	sort.Strings(fns)
	ev.Coverage["obligations"] = total
	ev.Coverage["discharged"] = disch
	ev.Coverage["named_obligations"] = names
	ev.Coverage["by_backend"] = back
	ev.Coverage["functions_executed_symbolically"] = fns
	ev.Coverage["contracts"] = perH
	ev.Coverage["contracts_used_modularly"] = keys(ctr)
	ev.Coverage["solver_s"] = round(solver)
	ev.Coverage["solver_queries"] = queries
	ev.Coverage["load_s"] = round(loadS)
	tb := []string{"gvc (this verifier's translation of Go SSA to SMT)", "golang.org/x/tools/go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "memory model: goroutine interleaving only at lock, channel and spawn points (data-race freedom is C17/C27/C28's obligation)", "no overflow of slice lengths beyond 2^47"}
	for _, m := range keys(models) {
		tb = append(tb, "library model: "+m)
	}
	ev.Coverage["trusted_base"] = tb
	for _, a := range keys(assumes) {
		ev.Assumptions = append(ev.Assumptions, a)
	}
	for _, h := range hs {
		if a := h.Opts["bounded"]; a != "" {
			ev.Assumptions = append(ev.Assumptions, "bounded: "+h.Name+" "+a)
		}
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	for _, k := range known {
		if k.kind == "finding" && k.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	var open []*failure
	for _, f := range fails {
		if !knownMatch(known, prop, f.Harness, f.Oblig) {
			open = append(open, f)
		}
	}
	fails = open
	if len(fails) == 0 {
		fmt.Printf("property %s: %d obligations discharged (%d named) over %d contracts, %d functions; %.1fs\n", prop, disch, disNames, len(hs), len(fns), time.Since(t0).Seconds())
		writeEv()
		return 0
	}
	for i, f := range fails {
		if i < 15 {
			fmt.Printf("FAILED obligation %q (%s) in %s at %s: %s\n", f.Oblig, f.Kind, f.Harness, f.Pos, f.Detail)
		}
	}
	// native replay of the counterexamples
	found := map[string]any{}
	nlog := ""
	if !nonat {
		var nh []*Harness
		var jobs []*njob
		seen := map[string]int{}
		for _, f := range fails {
			if f.h.NoNative || f.h.Fn == nil || !f.h.allProps()[prop] {
				continue
			}
			i, ok := seen[f.Harness]
			if !ok {
				i = len(nh)
				seen[f.Harness] = i
				j := &njob{Harness: f.Harness, Prop: prop, Runs: 400000, Millis: 12000, Seed: int64(seed)}
				for _, q := range f.h.SafetyProps {
					j.Safety = j.Safety || q == prop
				}
				for _, q := range f.h.Terminates {
					j.Terminates = j.Terminates || q == prop
				}
				nh = append(nh, f.h)
				jobs = append(jobs, j)
			}
			if f.Model != nil {
				jobs[i].Seeds = append(jobs[i].Seeds, f.Model)
			}
		}
		if len(nh) > 0 {
			work, err := os.MkdirTemp("", "gvc")
			if err == nil {
				rs, lg := p.nativeReplay(nh, jobs, work)
				nlog = lg
				os.RemoveAll(work)
				for n, r := range rs {
					if r.Failed {
						found[n] = r
						fmt.Printf("replayed on the real code: %s fails with %q on %s\n", n, r.What, short(r.Inputs))
					} else {
						nlog += fmt.Sprintf("%s: %d native runs (%d outside the precondition), none failed\n", n, r.Runs, r.Skipped)
					}
				}
			}
		}
	}
	if len(found) == 0 && !nonat {
		rs, lg := scenarioReplay(repo, verif, prop, 15000)
		nlog += lg
		for n, r := range rs {
			if r.Failed {
				found[n] = r
				fmt.Printf("replayed on the real code: %s: %q with %s\n", n, r.What, short(r.Inputs))
			} else {
				nlog += fmt.Sprintf("%s: %d runs, none failed\n", n, r.Runs)
			}
		}
	}
	ev.Violations = 1
	writeEv()
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "failed_obligations": fails, "replayed_on_real_code": found, "native_log": nlog, "rerun": fmt.Sprintf("/verif/check.sh %s %s", prop, tier)}, "", " ")
	os.WriteFile(replay, append(b, '\n'), 0o644)
	if len(found) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	}
	return 1
}

func sortedUses(h *Harness) []*Harness {
	var us []*Harness
	for _, u := range h.Uses {
		us = append(us, u)
	}
	sort.Slice(us, func(i, j int) bool { return us[i].Name < us[j].Name })
	return us
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
func short(v any) string {
	b, _ := json.Marshal(v)
	if len(b) > 300 {
		b = append(b[:300], "..."...)
	}
	return string(b)
}

type knownEnt struct{ kind, prop, harness, oblig, text string }

// known-findings.txt: "finding: property=Cxx contract=<name> obligation=<text> -- <what fails>" and "fixed: ..." lines
func loadKnown(f string) []knownEnt {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []knownEnt
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "finding: ") {
			continue
		}
		k := knownEnt{kind: "finding"}
		body := strings.TrimPrefix(ln, "finding: ")
		if i := strings.Index(body, " -- "); i >= 0 {
			k.text = body[i+4:]
			body = body[:i]
		}
		if i := strings.Index(body, "obligation="); i >= 0 {
			k.oblig = strings.TrimSpace(body[i+len("obligation="):])
			body = body[:i]
		}
		for _, f := range strings.Fields(body) {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			}
			if strings.HasPrefix(f, "contract=") {
				k.harness = f[9:]
			}
		}
		out = append(out, k)
	}
	return out
}
func knownMatch(ks []knownEnt, prop, harness, oblig string) bool {
	for _, k := range ks {
		if k.prop == prop && k.harness == harness && k.oblig == oblig {
			return true
		}
	}
	return false
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
