package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type njob struct {
	Harness    string
	Prop       string
	Safety     bool
	Terminates bool
	Seeds      []map[string]any
	Runs       int
	Millis     int
	Seed       int64
	Out        string
}
type nresult struct {
	Failed  bool
	What    string
	Inputs  map[string]any
	Runs    int
	Skipped int
	Seeded  bool
}

// nativeReplay runs harnesses as ordinary Go code against the repository's current source.
func (p *Program) nativeReplay(hs []*Harness, jobs []*njob, work string) (map[string]*nresult, string) {
	res := map[string]*nresult{}
	byPkg := map[string][]int{}
	for i, h := range hs {
		if h.Fn == nil || h.Fn.Pkg == nil {
			continue
		}
		byPkg[h.Pkg] = append(byPkg[h.Pkg], i)
	}
	var log strings.Builder
	for pkg, idx := range byPkg {
		rel := strings.TrimPrefix(strings.TrimPrefix(pkg, p.ModPath), "/")
		dir := filepath.Join(p.Repo, rel)
		w, err := os.MkdirTemp(work, "native")
		if err != nil {
			return res, err.Error()
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\tgvcspec %q\n)\n\nfunc TestGVCNative(t *testing.T) {\n\tgvcspec.NativeMain(map[string]gvcspec.Target{\n", hs[idx[0]].Fn.Pkg.Pkg.Name(), p.ModPath+"/gvcspec")
		var js []*njob
		for _, i := range idx {
			h := hs[i]
			var ps, gens []string
			for _, q := range h.Fn.Params {
				ps = append(ps, fmt.Sprintf("%q", q.Name()))
			}
			for k, v := range h.Opts {
				if strings.HasPrefix(k, "gen.") {
					gens = append(gens, fmt.Sprintf("%q: %s", strings.TrimPrefix(k, "gen."), v))
				}
			}
			sort.Strings(gens)
			fmt.Fprintf(&b, "\t\t%q: {Fn: %s, Params: []string{%s}, Gens: map[string]any{%s}},\n", h.Name, h.Name, strings.Join(ps, ", "), strings.Join(gens, ", "))
			jobs[i].Out = filepath.Join(w, fmt.Sprintf("out%d.json", i))
			js = append(js, jobs[i])
		}
		b.WriteString("\t})\n}\n")
		// what EachFunc ranges over
		var fns []string
		if sp := hs[idx[0]].Fn.Pkg; sp != nil {
			for n, m := range sp.Members {
				f, ok := m.(*ssa.Function)
				if ok && f.Signature.Recv() == nil && f.Signature.TypeParams() == nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && !strings.HasPrefix(n, "spec_") && n != "init" {
					fns = append(fns, n)
				}
			}
		}
		sort.Strings(fns)
		fmt.Fprintf(&b, "\nfunc init() {\n\tgvcspec.Funcs = []any{%s}\n}\n", strings.Join(fns, ", "))
		tf := filepath.Join(w, "native_test.go")
		os.WriteFile(tf, []byte(b.String()), 0o644)
		jf := filepath.Join(w, "jobs.json")
		jb, _ := json.Marshal(js)
		os.WriteFile(jf, jb, 0o644)
		rep := map[string]string{filepath.Join(dir, "zz_gvc_native_test.go"): tf}
		for o := range p.OverSrc {
			if text, ok := p.Overlay[o]; ok {
				f := filepath.Join(w, fmt.Sprintf("over%d.go", len(rep)))
				os.WriteFile(f, text, 0o644)
				rep[o] = f
			}
		}
		ob, _ := json.Marshal(map[string]any{"Replace": rep})
		of := filepath.Join(w, "overlay.json")
		os.WriteFile(of, ob, 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-overlay", of, "-run", "^TestGVCNative$", "./"+rel)
		cmd.Dir = p.Repo
		cmd.Env = append(os.Environ(), "GVC_JOBS="+jf, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		out, err := cmd.CombinedOutput()
		cancel()
		if err != nil {
			s := string(out)
			if len(s) > 3000 {
				s = s[:3000]
			}
			fmt.Fprintf(&log, "native run of %s: %v\n%s\n", pkg, err, s)
		}
		for _, i := range idx {
			rb, err := os.ReadFile(jobs[i].Out)
			if err != nil {
				continue
			}
			r := &nresult{}
			if json.Unmarshal(rb, r) == nil {
				res[hs[i].Name] = r
			}
		}
		os.RemoveAll(w)
	}
	return res, log.String()
}
