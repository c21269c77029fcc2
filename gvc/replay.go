package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// scenarioReplay runs the scenarios of replays/<package>/replay_test.go that are about the property as ordinary tests of the
// repository's current source, to find a failing history for an obligation that was not discharged.
func scenarioReplay(repo, verif, prop string, millis int) (map[string]*nresult, string) {
	res := map[string]*nresult{}
	var log strings.Builder
	files, _ := filepath.Glob(filepath.Join(verif, "replays", "*", "replay_test.go"))
	more, _ := filepath.Glob(filepath.Join(verif, "replays", "*", "*", "replay_test.go"))
	runner, err := os.ReadFile(filepath.Join(verif, "replays", "runner.txt"))
	if err != nil {
		return res, ""
	}
	for _, f := range append(files, more...) {
		text, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		about := false
		pkg := ""
		for _, l := range strings.Split(string(text), "\n") {
			if strings.HasPrefix(l, "package ") && pkg == "" {
				pkg = strings.TrimSpace(strings.TrimPrefix(l, "package "))
			}
			if strings.HasPrefix(l, "//gvc:replay ") {
				for _, q := range strings.Fields(strings.TrimPrefix(l, "//gvc:replay ")) {
					about = about || q == prop || prop == ""
				}
			}
		}
		if !about {
			continue
		}
		rel, _ := filepath.Rel(filepath.Join(verif, "replays"), filepath.Dir(f))
		if rel == "root" {
			rel = "."
		}
		w, err := os.MkdirTemp("", "gvcreplay")
		if err != nil {
			return res, err.Error()
		}
		dir := filepath.Join(repo, rel)
		rf := filepath.Join(w, "runner_test.go")
		os.WriteFile(rf, []byte(strings.Replace(string(runner), "package PACKAGE", "package "+pkg, 1)), 0o644)
		ob, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(dir, "zz_gvc_runner_test.go"): rf, filepath.Join(dir, "zz_gvc_replay_test.go"): f}})
		of := filepath.Join(w, "overlay.json")
		os.WriteFile(of, ob, 0o644)
		out := filepath.Join(w, "out.json")
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(millis)*time.Millisecond+100*time.Second)
		cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-overlay", of, "-run", "^TestGVCReplay$", "./"+rel)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GODEBUG=asynctimerchan=0", "TMPDIR="+w, "GVC_REPLAY_OUT="+out, "GVC_REPLAY_PROP="+prop, fmt.Sprintf("GVC_REPLAY_MILLIS=%d", millis), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		o, err := cmd.CombinedOutput()
		cancel()
		r := &nresult{}
		name := "scenarios of " + rel
		if rb, e := os.ReadFile(out); e == nil {
			if json.Unmarshal(rb, r) == nil {
				res[name] = r
			}
		} else {
			s := string(o)
			if rb, e := os.ReadFile(out + ".run"); e == nil && json.Unmarshal(rb, r) == nil {
				// the process died while a scenario ran
				for _, l := range strings.Split(s, "\n") {
					if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
						r.Failed = true
						r.What = "crashes: " + l
						break
					}
				}
				res[name] = r
			}
			if len(s) > 3000 {
				s = s[:3000]
			}
			fmt.Fprintf(&log, "scenarios of %s: %v\n%s\n", rel, err, s)
		}
		os.RemoveAll(w)
	}
	return res, log.String()
}
