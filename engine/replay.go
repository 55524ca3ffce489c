package main

// Native execution of harnesses against the real code.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type nativeRunner struct {
	c       *checker
	dir     string // scratch
	bin     string
	raceBin string
	done    chan struct{}
	err     error
	rOnce   sync.Once
	rErr    error
	pkg     string
	ovFile  string
}

func newNativeRunner(c *checker) *nativeRunner {
	dir, err := os.MkdirTemp("", "gosym-")
	n := &nativeRunner{c: c, dir: dir, err: err, done: make(chan struct{})}
	return n
}

func (n *nativeRunner) close() {
	if n.dir != "" && strings.Contains(n.dir, "gosym-") {
		os.RemoveAll(n.dir)
	}
}

func harnessNames(dir string) ([]string, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H_") {
				nm, _, _ := strings.Cut(strings.TrimPrefix(l, "func "), "(")
				out = append(out, nm)
			}
		}
	}
	return out, nil
}

func (n *nativeRunner) startBuild(pkg string) {
	n.pkg = pkg
	go func() {
		defer close(n.done)
		if n.err != nil {
			return
		}
		hdir := filepath.Join(n.c.verif, "harness")
		ov, err := buildOverlay(n.c.repo, hdir)
		if err != nil {
			n.err = err
			return
		}
		hs, err := harnessNames(filepath.Join(hdir, pkg))
		if err != nil {
			n.err = err
			return
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", zvPath+"/"+pkg, symPath)
		for _, h := range hs {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h, h)
		}
		sb.WriteString("\t})\n}\n")
		mf := filepath.Join(n.dir, "main.go")
		if n.err = os.WriteFile(mf, []byte(sb.String()), 0o644); n.err != nil {
			return
		}
		ov[filepath.Join(n.c.repo, "internal/zverif/run_"+pkg, "main.go")] = mf
		n.ovFile = filepath.Join(n.dir, "overlay.json")
		if n.err = writeOverlayJSON(ov, n.ovFile); n.err != nil {
			return
		}
		n.bin = filepath.Join(n.dir, "run")
		n.err = n.build(n.bin, false)
	}()
}

func (n *nativeRunner) build(out string, race bool) error {
	args := []string{"build", "-overlay", n.ovFile, "-o", out}
	env := goEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./internal/zverif/run_"+n.pkg)
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", args...)
	cmd.Dir = n.c.repo
	cmd.Env = env
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("native build: %v: %s", err, buf.String())
	}
	return nil
}

type natResult struct {
	code int
	out  string
	obs  []Obs
	time bool
}

func (n *nativeRunner) exec(bin, h string, vals map[string]uint64, tier, repeat int, timeout time.Duration, extraEnv ...string) natResult {
	f, err := os.CreateTemp(n.dir, "in-*.json")
	if err != nil {
		return natResult{code: 99, out: err.Error()}
	}
	b, _ := json.Marshal(map[string]any{"harness": h, "tier": tier, "vals": vals, "repeat": repeat})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	tmp, _ := os.MkdirTemp(n.dir, "tmp-")
	defer os.RemoveAll(tmp)
	cmd := exec.Command(bin, f.Name())
	cmd.Dir = tmp
	cmd.Env = append([]string{"TMPDIR=" + tmp, "HOME=" + tmp, "PATH=/usr/bin:/bin"}, extraEnv...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return natResult{code: 99, out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	r := natResult{}
	select {
	case <-done:
		r.code = cmd.ProcessState.ExitCode()
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		r.time = true
		r.code = 124
	}
	r.out = buf.String()
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			var o Obs
			if json.Unmarshal([]byte(l[4:]), &o) == nil {
				r.obs = append(r.obs, o)
			}
		}
	}
	return r
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		s = s[:n/2] + " … " + s[len(s)-n/2:]
	}
	return s
}

// confirm replays a counterexample; the first result is empty when it did not reproduce.
func (n *nativeRunner) confirm(h *harness, v *Violation, tier int) (string, string) {
	<-n.done
	if n.err != nil {
		return "", n.err.Error()
	}
	if v.Kind == "race" {
		n.rOnce.Do(func() {
			n.raceBin = filepath.Join(n.dir, "run-race")
			n.rErr = n.build(n.raceBin, true)
		})
		if n.rErr == nil {
			for i := 0; i < 12; i++ {
				r := n.exec(n.raceBin, h.Name, v.Vals, tier, 30, 60*time.Second, "GORACE=halt_on_error=1 exitcode=66")
				if r.code == 66 {
					return "data race reported by the Go race detector on the same inputs: " + tail(r.out, 1200), ""
				}
			}
		}
		return "deterministic replay of the interleaving in the executor (the race detector did not hit this interleaving)", ""
	}
	r := n.exec(n.bin, h.Name, v.Vals, tier, 1, 30*time.Second)
	if bad, why := r.failed(); bad {
		return "native replay: " + why, ""
	}
	if v.Sched || v.MapOrd {
		for i := 0; i < 40; i++ {
			env := []string{}
			if i%3 == 1 {
				env = append(env, "GOMAXPROCS=1")
			}
			if i%3 == 2 {
				env = append(env, "GOMAXPROCS=2")
			}
			r = n.exec(n.bin, h.Name, v.Vals, tier, 20, 30*time.Second, env...)
			if bad, why := r.failed(); bad {
				return fmt.Sprintf("native replay (attempt %d): %s", i, why), ""
			}
		}
		return "deterministic replay of the interleaving or iteration order in the executor (not hit natively in 800 runs)", ""
	}
	return "", fmt.Sprintf("native run exits %d: %s", r.code, tail(r.out, 500))
}

func (r natResult) failed() (bool, string) {
	switch {
	case r.time:
		return true, "does not terminate"
	case r.code == 0, r.code == 4, r.code == 9, r.code == 99:
		return false, ""
	case r.code == 3:
		i := strings.Index(r.out, "VIOLATED")
		return true, tail(r.out[max(i, 0):], 400)
	case r.code == 2:
		i := strings.Index(r.out, "panic")
		if j := strings.Index(r.out, "fatal error"); j >= 0 && (i < 0 || j < i) {
			i = j
		}
		return true, tail(r.out[max(i, 0):], 600)
	}
	return true, fmt.Sprintf("exit %d: %s", r.code, tail(r.out, 400))
}

// validate runs sampled paths natively and compares what they observe.
func (n *nativeRunner) validate(h *harness, samples []TraceSample, tier int) (ok int, mism []string, bad []*Violation) {
	if len(samples) == 0 {
		return
	}
	<-n.done
	if n.err != nil {
		return 0, []string{n.err.Error()}, nil
	}
	type res struct {
		i int
		r natResult
	}
	out := make([]natResult, len(samples))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i := range samples {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = n.exec(n.bin, h.Name, samples[i].Vals, tier, 1, 60*time.Second)
		}(i)
	}
	wg.Wait()
	for i, r := range out {
		s := samples[i]
		if f, why := r.failed(); f {
			// make sure before reporting
			r2 := n.exec(n.bin, h.Name, s.Vals, tier, 1, 60*time.Second)
			if f2, _ := r2.failed(); f2 {
				bad = append(bad, &Violation{Msg: "native: " + why, Kind: "native", Vals: s.Vals})
			} else {
				mism = append(mism, "unstable native failure: "+why)
			}
			continue
		}
		if r.code != 0 {
			mism = append(mism, fmt.Sprintf("exit %d: %s vals %v", r.code, tail(r.out, 200), s.Vals))
			continue
		}
		same := len(r.obs) == len(s.Obs)
		if same {
			for k := range r.obs {
				if r.obs[k] != s.Obs[k] {
					same = false
				}
			}
		}
		if !same {
			mism = append(mism, fmt.Sprintf("executor %v native %v vals %v", s.Obs, r.obs, s.Vals))
			continue
		}
		ok++
	}
	if len(mism) > 5 {
		mism = append(mism[:5], fmt.Sprintf("… %d more", len(mism)-5))
	}
	return
}
