package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"harness/core"
	"simrt"
)

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

// confirm reproduces a violation in a fresh process, minimises it and writes the replay file.
func confirm(prop, verif string, vs int64, f *found) (string, error) {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	name := prop + "-" + sanitize(f.v.Sig)
	if len(name) > 80 {
		name = name[:80]
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", name, f.seed&0xffffff))
	s := core.Find(prop, f.scen)
	base := replayFile{Property: prop, Scenario: f.scen, Signature: f.v.Sig, Detail: f.v.Detail, Seed: f.seed, VerifSeed: vs,
		Prog: genProg(s, f.seed), BySeed: true}
	if err := writeReplay(path, &base); err != nil {
		return "", err
	}
	if f.v.Sig == diedSig {
		return path, nil
	}
	if !reproduces(path) {
		// it may depend on what earlier runs left behind in the process (package-level state)
		ok := false
		for _, k := range []int{1, 3, 10, 50, len(f.before)} {
			if k > len(f.before) {
				k = len(f.before)
			}
			base.Before = f.before[len(f.before)-k:]
			writeReplay(path, &base)
			if reproduces(path) {
				ok = true
				break
			}
		}
		if !ok {
			return "", fmt.Errorf("%s", path)
		}
		return path, nil
	}
	// minimise in a fresh process with a time limit; keep the unminimised file if that fails
	tmp := path + ".min"
	cmd := exec.Command(os.Args[0], "-worker", "-shrink", path)
	cmd.Stderr = os.Stderr
	done := make(chan error, 1)
	if err := cmd.Start(); err == nil {
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(150 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	if _, err := os.Stat(tmp); err == nil {
		if reproduces(tmp) {
			os.Rename(tmp, path)
		} else {
			fmt.Fprintln(os.Stderr, "note: the minimised trace did not reproduce; keeping the full one")
			os.Remove(tmp)
		}
	}
	return path, nil
}

func writeReplay(path string, r *replayFile) error {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetIndent("", " ")
	if err := e.Encode(r); err != nil {
		return err
	}
	return os.WriteFile(path, b.Bytes(), 0o644)
}

func reproduces(path string) bool {
	cmd := exec.Command(os.Args[0], "-replay", path)
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return false
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
	}
	return cmd.ProcessState.ExitCode() == 1
}

func hasSig(r *core.Result, sig string) *core.Violation {
	for i := range r.Viol {
		if r.Viol[i].Sig == sig {
			return &r.Viol[i]
		}
	}
	return nil
}

func readReplay(path string) *replayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &r
}

func replayMain(path string) int {
	runtime.GOMAXPROCS(2)
	r := readReplay(path)
	s := core.Find(r.Property, r.Scenario)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario")
		return 3
	}
	if r.Signature == diedSig {
		if dies(r.Property, r.Scenario, r.Seed) {
			fmt.Printf("%s\n%s\n", r.Signature, r.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
			return 1
		}
		return 0
	}
	for _, b := range r.Before {
		core.Run(s, genProg(s, b), simrt.Config{Seed: b})
	}
	cfg := simrt.Config{Seed: r.Seed, LogOn: true}
	if !r.BySeed {
		cfg.IsReplay = true
		cfg.Replay = r.Decisions
	}
	res := core.Run(s, r.Prog, cfg)
	for _, e := range res.Events {
		fmt.Println(e)
	}
	if res.Harness != "" {
		fmt.Fprintln(os.Stderr, "HARNESS:", res.Harness)
	}
	if v := hasSig(res, r.Signature); v != nil {
		fmt.Printf("%s\n%s\n", v.Sig, v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	}
	for _, v := range res.Viol {
		fmt.Printf("other: %s\n%s\n", v.Sig, v.Detail)
	}
	return 0
}

func shrinkMain(path string) {
	runtime.GOMAXPROCS(2)
	r := readReplay(path)
	s := core.Find(r.Property, r.Scenario)
	deadline := time.Now().Add(90 * time.Second)
	tries := 0
	run := func(p *core.Prog, cfg simrt.Config) *core.Result {
		tries++
		return core.Run(s, p, cfg)
	}
	first := run(r.Prog, simrt.Config{Seed: r.Seed})
	if hasSig(first, r.Signature) == nil {
		return
	}
	prog, trace, seed := r.Prog, first.Out.Trace, r.Seed
	// 1. drop operations; the rest of the schedule is searched again with a few seeds
	attempt := func(p *core.Prog) bool {
		for k := 0; k < 12; k++ {
			if time.Now().After(deadline) {
				return false
			}
			var res *core.Result
			sd := seed
			switch {
			case k == 0:
				res = run(p, simrt.Config{Seed: seed})
			default:
				sd = simrt.NewRng(seed + uint64(k)*7919).U64()
				res = run(p, simrt.Config{Seed: sd})
			}
			if res.Harness == "" && hasSig(res, r.Signature) != nil {
				prog, trace, seed = p, res.Out.Trace, sd
				return true
			}
		}
		return false
	}
	for n := (len(prog.Ops) + 1) / 2; n >= 1 && time.Now().Before(deadline.Add(-40*time.Second)); {
		hit := false
		for i := 0; i < len(prog.Ops); {
			p := prog.Clone()
			e := i + n
			if e > len(p.Ops) {
				e = len(p.Ops)
			}
			p.Ops = append(p.Ops[:i], p.Ops[e:]...)
			if attempt(p) {
				hit = true
			} else {
				i += n
			}
			if time.Now().After(deadline.Add(-40 * time.Second)) {
				break
			}
		}
		if n == 1 && !hit {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
	// 2. drop decisions; everything not listed takes its default
	cur := trace
	ok := func(d []simrt.Decision) bool {
		res := run(prog, simrt.Config{Seed: seed, IsReplay: true, Replay: d})
		return res.Harness == "" && hasSig(res, r.Signature) != nil
	}
	if !ok(cur) {
		// the default decisions of a replay differ: keep replay by seed
		r.Prog, r.Seed, r.Minimised = prog, seed, true
		r.Decisions = trace
		r.BySeed = true
		finish(s, r, path)
		return
	}
	for n := (len(cur) + 1) / 2; n >= 1 && time.Now().Before(deadline); {
		hit := false
		for i := 0; i < len(cur) && time.Now().Before(deadline); {
			e := i + n
			if e > len(cur) {
				e = len(cur)
			}
			d := append(append([]simrt.Decision{}, cur[:i]...), cur[e:]...)
			if ok(d) {
				cur = d
				hit = true
			} else {
				i += n
			}
		}
		if n == 1 && !hit {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
	r.Prog, r.Seed, r.Minimised, r.BySeed = prog, seed, true, false
	r.Decisions = cur
	finish(s, r, path)
}

func finish(s *core.Scenario, r *replayFile, path string) {
	cfg := simrt.Config{Seed: r.Seed, LogOn: true}
	if !r.BySeed {
		cfg.IsReplay, cfg.Replay = true, r.Decisions
	}
	res := core.Run(s, r.Prog, cfg)
	v := hasSig(res, r.Signature)
	if v == nil {
		return
	}
	r.Detail = v.Detail
	ev := res.Events
	if len(ev) > 400 {
		ev = ev[len(ev)-400:]
	}
	r.Events = ev
	writeReplay(path+".min", r)
}
