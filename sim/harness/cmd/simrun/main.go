// simrun drives the simulation of one property: it spreads the runs over worker processes, confirms and minimises a
// violation, writes the replay file and the evidence. It is not transformed (it lives in the real world).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"harness/core"
	_ "harness/sc"
	"simrt"
)

type job struct {
	Prop, Scen string
	Seeds      []uint64
	LogOn      bool
}

type runRec struct {
	Seed  uint64
	Hash  uint64
	Steps int64
	Sim   int64
	Kind  string
	Viol  []core.Violation
	Harn  string
}

type jobRes struct {
	Scen     string
	Runs     []runRec
	Counters map[string]int64
	Wall     float64
	Sample   string
}

// replayFile reproduces one violation.
type replayFile struct {
	Property  string            `json:"property"`
	Scenario  string            `json:"scenario"`
	Signature string            `json:"signature"`
	Detail    string            `json:"detail"`
	Seed      uint64            `json:"seed"`
	VerifSeed int64             `json:"verif_seed"`
	Before    []uint64          `json:"before,omitempty"` // runs made earlier in the same process
	Prog      *core.Prog        `json:"prog"`
	Minimised bool              `json:"minimised"`
	Decisions []simrt.Decision  `json:"decisions"`
	BySeed    bool              `json:"by_seed"` // decisions come from the seed, not from the list
	Events    []string          `json:"events,omitempty"`
	Note      map[string]string `json:"note,omitempty"`
}

func seedOf(vs int64, prop, scen string, i int) uint64 {
	return simrt.NewRng(simrt.HashString(fmt.Sprintf("%d/%s/%s/%d", vs, prop, scen, i))).U64()
}

func genProg(s *core.Scenario, seed uint64) *core.Prog {
	return s.Gen(simrt.NewRng(seed ^ 0x70726f67))
}

func runJob(j job) *jobRes {
	s := core.Find(j.Prop, j.Scen)
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such scenario", j.Prop, j.Scen)
		os.Exit(3)
	}
	res := &jobRes{Scen: j.Scen, Counters: map[string]int64{}}
	t0 := time.Now()
	for i, seed := range j.Seeds {
		p := genProg(s, seed)
		r := core.Run(s, p, simrt.Config{Seed: seed, LogOn: j.LogOn})
		if j.LogOn {
			for _, e := range r.Events {
				fmt.Fprintln(os.Stderr, e)
			}
		}
		rec := runRec{Seed: seed, Hash: r.Out.Hash, Steps: r.Out.Steps, Sim: r.Out.SimNS, Kind: r.Out.Kind, Viol: r.Viol, Harn: r.Harness}
		for k, v := range r.Out.Counters {
			res.Counters[k] += v
		}
		res.Runs = append(res.Runs, rec)
		if i == 0 {
			b, _ := json.Marshal(p)
			if len(b) > 1500 {
				b = append(b[:1500], "..."...)
			}
			res.Sample = string(b)
		}
	}
	res.Wall = time.Since(t0).Seconds()
	return res
}

func worker() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	// a run that takes all memory must not end other processes
	syscall.Setrlimit(2 /* RLIMIT_DATA */, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	dec := json.NewDecoder(in)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		out.Encode(runJob(j))
	}
}

// proc is a worker process.
type proc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
	cls func()
}

func startProc(args ...string) *proc {
	cmd := exec.Command(os.Args[0], append([]string{"-worker"}, args...)...)
	cmd.Stderr = os.Stderr
	w, _ := cmd.StdinPipe()
	r, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &proc{cmd: cmd, in: json.NewEncoder(w), out: json.NewDecoder(bufio.NewReaderSize(r, 1<<20)), cls: func() { w.Close() }}
}

func (p *proc) do(j job, limit time.Duration) (*jobRes, error) {
	var r jobRes
	if err := p.in.Encode(j); err != nil {
		return nil, err
	}
	t := time.AfterFunc(limit, func() { p.cmd.Process.Kill() })
	defer t.Stop()
	if err := p.out.Decode(&r); err != nil {
		return nil, fmt.Errorf("worker died in %s/%s seeds %v..: %v", j.Prop, j.Scen, j.Seeds[:1], err)
	}
	return &r, nil
}

func (p *proc) stop() {
	p.cls()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type known struct {
	prop, sig, text string
}

func readKnown(file string) (l []known) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, ln := range strings.Split(string(b), "\n") {
		// KNOWN property=<id> sig=<signature> :: <text>
		if !strings.HasPrefix(ln, "KNOWN ") {
			continue
		}
		head, text, _ := strings.Cut(ln, " :: ")
		var k known
		k.text = strings.TrimSpace(text)
		i := strings.Index(head, "property=")
		j := strings.Index(head, " sig=")
		if i < 0 || j < 0 {
			continue
		}
		k.prop = strings.TrimSpace(head[i+len("property=") : j])
		k.sig = strings.TrimSpace(head[j+len(" sig="):])
		l = append(l, k)
	}
	return
}

func main() {
	var (
		isWorker = flag.Bool("worker", false, "")
		prop     = flag.String("prop", "", "property")
		scen     = flag.String("scen", "", "only this scenario")
		tier     = flag.String("tier", "quick", "")
		vseed    = flag.Int64("seed", 1, "VERIF_SEED")
		outDir   = flag.String("verif", "/verif", "")
		workers  = flag.Int("workers", 8, "")
		runs     = flag.Int("runs", 0, "override the number of runs")
		wall     = flag.Float64("wall", 0, "override the wall-clock cap in seconds")
		replay   = flag.String("replay", "", "replay file")
		one      = flag.Uint64("one", 0, "run one seed with the event log")
		list     = flag.Bool("list", false, "")
		keepOn   = flag.Bool("all", false, "do not stop at the first violation; summarise signatures")
		detcheck = flag.Bool("det", false, "determinism check: print seed/hash lines")
		noEvid   = flag.Bool("noevidence", false, "")
		shrinkS  = flag.String("shrink", "", "internal")
		buildS   = flag.Float64("builds", 0, "")
	)
	flag.Parse()
	switch {
	case *isWorker:
		if *shrinkS != "" {
			shrinkMain(*shrinkS)
			return
		}
		worker()
		return
	case *list:
		for _, s := range core.All {
			fmt.Printf("%s %s quick=%d thorough=%d\n", s.Prop, s.Name, s.Quick, s.Thor)
		}
		return
	case *replay != "":
		os.Exit(replayMain(*replay))
	case *one != 0:
		r := runJob(job{Prop: *prop, Scen: *scen, Seeds: []uint64{*one}, LogOn: true})
		for _, x := range r.Runs {
			fmt.Printf("kind=%s steps=%d sim=%.3fs hash=%x harness=%s\n", x.Kind, x.Steps, float64(x.Sim)/1e9, x.Hash, x.Harn)
			for _, v := range x.Viol {
				fmt.Printf("VIOL %s\n%s\n", v.Sig, v.Detail)
			}
		}
		for _, k := range core.SortedKeys(r.Counters) {
			fmt.Printf("  %s=%d\n", k, r.Counters[k])
		}
		s := core.Find(*prop, *scen)
		b, _ := json.Marshal(genProg(s, *one))
		fmt.Println(string(b))
		return
	}
	os.Exit(check(*prop, *scen, *tier, *vseed, *outDir, *workers, *runs, *wall, *keepOn, *detcheck, *noEvid, *buildS))
}

type scenStat struct {
	s                      *core.Scenario
	runs                   int
	hashes                 map[uint64]bool
	nontrivial             int
	steps, sim             int64
	kinds                  map[string]int
	counters               map[string]int64
	samples                []string
	planned, issued, maxSt int
}

type found struct {
	scen   string
	seed   uint64
	before []uint64
	v      core.Violation
	n      int
}

const diedSig = "process-died"

// diagnose runs every seed of a batch that killed its worker alone, and a seed that kills its worker once again.
func diagnose(prop, scen string, seeds []uint64) (all *jobRes, bad uint64) {
	p := startProc()
	defer func() { p.stop() }()
	for _, s := range seeds {
		r, err := p.do(job{Prop: prop, Scen: scen, Seeds: []uint64{s}}, 40*time.Second)
		if err != nil {
			if dies(prop, scen, s) {
				return nil, s
			}
			return nil, 0
		}
		if all == nil {
			all = r
			continue
		}
		all.Runs = append(all.Runs, r.Runs...)
		all.Wall += r.Wall
		for k, v := range r.Counters {
			all.Counters[k] += v
		}
	}
	return
}

// dies says if the run kills its process.
func dies(prop, scen string, seed uint64) bool {
	p := startProc()
	defer p.stop()
	_, err := p.do(job{Prop: prop, Scen: scen, Seeds: []uint64{seed}}, 60*time.Second)
	return err != nil
}

func check(prop, only, tier string, vs int64, verif string, workers, runs int, wallCap float64, keepOn, det, noEvid bool, buildS float64) int {
	t0 := time.Now()
	scs := core.For(prop)
	if only != "" {
		scs = nil
		if s := core.Find(prop, only); s != nil {
			scs = []*core.Scenario{s}
		}
	}
	if len(scs) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", prop)
		return 3
	}
	if wallCap == 0 {
		wallCap = 240
		if tier == "thorough" {
			wallCap = 3000
		}
	}
	st := map[string]*scenStat{}
	type task struct {
		scen string
		from int
		n    int
	}
	var tasks []task
	const batch = 25
	for _, s := range scs {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thor
			if n == 0 {
				n = s.Quick * 20
			}
		}
		if runs > 0 {
			n = runs
		}
		st[s.Name] = &scenStat{s: s, hashes: map[uint64]bool{}, kinds: map[string]int{}, counters: map[string]int64{}, planned: n}
		for i := 0; i < n; i += batch {
			k := batch
			if i+k > n {
				k = n - i
			}
			tasks = append(tasks, task{s.Name, i, k})
		}
	}
	// interleave the scenarios
	sort.SliceStable(tasks, func(i, j int) bool {
		a, b := tasks[i], tasks[j]
		return float64(a.from)/float64(st[a.scen].planned) < float64(b.from)/float64(st[b.scen].planned)
	})
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	isKnown := func(sig string) *known {
		for i := range kn {
			if kn[i].prop == prop && kn[i].sig == sig {
				return &kn[i]
			}
		}
		return nil
	}
	var (
		mx       sync.Mutex
		next     int
		finds    []*found
		knownHit = map[string]int{}
		knownEx  = map[string]string{}
		harness  []string
		stop     bool
		wg       sync.WaitGroup
		detl     []string
	)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := startProc()
			defer func() { p.stop() }()
			var done []uint64 // seeds this process has run
			for {
				mx.Lock()
				if stop || next >= len(tasks) || time.Since(t0).Seconds() > wallCap {
					mx.Unlock()
					return
				}
				tk := tasks[next]
				next++
				mx.Unlock()
				if len(done) >= 400 {
					p.stop()
					p = startProc()
					done = nil
				}
				var seeds []uint64
				for i := 0; i < tk.n; i++ {
					seeds = append(seeds, seedOf(vs, prop, tk.scen, tk.from+i))
				}
				r, err := p.do(job{Prop: prop, Scen: tk.scen, Seeds: seeds}, 200*time.Second)
				if err != nil {
					p.stop()
					p = startProc()
					done = nil
					var bad uint64
					if r, bad = diagnose(prop, tk.scen, seeds); bad != 0 {
						mx.Lock()
						finds = append(finds, &found{tk.scen, bad, nil, core.Violation{Sig: diedSig, Detail: "the process that runs the simulated machines dies, spins or takes all memory (" + err.Error() + ")"}, 1})
						stop = !keepOn
						mx.Unlock()
						return
					}
					err = nil
					if r == nil {
						err = fmt.Errorf("a worker was lost")
					}
				}
				mx.Lock()
				if err != nil {
					harness = append(harness, err.Error())
					stop = true
					mx.Unlock()
					return
				}
				x := st[tk.scen]
				for k, v := range r.Counters {
					x.counters[k] += v
				}
				if len(x.samples) < 3 {
					x.samples = append(x.samples, r.Sample)
				}
				for i, rr := range r.Runs {
					x.runs++
					x.hashes[rr.Hash] = true
					x.steps += rr.Steps
					x.sim += rr.Sim
					x.kinds[rr.Kind]++
					if det {
						detl = append(detl, fmt.Sprintf("%s %d %x %d %d", tk.scen, rr.Seed, rr.Hash, rr.Steps, rr.Sim))
					}
					if rr.Harn != "" {
						harness = append(harness, fmt.Sprintf("%s seed %d: %s", tk.scen, rr.Seed, rr.Harn))
						if !keepOn {
							stop = true
						}
					}
					for _, v := range rr.Viol {
						if k := isKnown(v.Sig); k != nil {
							knownHit[k.sig]++
							if knownEx[k.sig] == "" {
								knownEx[k.sig] = k.text
							}
							continue
						}
						dup := false
						for _, f := range finds {
							if f.v.Sig == v.Sig {
								f.n++
								dup = true
							}
						}
						if !dup {
							bf := append(append([]uint64{}, done...), seeds[:i]...)
							finds = append(finds, &found{tk.scen, rr.Seed, bf, v, 1})
						}
						if !keepOn {
							stop = true
						}
					}
				}
				mx.Unlock()
				done = append(done, seeds...)
			}
		}()
	}
	wg.Wait()
	wallRuns := time.Since(t0).Seconds()
	if det {
		sort.Strings(detl)
		for _, l := range detl {
			fmt.Println(l)
		}
		return 0
	}
	rc := 0
	if keepOn {
		sort.Slice(finds, func(i, j int) bool { return finds[i].n > finds[j].n })
		for _, f := range finds {
			d := f.v.Detail
			if len(d) > 700 {
				d = d[:700]
			}
			fmt.Printf("== %s x%d  scen=%s seed=%d\n%s\n", f.v.Sig, f.n, f.scen, f.seed, d)
		}
	}
	for _, h := range harness {
		fmt.Fprintln(os.Stderr, "HARNESS:", h)
		rc = 3
		if !keepOn {
			break
		}
	}
	for _, k := range kn {
		if k.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s; hit in %d runs)\n", prop, k.text, k.sig, knownHit[k.sig])
		}
	}
	nviol := 0
	if len(finds) > 0 && !keepOn {
		nviol = len(finds)
		f := finds[0]
		path, err := confirm(prop, verif, vs, f)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS: a violation did not reproduce:", err)
			fmt.Fprintln(os.Stderr, f.scen, f.seed, f.v.Sig, f.v.Detail)
			return 3
		}
		d := f.v.Detail
		if len(d) > 1500 {
			d = d[:1500]
		}
		fmt.Printf("scenario %s, seed %d: %s\n%s\n", f.scen, f.seed, f.v.Sig, d)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		rc = 1
	}
	// probes that must have been reached
	if rc == 0 && only == "" && runs == 0 && !keepOn {
		for _, s := range scs {
			x := st[s.Name]
			if x.runs < x.planned {
				continue
			}
			for _, c := range s.Needed {
				if x.counters[c] == 0 {
					fmt.Fprintf(os.Stderr, "HARNESS: probe %s was never reached in scenario %s\n", c, s.Name)
					rc = 3
				}
			}
		}
	}
	if !noEvid {
		writeEvidence(prop, tier, vs, verif, scs, st2list(scs, st), wallRuns, time.Since(t0).Seconds()+buildS, nviol, knownHit, workers)
	}
	tot := 0
	for _, x := range st {
		tot += x.runs
	}
	fmt.Printf("%s %s: %d runs, %.1fs, %.0f runs/hour\n", prop, tier, tot, wallRuns, float64(tot)/wallRuns*3600)
	if keepOn {
		for _, s := range scs {
			x := st[s.Name]
			fmt.Printf("scenario %s: runs=%d kinds=%v steps/run=%d sim/run=%.2fs distinct=%d\n", s.Name, x.runs, x.kinds, x.steps/int64(max(1, x.runs)), float64(x.sim)/1e9/float64(max(1, x.runs)), len(x.hashes))
			var l []string
			for _, k := range core.SortedKeys(x.counters) {
				l = append(l, fmt.Sprintf("%s=%d", k, x.counters[k]))
			}
			fmt.Println("  ", strings.Join(l, " "))
		}
	}
	return rc
}

func st2list(scs []*core.Scenario, st map[string]*scenStat) (l []*scenStat) {
	for _, s := range scs {
		l = append(l, st[s.Name])
	}
	return
}

func writeEvidence(prop, tier string, vs int64, verif string, scs []*core.Scenario, l []*scenStat, wallRuns, wall float64, nviol int, knownHit map[string]int, workers int) {
	runs, distinct := 0, 0
	var sim, steps int64
	faults := map[string]int64{}
	kinds := map[string]int{}
	var samples []any
	var rules []string
	var per []any
	real, stubs := map[string]bool{}, map[string]bool{}
	for _, x := range l {
		runs += x.runs
		distinct += len(x.hashes)
		sim += x.sim
		steps += x.steps
		for k, v := range x.counters {
			faults[k] += v
		}
		for k, v := range x.kinds {
			kinds[k] += v
		}
		for _, s := range x.samples {
			samples = append(samples, map[string]string{"scenario": x.s.Name, "workload": s})
		}
		rules = append(rules, x.s.Name+": "+x.s.Rule)
		per = append(per, map[string]any{"scenario": x.s.Name, "runs": x.runs, "planned": x.planned, "distinct_schedules": len(x.hashes),
			"yield_points": x.steps, "simulated_s": float64(x.sim) / 1e9, "endings": x.kinds})
		for _, r := range x.s.Real {
			real[r] = true
		}
		for _, r := range x.s.Stubs {
			stubs[r] = true
		}
	}
	keys := func(m map[string]bool) (o []string) {
		for k := range m {
			o = append(o, k)
		}
		sort.Strings(o)
		return
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": vs, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         runs,
			"distinct_nontrivial": distinct,
			"rule": "one evaluation is one simulated run (seeded workload, schedule and faults); a run counts as distinct by the hash of its whole " +
				"sequence of context switches (goroutine and code site), so two runs with equal hashes count once. " + strings.Join(rules, " | "),
			"samples":          samples,
			"scenarios":        per,
			"runs_per_hour":    float64(runs) / wallRuns * 3600,
			"seeds":            runs,
			"simulated_s":      float64(sim) / 1e9,
			"yield_points":     steps,
			"events":           faults,
			"endings":          kinds,
			"known_findings":   knownHit,
			"worker_processes": workers,
			"real_components":  keys(real),
			"stub_components":  keys(stubs),
		},
		"assumptions": []string{
			"schedules are sampled at statement granularity under sequential consistency; hardware reorderings are out of scope",
			"seeded search: absence of a violation is evidence, not proof",
		},
		"wall_s":     wall,
		"violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
