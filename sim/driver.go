package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var workerEnv = []string{"ETCD_CLIENT_DEBUG=fatal", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all"}

func selfCmd(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), workerEnv...)
	return c
}

// ---- known findings ----

type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
	re       *regexp.Regexp
}

type knownSet []*Known

func loadKnown(path string) knownSet {
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Known []*Known `json:"known"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatalf("known findings: %v", err)
	}
	for _, k := range f.Known {
		k.re = regexp.MustCompile(k.Match)
	}
	return f.Known
}

func (s knownSet) match(prop string, v *Violation) string {
	for _, k := range s {
		if k.Property == prop && k.Class == v.Class && k.re.MatchString(v.Msg) {
			return k.What
		}
	}
	return ""
}

// ---- a subprocess that runs single plans ----

type runner struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func (r *runner) start() {
	r.cmd = selfCmd("one")
	r.in, _ = r.cmd.StdinPipe()
	o, _ := r.cmd.StdoutPipe()
	r.out = bufio.NewReaderSize(o, 1<<20)
	r.err = &bytes.Buffer{}
	r.cmd.Stderr = r.err
	if err := r.cmd.Start(); err != nil {
		fatalf("runner: %v", err)
	}
}

func (r *runner) stop() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func (r *runner) run(p *Plan, verbose, record bool) *RunOut {
	if r.cmd == nil {
		r.start()
	}
	b, _ := json.Marshal(map[string]any{"Plan": p, "Verbose": verbose, "Record": record})
	r.in.Write(append(b, '\n'))
	cmd := r.cmd
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	line, err := r.out.ReadBytes('\n')
	if !timer.Stop() {
		r.cmd.Wait()
		r.cmd = nil
		return &RunOut{V: &Violation{"stuck", "the simulated process made no progress for 60 s of real time"}}
	}
	if err != nil {
		werr := r.cmd.Wait()
		v := crashViolation(werr, r.err.String())
		r.cmd = nil
		return &RunOut{Seed: p.Seed, V: v}
	}
	var o RunOut
	if err := json.Unmarshal(line, &o); err != nil {
		fatalf("runner: %v: %s", err, clip(string(line)))
	}
	return &o
}

func crashViolation(err error, stderr string) *Violation {
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 97 {
			return &Violation{"livelock", "the run exceeded its step budget without finishing"}
		}
		if ee.ExitCode() == 2 || strings.Contains(stderr, "goroutine ") {
			line := "?"
			for _, l := range strings.Split(stderr, "\n") {
				if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
					line = l
					break
				}
			}
			if line != "?" {
				return &Violation{"crash", "process crashed: " + line + "\n" + clipN(stderr, 3000)}
			}
		}
	}
	return &Violation{"harness-error", fmt.Sprintf("%v: %s", err, clipN(stderr, 2000))}
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- replay files ----

type Replay struct {
	Property  string
	Class     string
	Msg       string
	FoundSeed uint64
	Hash      uint64
	Steps     uint64
	Minimised string
	Plan      *Plan
	Switches  []string `json:",omitempty"`
	Log       []string
}

func replayMain(args []string) {
	if len(args) < 1 {
		fatalf("usage: sim replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatalf("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatalf("%v", err)
	}
	r := &runner{}
	defer r.stop()
	o := r.run(rp.Plan, true, false)
	for _, l := range o.Log {
		fmt.Println(l)
	}
	if o.V == nil {
		fmt.Println("replay: no violation")
		r.stop()
		os.Exit(3)
	}
	fmt.Printf("replay: %s: %s\n", o.V.Class, o.V.Msg)
	if o.V.Class != rp.Class || (rp.Hash != 0 && o.Hash != rp.Hash) {
		fmt.Printf("replay: differs from the recorded violation (class %s hash %x, recorded %s %x)\n", o.V.Class, o.Hash, rp.Class, rp.Hash)
		r.stop()
		os.Exit(3)
	}
	fmt.Printf("replay: reproduced exactly (history hash %x, %d steps)\n", o.Hash, o.Steps)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
	r.stop()
	os.Exit(1)
}

// ---- the check ----

type workerOut struct {
	w    int
	line string
	done bool
	err  error
	serr string
	last int
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	secs := fs.Float64("secs", 0, "")
	workers := fs.Int("workers", 8, "")
	evdir := fs.String("evidence", "/verif/evidence", "")
	rpdir := fs.String("replays", "/verif/replays", "")
	known := fs.String("known", "/verif/known_findings.json", "")
	buildS := fs.Float64("builds", 0, "")
	nomin := fs.Bool("nomin", false, "")
	fs.Parse(args)
	pr := props[*prop]
	if pr == nil {
		fatalf("no property %s", *prop)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 63); err == nil {
			seed = v
		}
	}
	if *secs == 0 {
		*secs = 30
		if *tier == "thorough" {
			*secs = 900
		}
	}
	t0 := time.Now()
	kf := loadKnown(*known)

	out := make(chan workerOut, 1024)
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	stopping := false
	deadline := t0.Add(time.Duration(*secs * float64(time.Second)))
	spawn := func(w, start int) {
		left := time.Until(deadline).Seconds()
		cmd := selfCmd("worker", "-prop", *prop, "-base", fmt.Sprint(seed), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(*workers), "-secs", fmt.Sprint(left), "-known", *known)
		o, _ := cmd.StdoutPipe()
		var eb bytes.Buffer
		cmd.Stderr = &eb
		if err := cmd.Start(); err != nil {
			fatalf("worker: %v", err)
		}
		mu.Lock()
		procs[w] = cmd
		mu.Unlock()
		go func() {
			last := start
			sc := bufio.NewScanner(o)
			sc.Buffer(make([]byte, 1<<20), 64<<20)
			wd := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
			for sc.Scan() {
				wd.Reset(120 * time.Second)
				l := sc.Text()
				if strings.HasPrefix(l, "S ") {
					last, _ = strconv.Atoi(l[2:])
					continue
				}
				out <- workerOut{w: w, line: l}
			}
			wd.Stop()
			err := cmd.Wait()
			out <- workerOut{w: w, done: true, err: err, serr: eb.String(), last: last}
		}()
	}
	for w := 0; w < *workers; w++ {
		spawn(w, w)
	}
	killAll := func() {
		mu.Lock()
		stopping = true
		for _, c := range procs {
			c.Process.Kill()
		}
		mu.Unlock()
	}

	agg := &WStat{Fired: map[string]int{}, Counts: map[string]int{}, Known: map[string]int{}}
	distinct := map[uint64]bool{}
	var samples []*Plan
	var viol []*RunOut
	live := *workers
	restart := map[int]int{}
	crashes := 0
	for live > 0 {
		o := <-out
		if !o.done {
			switch {
			case strings.HasPrefix(o.line, "W "):
				var s WStat
				if json.Unmarshal([]byte(o.line[2:]), &s) == nil {
					addStat(agg, &s)
					for _, h := range s.Hashes {
						distinct[h] = true
					}
					if s.Sample != nil && len(samples) < 3 {
						samples = append(samples, s.Sample)
					}
					restart[o.w] = s.Next
				}
			case strings.HasPrefix(o.line, "V "):
				var v RunOut
				if json.Unmarshal([]byte(o.line[2:]), &v) == nil {
					viol = append(viol, &v)
					if !stopping {
						killAll()
					}
				}
			case o.line == "R":
				restart[o.w] = -restart[o.w] - 1
			}
			continue
		}
		if stopping {
			live--
			continue
		}
		if o.err != nil {
			v := crashViolation(o.err, o.serr)
			crashes++
			viol = append(viol, &RunOut{Idx: o.last, Seed: runSeed(seed, *prop, o.last), V: v})
			killAll()
			live--
			continue
		}
		if n := restart[o.w]; n < 0 && time.Now().Before(deadline) {
			restart[o.w] = -n - 1
			spawn(o.w, -n-1)
			continue
		}
		live--
	}
	searchS := time.Since(t0).Seconds()

	var replayPath string
	nviol := 0
	exit := 0
	if len(viol) > 0 {
		sort.Slice(viol, func(i, j int) bool { return viol[i].Idx < viol[j].Idx })
		for _, v := range viol {
			rp, status := confirm(pr, v, kf, *nomin)
			if status == "known" {
				agg.Known[kf.match(pr.ID, v.V)]++
				continue
			}
			if rp == nil {
				fmt.Fprintf(os.Stderr, "check error: violation of run %d (seed %d, %s: %s) did not reproduce in a fresh process: %s\n", v.Idx, v.Seed, v.V.Class, v.V.Msg, status)
				exit = 2
				continue
			}
			nviol++
			os.MkdirAll(*rpdir, 0o755)
			replayPath = filepath.Join(*rpdir, fmt.Sprintf("%s-%d.json", pr.ID, v.Seed))
			b, _ := json.MarshalIndent(rp, "", " ")
			os.WriteFile(replayPath, b, 0o644)
			fmt.Printf("violation: %s: %s\n", rp.Class, clipN(rp.Msg, 4000))
			fmt.Printf("found at seed %d after %d runs; %s\n", v.Seed, agg.Runs, rp.Minimised)
			exit = 1
			break
		}
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(pr, *tier, seed, *evdir, agg, distinct, samples, nviol, searchS, wall, *buildS)
	for _, k := range kf {
		if k.Property == pr.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", pr.ID, k.What, agg.Known[k.What])
		}
	}
	fmt.Printf("%s %s: %d runs (%d non-trivial, %d distinct interleavings, %d with faults), %d steps, %.0f s simulated, %.1f s, %.0f runs/h\n", pr.ID, *tier, agg.Runs, agg.NonTrivial, len(distinct), agg.Faulted, agg.Steps, float64(agg.SimNs)/1e9, searchS, float64(agg.Runs)/searchS*3600)
	if exit == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, replayPath)
	}
	os.Exit(exit)
}

func addStat(a, s *WStat) {
	a.Runs += s.Runs
	a.NonTrivial += s.NonTrivial
	a.Faulted += s.Faulted
	a.Steps += s.Steps
	a.Switches += s.Switches
	a.Preempts += s.Preempts
	a.Stalls += s.Stalls
	a.SimNs += s.SimNs
	for i := range a.Modes {
		a.Modes[i] += s.Modes[i]
	}
	for k, v := range s.Fired {
		a.Fired[k] += v
	}
	for k, v := range s.Counts {
		a.Counts[k] += v
	}
	for k, v := range s.Known {
		a.Known[k] += v
	}
}

func writeEvidence(pr *Prop, tier string, seed uint64, dir string, a *WStat, distinct map[uint64]bool, samples []*Plan, nviol int, searchS, wall, buildS float64) {
	os.MkdirAll(dir, 0o755)
	real := append([]string{"/repo: every package the scenario imports, compiled from the working tree with a yield before each statement", "Go runtime scheduler, channels, select, mutexes, timers (pick order, clock and randomness under the simulator)"}, pr.Real...)
	stub := append([]string{"network: in-process byte-stream links behind net.Conn/net.Listener/Dialer", "clock: virtual (testing/synctest bubble)", "sync.Pool: deterministic LIFO"}, pr.Stub...)
	cov := map[string]any{
		"evaluations":         a.Runs,
		"distinct_nontrivial": len(distinct),
		"rule":                "one evaluation is one seeded simulated execution; " + pr.Rule + "; distinct by the hash of its sequence of (goroutine, last yield site) context switches",
		"samples":             samples,
		"nontrivial_runs":     a.NonTrivial,
		"runs_with_faults":    a.Faulted,
		"runs_per_hour":       int(float64(a.Runs) / searchS * 3600),
		"simulated_seconds":   float64(a.SimNs) / 1e9,
		"steps":               a.Steps,
		"context_switches":    a.Switches,
		"preemptions":         a.Preempts,
		"faults_injected":     a.Fired,
		"thread_stalls":       a.Stalls,
		"other_counters":      a.Counts,
		"scheduler_modes":     map[string]int{"random": a.Modes[0], "pct": a.Modes[1], "targeted": a.Modes[2]},
		"known_finding_runs":  a.Known,
		"real_components":     real,
		"stub_components":     stub,
		"build_s":             buildS,
	}
	ev := map[string]any{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall + buildS, "violations": nviol,
		"assumptions": []string{
			"preemption only at yield points (before each statement of arpc code, inside split read-modify-write statements, and at network operations)",
			"one OS thread runs simulated code at a time: no weak-memory effects",
			"the simulated links keep TCP's contract: in-order bytes, serialised writes",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, pr.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("evidence: %v", err)
	}
}

// ---- confirmation and minimisation ----

func confirm(pr *Prop, v *RunOut, kf knownSet, nomin bool) (*Replay, string) {
	r := &runner{}
	defer r.stop()
	orig := genPlan(pr, v.Seed)
	o := r.run(orig, false, false)
	if o.V == nil {
		return nil, "no violation"
	}
	if kf.match(pr.ID, o.V) != "" {
		return nil, "known"
	}
	if o.V.Class == "harness-error" {
		return nil, o.V.Msg
	}
	class := o.V.Class
	deadline := time.Now().Add(40 * time.Second)
	if nomin {
		deadline = time.Now()
	}
	same := func(x *RunOut) bool { return x.V != nil && x.V.Class == class && kf.match(pr.ID, x.V) == "" }
	best := orig
	tries := 0
	attempt := func(q *Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		n := 12
		for i := 0; i < n && time.Now().Before(deadline); i++ {
			c := q.clone()
			if i > 0 {
				s := genSched(NewRng(q.Seed, 99, uint64(i)))
				if q.Sched.StallP == 0 {
					s.StallP = 0
				}
				c.Sched = s
			}
			tries++
			if same(r.run(c, false, false)) {
				best = c
				return true
			}
		}
		return false
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for a := len(best.Actors) - 1; a >= 0; a-- {
			if a >= len(best.Actors) {
				continue
			}
			for sz := len(best.Actors[a]); sz >= 1; sz /= 2 {
				for i := 0; i+sz <= len(best.Actors[a]); {
					q := best.clone()
					q.Actors[a] = append(append([]Op{}, q.Actors[a][:i]...), q.Actors[a][i+sz:]...)
					if attempt(q) {
						changed = true
					} else {
						i += sz
					}
					if time.Now().After(deadline) {
						break
					}
				}
			}
		}
		for i := len(best.Faults) - 1; i >= 0; i-- {
			q := best.clone()
			q.Faults = append(append([]Fault{}, q.Faults[:i]...), q.Faults[i+1:]...)
			if attempt(q) {
				changed = true
			}
		}
		for _, k := range sortedKeys(best.Knobs) {
			if strings.HasPrefix(k, "_") {
				continue
			}
			q := best.clone()
			delete(q.Knobs, k)
			if attempt(q) {
				changed = true
			}
		}
		for _, f := range []func(*NetCfg){func(n *NetCfg) { n.Chunk = 0 }, func(n *NetCfg) { n.SendBuf = 0 }, func(n *NetCfg) { n.RstClose = false }, func(n *NetCfg) { n.DelayMin, n.DelayMax = 0, 0 }} {
			q := best.clone()
			f(&q.Net)
			if q.Net != best.Net && attempt(q) {
				changed = true
			}
		}
		if best.Sched.StallP != 0 {
			q := best.clone()
			q.Sched.StallP = 0
			if attempt(q) {
				changed = true
			}
		}
	}
	// explicit schedule
	rec := r.run(best, false, true)
	nsched := -1
	if same(rec) && len(rec.Record) < 1<<20 && len(rec.Record) > 0 {
		q := best.clone()
		q.Sched.Mode = 3
		q.Sched.Overrides = rec.Record // StallP stays: the oracles ask for it
		if same(r.run(q, false, false)) {
			q = ddminSched(r, q, same, deadline.Add(10*time.Second))
			best = q
			nsched = len(q.Sched.Overrides)
		}
	}
	// the replay must reproduce exactly, twice, in fresh processes
	r.stop()
	f1 := r.run(best, true, false)
	r.stop()
	f2 := r.run(best, true, false)
	if !same(f1) || !same(f2) || f1.Hash != f2.Hash {
		best = orig
		nsched = -1
		r.stop()
		f1 = r.run(best, true, false)
		r.stop()
		f2 = r.run(best, true, false)
		if !same(f1) || f1.Hash != f2.Hash {
			return nil, "not reproducible in fresh processes"
		}
	}
	nops := 0
	for _, a := range best.Actors {
		nops += len(a)
	}
	log := f1.Log
	if len(log) > 4000 {
		log = log[len(log)-4000:]
	}
	rp := &Replay{Property: pr.ID, Class: class, Msg: f1.V.Msg, FoundSeed: v.Seed, Hash: f1.Hash, Steps: f1.Steps, Plan: best, Log: log}
	rp.Minimised = fmt.Sprintf("minimised to %d ops, %d faults, %d non-default scheduling decisions (-1: seeded scheduler) in %d tries", nops, len(best.Faults), nsched, tries)
	return rp, "ok"
}

func ddminSched(r *runner, p *Plan, same func(*RunOut) bool, deadline time.Time) *Plan {
	cur := p.Sched.Overrides
	with := func(o []uint64) *Plan {
		q := p.clone()
		q.Sched.Overrides = o
		return q
	}
	if same(r.run(with(nil), false, false)) {
		return with(nil)
	}
	n := 2
	for len(cur) >= 2 && time.Now().Before(deadline) {
		sz := (len(cur) + n - 1) / n
		reduced := false
		for i := 0; i < len(cur) && time.Now().Before(deadline); i += sz {
			end := min(i+sz, len(cur))
			c := append(append([]uint64{}, cur[:i]...), cur[end:]...)
			if same(r.run(with(c), false, false)) {
				cur = c
				n = max(n-1, 2)
				reduced = true
				break
			}
		}
		if !reduced {
			if n >= len(cur) {
				break
			}
			n = min(n*2, len(cur))
		}
	}
	return with(cur)
}

// ---- determinism self-test ----

func selftestMain(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	prop := fs.String("prop", "", "comma separated; empty: all")
	n := fs.Int("n", 100, "")
	base := fs.Uint64("base", 7, "")
	fs.Parse(args)
	ids := strings.Split(*prop, ",")
	if *prop == "" {
		ids = sortedKeys(props)
	}
	bad := 0
	for _, id := range ids {
		get := func(start, stride, count int) map[int]string {
			m := map[int]string{}
			b, err := selfCmd("worker", "-prop", id, "-base", fmt.Sprint(*base), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(stride), "-max", fmt.Sprint(count), "-secs", "600", "-hashes").Output()
			if err != nil {
				fmt.Println(id, "worker:", err)
			}
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "H ") {
					f := strings.SplitN(l, " ", 3)
					i, _ := strconv.Atoi(f[1])
					m[i] = f[2]
				}
			}
			return m
		}
		a := get(0, 1, *n)
		diff := 0
		seen := 0
		for k := 0; k < 4; k++ {
			for i, h := range get(k, 4, (*n+3)/4) {
				if x, ok := a[i]; ok {
					seen++
					if x != h {
						diff++
						if diff < 4 {
							fmt.Println(id, "run", i, "differs:", x, "vs", h)
						}
					}
				}
			}
		}
		fmt.Printf("%s: %d runs compared across processes, %d differ\n", id, seen, diff)
		bad += diff
	}
	if bad > 0 {
		os.Exit(1)
	}
}
