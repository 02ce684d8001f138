package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"time"
)

// WStat is what a worker reports for a batch of runs.
type WStat struct {
	Runs, NonTrivial, Faulted int
	Steps, Switches, Preempts uint64
	Stalls                    uint64
	SimNs                     int64
	Ops                       int
	Fired, Counts             map[string]int
	Hashes                    []uint64 // interleaving hashes of this batch
	Modes                     [4]int
	Known                     map[string]int
	Next                      int
	Sample                    *Plan
}

// RunOut is the outcome of one plan, as exchanged between processes.
type RunOut struct {
	Idx        int
	Seed       uint64
	V          *Violation
	Hash       uint64
	Steps      uint64
	Record     []uint64 `json:",omitempty"`
	Log        []string `json:",omitempty"`
	NonTrivial bool
	Sim        time.Duration
	Stats      runtime.VerifStats
	Fired      map[string]int
}

func runSeed(base uint64, prop string, idx int) uint64 {
	return hash64(base, hashStr(prop), uint64(idx))
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	start := fs.Int("start", 0, "")
	stride := fs.Int("stride", 1, "")
	secs := fs.Float64("secs", 10, "")
	maxRuns := fs.Int("max", 1<<30, "")
	hashes := fs.Bool("hashes", false, "print the history hash of every run")
	known := fs.String("known", "", "known findings file")
	fs.Parse(args)
	gcSetup()
	pr := props[*prop]
	if pr == nil {
		fatalf("no property %s", *prop)
	}
	kf := loadKnown(*known)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	warm(pr)
	t0 := time.Now()
	st := &WStat{Fired: map[string]int{}, Counts: map[string]int{}, Known: map[string]int{}}
	flush := func(next int) {
		st.Next = next
		b, _ := json.Marshal(st)
		fmt.Fprintf(out, "W %s\n", b)
		out.Flush()
		st = &WStat{Fired: map[string]int{}, Counts: map[string]int{}, Known: map[string]int{}}
	}
	lastFlush := time.Now()
	idx := *start
	for n := 0; n < *maxRuns; n++ {
		if time.Since(t0).Seconds() > *secs {
			break
		}
		seed := runSeed(*base, *prop, idx)
		fmt.Fprintf(out, "S %d\n", idx)
		out.Flush()
		p := genPlan(pr, seed)
		res := runPlan(p, false, false)
		st.Runs++
		if st.Sample == nil && res.NonTrivial && (n == 0 || res.Faulted > 0) {
			st.Sample = p
		}
		st.Modes[p.Sched.Mode]++
		st.Steps += res.Stats.Steps
		st.Switches += res.Stats.Switches
		st.Preempts += res.Stats.Preempts
		st.Stalls += res.Stats.Stalls
		st.SimNs += int64(res.Sim)
		if res.NonTrivial {
			st.NonTrivial++
			st.Hashes = append(st.Hashes, res.Stats.Hash)
		}
		if res.Faulted > 0 {
			st.Faulted++
		}
		for k, v := range res.Fired {
			st.Fired[k] += v
		}
		for k, v := range res.Counts {
			st.Counts[k] += v
		}
		if *hashes {
			c := ""
			if res.V != nil {
				c = res.V.Class
			}
			fmt.Fprintf(out, "H %d %x %x %d %s\n", idx, res.Hash, res.Stats.Hash, res.Stats.Steps, c)
		}
		if res.V != nil {
			if k := kf.match(*prop, res.V); k != "" {
				st.Known[k]++
			} else {
				if !*hashes {
					flush(idx + *stride)
				}
				b, _ := json.Marshal(&RunOut{Idx: idx, Seed: seed, V: res.V, Hash: res.Hash, Steps: res.Stats.Steps})
				fmt.Fprintf(out, "V %s\n", b)
				out.Flush()
			}
		}
		idx += *stride
		if n%4 == 3 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 300<<20 {
				runtime.GC()
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 250<<20 || runtime.NumGoroutine() > 20000 {
					flush(idx)
					fmt.Fprintf(out, "R\n")
					return
				}
			}
		}
		if time.Since(lastFlush) > 2*time.Second {
			flush(idx)
			lastFlush = time.Now()
		}
	}
	flush(idx)
}

// warm runs a few fixed plans so that process-wide lazily initialised state
// (reflection and codec caches) is the same for every later run.
func warm(pr *Prop) {
	n := 3
	if pr.ID == "C28" {
		n = 40 // its scenarios are many
	}
	for i := 0; i < n; i++ {
		p := genPlan(pr, uint64(i+1))
		p.Faults = nil
		p.Sched = Sched{Mode: 3}
		runPlan(p, false, false)
	}
}

// loopMain: read plans on stdin, run them, write outcomes on stdout.
func oneMain(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	fs.Parse(args)
	gcSetup()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	warmed := map[string]bool{}
	for n := 0; ; n++ {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req struct {
			Plan            *Plan
			Verbose, Record bool
		}
		if err := json.Unmarshal(line, &req); err != nil {
			fatalf("one: %v", err)
		}
		pr := props[req.Plan.Prop]
		if !warmed[pr.ID] {
			warmed[pr.ID] = true
			warm(pr)
		}
		res := runPlan(req.Plan, req.Verbose, req.Record)
		b, _ := json.Marshal(&RunOut{Seed: req.Plan.Seed, V: res.V, Hash: res.Hash, Steps: res.Stats.Steps, Record: res.Record, Log: res.Log, NonTrivial: res.NonTrivial, Sim: res.Sim, Stats: res.Stats, Fired: res.Fired})
		os.Stdout.Write(append(b, '\n'))
		if n%20 == 19 {
			runtime.GC()
		}
	}
}
