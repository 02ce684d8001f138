package main

import (
	"encoding/json"
	"fmt"
	"github.com/lesismal/arpc"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Op is one operation of an actor. Its meaning belongs to the property's
// scenario; D is a pause before it, in microseconds.
type Op struct {
	K                string `json:",omitempty"`
	A, B, C, E, F, G int    `json:",omitempty"`
	D                int    `json:",omitempty"`
}

// Sched configures the scheduler of a run.
type Sched struct {
	Mode      int // 0 random, 1 PCT, 2 targeted, 3 replay
	Seed      uint64
	Misc      uint64
	PreemptP  uint32
	SiteMask  uint32
	StallP    uint32
	StallMask uint32
	MaxStalls uint32
	ChangeAt  []uint64
	Overrides []uint64 // replay: k<<8|v
}

// Plan is one complete, self-contained simulated execution.
type Plan struct {
	Prop   string
	Seed   uint64
	Sched  Sched
	Net    NetCfg
	Knobs  map[string]int
	Actors [][]Op
	Faults []Fault
}

func (p *Plan) K(name string) int { return p.Knobs[name] }

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// Violation is an observed breach of the property.
type Violation struct {
	Class string // stable oracle label
	Msg   string
}

type faultState struct {
	Fault
	done bool
}

// Run is one executing plan.
type Run struct {
	Plan    *Plan
	Net     *Net
	V       *Violation
	faults  []faultState
	Fired   map[string]int // faults that actually took effect
	Counts  map[string]int // other coverage counters
	T0      time.Time
	Hash    uint64
	Verbose bool
	Log     []string
	nev     int
	stopped bool
	defMux  sync.Mutex // held while the default handler is set up
	Ops     int
	End     time.Duration
	known   map[string]bool
	soft    *Violation
}

func (r *Run) Now() time.Duration { return time.Since(r.T0) }

func (r *Run) fault(kind string) { r.Fired[kind]++; r.ev("fault:" + kind) }
func (r *Run) count(k string)    { r.Counts[k]++ }

// ev records an event of the history (hash always, text when verbose).
func (r *Run) ev(kind string, vs ...int) {
	h := hash64(r.Hash, hashStr(kind), uint64(r.Now()), uint64(runtime.VerifGID()))
	for _, v := range vs {
		h = mix64(h ^ uint64(v)*0x9e3779b97f4a7c15)
	}
	r.Hash = h
	r.nev++
	if r.Verbose && len(r.Log) < 20000 {
		r.Log = append(r.Log, fmt.Sprintf("%12v g%-3d %s %v", r.Now(), runtime.VerifGID(), kind, vs))
	}
}

// Fail records a violation (the first one wins).
func (r *Run) Fail(class, format string, args ...any) {
	if r.V != nil || r.stopped {
		return
	}
	r.V = &Violation{class, fmt.Sprintf(format, args...)}
	r.ev("VIOLATION " + r.V.Msg)
	if r.Verbose && os.Getenv("VSTACKS") != "" {
		os.WriteFile("/tmp/vstacks", []byte(stacks()), 0o644)
	}
}

// FailSoft records a violation that any other violation of the run hides.
func (r *Run) FailSoft(class, format string, args ...any) {
	if r.soft == nil && !r.stopped {
		r.soft = &Violation{class, fmt.Sprintf(format, args...)}
	}
}

// Prop is one property's scenario: a plan generator and an execution that
// checks the property.
type Prop struct {
	ID   string
	Gen  func(g *Rng, p *Plan)
	Exec func(r *Run)
	Rule string   // what makes a run non-trivial
	Real []string // components that ran real code
	Stub []string
	// NonTrivial decides from the run's counters; nil: some op completed
	NonTrivial func(r *Run) bool
	MaxSteps   uint64
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Result is what one run reports.
type Result struct {
	V          *Violation
	Stats      runtime.VerifStats
	Hash       uint64
	Sim        time.Duration
	Fired      map[string]int
	Counts     map[string]int
	Log        []string
	NonTrivial bool
	Record     []uint64
	Faulted    int
	Known      map[string]bool
}

// genPlan derives the plan of one seed.
func genPlan(pr *Prop, seed uint64) *Plan {
	g := NewRng(seed, hashStr(pr.ID))
	p := &Plan{Prop: pr.ID, Seed: seed, Knobs: map[string]int{}}
	p.Net = genNet(NewRng(seed, 2))
	p.Sched = genSched(NewRng(seed, 3))
	pr.Gen(g, p)
	return p
}

func genNet(g *Rng) NetCfg {
	var c NetCfg
	switch g.N(4) {
	case 0: // instant
	case 1:
		c.DelayMin, c.DelayMax = 50, 200
	case 2:
		c.DelayMin, c.DelayMax = 100, 5000
	case 3:
		c.DelayMin, c.DelayMax = 1000, 40000
	}
	if g.P(2) {
		c.Chunk = g.Pick(1, 3, 7, 16, 40, 200)
	}
	if g.P(4) {
		c.SendBuf = g.Pick(32, 64, 200, 1000, 4096)
	}
	c.RstClose = g.P(4)
	return c
}

func genSched(g *Rng) Sched {
	s := Sched{Seed: g.U64(), Misc: g.U64()}
	frac := func(d int) uint32 {
		if d <= 1 {
			return 1<<32 - 1
		}
		return uint32((uint64(1) << 32) / uint64(d))
	}
	switch g.N(10) {
	case 0, 1, 2, 3:
		s.Mode = 0
		s.PreemptP = frac(g.Pick(2, 4, 8, 16, 32, 64, 200))
	case 4, 5, 6:
		s.Mode = 1
		d := g.In(0, 6)
		horizon := g.Log(200, 20000)
		for i := 0; i < d; i++ {
			s.ChangeAt = append(s.ChangeAt, uint64(g.In(1, horizon)))
		}
	default:
		s.Mode = 2
		s.SiteMask = uint32(g.Pick(3, 7, 15, 31))
		s.PreemptP = frac(g.Pick(8, 32, 200, 1000))
	}
	if g.P(4) {
		s.StallMask = uint32(g.Pick(3, 15, 31, 63))
		s.StallP = frac(g.Pick(3, 10, 50, 300))
		s.MaxStalls = uint32(g.Pick(1, 2, 5, 20, 100))
	}
	return s
}

var recordBuf []uint64

// runPlan executes one plan. It must be called on the main goroutine of a
// GOMAXPROCS=1 process.
func runPlan(p *Plan, verbose, record bool) *Result {
	pr := props[p.Prop]
	r := &Run{Plan: p, Fired: map[string]int{}, Counts: map[string]int{}, Verbose: verbose, known: map[string]bool{}}
	arpc.SetHandler(arpc.NewHandler())
	for _, f := range p.Faults {
		r.faults = append(r.faults, faultState{Fault: f})
	}
	vp := &runtime.VerifParams{
		Seed: p.Sched.Seed, MiscSeed: p.Sched.Misc, Mode: uint32(p.Sched.Mode), PreemptP: p.Sched.PreemptP,
		SiteMask: p.Sched.SiteMask, StallP: p.Sched.StallP, StallMask: p.Sched.StallMask, MaxStalls: p.Sched.MaxStalls,
		MaxSteps: 4_000_000, Overrides: p.Sched.Overrides,
	}
	if pr.MaxSteps > 0 {
		vp.MaxSteps = pr.MaxSteps
	}
	copy(vp.ChangeAt[:], p.Sched.ChangeAt)
	if record {
		if recordBuf == nil {
			recordBuf = make([]uint64, 0, 1<<21)
		}
		vp.Record = recordBuf[:0]
	}
	var st runtime.VerifStats
	func() {
		defer func() {
			st = runtime.VerifStop()
			if e := recover(); e != nil {
				s := fmt.Sprint(e)
				switch {
				case strings.Contains(s, "main bubble goroutine has exited"):
					// goroutines left behind; leak oracles look at this themselves
				case strings.Contains(s, "all goroutines in bubble are blocked"):
					if r.V == nil {
						r.V = &Violation{"deadlock", "every goroutine is blocked and no timer is pending"}
						if verbose {
							r.Log = append(r.Log, stacks())
						}
					}
				default:
					panic(e)
				}
			}
		}()
		runtime.VerifStart(vp)
		runtime.VerifRun(func() {
			r.T0 = time.Now()
			r.Net = newNet(r, p.Net)
			net.VerifListen = r.Net.hookListen
			net.VerifDial = func(network, addr string) (net.Conn, error) { return nil, errRefused }
			r.startFaults()
			pr.Exec(r)
			r.stopped = true
			r.End = r.Now()
		})
	}()
	if r.V == nil {
		r.V = r.soft
	}
	if r.End == 0 && !r.stopped {
		r.End = 1
	}
	res := &Result{V: r.V, Stats: st, Hash: hash64(r.Hash, st.Hash, st.Steps), Sim: r.End, Fired: r.Fired, Counts: r.Counts, Log: r.Log, Known: r.known}
	for _, n := range r.Fired {
		res.Faulted += n
	}
	if pr.NonTrivial != nil {
		res.NonTrivial = pr.NonTrivial(r)
	} else {
		res.NonTrivial = r.Ops > 0
	}
	if record {
		res.Record = append([]uint64(nil), recordBuf[:st.NRecord]...)
	}
	return res
}

func stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

// startFaults schedules the time-triggered faults.
func (r *Run) startFaults() {
	for i := range r.faults {
		f := &r.faults[i]
		switch f.Kind {
		case "cut", "partwrite":
			continue
		}
		if !netFault[f.Kind] {
			continue
		}
		time.AfterFunc(time.Duration(f.At)*time.Microsecond, func() {
			if !r.stopped && !f.done {
				f.done = true
				r.Net.applyTimed(&f.Fault)
			}
		})
	}
}

// quell disables every fault that has not fired and heals the network.
func (r *Run) quell() {
	for i := range r.faults {
		r.faults[i].done = true
	}
	r.Net.heal()
}

var netFault = map[string]bool{"reset": true, "hold": true, "slowread": true, "partition": true, "dialfail": true, "slowdial": true, "accepterr": true, "healall": true}

// actors runs every actor's ops concurrently and waits for them, at most
// limit of simulated time; it reports whether all finished.
func (r *Run) actors(limit time.Duration, do func(actor, i int, op Op)) bool {
	return r.runActors(r.Plan.Actors, limit, do)
}

func (r *Run) runActors(as [][]Op, limit time.Duration, do func(actor, i int, op Op)) bool {
	done := make(chan int, len(as))
	for a := range as {
		a := a
		go func() {
			for i, op := range as[a] {
				if op.D > 0 {
					time.Sleep(time.Duration(op.D) * time.Microsecond)
				}
				runtime.VerifYield(siteActor)
				do(a, i, op)
				r.Ops++
			}
			done <- a
		}()
	}
	t := time.NewTimer(limit)
	defer t.Stop()
	for range as {
		select {
		case <-done:
		case <-t.C:
			return false
		}
	}
	return true
}

// within runs f in a goroutine and reports whether it returned in d.
func within(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

// until polls cond every step of simulated time until it holds or d passes.
func until(d, step time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(step)
	}
}

func gcSetup() {
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fatalf(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(2)
}
