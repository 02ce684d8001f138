package main

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
)

// ---------------------------------------------------------------- C29

func init() {
	register(&Prop{ID: "C29", Rule: "non-trivial when operations ended in every round", Gen: genC29, Exec: execC29,
		NonTrivial: func(r *Run) bool { return r.Counts["rounds"] >= leakRounds }})
}

const leakRounds = 5

// weigh counts what is reachable from v within values of arpc's types: objects,
// table entries, queued and listed elements.
func weigh(roots ...interface{}) int {
	n := 0
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	ours := func(t reflect.Type) bool {
		return t.PkgPath() == "" || strings.HasPrefix(t.PkgPath(), "github.com/lesismal/arpc")
	}
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || !ours(v.Type().Elem()) || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			n++
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			if !ours(v.Type()) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			n += v.Len()
			for it := v.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.Chan:
			if !v.IsNil() {
				n += v.Len()
			}
		case reflect.Slice, reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Uint8, reflect.Int, reflect.Uint64, reflect.String, reflect.Func:
				return
			}
			n += v.Len()
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	for _, r := range roots {
		walk(reflect.ValueOf(r))
	}
	return n
}

func genC29(g *Rng, p *Plan) {
	noStalls(p)
	p.Knobs["ps"] = 0
	p.Net.SendBuf = 0
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "clone", "coder", "nil")
	if g.P(4) {
		genLeakPS(g, p)
		return
	}
	genOps(g, p, opGen{
		kinds:   []string{"call", "call", "cctx", "cancel", "async", "async", "notify", "nctx", "push0", "scall", "scctx", "sasync", "snotify", "stream", "stream", "sstream", "churn", "reset", "bcast", "late"},
		methods: []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, actors: 4, ops: 5, clients: nc,
		maxGap: 30000, tmin: 100, tmax: 1_000_000, slow: g.Pick(0, 100, 3000, 300_000), size: g.Pick(20, 300)})
	huge := g.P(2)
	resets := g.P(3)
	for a := range p.Actors {
		for i := range p.Actors[a] {
			op := &p.Actors[a][i]
			if op.K == "reset" && !resets {
				op.K = "call"
			}
			if huge && g.P(2) {
				op.E = 3600_000_000 // an hour: nothing may wait for it once the call is answered
				if op.B == 6 {
					op.B = 1 // not one that is never answered
				}
				if op.K == "cancel" || op.K == "sasync" && resets {
					op.E = 1_000_000
				}
			}
		}
	}
}

func genLeakPS(g *Rng, p *Plan) {
	p.Knobs["ps"] = 1
	for a := g.In(1, 3); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 5); k > 0; k-- {
			ops = append(ops, Op{K: g.PickS("sub", "sub", "unsub", "pub", "pub", "spub", "reset", "churn", "rush", "reauth"), A: g.N(p.Knobs["_clients"]), B: g.N(3), C: g.Log(1, 300), D: g.Log(1, 3000)})
		}
		p.Actors = append(p.Actors, ops)
	}
}

func execC29(r *Run) {
	if r.Plan.K("ps") == 1 {
		execLeakPS(r)
		return
	}
	w := newRPCWorld(r, r.Plan.K("_clients"))
	w.tune = func(h arpc.Handler, server bool) {
		h.HandleStream("st", func(s *arpc.Stream) {
			quiet := false // does not close its side
			for k := 0; ; k++ {
				var v string
				if err := s.Recv(&v); err != nil {
					if err == io.EOF && !quiet {
						s.CloseSend()
					}
					return
				}
				quiet = quiet || v == "quiet"
				if s.Send(v) != nil {
					return
				}
			}
		}, true)
	}
	if !w.start() {
		w.stop()
		return
	}
	stream := func(c *arpc.Client, op Op) {
		s := c.NewStream("st")
		if op.F%3 == 2 && op.C%2 == 0 && s.Send("quiet") != nil {
			return
		}
		for k := 0; k < op.C%4; k++ {
			if s.Send(fill(k, 5+op.C%90)) != nil {
				break
			}
		}
		switch op.F % 3 {
		case 0:
			s.CloseSend()
		case 1:
			s.SendAndClose("bye")
		case 2: // not interested in the answers
			if op.C>>2&1 == 0 {
				s.CloseSend()
			} else {
				s.SendAndClose("bye")
			}
			s.CloseRecv()
			return
		}
		for {
			var v string
			if s.Recv(&v) != nil {
				return
			}
		}
	}
	round := 0
	roots := func() []interface{} {
		out := []interface{}{w.srv}
		for _, c := range w.clis {
			out = append(out, c)
		}
		return out
	}
	r.leakRounds(roots, func() bool {
		round++
		from := len(w.calls)
		ok := r.actors(w.limit, func(a, i int, op Op) {
			switch op.K {
			case "stream":
				stream(w.clis[op.A%len(w.clis)], op)
			case "sstream":
				if c := w.slast[op.A%len(w.clis)]; c != nil {
					stream(c, op)
				}
			case "churn":
				h := r.newHandler()
				c, err := arpc.NewClient(r.Net.Dialer("s0", "c9"), h)
				if err != nil {
					return
				}
				if op.F%2 == 0 {
					w.tryCall(c, 900000+round*1000+a*100+i, "echo.a", true, time.Second)
				}
				if op.F%3 == 0 {
					c.NewStream("st").Send("x")
				}
				c.Stop()
			case "late": // answered after it has timed out
				id := 950000 + round*1000 + a*100 + i
				w.byID[id] = &callRec{id: id, method: "slow.a", toServer: true}
				w.clis[op.A%len(w.clis)].Call("slow.a", mkPay("Q", id, 20_000, 0), nil, 10*time.Millisecond)
			case "reset":
				r.fault("reset")
				for _, l := range r.Net.links {
					l.reset(errReset)
				}
			case "bcast":
				id := 980000 + round*1000 + a*100 + i
				w.byID[id] = &callRec{id: id, method: "echo.a"}
				w.srv.Broadcast("echo.a", mkPay("Q", id, 0, op.C))
			default:
				w.issue(a+50*round, i, op)
			}
		})
		if !ok {
			return false
		}
		// all callbacks have come, all clients are connected
		return until(10*time.Minute, 100*time.Millisecond, func() bool {
			for _, cr := range w.calls[from:] {
				if !cr.done || isAsyncOp(cr.kind) && cr.err == nil && len(cr.cbs) == 0 {
					return false
				}
			}
			for _, c := range w.clis {
				if c.CheckState() != nil {
					return false
				}
			}
			return true
		})
	})
	w.stop()
	time.Sleep(3 * time.Second)
}

// leakRounds does the same work again and again: what is held after it must not grow.
func (r *Run) leakRounds(roots func() []interface{}, work func() bool) {
	var held, gor, tim [leakRounds]int
	for k := 0; k < leakRounds; k++ {
		if !work() {
			r.count("unfinished") // other properties tell why
			return
		}
		time.Sleep(3 * time.Second)
		held[k], gor[k], tim[k] = weigh(roots()...), runtime.VerifBubbleTotal(), runtime.VerifBubbleTimers()
		r.ev("held", held[k], gor[k], tim[k])
		r.count("rounds")
	}
	for _, c := range []struct {
		what string
		n    [leakRounds]int
	}{{"table entries and objects", held}, {"goroutines", gor}, {"pending timers", tim}} {
		steps := 0
		for k := 1; k < leakRounds; k++ {
			if c.n[k] > c.n[k-1] {
				steps++
			}
		}
		if steps >= leakRounds-2 && c.n[leakRounds-1]-c.n[0] >= leakRounds-1 {
			r.Fail("leak", "the same work was done %d times; when it was finished there were %v %s", leakRounds, c.n, c.what)
		}
	}
}

func execLeakPS(r *Run) {
	s := pubsub.NewServer()
	r.setupHandler(s.Handler)
	s.Password = "pw"
	ln := r.Net.Listen("s0")
	go s.Serve(ln)
	dial := func(tag string) *pubsub.Client {
		h := r.newHandler()
		for i := 0; i < 100; i++ {
			c, err := pubsub.NewClient(r.Net.Dialer("s0", tag), h)
			if err == nil {
				c.Password = "pw"
				for k := 0; k < 20 && c.Authenticate() != nil; k++ {
					time.Sleep(100 * time.Millisecond)
				}
				return c
			}
			time.Sleep(100 * time.Millisecond)
		}
		return nil
	}
	var clis []*pubsub.Client
	for i := 0; i < r.Plan.K("_clients"); i++ {
		c := dial(fmt.Sprintf("c%d", i))
		if c == nil {
			return
		}
		clis = append(clis, c)
	}
	topics := []string{"x", "yy", "zzz"}
	roots := func() []interface{} {
		out := []interface{}{s}
		for _, c := range clis {
			out = append(out, c)
		}
		return out
	}
	hd := func(*pubsub.Topic) { r.count("got") }
	r.leakRounds(roots, func() bool {
		ok := r.actors(10*time.Minute, func(a, i int, op Op) {
			c := clis[op.A%len(clis)]
			tp := topics[op.B%len(topics)]
			switch op.K {
			case "sub":
				c.Subscribe(tp, hd, time.Second)
			case "unsub":
				c.Unsubscribe(tp, time.Second)
			case "pub":
				c.Publish(tp, fill(op.C, op.C), time.Second)
			case "spub":
				s.Publish(tp, fill(op.C, op.C))
			case "reauth":
				c.Authenticate()
			case "reset":
				r.fault("reset")
				for _, l := range r.Net.links {
					l.reset(errReset)
				}
			case "rush":
				// the connection is closed right behind a request
				for k := 0; k < 5; k++ {
					c := dial("c8")
					if c == nil {
						return
					}
					go c.Subscribe(tp, hd, time.Second)
					sleep(us(1 + op.C%2*r.Plan.Net.DelayMax))
					c.Stop()
				}
			case "churn":
				c := dial("c9")
				if c == nil {
					return
				}
				c.Subscribe(tp, hd, time.Second)
				if op.C%2 == 0 {
					c.Publish(tp, "x", time.Second)
				}
				c.Stop()
			}
		})
		if !ok {
			return false
		}
		// the same subscriptions at the end of each round
		ok = until(5*time.Minute, 100*time.Millisecond, func() bool {
			for _, c := range clis {
				if c.Authenticate() != nil {
					return false
				}
				for _, tp := range topics {
					if c.Subscribe(tp, hd, time.Second) != nil {
						return false
					}
				}
			}
			return true
		})
		time.Sleep(30 * time.Second) // re-subscriptions in the background
		return ok
	})
	for _, c := range clis {
		c.Stop()
	}
	s.Stop()
	time.Sleep(3 * time.Second)
}
