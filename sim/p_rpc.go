package main

import (
	"context"
	"strings"
	"time"

	"github.com/lesismal/arpc"
)

const slack = 2 * time.Millisecond

func isCall(kind string) bool {
	switch strings.TrimPrefix(kind, "s") {
	case "call", "cctx", "cancel":
		return true
	}
	return false
}

func isAsyncOp(kind string) bool { return strings.TrimPrefix(kind, "s") == "async" }

// healthy: nothing disturbed the network in this run.
func (r *Run) healthy() bool { return len(r.Fired) == 0 }

func noStalls(p *Plan) { p.Sched.StallP = 0 }

// ---------------------------------------------------------------- C02

func init() {
	register(&Prop{ID: "C02", Rule: "non-trivial when at least one operation returned", Gen: genC02, Exec: execC02,
		NonTrivial: func(r *Run) bool { return r.Counts["bounded"] > 0 }})
}

func genC02(g *Rng, p *Plan) {
	noStalls(p)
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "syncresp", "exec", "clone", "coder", "nil")
	genOps(g, p, opGen{
		kinds:   []string{"call", "call", "cctx", "cctx", "cancel", "async", "notify", "nctx", "push", "scall", "scctx", "scancel", "sasync", "snotify", "snctx", "spush"},
		methods: []int{0, 1, 2, 3, 4, 5, 6, 7, 8}, actors: 5, ops: 6, clients: nc,
		maxGap: 30000, tmin: g.Pick(1, 1, 500, 20000), tmax: 3_000_000, slow: g.Pick(0, 100, 3000, 100_000, 4_000_000), size: g.Pick(20, 300, 3000)})
	if g.P(2) {
		// plenty of time
		for a := range p.Actors {
			for i := range p.Actors[a] {
				if g.P(2) {
					p.Actors[a][i].E = 60_000_000
				}
			}
		}
	}
	if g.P(2) {
		genFaults(g, p, 4, 60000, "reset", "cut", "partwrite", "hold", "hold", "slowread", "partition", "dialfail", "crash")
	} else {
		p.Net.SendBuf = 0
		p.Knobs["syncwrite"] = g.Pick(0, 0, 1) // writes don't block here
	}
}

func execC02(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	if !w.start() {
		w.stop()
		return
	}
	var work time.Duration // an upper bound of all handler time
	for _, a := range r.Plan.Actors {
		for _, op := range a {
			work += us(op.G) + us(op.D) + 200*time.Millisecond
		}
	}
	ok := r.actors(w.limit, func(a, i int, op Op) {
		if cr := w.issue(a, i, op); cr != nil {
			r.count("bounded")
		}
	})
	if !ok {
		for _, cr := range w.calls {
			if !cr.done {
				r.Fail("no-return", "%s %d with timeout %v has not returned after %v", cr.kind, cr.id, cr.timeout, r.Now()-cr.t0)
			}
		}
	}
	for _, cr := range w.calls {
		if !cr.done {
			continue
		}
		d := cr.t1 - cr.t0
		if d > cr.timeout+slack {
			r.Fail("late-return", "%s %d with timeout %v returned after %v (%v)", cr.kind, cr.id, cr.timeout, d, cr.err)
		}
		if cr.err == arpc.ErrClientTimeout && d < cr.timeout {
			r.Fail("early-timeout", "%s %d with timeout %v returned ErrClientTimeout after %v", cr.kind, cr.id, cr.timeout, d)
		}
		if r.healthy() && r.Plan.Net.SendBuf == 0 && cr.timeout > work+time.Second && !strings.HasPrefix(cr.method, "none") {
			bad := cr.err != nil
			if bad && strings.HasPrefix(cr.method, "err") && isCall(cr.kind) {
				tag, id, _, e := chkPay(cr.err.Error())
				bad = e != nil || tag != "E" || id != cr.id
			}
			if bad {
				r.Fail("healthy-failure", "%s %d on %s with timeout %v failed on a healthy connection after %v: %v", cr.kind, cr.id, cr.method, cr.timeout, d, cr.err)
			}
		}
	}
	if c := w.clis[0]; len(r.Plan.Faults) == 0 && r.healthy() && r.Plan.Net.SendBuf == 0 && c.CheckState() == nil {
		// what can't be done is refused at once, and not sent
		id := 990000
		q := func() string { id++; w.byID[id] = &callRec{id: id, method: "echo.a", toServer: true}; return mkPay("Q", id, 0, 5) }
		nop := func(ctx *arpc.Context, err error) {
			r.Fail("refused", "the callback of a call that was refused was called")
		}
		bg, long := context.Background(), strings.Repeat("m", arpc.MaxMethodLen+1)
		t0 := r.Now()
		for k, e := range [][2]error{
			{c.Call("echo.a", q(), nil, 0), arpc.ErrClientInvalidTimeoutZero},
			{c.Call("echo.a", q(), nil, -1), arpc.ErrClientInvalidTimeoutLessThanZero},
			{c.CallAsync("echo.a", q(), nop, 0), arpc.ErrClientInvalidTimeoutZero},
			{c.CallAsync("echo.a", q(), nop, -1), arpc.ErrClientInvalidTimeoutLessThanZero},
			{c.CallAsync("echo.a", q(), nil, time.Second), arpc.ErrClientInvalidAsyncHandler},
			{c.Notify("echo.a", q(), -1), arpc.ErrClientInvalidTimeoutLessThanZero},
			{c.Call("", q(), nil, time.Second)}, {c.Call(long, q(), nil, time.Second)},
			{c.CallAsync("", q(), nop, time.Second)}, {c.CallAsync(long, q(), nop, time.Second)},
			{c.CallContext(bg, "", q(), nil)}, {c.CallContext(bg, long, q(), nil)},
			{c.Notify("", q(), time.Second)}, {c.Notify(long, q(), time.Second)},
			{c.NotifyContext(bg, "", q())}, {c.NotifyContext(bg, long, q())},
		} {
			if e[0] == nil || e[1] != nil && e[0] != e[1] {
				r.Fail("refused", "operation %d with an invalid argument returned %v, want %v", k, e[0], e[1])
			}
		}
		if d := r.Now() - t0; d > 500*time.Millisecond {
			r.Fail("refused", "refusing operations with invalid arguments took %v", d)
		}
		time.Sleep(time.Second)
		for ; id > 990000; id-- {
			if len(w.handled[id]) > 0 {
				r.Fail("refused", "request %d was refused but handled", id)
			}
		}
	}
	w.stop()
	time.Sleep(3 * time.Second)
}

// ---------------------------------------------------------------- C03

func init() {
	register(&Prop{ID: "C03", Rule: "non-trivial when at least one CallAsync was accepted", Gen: genC03, Exec: execC03,
		NonTrivial: func(r *Run) bool { return r.Counts["async_accepted"] > 0 }})
}

func genC03(g *Rng, p *Plan) {
	noStalls(p)
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "syncresp", "clone", "nil")
	genOps(g, p, opGen{
		kinds:   []string{"async", "async", "async", "sasync", "sasync", "call", "notify"},
		methods: []int{0, 1, 2, 3, 4, 5, 6, 7, 8}, actors: 5, ops: 7, clients: nc,
		maxGap: 30000, tmin: g.Pick(1, 50, 2000), tmax: g.Pick(1000, 100_000, 3_000_000), slow: g.Pick(0, 100, 3000, 300_000), size: g.Pick(20, 300)})
	if g.P(3) {
		a := g.N(len(p.Actors))
		p.Actors[a] = append(p.Actors[a], Op{K: "stop", A: g.N(nc), D: g.Log(1, 5000)})
	}
	if g.Pct(60) {
		genFaults(g, p, 4, 60000, "reset", "cut", "partwrite", "hold", "partition", "dialfail", "crash")
	}
}

func execC03(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	if !w.start() {
		w.stop()
		return
	}
	r.actors(w.limit, func(a, i int, op Op) {
		if op.K == "stop" {
			r.fault("client-stop")
			w.clis[op.A%len(w.clis)].Stop()
			return
		}
		w.issue(a, i, op)
	})
	time.Sleep(5 * time.Second)
	for _, cr := range w.calls {
		if !isAsyncOp(cr.kind) || !cr.done {
			continue
		}
		if len(cr.cbs) > 1 {
			r.Fail("callback-twice", "%s %d on %s with timeout %v: handler called %d times (%v, %v)", cr.kind, cr.id, cr.method, cr.timeout, len(cr.cbs), cr.cbs[0].err, cr.cbs[1].err)
		}
		if cr.err == nil {
			r.count("async_accepted")
			if len(cr.cbs) == 0 {
				r.Fail("callback-never", "%s %d on %s with timeout %v was accepted but its handler was not called within %v", cr.kind, cr.id, cr.method, cr.timeout, r.Now()-cr.t0)
				continue
			}
		}
		for _, cb := range cr.cbs {
			if cb.bad != nil {
				r.Fail("callback-bad", "%s %d: %v", cr.kind, cr.id, cb.bad)
			}
			// a synchronous write may block before the call starts to wait
			if cb.at > cr.t0+cr.timeout+slack && r.Plan.K("syncwrite") == 0 {
				r.Fail("callback-late", "%s %d with timeout %v: handler called after %v", cr.kind, cr.id, cr.timeout, cb.at-cr.t0)
			}
			if cb.err == arpc.ErrTimeout && cb.at < cr.t0+cr.timeout {
				r.Fail("callback-early", "%s %d with timeout %v timed out after %v", cr.kind, cr.id, cr.timeout, cb.at-cr.t0)
			}
		}
	}
	w.stop()
	time.Sleep(3 * time.Second)
}

// ---------------------------------------------------------------- C04

func init() {
	register(&Prop{ID: "C04", Rule: "non-trivial when at least one message was handled", Gen: genC04, Exec: execC04,
		NonTrivial: func(r *Run) bool { return r.Counts["handled"] > 0 }})
}

func genC04(g *Rng, p *Plan) {
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "syncresp", "exec", "clone", "codec", "coder", "nil")
	genOps(g, p, opGen{
		kinds:   []string{"call", "cctx", "async", "notify", "nctx", "push", "notify0", "push0", "pushf", "scall", "sasync", "snotify", "spush", "snotify0", "snctx"},
		methods: []int{0, 1, 2, 3, 4, 5, 6, 7, 8}, actors: 5, ops: 7, clients: nc,
		maxGap: 20000, tmin: 300, tmax: 5_000_000, slow: g.Pick(0, 100, 3000, 30000), size: g.Pick(20, 300, 3000, 30000)})
	if g.Pct(60) {
		genFaults(g, p, 4, 60000, "reset", "cut", "partwrite", "hold", "slowread", "partition", "dialfail", "crash")
	} else {
		p.Net.SendBuf = 0
	}
}

func (w *rpcWorld) checkDelivery() {
	r := w.r
	for id, hs := range w.handled {
		cr := w.byID[id]
		r.count("handled")
		if cr == nil {
			r.Fail("phantom", "a message with id %d was handled but never sent", id)
			continue
		}
		if len(hs) > 1 {
			r.Fail("handled-twice", "%s %d on %s was handled %d times (links %d and %d)", cr.kind, id, cr.method, len(hs), hs[0].link, hs[1].link)
		}
		for _, h := range hs {
			if h.method != cr.method || h.atServer != cr.toServer {
				r.Fail("misrouted", "%s %d for %s was handled as %s", cr.kind, id, cr.method, h.method)
			}
			if h.arg != cr.arg || h.size != cr.paySize() {
				r.Fail("payload", "%s %d: handler got a payload of %d bytes, argument %d; sent argument %d", cr.kind, id, h.size, h.arg, cr.arg)
			}
		}
		if cr.done && (cr.err == arpc.ErrClientOverstock) {
			r.Fail("refused-handled", "%s %d returned %v but was handled", cr.kind, id, cr.err)
		}
	}
}

func execC04(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	if !w.start() {
		w.stop()
		return
	}
	r.actors(w.limit, func(a, i int, op Op) { w.issue(a, i, op) })
	time.Sleep(20 * time.Second)
	w.checkDelivery()
	if r.healthy() && r.Plan.Net.SendBuf == 0 && r.Plan.Sched.StallP == 0 {
		for _, cr := range w.calls {
			if cr.done && cr.err == nil && len(w.handled[cr.id]) != 1 {
				r.Fail("lost", "%s %d on %s was accepted on a healthy connection but handled %d times", cr.kind, cr.id, cr.method, len(w.handled[cr.id]))
			}
		}
		r.count("healthy")
	}
	w.stop()
	time.Sleep(3 * time.Second)
}

// ---------------------------------------------------------------- C05

func init() {
	register(&Prop{ID: "C05", Rule: "non-trivial when two ordered messages were handled on one connection", Gen: genC05, Exec: execC05,
		NonTrivial: func(r *Run) bool { return r.Counts["ordered_pair"] > 0 }})
}

func genC05(g *Rng, p *Plan) {
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "clone", "nil")
	genOps(g, p, opGen{
		kinds:   []string{"notify", "notify", "nctx", "push", "async", "call", "notify0", "pushf", "snotify", "snotify", "spush", "sasync", "snctx", "spushf"},
		methods: []int{0, 0, 3, 4}, actors: 4, ops: 9, clients: nc,
		maxGap: g.Pick(10, 3000), tmin: 20000, tmax: 5_000_000, slow: g.Pick(0, 100, 3000), size: g.Pick(20, 300, 3000)})
	if g.P(3) {
		genFaults(g, p, 3, 60000, "reset", "cut", "partwrite", "hold", "slowread", "partition", "crash")
	}
}

func execC05(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	if !w.start() {
		w.stop()
		return
	}
	r.actors(w.limit, func(a, i int, op Op) { w.issue(a, i, op) })
	time.Sleep(20 * time.Second)
	w.checkOrder()
	w.stop()
	time.Sleep(3 * time.Second)
}

// checkOrder: synchronous handlers of one connection run one at a time, in
// the order in which the peer's operations were issued.
func (w *rpcWorld) checkOrder() {
	r := w.r
	type key struct {
		link int
		srv  bool
	}
	per := map[key][]*handleRec{}
	var keys []key
	for _, h := range w.allH {
		if !strings.HasSuffix(h.method, ".s") {
			continue
		}
		k := key{h.link, h.atServer}
		if per[k] == nil {
			keys = append(keys, k)
		}
		per[k] = append(per[k], h)
	}
	for _, k := range keys {
		hs := per[k] // in handling order
		for i, a := range hs {
			ca := w.byID[a.id]
			for _, b := range hs[i+1:] {
				if a.s1 == 0 || b.s0 < a.s1 {
					r.Fail("overlap", "synchronous handlers of %d (%s) and %d (%s) overlap on connection %d", a.id, a.method, b.id, b.method, k.link)
				}
				cb := w.byID[b.id]
				if ca == nil || cb == nil {
					continue
				}
				if cb.done && cb.s1 < ca.s0 {
					r.Fail("reordered", "%s %d returned before %s %d started, but connection %d handled them in the opposite order", cb.kind, cb.id, ca.kind, ca.id, k.link)
				}
				if ca.done && ca.s1 < cb.s0 {
					r.count("ordered_pair")
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C08

func init() {
	register(&Prop{ID: "C08", Rule: "non-trivial when a call was pending on a connection when it was lost", Gen: genC08, Exec: execC08,
		NonTrivial: func(r *Run) bool { return r.Counts["pending_at_loss"] > 0 }})
}

func genC08(g *Rng, p *Plan) {
	noStalls(p)
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "pool", "clone", "nil")
	genOps(g, p, opGen{
		kinds:   []string{"call", "call", "cctx", "async", "async", "scall", "scctx"},
		methods: []int{6, 6, 2, 1, 8}, actors: 6, ops: 4, clients: nc,
		maxGap: 30000, tmin: 100_000, tmax: 20_000_000, slow: g.Pick(1000, 100_000, 10_000_000), size: 100})
	genFaults(g, p, 4, 100000, "reset", "reset", "cut", "cut", "partwrite", "crash", "partition", "dialfail")
	if g.P(2) {
		p.Faults = append(p.Faults, Fault{Kind: "reset", At: g.N(100000), Conn: -1})
	}
	if g.P(3) {
		// the connection is lost while calls are being started
		q := g.Pick(1, 500, 3000)
		for a := range p.Actors {
			for i := range p.Actors[a] {
				p.Actors[a][i].D = g.N(3) * q
			}
		}
		for k := g.In(1, 3); k > 0; k-- {
			p.Actors = append(p.Actors, []Op{{K: "lose", A: g.N(nc), D: g.N(8) * q, B: g.N(2)}})
		}
	}
}

func execC08(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	if !w.start() {
		w.stop()
		return
	}
	r.actors(w.limit, func(a, i int, op Op) {
		if op.K != "lose" {
			w.issue(a, i, op)
		} else if l := LinkOf(w.clis[op.A].Conn); l != nil {
			r.fault("reset")
			if op.B == 0 {
				l.reset(errReset)
			} else {
				l.ends[1].Close()
			}
		}
	})
	time.Sleep(25 * time.Second)
	for _, cr := range w.calls {
		if !cr.done {
			continue
		}
		// a message the library reports dropped is waited for no longer
		if at, ok := w.dropAt[cr.id]; ok {
			r.count("call_dropped")
			end := cr.t1
			if isAsyncOp(cr.kind) {
				if len(cr.cbs) == 0 {
					continue
				}
				end = cr.cbs[0].at
			}
			if end > at+slack {
				r.Fail("slow-failure", "%s %d (timeout %v) was dropped at %v because the connection was lost, the call ended only at %v (%v)", cr.kind, cr.id, cr.timeout, at, end, cr.err)
			}
		}
		for _, h := range w.handled[cr.id] {
			if h.link < 0 || h.link >= len(r.Net.links) {
				continue
			}
			l := r.Net.links[h.link]
			e := l.ends[0]
			if !cr.toServer {
				e = l.ends[1]
			}
			if !e.rerrd || h.s0 > e.rerrSeq {
				continue
			}
			r.count("pending_at_loss")
			t1 := cr.t1
			if isAsyncOp(cr.kind) {
				if cr.err != nil || len(cr.cbs) == 0 {
					continue
				}
				t1 = cr.cbs[0].at
			}
			if t1 > e.rerrAt+slack {
				r.Fail("slow-failure", "%s %d (timeout %v) was in progress on connection %d; the connection was found lost at %v, the call ended only at %v", cr.kind, cr.id, cr.timeout, h.link, e.rerrAt, t1)
			}
		}
	}
	w.stop()
	time.Sleep(3 * time.Second)
}

// ---------------------------------------------------------------- C22

func init() {
	register(&Prop{ID: "C22", Rule: "non-trivial when a message was refused, dropped or a burst was accepted", Gen: genC22, Exec: execC22,
		NonTrivial: func(r *Run) bool {
			return r.Counts["overstock"] > 0 || r.Counts["dropped"] > 0 || r.Counts["burst"] > 0 || r.Counts["push_timeout"] > 0
		}})
}

func genC22(g *Rng, p *Plan) {
	noStalls(p)
	p.Knobs["_clients"] = 1
	genKnobs(g, p, "nobatchsend", "nobatchrecv", "sbs", "rbs", "pool", "clone", "nil")
	p.Knobs["sq"] = g.Pick(1, 1, 2, 3, 8)
	genOps(g, p, opGen{
		kinds:   []string{"notify0", "push0", "notify", "push", "nctx", "pushf", "snotify0", "spush0", "spush", "snotify", "spushf"},
		methods: []int{0, 1}, actors: 4, ops: 12, clients: 1,
		maxGap: 3000, tmin: 100, tmax: 300_000, slow: 0, size: g.Pick(20, 300, 3000)})
	p.Net.SendBuf = g.Pick(0, 32, 64, 200, 1000)
	genFaults(g, p, 4, 30000, "hold", "hold", "slowread", "slowread", "partition", "reset", "crash", "cut")
}

func execC22(r *Run) {
	w := newRPCWorld(r, 1)
	if !w.start() {
		w.stop()
		return
	}
	r.actors(w.limit, func(a, i int, op Op) { w.issue(a, i, op) })
	time.Sleep(5 * time.Second)
	for _, cr := range w.calls {
		if !cr.done {
			// only a push without limit may block, and only while the peer does not read
			if cr.timeout >= 0 {
				r.Fail("no-return", "%s %d with timeout %v has not returned after %v", cr.kind, cr.id, cr.timeout, r.Now()-cr.t0)
			}
			continue
		}
		kind := strings.TrimPrefix(cr.kind, "s")
		if cr.timeout == 0 && cr.t1 != cr.t0 {
			r.Fail("blocked", "%s %d with timeout zero blocked for %v", cr.kind, cr.id, cr.t1-cr.t0)
		}
		if cr.err == arpc.ErrClientTimeout {
			r.count("push_timeout")
		}
		if cr.err == arpc.ErrClientOverstock {
			if cr.timeout != 0 {
				r.Fail("overstock", "%s %d with timeout %v returned ErrClientOverstock", cr.kind, cr.id, cr.timeout)
			}
			if w.overst[cr.id] != 1 {
				r.Fail("overstock", "%s %d returned ErrClientOverstock; the overstock handler was called %d times for it", cr.kind, cr.id, w.overst[cr.id])
			}
		} else if w.overst[cr.id] != 0 {
			r.Fail("overstock", "%s %d returned %v but the overstock handler was called for it", cr.kind, cr.id, cr.err)
		}
		if cr.err != nil && len(w.handled[cr.id]) > 0 {
			r.Fail("refused-handled", "%s %d (%s) returned %v but was handled", cr.kind, cr.id, kind, cr.err)
		}
		if w.dropped[cr.id] > 1 {
			r.Fail("dropped", "%s %d: the drop handler was called %d times", cr.kind, cr.id, w.dropped[cr.id])
		}
		if w.dropped[cr.id] > 0 && len(w.handled[cr.id]) > 0 {
			r.Fail("dropped", "%s %d was reported dropped but handled", cr.kind, cr.id)
		}
	}
	// an idle connection accepts a burst as long as its queue
	r.quell()
	r.Net.unlimit()
	time.Sleep(30 * time.Second)
	c := w.clis[0]
	if until(15*time.Second, 100*time.Millisecond, func() bool { return c.CheckState() == nil && linkAlive(c) }) {
		time.Sleep(3 * time.Second)
		if c.CheckState() == nil && linkAlive(c) {
			n := r.Plan.K("sq")
			for i := 0; i < n; i++ {
				var err error
				id := 900000 + i
				w.byID[id] = &callRec{id: id, method: "echo.s", toServer: true}
				if (i+int(r.Plan.Seed>>8))%2 == 0 {
					err = c.Notify("echo.s", mkPay("Q", id, 0, 5), 0)
				} else {
					err = c.PushMsg(c.NewMessage(arpc.CmdNotify, "echo.s", mkPay("Q", id, 0, 5)), 0)
				}
				if err != nil {
					r.Fail("burst", "message %d of a burst of %d on an idle connection with a send queue of %d: %v", i+1, n, n, err)
				}
			}
			// without a limit a push waits for room in the queue
			for i := n; i < n+4; i++ {
				id := 900000 + i
				w.byID[id] = &callRec{id: id, method: "echo.s", toServer: true}
				if err := c.PushMsg(c.NewMessage(arpc.CmdNotify, "echo.s", mkPay("Q", id, 0, 5)), []time.Duration{-1, arpc.TimeForever}[i%2]); err != nil && linkAlive(c) {
					r.Fail("forever", "PushMsg without a limit returned %v", err)
				}
			}
			n += 4
			r.count("burst")
			time.Sleep(2 * time.Second)
			for i := 0; i < n && linkAlive(c); i++ {
				if len(w.handled[900000+i]) != 1 {
					r.Fail("lost", "message %d of a burst of %d accepted on an idle connection was handled %d times", i+1, n, len(w.handled[900000+i]))
				}
			}
		}
	}
	// nothing that was accepted is lost on a connection that lasts
	if ls := r.Net.linksOf("c0"); len(ls) == 1 && linkAlive(c) && w.crashes == 0 {
		r.count("lasting")
		for _, cr := range w.calls {
			if cr.done && cr.err == nil && len(w.handled[cr.id]) != 1 && linkAlive(c) {
				r.Fail("lost", "%s %d with timeout %v was accepted on a connection that lasted, but was handled %d times", cr.kind, cr.id, cr.timeout, len(w.handled[cr.id]))
			}
		}
	}
	w.stop()
	time.Sleep(3 * time.Second)
}

func linkAlive(c *arpc.Client) bool {
	l := LinkOf(c.Conn)
	return l != nil && !l.Dead() && !l.h[0].fin && !l.h[1].fin
}
