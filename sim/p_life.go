package main

import (
	"errors"
	"fmt"
	"net"
	"runtime"
	"time"

	"github.com/lesismal/arpc"
)

// leakCheck waits until no goroutine but those counted in base is left.
func (r *Run) leakCheck(base int, d time.Duration) {
	if !until(d, 50*time.Millisecond, func() bool { return runtime.VerifBubbleTotal() <= base }) {
		if r.Verbose {
			r.Log = append(r.Log, stacks())
		}
		r.Fail("goroutine-leak", "%d goroutines were running before, %d are still running %v after everything was stopped", base, runtime.VerifBubbleTotal(), d)
	}
}

// dialsOf lists the dial attempts of a client.
func (n *Net) dialsOf(tag string) []DialEv {
	var out []DialEv
	for _, d := range n.DialLog {
		if d.Tag == tag {
			out = append(out, d)
		}
	}
	return out
}

func (n *Net) linksOf(tag string) []*Link {
	var out []*Link
	for _, l := range n.links {
		if l.Tag == tag {
			out = append(out, l)
		}
	}
	return out
}

func countEv(evs []connEv, connected bool) int {
	n := 0
	for _, e := range evs {
		if e.connected == connected {
			n++
		}
	}
	return n
}

// serverUp reports that the world's server accepts.
func (w *rpcWorld) serverUp() bool { return w.r.Net.lns["s0"] != nil && !w.r.Net.lns["s0"].closed }

// tryCall makes one well-formed call and checks the answer.
func (w *rpcWorld) tryCall(c *arpc.Client, id int, method string, toServer bool, timeout time.Duration) error {
	w.byID[id] = &callRec{id: id, method: method, toServer: toServer, size: 10}
	var rsp string
	if err := c.Call(method, mkPay("Q", id, 0, 10), &rsp, timeout); err != nil {
		return err
	}
	tag, rid, _, err := chkPay(rsp)
	if err != nil {
		return err
	}
	if tag != "R" || rid != id {
		return fmt.Errorf("the response to %d is %q", id, clip(rsp))
	}
	return nil
}

// ---------------------------------------------------------------- C07

func init() {
	register(&Prop{ID: "C07", Rule: "non-trivial when a client lost its connection", Gen: genC07, Exec: execC07,
		NonTrivial: func(r *Run) bool { return r.Counts["reconnects"] > 0 || r.Counts["gave_up"] > 0 }})
}

func genC07(g *Rng, p *Plan) {
	noStalls(p)
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "syncresp", "clone", "coder")
	p.Knobs["mrt"] = g.Pick(0, 0, 1, 2, 3, 5)
	p.Knobs["slowconn"] = g.Pick(0, 0, 0, 5, 60_000) // ms in the client's connected handler
	p.Knobs["slowcb"] = g.Pick(0, 0, 0, 5, 60_000)   // ms in a callback that reports the loss
	genOps(g, p, opGen{
		kinds:   []string{"call", "cctx", "async", "async", "notify", "scall", "snotify", "push"},
		methods: []int{0, 1, 2, 6}, actors: 4, ops: 6, clients: nc,
		maxGap: 2_000_000, tmin: 10000, tmax: 2_000_000, slow: g.Pick(0, 3000, 300_000), size: 200})
	genFaults(g, p, 5, g.Pick(20000, 3_000_000), "reset", "reset", "cut", "partwrite", "hold", "partition", "dialfail", "dialfail", "slowdial", "crash", "crash", "accepterr")
	if g.P(2) {
		p.Faults = append(p.Faults, Fault{Kind: "reset", At: g.N(2_000_000), Conn: -1})
	}
	p.Net.SendBuf = 0
}

func execC07(r *Run) {
	mrt := r.Plan.K("mrt")
	w := newRPCWorld(r, r.Plan.K("_clients"))
	w.tune = func(h arpc.Handler, server bool) { h.SetMaxReconnectTimes(mrt) }
	w.onConn = func(int, *arpc.Client) { sleep(ms(r.Plan.K("slowconn"))) }
	if !w.start() {
		w.stop()
		return
	}
	r.actors(w.limit, func(a, i int, op Op) { w.issue(a, i, op) })
	r.quell()
	until(5*time.Second, 10*time.Millisecond, w.serverUp)
	// a dial in progress may take 3 s to fail, the pause after it 1 s
	time.Sleep(100 * time.Millisecond)
	for i, c := range w.clis {
		tag := fmt.Sprintf("c%d", i)
		gaveUp := func() bool {
			n := 0
			for _, d := range r.Net.dialsOf(tag) {
				if d.OK {
					n = 0
				} else if d.Done > 0 {
					n++
				}
			}
			return mrt > 0 && n >= mrt
		}
		t0 := r.Now()
		var last error
		ok := until(8*time.Second, 20*time.Millisecond, func() bool {
			if gaveUp() {
				return true
			}
			last = w.tryCall(c, 800000+i*1000+int((r.Now()-t0)/ms(20))%1000, "echo.a", true, time.Second)
			return last == nil
		})
		if !ok && !gaveUp() {
			r.Fail("no-reconnect", "client %d is not usable %v after the network recovered: %v", i, r.Now()-t0, last)
		}
		if gaveUp() {
			time.Sleep(3 * time.Second)
			r.count("gave_up")
			n := len(r.Net.dialsOf(tag))
			if err := c.Call("echo.a", mkPay("Q", 1, 0, 1), nil, time.Second); err != arpc.ErrClientStopped {
				r.Fail("gave-up", "client %d gave up after %d failed dials, a call then returns %v", i, mrt, err)
			}
			time.Sleep(10 * time.Second)
			if m := len(r.Net.dialsOf(tag)); m != n {
				r.Fail("gave-up", "client %d dialed again after %d failed dials with MaxReconnectTimes %d", i, mrt, mrt)
			}
			if k := countEv(w.cliEv[i], false); k != 1 {
				r.Fail("gave-up", "client %d gave up, OnDisconnected was called %d times", i, k)
			}
		} else if ok {
			if k := countEv(w.cliEv[i], false); k != 0 {
				r.Fail("disconnected", "client %d is connected but OnDisconnected was called %d times", i, k)
			}
			// and the server can use the new connection
			if sc := w.slast[i]; sc != nil && linkID(sc) == linkID(c) && linkAlive(c) {
				if err := w.tryCall(sc, 810000+i, "echo.a", false, time.Second); err != nil && linkAlive(c) {
					r.Fail("no-reconnect", "server to client %d on the current connection: %v", i, err)
				}
			}
		}
	}
	time.Sleep(time.Second)
	for i := range w.clis {
		tag := fmt.Sprintf("c%d", i)
		ds := r.Net.dialsOf(tag)
		first := true
		fails := 0
		oks := 0
		for j, d := range ds {
			if d.OK {
				oks++
				if oks > 1 {
					r.count("reconnects")
				}
				first = false
				fails = 0
				continue
			}
			if first || d.Done == 0 {
				continue
			}
			fails++
			if mrt > 0 && fails == mrt && j != len(ds)-1 {
				r.Fail("gave-up", "client %d dialed again after %d failed dials with MaxReconnectTimes %d", i, fails, mrt)
			}
			if j+1 < len(ds) && ds[j+1].At < d.Done+time.Second {
				r.Fail("redial-pause", "client %d: dial failed at %v, next dial at %v", i, d.Done, ds[j+1].At)
			}
			r.count("redial")
		}
		if n := countEv(w.cliEv[i], true); n != oks {
			r.Fail("onconnected", "client %d connected %d times, OnConnected was called %d times", i, oks, n)
		}
		ls := r.Net.linksOf(tag)
		for j, l := range ls {
			if j+1 < len(ls) && (!l.ends[0].closed || l.ends[0].closedT > ls[j+1].openedAt) {
				r.Fail("two-connections", "client %d opened connection %d while connection %d was still open", i, ls[j+1].ID, l.ID)
			}
			if l.ends[0].closed && l.rst == nil && !l.h[0].werr && !l.h[1].fin && !l.h[0].fin {
				r.Fail("needless-close", "client %d closed connection %d though nothing was wrong with it", i, l.ID)
			}
			if l.ends[0].closed && l.rst == nil && !l.h[0].werr && !l.h[1].rerr {
				r.Fail("needless-close", "client %d closed connection %d though nothing was wrong with it", i, l.ID)
			}
		}
	}
	w.stop()
	time.Sleep(3 * time.Second)
}

// ---------------------------------------------------------------- C09

func init() {
	register(&Prop{ID: "C09", Rule: "non-trivial when a client was stopped", Gen: genC09, Exec: execC09,
		NonTrivial: func(r *Run) bool { return r.Counts["stopped"] > 0 }})
}

func genC09(g *Rng, p *Plan) {
	noStalls(p)
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "syncresp", "clone", "coder")
	p.Knobs["mrt"] = g.Pick(0, 0, 0, 2)
	p.Knobs["rstnext"] = g.N(2)
	genOps(g, p, opGen{
		kinds:   []string{"call", "call", "cctx", "async", "notify", "nctx", "push", "notify0", "pushf", "scall", "scctx", "snotify"},
		methods: []int{0, 1, 2, 6, 6}, actors: 6, ops: 5, clients: nc,
		maxGap: g.Pick(1000, 100_000, 1_000_000), tmin: 100_000, tmax: 8_000_000, slow: g.Pick(0, 3000, 300_000, 5_000_000), size: g.Pick(100, 1000)})
	for n := g.In(1, 3); n > 0; n-- {
		op := Op{K: "stop", A: g.N(nc)}
		if g.P(5) {
			op.K = "sstop"
		}
		op.D = g.Log(1, 2_000_000)
		p.Actors = append(p.Actors, []Op{op})
	}
	if g.P(2) {
		// operations after the stop
		p.Actors = append(p.Actors, []Op{{K: "call", A: 0, B: 1, E: 1_000_000, D: 2_500_000}, {K: "async", A: 0, B: 1, E: 1_000_000}, {K: "notify", A: 0, B: 1, E: 1_000_000}, {K: "cctx", A: 0, B: 1, E: 1_000_000}, {K: "nctx", A: 0, B: 1, E: 1_000_000}, {K: "push", A: 0, B: 1, E: 1_000_000}, {K: "pushf", A: 0, B: 1, E: 1_000_000}, {K: "notify0", A: 0, B: 1}, {K: "stop", A: 0}})
	}
	if g.Pct(70) {
		genFaults(g, p, 4, g.Pick(20000, 1_000_000), "reset", "reset", "cut", "hold", "partition", "dialfail", "dialfail", "slowdial", "crash")
	}
}

type stopRec struct {
	cli        int
	srv        *arpc.Client
	t0, t1     time.Duration
	seq0, seq1 int
}

func execC09(r *Run) {
	base := runtime.VerifBubbleTotal()
	w := newRPCWorld(r, r.Plan.K("_clients"))
	w.tune = func(h arpc.Handler, server bool) { h.SetMaxReconnectTimes(r.Plan.K("mrt")) }
	if !w.start() {
		w.stop()
		return
	}
	var stops []*stopRec
	r.actors(3*time.Minute, func(a, i int, op Op) {
		switch op.K {
		case "stop", "sstop":
			ci := op.A % len(w.clis)
			c := w.clis[ci]
			s := &stopRec{cli: ci}
			if op.K == "sstop" {
				s.cli = -1
				if c = w.slast[ci]; c == nil {
					return
				}
				s.srv = c
			}
			r.ev("stop", ci)
			s.t0, s.seq0 = r.Now(), r.nev
			c.Stop()
			r.ev("stopped", ci)
			s.t1, s.seq1 = r.Now(), r.nev
			stops = append(stops, s)
			r.fault("client-stop")
			r.count("stopped")
			if s.t1 > s.t0 {
				r.Fail("stop-blocks", "Stop took %v", s.t1-s.t0)
			}
		default:
			w.issue(a, i, op)
		}
	})
	time.Sleep(10 * time.Second)
	first := map[int]*stopRec{}
	for _, s := range stops {
		if s.cli >= 0 && (first[s.cli] == nil || s.seq1 < first[s.cli].seq1) {
			first[s.cli] = s
		}
	}
	for ci := range w.clis {
		s := first[ci]
		if s == nil {
			continue
		}
		tag := fmt.Sprintf("c%d", ci)
		for _, d := range r.Net.dialsOf(tag) {
			if d.At > s.t1 {
				r.Fail("dial-after-stop", "client %d was stopped at %v and dialed at %v", ci, s.t1, d.At)
			}
		}
		for _, l := range r.Net.linksOf(tag) {
			if !l.ends[0].closed {
				r.Fail("open-after-stop", "client %d was stopped at %v, its connection %d is still open at %v", ci, s.t1, l.ID, r.Now())
			}
		}
		if n := countEv(w.cliEv[ci], false); n != 1 {
			r.Fail("ondisconnected", "client %d was stopped, OnDisconnected was called %d times", ci, n)
		}
		for _, cr := range w.calls {
			if cr.cli != ci || !cr.toServer {
				continue
			}
			if cr.s0 > s.seq1 {
				r.count("op_after_stop")
				if !cr.done || cr.err != arpc.ErrClientStopped || cr.t1 != cr.t0 {
					r.Fail("op-after-stop", "%s %d was issued after Stop: done %v, err %v, took %v", cr.kind, cr.id, cr.done, cr.err, cr.t1-cr.t0)
				}
				if len(w.handled[cr.id]) > 0 {
					r.Fail("op-after-stop", "%s %d was issued after Stop but was handled", cr.kind, cr.id)
				}
				if len(cr.cbs) > 0 {
					r.Fail("op-after-stop", "%s %d was issued after Stop and refused, but its handler was called", cr.kind, cr.id)
				}
			} else if !cr.done || (cr.s1 > s.seq1 && cr.t1 > s.t1+slack) {
				r.Fail("pending-at-stop", "%s %d (timeout %v) was pending when client %d was stopped at %v; done %v at %v (%v)", cr.kind, cr.id, cr.timeout, ci, s.t1, cr.done, cr.t1, cr.err)
			} else if cr.s1 > s.seq1 {
				r.count("pending_at_stop")
			}
		}
	}
	// server-side clients
	for _, s := range stops {
		if s.srv == nil {
			continue
		}
		n := 0
		for _, e := range w.srvEv {
			if !e.connected && e.cli == s.srv {
				n++
			}
		}
		if n != 1 {
			r.Fail("ondisconnected", "the server's client of connection %d was stopped, OnDisconnected was called %d times", linkID(s.srv), n)
		}
		if l := LinkOf(s.srv.Conn); !l.ends[1].closed || l.ends[1].closedT > s.t1+slack {
			r.Fail("open-after-stop", "the server's client of connection %d was stopped at %v, its connection closed %v", l.ID, s.t1, l.ends[1].closed)
		}
		if err := s.srv.Notify("echo.a", "x", time.Second); err != arpc.ErrClientStopped {
			r.Fail("op-after-stop", "Notify on a stopped server-side client returned %v", err)
		}
	}
	// a stopped client can be restarted once it is quiet
	r.quell()
	r.Net.unlimit()
	until(5*time.Second, 10*time.Millisecond, w.serverUp)
	for ci, c := range w.clis {
		if first[ci] == nil || !w.serverUp() || countEv(w.cliEv[ci], false) != 1 {
			continue
		}
		dials, conns := len(r.Net.dialsOf(fmt.Sprintf("c%d", ci))), countEv(w.cliEv[ci], true)
		if r.Plan.K("rstnext") == 1 {
			// the connection is lost at once: the client works all the same
			r.Net.rstNext = 1
			if err := c.Restart(); err != nil {
				r.Fail("restart", "Restart of client %d: %v", ci, err)
				continue
			}
			if !until(3*time.Second, ms(100), func() bool {
				return w.tryCall(c, 720000+int(r.Now()/ms(1))%10000, "echo.a", true, time.Second) == nil
			}) {
				r.Fail("restart", "a client whose first connection after Restart was lost did not reconnect")
			}
			c.Stop()
			time.Sleep(3 * time.Second)
			continue
		}
		if err := c.Restart(); err != nil {
			r.Fail("restart", "Restart of client %d: %v", ci, err)
			continue
		}
		r.count("restart")
		if err := w.tryCall(c, 700000+ci, "echo.a", true, 3*time.Second); err != nil {
			r.Fail("restart", "call after Restart of client %d: %v", ci, err)
		}
		if n := len(r.Net.dialsOf(fmt.Sprintf("c%d", ci))); n != dials+1 {
			r.Fail("restart", "Restart dialed %d times", n-dials)
		}
		time.Sleep(ms(10))
		if n := countEv(w.cliEv[ci], true); n != conns+1 {
			r.Fail("restart", "OnConnected was called %d times for a Restart", n-conns)
		}
		// a restarted client still reconnects
		if ci == 0 {
			LinkOf(c.Conn).reset(errReset)
			time.Sleep(ms(10))
			if !until(3*time.Second, ms(100), func() bool { return w.tryCall(c, 710000+int(r.Now()/ms(1))%10000, "echo.a", true, time.Second) == nil }) {
				r.Fail("restart", "a restarted client did not reconnect")
			}
		}
		c.Stop()
		time.Sleep(3 * time.Second)
		if n := countEv(w.cliEv[ci], false); n != 2 {
			r.Fail("restart", "a restarted client was stopped again; OnDisconnected was called %d times in all", n)
		}
	}
	w.stop()
	r.leakCheck(base, 30*time.Second)
}

// ---------------------------------------------------------------- C10

func init() {
	register(&Prop{ID: "C10", Rule: "non-trivial when at least one connection was accepted", Gen: genC10, Exec: execC10,
		NonTrivial: func(r *Run) bool { return r.Counts["admitted"] > 0 }})
}

func genC10(g *Rng, p *Plan) {
	noStalls(p)
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "rbs", "pool", "clone")
	p.Knobs["maxload"] = g.Pick(0, 1, 1, 2, 3, 5)
	p.Knobs["restart"] = g.N(2)
	n := g.In(1, 8)
	for a := 0; a < n; a++ {
		var ops []Op
		for k := g.In(1, 4); k > 0; k-- {
			op := Op{K: g.PickS("use", "use", "idle", "bad", "half"), B: g.N(3), C: g.Log(1, 50000), E: g.N(4), D: g.Log(1, g.Pick(100, 20000))}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	genFaults(g, p, 3, 60000, "reset", "cut", "accepterr", "hold")
	p.Net.SendBuf = 0
	p.Knobs["dpanic"] = g.Pick(0, 0, 0, 1)
	if g.P(25) {
		// a long history
		p.Knobs["many"] = g.In(20, 150)
		p.Net.Chunk = 0
	}
}

type admWorld struct {
	r       *Run
	s       *arpc.Server
	adm     map[int]bool
	conn    map[int]int
	disc    map[int]int
	handled map[int]int
	max     int
}

func (w *admWorld) admit(l *Link) {
	if w.adm[l.ID] {
		return
	}
	w.adm[l.ID] = true
	w.r.count("admitted")
	n := w.open()
	if w.max > 0 && n > w.max {
		w.r.Fail("over-limit", "%d connections are being served with MaxLoad %d", n, w.max)
	}
	if w.max > 0 && n == w.max {
		w.r.count("at_limit")
	}
}

func (w *admWorld) open() int {
	n := 0
	for id := range w.adm {
		if !w.r.Net.links[id].ends[1].closed {
			n++
		}
	}
	return n
}

func execC10(r *Run) {
	base := runtime.VerifBubbleTotal()
	w := &admWorld{r: r, adm: map[int]bool{}, conn: map[int]int{}, disc: map[int]int{}, handled: map[int]int{}, max: r.Plan.K("maxload")}
	s := r.newServer()
	w.s = s
	s.MaxLoad = int64(w.max)
	s.Handler.Handle("m", func(ctx *arpc.Context) {
		l := LinkOf(ctx.Client.Conn)
		w.handled[l.ID]++
		w.admit(l)
		ctx.Write("ok")
	})
	s.Handler.HandleConnected(func(c *arpc.Client) {
		l := LinkOf(c.Conn)
		w.conn[l.ID]++
		r.ev("connected", l.ID)
		// the connection may be gone already
		w.admit(l)
	})
	s.Handler.HandleDisconnected(func(c *arpc.Client) {
		l := LinkOf(c.Conn)
		w.disc[l.ID]++
		r.ev("disconnected", l.ID)
		if !l.ends[1].closed {
			r.Fail("disconnect-open", "OnDisconnected was called for connection %d which is open", l.ID)
		}
		if r.Plan.K("dpanic") == 1 && l.ID%2 == 1 {
			r.fault("callback-panic")
			panic("simulated failure of a disconnect handler")
		}
	})
	ln := r.Net.Listen("s0")
	served := false
	go func() { r.runServer(s, ln); served = true }()
	time.Sleep(us(10))
	req := func(i int) []byte {
		return frame{cmd: wRequest, method: "m", seq: uint64(i), data: []byte("x")}.enc()
	}
	var open []*rawPeer
	for k := 0; k < r.Plan.K("many"); k++ {
		p := r.dialRaw("s0", "raw")
		if p == nil {
			continue
		}
		go p.pump()
		if k%3 == 0 {
			p.send(NewRng(1), req(1), 0, 0)
		}
		time.Sleep(ms(k % 2 * 10))
		p.e.Close()
		time.Sleep(ms(k % 4 * 10))
	}
	r.actors(time.Minute, func(a, i int, op Op) {
		p := r.dialRaw("s0", "raw")
		if p == nil {
			return
		}
		go p.pump()
		g := NewRng(r.Plan.Seed, 77, uint64(a), uint64(i))
		switch op.K {
		case "use":
			for k := 0; k <= op.E; k++ {
				p.send(g, req(k+1), 0, 0)
				if op.B == 1 {
					time.Sleep(us(op.C / 3))
				}
			}
		case "bad":
			p.send(g, []byte{0xff, 0xff, 0xff, 0xff, 0, 1, 0, 200, 1, 2, 3, 4, 5, 6, 7, 8}, 0, 0)
		case "half":
			p.send(g, req(1)[:7], 0, 0)
		}
		time.Sleep(us(op.C))
		switch op.B {
		case 0:
			p.e.Close()
		case 1:
			p.e.l.reset(errReset)
		default:
			open = append(open, p)
		}
	})
	r.quell()
	time.Sleep(2 * time.Second)
	check := func(when string) {
		n := 0
		s.ForEach(func(c *arpc.Client) {
			n++
			if l := LinkOf(c.Conn); l.Dead() {
				r.Fail("accounting", "%s: ForEach visits the dead connection %d", when, l.ID)
			}
		})
		if int64(n) != s.CurrLoad || n != w.open() {
			r.Fail("accounting", "%s: CurrLoad %d, ForEach visits %d, %d admitted connections are open", when, s.CurrLoad, n, w.open())
		}
		if w.max > 0 && n > w.max {
			r.Fail("over-limit", "%s: %d connections with MaxLoad %d", when, n, w.max)
		}
		total := 0
		for _, l := range r.Net.links {
			if w.conn[l.ID] > 1 || w.disc[l.ID] > 1 || w.disc[l.ID] > w.conn[l.ID] {
				r.Fail("events", "%s: connection %d: OnConnected %d times, OnDisconnected %d times", when, l.ID, w.conn[l.ID], w.disc[l.ID])
			}
			if w.conn[l.ID] == 1 && l.ends[1].closed != (w.disc[l.ID] == 1) {
				r.Fail("events", "%s: connection %d: server end closed %v, OnDisconnected %d times", when, l.ID, l.ends[1].closed, w.disc[l.ID])
			}
			total += w.conn[l.ID]
			if w.handled[l.ID] > 0 && w.conn[l.ID] == 0 {
				r.Fail("events", "%s: connection %d was served without OnConnected", when, l.ID)
			}
			if l.accepted && w.conn[l.ID] == 0 {
				r.count("refused")
				if !l.ends[1].closed {
					r.Fail("refused-open", "%s: connection %d was accepted, not served and not closed", when, l.ID)
				}
				if w.max <= 0 {
					r.Fail("refused", "%s: connection %d was refused without a limit", when, l.ID)
				}
			}
			if l.Dead() && l.accepted && !l.ends[1].closed {
				r.Fail("dead-open", "%s: connection %d is dead, the server still holds it", when, l.ID)
			}
		}
		if int64(total) != s.Accepted {
			r.Fail("accounting", "%s: Accepted %d, OnConnected was called for %d connections", when, s.Accepted, total)
		}
	}
	check("at rest")
	if r.Plan.K("restart") == 1 && !ln.closed {
		// stopped with its connections, then serving again
		s.Stop()
		time.Sleep(time.Second)
		if !served {
			r.Fail("serve", "Serve did not return after Stop")
		}
		check("stopped")
		if s.CurrLoad != 0 {
			r.Fail("accounting", "the server is stopped, CurrLoad is %d", s.CurrLoad)
		}
		served = false
		ln = r.Net.Listen("s0")
		go func() { r.runServer(s, ln); served = true }()
		time.Sleep(ms(10))
		r.count("restarted")
	}
	// fill it up: exactly the free slots are served
	if r.V == nil && !ln.closed {
		free := 4
		if w.max > 0 {
			free = w.max - w.open()
		}
		for k := 0; k < free+2; k++ {
			p := r.dialRaw("s0", "raw")
			if p == nil {
				break
			}
			go p.pump()
			p.send(NewRng(1), req(9), 0, 0)
			time.Sleep(200 * time.Millisecond)
			want := w.max <= 0 || k < free
			if got := len(p.got) == 1 && !p.eof; got != want {
				r.Fail("slots", "with %d free slots (MaxLoad %d), new connection %d: served %v, closed %v", free, w.max, k+1, len(p.got) == 1, p.eof)
			}
			if !want && !p.eof {
				r.Fail("slots", "a refused connection is left open")
			}
			open = append(open, p)
		}
		check("full")
		if len(open) > 0 && w.max > 0 {
			// freeing one slot admits one more
			for _, p := range open {
				if w.adm[p.e.l.ID] && !p.e.l.Dead() {
					p.e.Close()
					time.Sleep(200 * time.Millisecond)
					q := r.dialRaw("s0", "raw")
					go q.pump()
					q.send(NewRng(1), req(9), 0, 0)
					time.Sleep(200 * time.Millisecond)
					if len(q.got) != 1 {
						r.Fail("slots", "a slot was freed but the next connection was not served")
					}
					open = append(open, q)
					break
				}
			}
			check("reused")
		}
	}
	for _, p := range open {
		if !p.e.closed {
			p.e.Close()
		}
	}
	time.Sleep(time.Second)
	check("all closed")
	if s.CurrLoad != 0 {
		r.Fail("accounting", "all connections are closed, CurrLoad is %d", s.CurrLoad)
	}
	s.Stop()
	time.Sleep(time.Second)
	if !served {
		r.Fail("serve", "Serve did not return after Stop")
	}
	for _, l := range r.Net.links {
		if !l.ends[0].closed {
			l.ends[0].Close()
		}
	}
	r.leakCheck(base, 5*time.Second)
}

// ---------------------------------------------------------------- C11

func init() {
	register(&Prop{ID: "C11", Rule: "non-trivial when a server was stopped with connections", Gen: genC11, Exec: execC11,
		NonTrivial: func(r *Run) bool { return r.Counts["stopped"] > 0 }})
}

func genC11(g *Rng, p *Plan) {
	noStalls(p)
	nc := g.In(1, 4)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "rbs", "sq", "pool", "syncresp", "clone")
	p.Knobs["slowconn"] = g.Pick(0, 0, 0, 5, 80)
	p.Knobs["fatal"] = g.Pick(0, 0, 0, 0, 1)
	genOps(g, p, opGen{
		kinds:   []string{"call", "cctx", "async", "notify", "scall", "snotify"},
		methods: []int{0, 1, 2, 6}, actors: 4, ops: 5, clients: nc,
		maxGap: 50000, tmin: 10000, tmax: 500_000, slow: g.Pick(0, 3000, 300_000), size: 200})
	p.Actors = append(p.Actors, nil)
	last := len(p.Actors) - 1
	for k := g.In(1, 3); k > 0; k-- {
		p.Actors[last] = append(p.Actors[last], Op{K: g.PickS("srvstop", "shutdown", "shutdown"), D: g.Log(1, 100_000), E: g.Pick(0, 1, 1000, 60_000, 3_000_000), B: g.N(2)})
	}
	p.Knobs["stopper"] = last
	// connections that arrive around the stop
	for k := g.N(4); k > 0; k-- {
		p.Actors = append(p.Actors, []Op{{K: "raw", D: g.Log(1, 100_000), A: g.N(2)}})
	}
	genFaults(g, p, 3, 60000, "reset", "cut", "accepterr", "accepterr", "hold")
	p.Net.SendBuf = 0
}

func execC11(r *Run) {
	base := runtime.VerifBubbleTotal()
	w := newRPCWorld(r, r.Plan.K("_clients"))
	slow := ms(r.Plan.K("slowconn"))
	s := r.newServer()
	w.register(s.Handler, true)
	conn, disc := map[int]int{}, map[int]int{}
	s.Handler.HandleConnected(func(c *arpc.Client) {
		l := LinkOf(c.Conn)
		conn[l.ID]++
		w.slast[tagIdx(l.Tag)] = c
		r.ev("srv-connected", l.ID)
		sleep(slow)
	})
	s.Handler.HandleDisconnected(func(c *arpc.Client) {
		disc[linkID(c)]++
		r.ev("srv-disconnected", linkID(c))
	})
	w.srv = s
	w.srvs = append(w.srvs, s)
	type serveRec struct {
		ln     *Listener
		done   bool
		at     time.Duration
		err    error
		stopAt time.Duration
		fatal  error
	}
	var cur *serveRec
	start := func() {
		sr := &serveRec{ln: r.Net.Listen("s0")}
		cur = sr
		go func() {
			sr.err = r.runServer(s, sr.ln)
			sr.done, sr.at = true, r.Now()
			r.ev("serve-returned")
		}()
	}
	start()
	time.Sleep(us(10))
	for i := range w.clis {
		h := r.newHandler()
		w.register(h, false)
		w.clis[i] = r.connect("s0", fmt.Sprintf("c%d", i), h)
		if w.clis[i] == nil {
			return
		}
	}
	checkStopped := func(sr *serveRec, k int) {
		// a temporary accept error pauses the loop for 50 ms, a connection
		// being introduced for as long as its OnConnected handler takes
		grace := ms(50) + slow + slack
		until(grace+ms(50), slack, func() bool { return sr.done })
		if !sr.done || sr.at > sr.stopAt+grace {
			r.Fail("serve", "Serve has not returned by %v after stop %d (returned: %v at %v, stopped at %v)", r.Now()-sr.stopAt, k, sr.done, sr.at, sr.stopAt)
			return
		}
		if !sr.ln.closed && sr.fatal == nil {
			r.Fail("listener", "the listener is open after stop %d", k)
		}
		if sr.fatal != nil && sr.err != sr.fatal {
			r.Fail("serve", "Serve returned %v after the listener failed with %v", sr.err, sr.fatal)
		}
		time.Sleep(slack)
		for _, l := range r.Net.links {
			if l.accepted && !l.ends[1].closed {
				r.Fail("open", "the server stopped at %v, Serve returned at %v; connection %d is still open at %v", sr.stopAt, sr.at, l.ID, r.Now())
			}
		}
		n := 0
		s.ForEach(func(c *arpc.Client) { n++ })
		if n != 0 {
			r.Fail("clients", "%d clients are listed after the server stopped", n)
		}
		time.Sleep(ms(5))
		for id := range conn {
			if conn[id] != 1 || disc[id] != 1 {
				r.Fail("events", "after stop %d connection %d: OnConnected %d times, OnDisconnected %d times", k, id, conn[id], disc[id])
			}
		}
		if s.CurrLoad != 0 {
			r.Fail("accounting", "after stop %d CurrLoad is %d", k, s.CurrLoad)
		}
		if r.Now()-sr.stopAt > 0 {
			r.count("stopped")
		}
	}
	r.actors(w.limit, func(a, i int, op Op) {
		switch op.K {
		case "raw":
			if p := r.dialRaw("s0", "c9"); p != nil {
				go p.pump()
				p.e.Write(frame{cmd: wNotify, method: "none.a", seq: 1, data: []byte(mkPay("Q", 600000+a, 0, 1))}.enc())
				w.byID[600000+a] = &callRec{id: 600000 + a, method: "none.a", toServer: true}
				if op.A == 1 {
					time.Sleep(ms(1))
					p.e.Close()
				}
			}
		case "srvstop", "shutdown":
			sr := cur
			sr.stopAt = r.Now()
			r.fault("server-stop")
			r.ev(op.K)
			switch {
			case r.Plan.K("fatal") == 1 && i == 0:
				sr.fatal = &net.OpError{Op: "accept", Net: "sim", Err: errors.New("listener failed")}
				sr.ln.fatal = sr.fatal
				sr.ln.g.wake()
			case op.K == "srvstop":
				s.Stop()
				if r.Now() > sr.stopAt+time.Second+slack {
					r.Fail("stop", "Stop took %v", r.Now()-sr.stopAt)
				}
			default:
				ctx, cancel := ctxTimeout(us(op.E))
				err := s.Shutdown(ctx)
				cancel()
				d := r.Now() - sr.stopAt
				if d > us(op.E)+slack {
					r.Fail("shutdown", "Shutdown with a deadline of %v took %v", us(op.E), d)
				}
				if err != nil && d < us(op.E) {
					r.Fail("shutdown", "Shutdown with a deadline of %v returned %v after %v", us(op.E), err, d)
				}
				if err != nil && us(op.E) > ms(60)+slow {
					r.Fail("shutdown", "Shutdown with a deadline of %v returned %v", us(op.E), err)
				}
				if err == nil {
					r.count("shutdown_ok")
				} else {
					r.count("shutdown_late")
				}
				if err == nil && !sr.done {
					// Serve is about to return
					until(slack, slack/4, func() bool { return sr.done })
					if !sr.done {
						r.Fail("shutdown", "Shutdown returned nil but Serve has not returned")
					}
				}
			}
			checkStopped(sr, i)
			na := s.Accepted
			time.Sleep(ms(20))
			if s.Accepted != na {
				r.Fail("accept", "%d connections were accepted after the server stopped", s.Accepted-na)
			}
			if op.B == 1 || i+1 < len(r.Plan.Actors[a]) {
				if !sr.ln.closed {
					sr.ln.Close()
				}
				start()
			}
		default:
			w.issue(a, i, op)
		}
	})
	r.quell()
	if cur.stopAt == 0 {
		// running again: it serves
		time.Sleep(100 * time.Millisecond)
		for i, c := range w.clis {
			if !until(5*time.Second, ms(50), func() bool {
				return w.tryCall(c, 500000+int(r.Now()/ms(1))%100000, "echo.a", true, time.Second) == nil
			}) {
				r.Fail("reserve", "client %d can't use the server which is serving again: %v", i, c.CheckState())
			}
		}
		r.count("reserved")
		cur.stopAt = r.Now()
		s.Stop()
		checkStopped(cur, 99)
	}
	for _, c := range w.clis {
		c.Stop()
	}
	for _, l := range r.Net.links {
		if !l.ends[0].closed {
			l.ends[0].Close()
		}
	}
	r.leakCheck(base, 10*time.Second)
}
