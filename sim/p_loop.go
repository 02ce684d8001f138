package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/lesismal/arpc"
)

// ---------------------------------------------------------------- C31

func init() {
	register(&Prop{ID: "C31", Rule: "non-trivial when a call was answered by a connection driven by the event loop", Gen: genC31, Exec: execC31,
		NonTrivial: func(r *Run) bool { return r.Counts["rsp"]+r.Counts["rsp_err"] > 0 },
		Real:       []string{"arpc clients of the event loop's connections"}})
}

func genC31(g *Rng, p *Plan) {
	if g.P(2) {
		noStalls(p)
	}
	nc := g.In(1, 3)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "syncresp", "clone", "codec", "coder", "nil")
	p.Knobs["lpool"] = g.N(2)
	p.Knobs["disp"] = g.Pick(0, 1, 1, 3) // in the reader, a goroutine each, workers
	p.Knobs["rd"] = g.Pick(1, 7, 16, 100, 4096, 4096)
	p.Knobs["state"] = g.N(2)
	genOps(g, p, opGen{
		kinds:   []string{"call", "call", "call", "cctx", "async", "async", "notify", "nctx", "push", "ping", "unknown", "unknown0", "badml", "snotify", "snctx", "spush", "spush0"},
		methods: []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, actors: 5, ops: 7, clients: nc,
		maxGap: 20000, tmin: 300, tmax: 5_000_000, slow: g.Pick(0, 100, 3000, 30000), size: g.Pick(20, 300, 3000, 20000)})
	if p.Knobs["rd"] < 16 || (p.Net.Chunk > 0 && p.Net.Chunk < 40) {
		for _, a := range p.Actors {
			for i := range a {
				a[i].C = min(a[i].C, 300)
			}
		}
	}
	// synchronous writes in the reader's goroutine block with the peer
	p.Net.SendBuf = 0
	if g.P(3) {
		genFaults(g, p, 3, 60000, "reset", "cut", "partwrite", "hold", "slowread", "partition", "dialfail")
	}
}

// loopServer serves connections the way an application with its own
// non-blocking network engine does.
type loopServer struct {
	r       *Run
	w       *rpcWorld
	h       arpc.Handler
	ln      *Listener
	work    chan func()
	clients int
}

func (s *loopServer) conn(e *End) {
	c := &arpc.Client{Conn: e, Codec: s.r.codec(), Handler: s.h}
	if s.r.Plan.K("state") == 1 {
		c.SetState(true)
	}
	s.clients++
	s.w.slast[tagIdx(e.l.Tag)] = c
	var cache []byte
	buf := make([]byte, s.r.Plan.K("rd"))
	for {
		n, err := e.Read(buf)
		if err != nil {
			break
		}
		cache = append(cache, buf[:n]...)
		for len(cache) >= arpc.HeadLen {
			total := arpc.HeadLen + arpc.Header(cache[:4]).BodyLen()
			if len(cache) < total {
				break
			}
			b := s.h.Malloc(total)
			copy(b, cache)
			cache = cache[total:]
			m := s.h.NewMessageWithBuffer(b)
			f := func() { s.h.OnMessage(c, m) }
			switch s.r.Plan.K("disp") {
			case 0:
				f()
			case 1:
				go f()
			default:
				s.work <- f
			}
		}
	}
	e.Close()
	c.SetState(false)
	s.h.OnDisconnected(c)
}

func execC31(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	h := r.newHandler()
	h.SetAsyncWrite(false)
	if r.Plan.K("lpool") == 1 {
		h.EnablePool(true)
		h.HandleFree(func(b []byte) {
			poison(b)
			arpc.DefaultAllocator.Free(b)
		})
	}
	w.register(h, true)
	disc := 0
	h.HandleDisconnected(func(c *arpc.Client) { disc++ })
	s := &loopServer{r: r, w: w, h: h, ln: r.Net.Listen("s0"), work: make(chan func(), 4096)}
	for i := 0; i < r.Plan.K("disp"); i++ {
		go func() {
			for f := range s.work {
				f()
			}
		}()
	}
	go func() {
		for {
			c, err := s.ln.Accept()
			if err != nil {
				return
			}
			go s.conn(c.(*End))
		}
	}()
	for i := range w.clis {
		h := r.newHandler()
		w.register(h, false)
		if w.clis[i] = r.connect("s0", fmt.Sprintf("c%d", i), h); w.clis[i] == nil {
			return
		}
		w.clis[i].Codec = r.codec()
	}
	plain := r.Plan.K("coder") == 0
	unknown := map[int]error{}
	r.actors(w.limit, func(a, i int, op Op) {
		c := w.clis[op.A]
		switch op.K {
		case "ping":
			c.Ping()
			r.count("ping")
		case "unknown", "unknown0":
			err := c.Call("no."+strings.Repeat("x", op.F), "q", nil, us(op.E))
			if op.K == "unknown" {
				unknown[a*1000+i] = err
			}
		case "badml":
			// a request whose method is longer than the message
			if plain {
				m := c.NewMessage(arpc.CmdNotify, "m", "q")
				m.SetMethodLen(100)
				c.PushMsg(m, ms(100))
			}
		default:
			if strings.HasPrefix(op.K, "s") && r.Plan.K("state") == 0 {
				return // not running: refuses
			}
			w.issue(a, i, op)
		}
	})
	time.Sleep(20 * time.Second)
	if r.Plan.Sched.StallP > 0 {
		time.Sleep(300 * time.Second)
	}
	w.checkCorrelation()
	w.checkDelivery()
	for id, err := range unknown {
		if err != nil && !isArpcErr(err) && !isNetErr(err) && err.Error() != arpc.ErrMethodNotFound.Error() {
			r.Fail("not-found", "call %d of an unknown method returned %v", id, err)
		}
		if err == nil {
			r.Fail("not-found", "call %d of an unknown method succeeded", id)
		}
	}
	if r.healthy() && r.Plan.Sched.StallP == 0 {
		for _, cr := range w.calls {
			if cr.done && cr.err == nil && len(w.handled[cr.id]) != 1 {
				r.Fail("lost", "%s %d on %s was accepted on a healthy connection but handled %d times", cr.kind, cr.id, cr.method, len(w.handled[cr.id]))
			}
			if len(w.handled[cr.id]) == 1 && cr.toServer && !strings.HasPrefix(cr.method, "none") && cr.done {
				hr := w.handled[cr.id][0]
				// the answer was written long before the timeout
				if (isCall(cr.kind) && (cr.err == arpc.ErrClientTimeout || isNetErr(cr.err)) || isAsyncOp(cr.kind) && len(cr.cbs) == 1 && cr.cbs[0].err == arpc.ErrTimeout) && hr.end+us(2*r.Plan.Net.DelayMax)+ms(50) < cr.t0+cr.timeout && r.Plan.K("rd") == 4096 && r.Plan.Net.Chunk == 0 {
					r.Fail("no-response", "%s %d on %s was answered at %v but timed out after %v", cr.kind, cr.id, cr.method, hr.end, cr.timeout)
				}
			}
		}
		for id, l := range r.Net.links {
			if l.ends[0].closed || l.ends[1].closed {
				r.Fail("closed", "connection %d was closed though nothing was wrong", id)
			}
		}
		if n := s.clients; n != len(w.clis) {
			r.Fail("closed", "%d connections for %d clients", n, len(w.clis))
		}
		r.count("healthy")
	}
	// what both ends wrote is well-formed; every request has at most one response, every ping one pong
	pings, pongs := 0, 0
	for _, l := range r.Net.links {
		if !plain {
			break
		}
		var fs [2][]frame
		for d := range l.h {
			var rest []byte
			var err error
			fs[d], rest, err = decFrames(l.h[d].log)
			if err != nil && d == 1 { // the invalid request
				r.Fail("frame", "connection %d direction %d: %v", l.ID, d, err)
				return
			}
			if len(rest) > 0 && err == nil && !l.h[d].werr {
				r.Fail("frame", "connection %d direction %d ends with %d bytes of a frame though no write failed", l.ID, d, len(rest))
			}
		}
		rsps := map[uint64]int{}
		for _, f := range fs[1] {
			switch f.cmd {
			case wPong:
				pongs++
			case wResponse:
				if rsps[f.seq]++; rsps[f.seq] > 1 {
					r.Fail("frame-rsp", "connection %d: request %d was answered twice", l.ID, f.seq)
				}
			}
		}
		for _, f := range fs[0] {
			if f.cmd == wPing {
				pings++
			}
		}
	}
	if r.healthy() && r.Plan.Sched.StallP == 0 && pongs < pings {
		r.Fail("pong", "%d pings were sent, %d pongs", pings, pongs)
	}
	w.finished = true
	for _, c := range w.clis {
		c.Stop()
	}
	s.ln.Close()
	time.Sleep(3 * time.Second)
	for _, l := range r.Net.links {
		if !l.ends[0].closed {
			l.ends[0].Close()
		}
	}
	until(10*time.Second, ms(100), func() bool { return disc == s.clients })
	if disc != s.clients && r.Plan.Sched.StallP == 0 {
		r.Fail("disconnected", "%d connections, OnDisconnected was called %d times", s.clients, disc)
	}
	close(s.work)
}
