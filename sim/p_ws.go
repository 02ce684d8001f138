package main

import (
	"io"
	"log"
	"net"
	"net/http"
	"time"

	gws "github.com/gorilla/websocket"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/protocol/websocket"
)

// ---------------------------------------------------------------- C28

// The scenarios and oracles of other properties, over the websocket transport:
// a real HTTP server and real websocket framing on the simulated network.
var wsInner = []string{"C01", "C03", "C05", "C08", "C12", "C13", "C14", "C21"}

func init() {
	register(&Prop{ID: "C28", Rule: "non-trivial when the inner scenario is", Gen: genC28, Exec: execC28,
		NonTrivial: func(r *Run) bool {
			if r.Plan.K("_raw") == 1 {
				return r.Counts["echoed"]+r.Counts["refused"] > 0
			}
			in := props[wsInner[r.Plan.K("_inner")%len(wsInner)]]
			if in.NonTrivial != nil {
				return in.NonTrivial(r)
			}
			return r.Ops > 0
		}})
}

func genC28(g *Rng, p *Plan) {
	if g.P(4) {
		genWSRaw(g, p)
		return
	}
	k := g.N(len(wsInner))
	props[wsInner[k]].Gen(g, p)
	p.Knobs["_inner"] = k
	p.Knobs["_ws"] = 1
	if wsInner[k] == "C13" {
		p.Faults = nil // its known finding needs them
	}
	p.Net.SendBuf = 0
	p.Sched.MaxStalls = min(p.Sched.MaxStalls, 1) // a handshake has 3 s
	p.Net.Chunk = g.Pick(0, 0, 7, 100)            // handshakes byte by byte are slow
}

func execC28(r *Run) {
	if r.Plan.K("_raw") == 1 {
		execWSRaw(r)
		return
	}
	props[wsInner[r.Plan.K("_inner")%len(wsInner)]].Exec(r)
}

var quietLog = log.New(io.Discard, "", 0)

// wsServe serves s on a websocket listener behind an HTTP server on ln.
func (r *Run) wsServe(s *arpc.Server, ln *Listener) error {
	wl, err := websocket.Listen("127.0.0.1:80", nil)
	if err != nil {
		r.Fail("ws", "Listen: %v", err)
		return err
	}
	hs := &http.Server{Handler: http.HandlerFunc(wl.(*websocket.Listener).Handler), ErrorLog: quietLog}
	go func() {
		hs.Serve(ln)
		wl.Close()
	}()
	err = s.Serve(wl)
	hs.Close()
	ln.Close()
	return err
}

func (n *Net) wsDial(addr, tag string) (net.Conn, error) {
	d := &gws.Dialer{
		NetDial:          func(string, string) (net.Conn, error) { return n.dial(addr, tag) },
		HandshakeTimeout: 3 * time.Second,
	}
	return websocket.Dial("ws://127.0.0.1/ws", d)
}

// genWSRaw: the listener and its connections by themselves.
func genWSRaw(g *Rng, p *Plan) {
	noStalls(p)
	p.Knobs["_raw"], p.Knobs["_ws"] = 1, 1
	p.Net.SendBuf = 0
	span := g.Pick(100, 10_000, 500_000)
	for a := g.In(1, 6); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 3); k > 0; k-- {
			op := Op{K: "conn", A: g.N(1000), B: g.In(0, 6), C: g.Log(1, g.Pick(10, 300, 10_000)), E: g.Pick(1, 3, 50, 1000, 20_000), F: g.N(3)}
			if g.P(2) {
				op.D = g.Log(1, span)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	p.Knobs["accept"] = g.Pick(0, 0, 0, 1, 3) // Accept is called only that often
	if g.P(3) { // Accept is called late, or slowly: connections queue up
		p.Knobs["late"] = g.Log(1, 3_000_000)
		p.Knobs["pause"] = g.Pick(0, 0, g.Log(1, 300_000))
		if g.P(2) {
			for a := g.In(2, 12); a > 0; a-- {
				p.Actors = append(p.Actors, []Op{{K: "conn", A: g.N(1000), B: g.In(1, 3), C: g.Log(1, 300), E: g.Pick(3, 50, 1000), F: g.N(3)}})
			}
		}
	}
	if g.P(2) {
		for k := g.In(1, 2); k > 0; k-- {
			p.Actors = append(p.Actors, []Op{{K: "close", D: g.Log(1, 2*span)}})
		}
	}
	if g.P(3) {
		genFaults(g, p, 2, span, "reset", "cut", "hold")
	}
}

func execWSRaw(r *Run) {
	ln := r.Net.Listen("s0")
	nl, err := websocket.Listen("127.0.0.1:80", nil)
	if err != nil {
		r.Fail("ws", "Listen: %v", err)
		return
	}
	wl := nl.(*websocket.Listener)
	hs := &http.Server{Handler: http.HandlerFunc(wl.Handler), ErrorLog: quietLog}
	go hs.Serve(ln)
	accepted := map[int]bool{}
	var acceptErr error
	accepts := 0
	go func() {
		sleep(us(r.Plan.K("late")))
		for n := r.Plan.K("accept"); n == 0 || accepts < n; accepts++ {
			if accepts > 0 {
				sleep(us(r.Plan.K("pause")))
			}
			c, err := wl.Accept()
			if err != nil {
				acceptErr = err
				return
			}
			id := LinkOf(c).ID
			r.ev("ws-accept", id)
			if accepted[id] {
				r.Fail("twice", "connection %d was accepted twice", id)
			}
			accepted[id] = true
			g := NewRng(r.Plan.Seed, 0x5e, uint64(id))
			go func() { // echo, in pieces of other sizes
				b := make([]byte, g.Pick(1, 3, 16, 500, 70_000))
				for {
					n, err := c.Read(b[:g.In(1, len(b))])
					if n > 0 {
						if m, err := c.Write(b[:n]); err == nil && m != n {
							r.Fail("write", "Write of %d bytes returned %d", n, m)
						}
					}
					if err != nil {
						break
					}
				}
				c.Close()
			}()
		}
	}()
	closing, closed, closedAt := false, false, time.Duration(0)
	ok := r.actors(5*time.Minute, func(a, i int, op Op) {
		if op.K == "close" {
			r.ev("ws-close")
			closing = true
			if err := wl.Close(); err != nil {
				r.Fail("close", "Close: %v", err)
			}
			if !closed {
				closed, closedAt = true, r.Now()
			}
			return
		}
		c, err := r.Net.wsDial("s0", "c0")
		if err != nil {
			if len(r.Fired) == 0 && !closing {
				r.Fail("dial", "Dial: %v", err)
			}
			return
		}
		l := LinkOf(c)
		start := r.Now()
		var want []byte
		sent := make(chan bool)
		total := 0
		for k := 0; k < op.B; k++ {
			total += len(fill(op.A+k, op.C*(k%3)))
		}
		g := NewRng(r.Plan.Seed, 0x5f, uint64(l.ID))
		go func() {
			defer close(sent)
			for k := 0; k < op.B; k++ {
				b := []byte(fill(op.A+k, op.C*(k%3)))
				want = append(want, b...)
				n, err := c.Write(b)
				if err != nil {
					return
				}
				if n != len(b) {
					r.Fail("write", "Write of %d bytes returned %d", len(b), n)
				}
				if g.P(3) {
					sleep(us(g.N(1000)))
				}
			}
		}()
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		got := make([]byte, 0, total)
		b := make([]byte, op.E)
		for len(got) < total {
			n, rerr := c.Read(b[:g.In(1, len(b))])
			got = append(got, b[:n]...)
			if rerr != nil {
				err = rerr
				break
			}
		}
		<-sent
		if len(got) > len(want) || string(got) != string(want[:len(got)]) {
			r.Fail("bytes", "connection %d: the echo differs from what was written at byte %d of %d", l.ID, diffAt(got, want), len(got))
		}
		if err == nil {
			if total > 0 {
				r.count("echoed")
			}
		} else if len(r.Fired) == 0 && (accepted[l.ID] || (!closing && r.Plan.K("accept") == 0)) {
			r.Fail("bytes", "connection %d: %d of %d bytes came back: %v", l.ID, len(got), total, err)
		}
		if !accepted[l.ID] && closed {
			// refused: it must have been closed
			_, err := c.Read(b)
			if err == nil || r.Now() > max(start, closedAt)+slack+us(4*r.Plan.Net.DelayMax) && r.Fired["hold"] == 0 {
				r.Fail("refused", "connection %d was not accepted before the listener was closed, and was left open (read: %v)", l.ID, err)
			}
			r.count("refused")
		}
		if op.F == 0 {
			sleep(us(op.C))
		}
		c.Close()
	})
	if !ok {
		r.Fail("stuck", "operations have not ended after 5 minutes")
		return
	}
	r.quell()
	if !closed {
		wl.Close()
	}
	time.Sleep(5 * time.Second)
	if acceptErr == nil && (r.Plan.K("accept") == 0 || accepts < r.Plan.K("accept")) {
		r.Fail("close", "Accept has not returned after Close")
	}
	for _, l := range r.Net.links {
		if l.accepted && !l.ends[1].closed && l.rst == nil {
			r.Fail("left-open", "everything was closed, connection %d is open at the server (accepted: %v)", l.ID, accepted[l.ID])
		}
	}
	hs.Close()
	ln.Close()
	time.Sleep(3 * time.Second)
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}
