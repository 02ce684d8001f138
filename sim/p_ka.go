package main

import (
	"encoding/binary"
	"errors"
	"net"
	"os"
	"time"

	"github.com/lesismal/arpc"
)

// ---------------------------------------------------------------- C23

func init() {
	register(&Prop{ID: "C23", Rule: "non-trivial when a timeout closed a connection or a keepalive kept one open", Gen: genC23, Exec: execC23,
		NonTrivial: func(r *Run) bool { return r.Counts["timed_out"]+r.Counts["kept"] > 0 }})
}

func genC23(g *Rng, p *Plan) {
	noStalls(p)
	p.Net.RstClose = false
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "clone")
	d := func() int { return g.Pick(0, 300, 1000, 3000, 10_000) } // milliseconds
	p.Knobs["rtoS"], p.Knobs["rtoC"] = d(), d()
	p.Knobs["wtoS"], p.Knobs["wtoC"] = g.Pick(0, 0, 5, 100, 2000), g.Pick(0, 0, 5, 100, 2000)
	p.Knobs["ka"] = g.Pick(0, 100, 200, 700, 2500, 8000, 30_000) // the last: by default
	p.Knobs["kaS"] = g.Pick(0, 0, 100, 700, 2500)
	p.Knobs["hooks"] = g.Pick(0, 0, g.In(1, 3))
	p.Knobs["half"] = g.Pick(0, g.In(1, 36))
	p.Knobs["dur"] = g.Pick(5, 8, 15, 35) // seconds
	if p.Net.SendBuf > 0 && p.Knobs["syncwrite"] == 1 {
		p.Net.SendBuf = 0
	}
	for a := g.N(3); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 6); k > 0; k-- {
			op := Op{K: g.PickS("call", "call", "notify", "ping", "sping", "snotify", "async", "burst"), C: g.Log(1, 2000) - 1}
			if g.P(2) {
				op.D = g.Log(1, 3_000_000)
			} else {
				// next to a multiple of a timeout
				op.D = 1000 * (g.Pick(p.Knobs["rtoS"], p.Knobs["rtoC"], p.Knobs["ka"], 100))
				op.D += g.Pick(0, 0, -1, 1, -100, 100)
				op.D = max(op.D, 1)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if len(p.Actors) == 0 {
		p.Actors = append(p.Actors, []Op{{K: "call"}})
	}
	if g.P(2) {
		for k := g.In(1, 3); k > 0; k-- {
			f := Fault{Kind: g.PickS("hold", "hold", "hold", "slowread", "reset", "dialfail"), At: g.Log(1, 20_000_000), Conn: g.N(3), Dir: g.N(3)}
			switch f.Kind {
			case "hold":
				if g.P(2) {
					f.Dur = g.Log(1000, 20_000_000)
				}
			case "slowread":
				f.Dur = g.Log(1000, 20_000_000)
				f.Dir = g.N(2)
			case "dialfail":
				f.N = 1
			}
			p.Faults = append(p.Faults, f)
		}
		if p.Net.SendBuf == 0 && p.Knobs["syncwrite"] == 0 && g.P(2) {
			p.Net.SendBuf = g.Pick(64, 300)
		}
	}
}

// frameEnds returns the offsets at which the frames of a byte stream end.
func frameEnds(b []byte) (ends []int, cmds []byte) {
	o := 0
	for len(b)-o >= wHead {
		n := wHead + int(binary.LittleEndian.Uint32(b[o:]))
		if len(b)-o < n {
			break
		}
		cmds = append(cmds, b[o+5]&0x3f)
		o += n
		ends = append(ends, o)
	}
	return
}

// timeOf returns when the total of evs first reached off (-1: never).
func timeOf(evs []ioEv, off int) time.Duration {
	for _, e := range evs {
		if e.total >= off {
			return e.at
		}
	}
	return -1
}

func execC23(r *Run) {
	r.Net.trace = true
	rto := [2]time.Duration{ms(r.Plan.K("rtoC")), ms(r.Plan.K("rtoS"))}
	wto := [2]time.Duration{ms(r.Plan.K("wtoC")), ms(r.Plan.K("wtoS"))}
	ka := ms(r.Plan.K("ka"))
	kaS := ms(r.Plan.K("kaS"))
	setup := func(h arpc.Handler, side int) {
		// the deadlines may also be set by the user's hooks
		if d := rto[side]; d > 0 && r.Plan.K("hooks")&1 != 0 {
			h.BeforeRecv(func(c net.Conn) error { return c.SetReadDeadline(time.Now().Add(d)) })
		} else if d > 0 {
			h.SetReadTimeout(d)
		}
		if d := wto[side]; d > 0 && r.Plan.K("hooks")&2 != 0 {
			h.BeforeSend(func(c net.Conn) error { return c.SetWriteDeadline(time.Now().Add(d)) })
		} else if d > 0 {
			h.SetWriteTimeout(d)
		}
		h.Handle("e", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) }, false)
		h.Handle("n", func(ctx *arpc.Context) {}, false)
	}
	s := r.newServer()
	setup(s.Handler, 1)
	var slast *arpc.Client
	s.Handler.HandleConnected(func(c *arpc.Client) {
		slast = c
		if kaS > 0 {
			c.Keepalive(kaS)
		}
	})
	ln := r.serve(s, "s0")
	time.Sleep(us(10))
	h := r.newHandler()
	setup(h, 0)
	c := r.connect("s0", "c0", h)
	if c == nil {
		return
	}
	kaStart := r.Now()
	if ka == 30*time.Second {
		c.Keepalive(time.Duration(-r.Plan.K("half")))
	} else if ka > 0 {
		c.Keepalive(ka)
	}
	// the last complete message an end has read
	last := func(l *Link, side int) time.Duration {
		e := l.ends[side]
		t := l.openedAt
		if side == 1 {
			t = l.accAt
		}
		h := e.in()
		ends, _ := frameEnds(h.log)
		for k := len(ends) - 1; k >= 0; k-- {
			if ends[k] <= h.read {
				if x := timeOf(h.reads, ends[k]); x > t {
					t = x
				}
				break
			}
		}
		return t
	}
	watching := true
	// a synchronous response may block the reader
	wblocks := func(side int) bool { return r.Plan.Net.SendBuf > 0 }
	go func() {
		for watching {
			now := r.Now()
			for _, l := range r.Net.links {
				if !l.accepted {
					continue
				}
				for side := 0; side < 2; side++ {
					e := l.ends[side]
					if e.closed {
						continue
					}
					if T := rto[side]; T > 0 && !wblocks(side) {
						if t := last(l, side); now > t+T+slack {
							r.Fail("silent", "side %d of connection %d has read no message since %v, its read timeout is %v, and it is still open at %v", side, l.ID, t, T, now)
						}
					}
					if W := wto[side]; W > 0 && e.wStart >= 0 && now > e.wStart+W+slack {
						r.Fail("write-stuck", "side %d of connection %d is writing since %v, its write timeout is %v", side, l.ID, e.wStart, W)
					}
					if e.werr != nil && now > e.werrAt+slack {
						r.Fail("write-open", "side %d of connection %d failed to write at %v (%v) and is still open", side, l.ID, e.werrAt, e.werr)
					}
				}
			}
			time.Sleep(ms(50))
		}
	}()
	pending := 0
	finished := r.actors(5*time.Minute, func(a, i int, op Op) {
		p := mkPay("K", a*100+i, 0, op.C)
		switch op.K {
		case "call":
			var rsp string
			err := c.Call("e", p, &rsp, 30*time.Second)
			if err == nil && rsp != p {
				r.Fail("response", "got %q", clip(rsp))
			}
		case "async":
			pending++
			if c.CallAsync("e", p, func(*arpc.Context, error) { pending-- }, 30*time.Second) != nil {
				pending--
			}
		case "burst":
			// pings while messages wait to be sent
			for k := 1 + op.C%4; k > 0; k-- {
				pending++
				if c.CallAsync("e", p, func(*arpc.Context, error) { pending-- }, 30*time.Second) != nil {
					pending--
				}
				if slast != nil {
					slast.Notify("n", p, 30*time.Second)
				}
			}
			c.Ping()
			if slast != nil {
				slast.Ping()
			}
		case "notify":
			c.Notify("n", p, 30*time.Second)
		case "snotify":
			if slast != nil {
				slast.Notify("n", p, 30*time.Second)
			}
		case "ping":
			c.Ping()
		case "sping":
			if slast != nil {
				slast.Ping()
			}
		}
	})
	if !finished && r.Plan.Net.SendBuf == 0 {
		r.Fail("stuck", "operations have not ended after 5 minutes")
	}
	end := time.Duration(r.Plan.K("dur")) * time.Second
	if d := end - r.Now(); d > 0 {
		time.Sleep(d)
	}
	time.Sleep(us(2*r.Plan.Net.DelayMax) + slack)
	watching = false
	now := r.Now()
	for _, l := range r.Net.links {
		if !l.accepted {
			continue
		}
		for side := 0; side < 2; side++ {
			e := l.ends[side]
			if errors.Is(e.rerr, os.ErrDeadlineExceeded) {
				T := rto[side]
				if T == 0 {
					r.Fail("early", "side %d of connection %d has no read timeout and timed out at %v", side, l.ID, e.rerrAt)
				}
				if t := last(l, side); e.rerrAt < t+T {
					r.Fail("early", "side %d of connection %d read a message at %v and timed out at %v, its read timeout is %v", side, l.ID, t, e.rerrAt, T)
				}
				r.count("timed_out")
			}
			if errors.Is(e.werr, os.ErrDeadlineExceeded) {
				W := wto[side]
				if W == 0 || e.werrAt < e.wBegan+W {
					r.Fail("write-early", "side %d of connection %d failed to write with a timeout %v after it began, its write timeout is %v", side, l.ID, e.werrAt-e.wBegan, W)
				}
				r.count("timed_out")
			}
		}
		// the keepalive pings
		if ka > 0 && !wblocks(0) {
			ends, cmds := frameEnds(l.h[0].log)
			prev := max(l.openedAt, kaStart)
			chk := func(t time.Duration) {
				if t > prev+ka+slack {
					r.Fail("no-ping", "connection %d: keepalive every %v, but no ping was sent from %v to %v", l.ID, ka, prev, t)
				}
				prev = t
			}
			for k := range ends {
				if cmds[k] == wPing {
					chk(timeOf(l.h[0].wrote, ends[k]))
				}
			}
			t := now
			if l.ends[0].closed {
				t = l.ends[0].closedT
			}
			if l.ends[0].rerrd && l.ends[0].rerrAt < t {
				t = l.ends[0].rerrAt
			}
			if l.ends[1].closed && l.ends[1].closedT < t {
				t = l.ends[1].closedT
			}
			if l.rst != nil && l.rstAt < t {
				t = l.rstAt
			}
			chk(t)
			if !l.Dead() && t > l.openedAt+max(rto[0], rto[1]) && max(rto[0], rto[1]) > 0 {
				r.count("kept")
			}
		}
		// every ping is answered
		for side := 0; side < 2; side++ {
			in, out := l.ends[side].in(), l.ends[side].out()
			if wblocks(side) || l.Dead() || l.trouble {
				continue
			}
			ie, ic := frameEnds(in.log)
			pings, old := 0, 0
			for k := range ie {
				if ic[k] == wPing && ie[k] <= in.read {
					pings++
					if timeOf(in.reads, ie[k]) < now-slack {
						old++ // long enough ago
					}
				}
			}
			_, oc := frameEnds(out.log)
			pongs := 0
			for _, c := range oc {
				if c == wPong {
					pongs++
				}
			}
			if pongs < old || pongs > pings {
				r.Fail("no-pong", "side %d of connection %d got %d pings, %d of them long ago, and sent %d pongs", side, l.ID, pings, old, pongs)
			}
		}
	}
	// both sides have short enough a round trip: nothing may break the connection
	rtt := us(2*r.Plan.Net.DelayMax) + slack
	if len(r.Fired) == 0 && ka > 0 && (rto[0] == 0 || ka+rtt < rto[0]) && (rto[1] == 0 || ka+rtt < rto[1]) && !wblocks(0) {
		if l := r.Net.links[0]; l.Dead() || len(r.Net.links) != 1 {
			r.Fail("dropped", "read timeouts are %v and %v, keepalive is %v, and nothing disturbed the network, but the connection was lost", rto[0], rto[1], ka)
		}
		r.count("kept")
	}
	// once the network is well again the client works
	r.quell()
	r.Net.unlimit()
	time.Sleep(25 * time.Second)
	ok := false
	var err error
	for k := 0; k < 20 && !ok; k++ {
		var rsp string
		err = c.Call("e", "final", &rsp, 2*time.Second)
		ok = err == nil && rsp == "final"
		if !ok {
			time.Sleep(ms(300))
		}
	}
	if !ok {
		r.Fail("dead", "the client does not work any more: %v", err)
	}
	if pending > 0 {
		r.Fail("pending", "%d asynchronous calls have not ended", pending)
	}
	time.Sleep(us(2*r.Plan.Net.DelayMax) + slack)
	open := 0
	for _, l := range r.Net.links {
		if l.accepted && !l.ends[1].closed {
			open++
		}
	}
	if int(s.CurrLoad) != open {
		r.Fail("load", "%d connections are open at the server, CurrLoad is %d", open, s.CurrLoad)
	}
	if rto[1] > 0 && open > 1 {
		r.Fail("silent", "the server has a read timeout of %v and keeps %d connections of one client open", rto[1], open)
	}
	if n := r.Plan.K("half"); n > 0 {
		// a peer that falls silent in the middle of a message
		if rp := r.dialRaw("s0", "raw"); rp != nil {
			r.fault("half-message")
			go rp.pump()
			b := frame{cmd: wRequest, method: "e", seq: 9, data: make([]byte, 20)}.enc()
			rp.e.Write(append(append([]byte{}, b...), b[:n]...))
			t0 := r.Now()
			time.Sleep(rto[1] + us(2*r.Plan.Net.DelayMax) + slack)
			e := rp.e.l.ends[1]
			if T := rto[1]; T == 0 {
				time.Sleep(30 * time.Second)
				if e.closed {
					r.Fail("early", "the server has no read timeout and closed a silent connection")
				}
			} else if !e.closed {
				r.Fail("silent", "a peer fell silent %v ago, %d bytes into a message; the server's read timeout is %v and it has not closed the connection", r.Now()-t0, n, T)
			} else if e.closedT < t0+T {
				r.Fail("early", "a peer was silent for %v; the server's read timeout is %v and it closed the connection", e.closedT-t0, T)
			}
			rp.e.Close()
			time.Sleep(us(2*r.Plan.Net.DelayMax) + slack)
		}
	}
	c.Stop()
	ln.Close()
	s.Stop()
	time.Sleep(12 * time.Second)
}
