package main

import (
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/listener"
)

// ---------------------------------------------------------------- C27

func init() {
	register(&Prop{ID: "C27", Rule: "non-trivial when connections were handed to both listeners", Gen: genC27, Exec: execC27,
		NonTrivial: func(r *Run) bool { return r.Counts["A"] > 0 && r.Counts["B"] > 0 }})
}

func genC27(g *Rng, p *Plan) {
	if g.P(2) {
		noStalls(p)
	}
	p.Net.SendBuf = 0
	p.Knobs["max"] = g.Pick(-1, 0, 1, 1, 2, 3, 5)
	p.Knobs["close"] = g.Pick(0, 0, 1)
	p.Knobs["srv"] = g.N(2)
	span := g.Pick(100, 10_000, 1_000_000)
	for a := g.In(1, 8); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 4); k > 0; k-- {
			op := Op{K: "conn", E: g.Pick(0, g.Log(1, span))}
			if g.P(2) {
				op.D = g.Log(1, span)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if p.Knobs["close"] == 1 {
		p.Actors = append(p.Actors, []Op{{K: "close", D: g.Log(1, 2*span)}})
	}
	genFaults(g, p, 3, span, "accepterr", "reset", "accepterr", "slowdial")
}

func execC27(r *Run) {
	maxA := max(r.Plan.K("max"), 0)
	stalls := r.Plan.Sched.StallP > 0
	sl := r.Net.Listen("s0")
	r.Net.pend = map[string]*Listener{"s0": sl}
	l, err := listener.Listen("tcp", "s0", r.Plan.K("max"), "")
	if err != nil {
		r.Fail("listen", "%v", err)
		return
	}
	lnA, lnB := l.Listeners()
	type got struct{ link, side, s int }
	var gots []got
	side := map[int]int{}
	var off [][2]int // begin and end of OfflineA
	give := func(c net.Conn, s int) {
		k := LinkOf(c)
		if k == nil {
			r.Fail("conn", "the listener returned a connection of its own making")
			return
		}
		r.ev("given", k.ID, s)
		if _, ok := side[k.ID]; ok {
			r.Fail("twice", "connection %d was handed out twice", k.ID)
		}
		side[k.ID] = s
		gots = append(gots, got{k.ID, s, r.nev})
		r.count("AB"[s : s+1])
	}
	offline := func() {
		r.ev("offline")
		b := r.nev
		l.OfflineA()
		r.ev("offline-end")
		off = append(off, [2]int{b, r.nev})
	}
	var closed [2]error
	var srvs [2]*arpc.Server
	for i, ln := range []net.Listener{lnA, lnB} {
		i, ln := i, ln
		if r.Plan.K("srv") == 1 {
			// the documented use: a server each
			s := arpc.NewServer()
			s.Handler = arpc.NewHandler()
			s.Handler.HandleConnected(func(c *arpc.Client) { give(c.Conn, i) })
			s.Handler.HandleDisconnected(func(c *arpc.Client) {
				if i == 0 {
					offline()
				}
			})
			s.Handler.Handle("who", func(ctx *arpc.Context) { ctx.Write([]byte{byte('A' + i)}) })
			srvs[i] = s
			go func() { closed[i] = s.Serve(ln) }()
			continue
		}
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					closed[i] = err
					return
				}
				give(c, i)
				go func() {
					b := make([]byte, 1)
					for {
						if _, err := c.Read(b); err != nil {
							break
						}
						c.Write([]byte{byte('A' + i)})
					}
					c.Close()
					if i == 0 {
						offline()
					}
				}()
			}
		}()
	}
	ran := false
	go func() { l.Run(); ran = true }()
	closing := false
	closedAt := time.Duration(0)
	ok := r.actors(5*time.Minute, func(a, i int, op Op) {
		if op.K == "close" {
			r.ev("close-listener")
			closing = true
			closedAt = r.Now()
			l.Close()
			return
		}
		if r.Plan.K("srv") == 1 {
			c, err := arpc.NewClient(r.Net.Dialer("s0", "x"), arpc.NewHandler())
			if err != nil {
				return
			}
			link := LinkOf(c.Conn)
			var who string
			err = c.Call("who", "", &who, 5*time.Second)
			if err == nil {
				if s, ok := side[link.ID]; ok && LinkOf(c.Conn) == link && (len(who) != 1 || who[0] != byte('A'+s)) {
					r.Fail("served", "connection %d was handed to listener %d and answered by %q", link.ID, s, who)
				}
			} else if !stalls && !closing && len(r.Fired) == 0 {
				r.Fail("unserved", "the server did not answer on connection %d: %v", link.ID, err)
			}
			sleep(us(op.E))
			c.Stop()
			return
		}
		c, err := r.Net.dial("s0", "x")
		if err != nil {
			return
		}
		link := LinkOf(c)
		c.Write([]byte("x"))
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		b := make([]byte, 1)
		_, err = c.Read(b)
		if err == nil {
			if s, ok := side[link.ID]; !ok || b[0] != byte('A'+s) {
				r.Fail("served", "connection %d was handed to listener %d (%v) and answered by %q", link.ID, s, ok, b)
			}
		} else if !stalls && !closing && link.rst == nil {
			r.Fail("unserved", "nobody answered on connection %d: %v", link.ID, err)
		}
		sleep(us(op.E))
		c.Close()
	})
	if !ok {
		r.Fail("stuck", "operations have not ended after 5 minutes")
		return
	}
	r.quell()
	time.Sleep(20 * time.Second)
	if stalls {
		time.Sleep(300 * time.Second)
	}
	// the split, in the order of acceptance
	var acc []*Link
	for _, id := range sl.accs {
		acc = append(acc, r.Net.links[id])
	}
	nA := 0
	for k, lk := range acc {
		s, given := side[lk.ID]
		if !given {
			if !closing && (r.Plan.K("srv") == 0 || (lk.rst == nil && !lk.Dead())) {
				r.Fail("lost", "connection %d was accepted and handed to nobody", lk.ID)
			}
			if closing && r.Plan.K("srv") == 0 && lk.accAt > closedAt && !lk.ends[1].closed {
				r.Fail("leak", "connection %d was accepted after Close and is neither handed out nor closed", lk.ID)
			}
			break // its side is unknown
		}
		next := 1 << 60
		if k+1 < len(acc) {
			next = acc[k+1].accSeq
		}
		before, since := 0, 0
		for _, o := range off {
			if o[1] <= lk.accSeq {
				before++
			}
			if o[0] < next {
				since++
			}
		}
		if s == 1 && nA-before < maxA {
			r.Fail("split", "connection %d was handed to B while A had at most %d of %d connections", lk.ID, nA-before, maxA)
		}
		if s == 0 && nA-since >= maxA {
			r.Fail("split", "connection %d was handed to A, which had at least %d connections, its maximum is %d", lk.ID, nA-since, maxA)
		}
		if s == 0 {
			nA++
		}
	}
	if !closing {
		// it still works
		for k := 0; k < 2; k++ {
			c, err := r.Net.dial("s0", "x")
			if err != nil {
				r.Fail("dead", "cannot connect: %v", err)
				break
			}
			time.Sleep(time.Second)
			if stalls {
				time.Sleep(300 * time.Second)
			}
			want := 0
			if k >= maxA {
				want = 1
			}
			if s, ok := side[LinkOf(c).ID]; !ok || (s != want && r.Plan.K("srv") == 0) {
				r.Fail("dead", "connection %d, the only one but %d, was handed to %d (%v), A takes %d", LinkOf(c).ID, k, s, ok, maxA)
			}
			defer c.Close()
		}
		l.Close()
	}
	time.Sleep(5 * time.Second)
	if stalls {
		time.Sleep(100 * time.Second)
	}
	for i, err := range closed {
		if err == nil && r.Plan.K("srv") == 0 {
			r.Fail("close", "Accept of listener %d has not returned after Close", i)
		} else if err != nil && !errors.Is(err, net.ErrClosed) {
			r.Fail("close", "listener %d returned %v after Close", i, err)
		}
	}
	if !ran {
		r.Fail("close", "Run has not returned after Close")
	}
	if l.Addr().String() != "s0" || lnA.Addr().String() != "s0" || lnB.Addr().String() != "s0" {
		r.Fail("addr", "Addr: %v %v %v", l.Addr(), lnA.Addr(), lnB.Addr())
	}
	for _, s := range srvs {
		if s != nil && s.Listener != nil {
			s.Stop()
		}
	}
	_ = fmt.Sprint
	time.Sleep(3 * time.Second)
}
