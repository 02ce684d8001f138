package main

import (
	"fmt"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
)

// ---------------------------------------------------------------- C25

func init() {
	register(&Prop{ID: "C25", Rule: "non-trivial when requests were being handled at Shutdown or came after it", Gen: genC25, Exec: execC25,
		NonTrivial: func(r *Run) bool { return r.Counts["during"]+r.Counts["refused"] > 0 }})
}

func genC25(g *Rng, p *Plan) {
	if g.P(2) {
		noStalls(p)
	}
	p.Net.SendBuf = 0
	p.Net.RstClose = false
	nc := g.In(1, 3)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "syncresp", "clone", "exec", "pool")
	p.Knobs["stop"] = g.N(2)
	p.Knobs["mid"] = g.N(3)
	p.Knobs["trig"] = g.Pick(0, 0, 0, g.In(1, 6)) // Shutdown when this many requests have come
	span := g.Pick(100, 5000, 50_000)
	long := g.Pick(1, 1, 1, 8)
	for a := g.In(1, 5); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 5); k > 0; k-- {
			op := Op{K: g.PickS("call", "call", "call", "notify", "async"), A: g.N(nc), B: g.N(4), C: g.Log(1, 300) - 1, E: g.Pick(0, 0, g.Log(1, span)*long)}
			if g.P(2) {
				op.D = g.Log(1, span)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	for a := g.In(1, 2); a > 0; a-- {
		op := Op{K: "shutdown"}
		if g.P(3) {
			op.D = g.Log(1, span)
		}
		if g.P(3) {
			op.D = 2 * p.Net.DelayMax
		}
		p.Actors = append(p.Actors, []Op{op})
	}
}

type grRec struct {
	id, m        int
	call         string
	t0, t1       time.Duration
	done         bool
	err          error
	rsp          string
	want         string
	h0, h1       int // handler
	dur          time.Duration
	refusedTwice int
}

func execC25(r *Run) {
	nc := r.Plan.K("_clients")
	stalls := r.Plan.Sched.StallP > 0
	var g router.Graceful
	recs := map[int]*grRec{}
	var order []*grRec
	s := r.newServer()
	before := 0
	if r.Plan.K("mid") == 1 {
		s.Handler.Use(func(ctx *arpc.Context) { before++; ctx.Next() })
	}
	trig, seen := make(chan int), 0
	if n := r.Plan.K("trig"); n > 0 {
		s.Handler.Use(func(ctx *arpc.Context) {
			if seen++; seen == n {
				close(trig)
			}
		})
	}
	s.Handler.Use(g.Handler())
	if r.Plan.K("mid") == 2 {
		s.Handler.Use(router.Recover())
	}
	running := 0
	mk := func(m int) arpc.HandlerFunc {
		return func(ctx *arpc.Context) {
			var str string
			ctx.Bind(&str)
			_, id, arg, err := chkPay(str)
			q := recs[id]
			if err != nil || q == nil {
				r.Fail("payload", "the server got %v", err)
				return
			}
			r.ev("h", id)
			q.h0 = r.nev
			running++
			if arg > 0 {
				time.Sleep(us(arg))
			}
			defer func() {
				running--
				r.ev("h-end", id)
				q.h1 = r.nev
			}()
			switch m {
			case 1:
				if q.call != "notify" {
					ctx.Error(fmt.Sprintf("e%d", id))
				}
			case 3:
				panic("handler")
			default:
				if q.call != "notify" {
					ctx.Write(str)
				}
			}
		}
	}
	for m := 0; m < 4; m++ {
		if r.Plan.K("syncresp") == 1 {
			s.Handler.Handle(fmt.Sprintf("m%d", m), mk(m))
		} else {
			s.Handler.Handle(fmt.Sprintf("m%d", m), mk(m), m != 2)
		}
	}
	ln := r.serve(s, "s0")
	time.Sleep(us(10))
	clis := make([]*arpc.Client, nc)
	for i := range clis {
		h := r.newHandler()
		clis[i] = r.connect("s0", fmt.Sprintf("c%d", i), h)
		if clis[i] == nil {
			return
		}
		clis[i].Codec = r.codec()
	}
	down0, down1 := -1, -1 // first call, first return
	var down0t, down1t time.Duration
	stopped := false
	ok := r.actors(10*time.Minute, func(a, i int, op Op) {
		id := a*100 + i + 1
		if op.K == "shutdown" {
			if r.Plan.K("trig") > 0 {
				select {
				case <-trig:
				case <-time.After(time.Second):
				}
			}
			r.ev("shutdown")
			if down0 < 0 {
				down0, down0t = r.nev, r.Now()
			}
			if running > 0 {
				r.count("during")
			}
			g.Shutdown()
			r.ev("shutdown-end")
			if down1 < 0 {
				down1, down1t = r.nev, r.Now()
			}
			for _, q := range order {
				if q.h0 > 0 && q.h1 == 0 {
					r.Fail("early", "Shutdown returned while request %d was being handled", q.id)
				}
			}
			if r.Plan.K("stop") == 1 && !stopped {
				stopped = true
				ln.Close()
				if s.Listener != nil {
					s.Stop()
				}
			}
			return
		}
		q := &grRec{id: id, m: op.B, call: op.K, t0: r.Now(), dur: us(op.E)}
		q.want = mkPay("G", id, op.E, op.C)
		recs[id] = q
		order = append(order, q)
		r.ev("op:"+op.K, id)
		m := fmt.Sprintf("m%d", op.B)
		c := clis[op.A]
		tmo := 10 * time.Second
		if op.B == 3 {
			tmo = time.Second // no response
		}
		switch op.K {
		case "call":
			q.err = c.Call(m, q.want, &q.rsp, tmo)
			q.t1, q.done = r.Now(), true
		case "async":
			err := c.CallAsync(m, q.want, func(ctx *arpc.Context, err error) {
				q.err = err
				if err == nil {
					q.err = ctx.Bind(&q.rsp)
				}
				q.t1, q.done = r.Now(), true
			}, tmo)
			if err != nil {
				q.err, q.done, q.t1 = err, true, r.Now()
			}
		case "notify":
			q.err = c.Notify(m, q.want, tmo)
		}
	})
	if !ok {
		r.Fail("stuck", "Shutdown or a call has not returned after 10 minutes, %d requests are being handled", running)
		return
	}
	// the last requests come after Shutdown
	if !stopped {
		for i, c := range clis {
			id := 9000 + i
			q := &grRec{id: id, call: "call", t0: r.Now()}
			q.want = mkPay("G", id, 0, 5)
			recs[id] = q
			order = append(order, q)
			q.err = c.Call("m0", q.want, &q.rsp, 30*time.Second)
			q.done, q.t1 = true, r.Now()
		}
	}
	time.Sleep(15 * time.Second)
	if stalls {
		time.Sleep(200 * time.Second)
	}
	last := time.Duration(0)
	for _, q := range order {
		if q.h0 > 0 && q.h0 < down0 {
			last = max(last, q.dur)
		}
		if q.h0 > down1 {
			r.Fail("late", "request %d was handled after Shutdown had returned", q.id)
		}
		after := q.t0 > down0t && !stalls
		if after || (stalls && q.t0 > down1t) {
			if q.h0 > 0 {
				r.Fail("late", "request %d was made after Shutdown was called, and was handled", q.id)
			}
			if q.call != "notify" && !(stopped && q.t1 >= down1t) {
				r.count("refused")
				if !q.done || q.err == nil || (q.err.Error() != router.ErrShutdown.Error() && !stalls) {
					r.Fail("refusal", "request %d was made after Shutdown was called; the result is %v, done %v", q.id, q.err, q.done)
				}
			}
		}
		if q.call == "notify" || q.h0 == 0 || stalls {
			continue
		}
		// accepted: it gets its response
		switch {
		case q.m == 3:
			if q.done && q.err == nil {
				r.Fail("response", "request %d has no response, the call succeeded", q.id)
			}
		case !q.done:
			r.Fail("response", "request %d was handled and has no result", q.id)
		case q.m == 1:
			if q.err == nil || q.err.Error() != fmt.Sprintf("e%d", q.id) {
				r.Fail("response", "request %d was answered with an error, its result is %v", q.id, q.err)
			}
		default:
			if q.err != nil || q.rsp != q.want {
				r.Fail("response", "request %d was handled, its result is %v", q.id, q.err)
			}
		}
		if r.Plan.Knobs["exec"] == 0 && r.Plan.K("syncresp") == 0 && q.m != 2 && q.h0 < down1 && down1t > down0t+time.Second+us(50_000) {
			r.Fail("slow", "Shutdown took %v", down1t-down0t)
		}
	}
	// what was neither handled nor refused is lost
	for _, q := range order {
		if q.call == "notify" || q.h0 > 0 || stalls || stopped {
			continue
		}
		if !q.done || q.err == nil || q.err.Error() != router.ErrShutdown.Error() {
			r.Fail("refusal", "request %d was not handled; the result is %v, done %v", q.id, q.err, q.done)
		}
	}
	for _, c := range clis {
		c.Stop()
	}
	if !stopped {
		ln.Close()
		s.Stop()
	}
	time.Sleep(12 * time.Second)
}
