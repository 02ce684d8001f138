package main

import (
	"fmt"
	"time"

	"github.com/lesismal/arpc"
)

// ---------------------------------------------------------------- C12

func init() {
	register(&Prop{ID: "C12", Rule: "non-trivial when a broadcast was due to a connected client", Gen: genC12, Exec: execC12,
		NonTrivial: func(r *Run) bool { return r.Counts["due"] > 0 }})
}

func genC12(g *Rng, p *Plan) {
	if g.P(2) {
		noStalls(p)
	}
	nc := g.In(1, 4)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "pool", "syncresp", "clone", "coder")
	p.Knobs["sq"] = g.Pick(0, 0, 0, 1, 2, 64)
	for i := 0; i < nc; i++ {
		ops := []Op{{K: "connect", A: i, D: g.Pick(0, 0, g.Log(1, 50000))}}
		for k := g.N(4); k > 0; k-- {
			ops = append(ops, Op{K: g.PickS("call", "notify", "call", "idle", "idle"), A: i, C: g.Log(1, 200), D: g.Log(1, 20000)})
		}
		if g.P(4) {
			ops = append(ops, Op{K: "stop", A: i, D: g.Log(1, 50000)})
			if g.P(2) {
				ops = append(ops, Op{K: "connect", A: i, D: g.Log(1, 20000)})
			}
		}
		p.Actors = append(p.Actors, ops)
	}
	for n := g.In(1, 3); n > 0; n-- {
		var ops []Op
		for k := g.In(1, 8); k > 0; k-- {
			op := Op{K: g.PickS("bc", "bc", "bcf", "bcf", "bcnil", "each", "eachf", "one"), A: g.N(nc), B: g.N(4), C: g.Log(1, g.Pick(20, 300, 5000)) - 1, E: g.N(1 << nc), F: g.N(nKinds)}
			if g.P(2) {
				op.D = g.Log(1, g.Pick(100, 30000))
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(2) {
		genFaults(g, p, 3, 60000, "reset", "cut", "hold", "hold", "slowread", "partition", "partwrite")
	} else {
		p.Net.SendBuf = 0
	}
	genHuge(g, p, func(op *Op, n int) { op.C = n })
}

type bcRec struct {
	id, actor  int
	kind       string
	method     string
	mask       int
	size       int
	s0, s1     int
	t0, t1     time.Duration
	done       bool
	over, drop map[int]int // by link
	clients    map[int]bool
}

type bcGot struct {
	id, link, cli int
	s0, s1        int
	sync          bool
}

func execC12(r *Run) {
	nc := r.Plan.K("_clients")
	recs := map[int]*bcRec{}
	var order []*bcRec
	var got []*bcGot
	connSeq := map[int]int{} // link -> event number at which the server announced it
	clis := make([]*arpc.Client, nc)
	s := r.newServer()
	srvOf := map[int]*arpc.Client{}
	id4 := func(m *arpc.Message) *bcRec {
		w := &rpcWorld{}
		return recs[w.msgID(m)]
	}
	s.Handler.HandleOverstock(func(c *arpc.Client, m *arpc.Message) {
		r.count("overstock")
		if b := id4(m); b != nil {
			b.over[linkID(c)]++
		}
	})
	s.Handler.HandleMessageDropped(func(c *arpc.Client, m *arpc.Message) {
		r.count("dropped")
		if b := id4(m); b != nil {
			b.drop[linkID(c)]++
		}
	})
	s.Handler.HandleConnected(func(c *arpc.Client) {
		r.ev("srv-connected", linkID(c))
		connSeq[linkID(c)] = r.nev
		srvOf[tagIdx(LinkOf(c.Conn).Tag)] = c
	})
	s.Handler.Handle("echo", func(ctx *arpc.Context) {
		var str string
		ctx.Bind(&str)
		if _, _, _, err := chkPay(str); err != nil {
			r.Fail("payload", "the server got %v", err)
		}
		ctx.Write(str)
	})
	r.serve(s, "s0")
	mkClient := func(i int) {
		h := r.newHandler()
		for _, m := range []string{"b0.s", "b1.a", "b2.s", "b3.a"} {
			m := m
			h.Handle(m, func(ctx *arpc.Context) {
				var str string
				if recOf := ctx.Message.Method(); recOf != m {
					r.Fail("misrouted", "a broadcast for %q reached the handler of %q", recOf, m)
				}
				if m == "b2.s" {
					var t tval
					if err := ctx.Bind(&t); err != nil {
						r.Fail("payload", "client %d got a broadcast that does not decode: %v", i, err)
						return
					}
					str = t.P
				} else if err := ctx.Bind(&str); err != nil {
					r.Fail("payload", "client %d got a broadcast that does not decode: %v", i, err)
					return
				}
				tag, id, _, err := chkPay(str)
				if err != nil || tag != "Q" {
					r.Fail("payload", "client %d got %v", i, err)
					return
				}
				r.ev("got", i, id)
				g := &bcGot{id: id, link: linkID(ctx.Client), cli: i, s0: r.nev, sync: m[3] == 's'}
				got = append(got, g)
				b := recs[id]
				if b == nil {
					r.Fail("phantom", "client %d got message %d which was never sent", i, id)
					return
				}
				if b.method != m || len(str) != len(mkPay("Q", id, 0, b.size)) {
					r.Fail("payload", "broadcast %d for %s of %d bytes reached %s with %d bytes", id, b.method, b.size, m, len(str))
				}
				r.ev("got-end", i, id)
				g.s1 = r.nev
			}, m[3] == 'a')
		}
		c := r.connect("s0", fmt.Sprintf("c%d", i), h)
		if c == nil {
			return
		}
		c.Codec = r.codec()
		clis[i] = c
	}
	ok := r.actors(3*time.Minute, func(a, i int, op Op) {
		id := a*1000 + i + 1
		switch op.K {
		case "connect":
			mkClient(op.A)
		case "stop":
			if c := clis[op.A]; c != nil {
				c.Stop()
				r.fault("client-stop")
			}
		case "call":
			if c := clis[op.A]; c != nil {
				var rsp string
				p := mkPay("Q", id, 0, op.C)
				if err := c.Call("echo", p, &rsp, 5*time.Second); err == nil && rsp != p {
					r.Fail("payload", "client %d: the echo of %q is %q", op.A, clip(p), clip(rsp))
				}
			}
		case "notify":
			if c := clis[op.A]; c != nil {
				c.Notify("echo", mkPay("Q", id, 0, op.C), time.Second)
			}
		case "idle":
		default:
			b := &bcRec{id: id, actor: a, kind: op.K, mask: op.E, size: op.C, over: map[int]int{}, drop: map[int]int{}}
			b.method = []string{"b0.s", "b1.a", "b2.s", "b3.a"}[op.B%4]
			vk := op.F
			if b.method == "b2.s" {
				vk = 2
			} else if kindStruct(vk) {
				vk = 0
			}
			v := mkVal(vk, mkPay("Q", id, 0, op.C))
			filter := func(c *arpc.Client) bool {
				return b.mask&(1<<tagIdx(LinkOf(c.Conn).Tag)) != 0
			}
			push := func(c *arpc.Client) { c.PushMsg(s.NewMessage(arpc.CmdNotify, b.method, v), arpc.TimeZero) }
			recs[id] = b
			order = append(order, b)
			b.t0 = r.Now()
			r.ev("op:"+op.K, id, b.mask)
			b.s0 = r.nev
			switch op.K {
			case "bc":
				b.mask = -1
				s.Broadcast(b.method, v)
			case "bcf":
				s.BroadcastWithFilter(b.method, v, filter)
			case "bcnil":
				b.mask = -1
				s.BroadcastWithFilter(b.method, v, nil)
			case "each":
				b.mask = -1
				s.ForEach(push)
			case "eachf":
				s.ForEachWithFilter(push, filter)
			case "one":
				b.mask = 1 << op.A
				if c := srvOf[op.A]; c != nil {
					b.clients = map[int]bool{linkID(c): true}
					c.Notify(b.method, v, arpc.TimeZero)
				} else {
					b.clients = map[int]bool{}
				}
			}
			b.t1 = r.Now()
			r.ev("done", id)
			b.s1 = r.nev
			b.done = true
			if b.t1 != b.t0 && r.Plan.K("syncwrite") == 0 && r.Plan.Sched.StallP == 0 {
				r.Fail("blocked", "%s %d blocked for %v", op.K, id, b.t1-b.t0)
			}
		}
	})
	if !ok {
		for _, b := range order {
			if !b.done && r.Plan.K("syncwrite") == 0 {
				r.Fail("blocked", "%s %d has not returned after %v", b.kind, b.id, r.Now()-b.t0)
			}
		}
	}
	r.quell()
	r.Net.unlimit()
	time.Sleep(20 * time.Second)
	if r.Plan.Sched.StallP > 0 { // up to 100 stalls of 2 s
		time.Sleep(300 * time.Second)
	}
	per := map[[2]int]int{}
	cnt := map[[2]int]int{}
	for _, g := range got {
		per[[2]int{g.id, g.link}]++
		cnt[[2]int{g.id, g.cli}]++
	}
	for _, b := range order {
		for i := 0; i < nc; i++ {
			n := cnt[[2]int{b.id, i}]
			if n > 0 && b.mask&(1<<i) == 0 {
				r.Fail("filtered", "%s %d excludes client %d, which got it", b.kind, b.id, i)
			}
			if n > 1 {
				r.Fail("twice", "%s %d reached client %d %d times", b.kind, b.id, i, n)
			}
		}
		if !b.done {
			continue
		}
		for _, l := range r.Net.links {
			cs, ok := connSeq[l.ID]
			if !ok || cs > b.s0 || l.Dead() || l.h[0].fin || l.h[1].fin || b.mask&(1<<tagIdx(l.Tag)) == 0 {
				continue
			}
			if b.clients != nil && !b.clients[l.ID] {
				continue
			}
			if b.over[l.ID] > 0 {
				if per[[2]int{b.id, l.ID}] > 0 || b.over[l.ID] > 1 {
					r.Fail("overstock", "%s %d: refused %d times for connection %d, received %d times", b.kind, b.id, b.over[l.ID], l.ID, per[[2]int{b.id, l.ID}])
				}
				continue
			}
			r.count("due")
			if n := per[[2]int{b.id, l.ID}]; n != 1 {
				r.Fail("lost", "%s %d reached client %d on connection %d, which was open all the time, %d times", b.kind, b.id, tagIdx(l.Tag), l.ID, n)
			}
		}
	}
	// order of synchronous handlers per connection
	for i, a := range got {
		if !a.sync {
			continue
		}
		for _, b := range got[i+1:] {
			if !b.sync || a.link != b.link {
				continue
			}
			if b.s0 < a.s1 {
				r.Fail("overlap", "synchronous handlers of %d and %d overlap on connection %d", a.id, b.id, a.link)
			}
			ra, rb := recs[a.id], recs[b.id]
			if ra != nil && rb != nil && rb.done && rb.s1 < ra.s0 {
				r.Fail("reordered", "%s %d returned before %s %d started, but client %d handled them in the opposite order", rb.kind, rb.id, ra.kind, ra.id, a.cli)
			}
		}
	}
	for _, c := range clis {
		if c != nil {
			c.Stop()
		}
	}
	s.Stop()
	time.Sleep(3 * time.Second)
}
