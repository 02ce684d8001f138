package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	"github.com/lesismal/arpc/util"
)

// ---------------------------------------------------------------- C17, C18

func init() {
	register(&Prop{ID: "C17", Rule: "non-trivial when a publication was due to a subscriber", Gen: genC17, Exec: execPubsub,
		NonTrivial: func(r *Run) bool { return r.Counts["due"] > 0 }})
	register(&Prop{ID: "C18", Rule: "non-trivial when a subscription had to survive a lost connection, a publication had to reach one subscriber, or a client was not authenticated", Gen: genC18, Exec: execPubsub,
		NonTrivial: func(r *Run) bool { return r.Counts["resub"]+r.Counts["one"]+r.Counts["denied"] > 0 }})
}

var psTopics = []string{"a", "aa", "a\x00b", "topic/" + strings.Repeat("x", 100), strings.Repeat("m", 256+57), strings.Repeat("n", 1024)}

func genC17(g *Rng, p *Plan) {
	if g.P(2) {
		noStalls(p)
	}
	genPubsub(g, p, false)
	if g.P(3) && p.Sched.StallP == 0 {
		p.Net.SendBuf = 0
		genPSFaults(g, p, "reset", "cut", "hold", "slowread", "partwrite")
	}
}

func genC18(g *Rng, p *Plan) {
	noStalls(p)
	genPubsub(g, p, true)
	p.Net.SendBuf = 0
	if g.P(4) {
		// a subscriber that does not read: its queue is full
		p.Knobs["one"], p.Knobs["syncwrite"], p.Knobs["sq"] = 1, 0, g.In(1, 2)
		p.Net.SendBuf = g.Pick(64, 300)
		if p.Net.DelayMax > 200 {
			p.Net.DelayMin, p.Net.DelayMax = 50, 200
		}
		for k := g.In(1, 2); k > 0; k-- {
			p.Faults = append(p.Faults, Fault{Kind: g.PickS("hold", "slowread"), At: 1_020_000 + g.N(200_000), Conn: g.N(p.Knobs["_clients"]), Dir: g.N(3), Dur: g.Log(100_000, 1_200_000)})
		}
		var ops []Op
		for k := g.In(4, 12); k > 0; k-- {
			ops = append(ops, Op{K: g.PickS("spub", "spub1", "spub1"), B: 0, C: g.N(40), F: g.N(nKinds)})
		}
		ops[0].D = g.Log(1000, 400_000)
		p.Actors = append(p.Actors, ops)
		return
	}
	if g.P(2) {
		genPSFaults(g, p, "reset", "reset", "cut", "hold", "partition", "partwrite", "crash", "dialfail")
	}
}

func genPSFaults(g *Rng, p *Plan, kinds ...string) {
	genFaults(g, p, 3, 3_000_000, kinds...)
	for i := range p.Faults {
		f := &p.Faults[i]
		f.At += 20_000
		f.Dur = min(f.Dur, 1_200_000) // the client gives an authentication 5 s
	}
}

func genPubsub(g *Rng, p *Plan, auth bool) {
	nc := g.In(1, 4)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "pool", "syncresp", "clone", "coder", "codec")
	p.Knobs["hfail"] = g.Pick(0, 0, 1, 2, 3)
	p.Knobs["sq"] = g.Pick(0, 0, 0, 1, 2, 64)
	if p.Knobs["syncwrite"] == 1 {
		p.Net.SendBuf = 0
	}
	if p.Net.SendBuf > 0 && p.Net.SendBuf < 1000 && p.Net.DelayMax > 200 {
		p.Net.SendBuf = 1000
	}
	if auth {
		p.Knobs["pw"] = g.N(2)
		p.Knobs["one"] = g.Pick(0, 1, 1)
	}
	nt := g.In(1, len(psTopics))
	for i := 0; i < nc; i++ {
		// 0: authenticates at once, 1: authenticates later, 2: never
		k := 0
		if auth && p.Knobs["pw"] == 1 {
			k = g.Pick(0, 0, 0, 1, 2)
		}
		p.Knobs[fmt.Sprintf("auth%d", i)] = k
		p.Knobs[fmt.Sprintf("onpub%d", i)] = g.Pick(0, 0, 1)
		var ops []Op
		late := -1
		n := g.In(2, 8)
		if k == 1 {
			late = g.In(1, n)
		}
		for j := 0; j < n; j++ {
			op := Op{K: g.PickS("sub", "sub", "sub", "unsub", "pub", "pub", "pub1", "reauth", "bad"), A: i, B: g.N(nt), C: g.Log(1, g.Pick(20, 300, 5000)) - 1, F: g.N(nKinds)}
			if j == 0 && g.P(2) {
				op.K = "sub"
			}
			if op.K == "pub1" && p.Knobs["one"] == 0 {
				op.K = "pub"
			}
			if j == late {
				op.K = "auth"
			}
			if g.P(2) {
				op.D = g.Log(1, g.Pick(1000, 300_000))
			}
			ops = append(ops, op)
		}
		if late == n {
			ops = append(ops, Op{K: "auth", A: i}, Op{K: "sub", A: i, B: g.N(nt)})
		}
		if auth && g.P(6) {
			ops = append(ops, Op{K: "stop", A: i, D: g.Log(1, 300_000)})
		}
		p.Actors = append(p.Actors, ops)
	}
	for n := g.In(0, 2); n > 0; n-- {
		var ops []Op
		for k := g.In(1, 8); k > 0; k-- {
			op := Op{K: g.PickS("spub", "spub", "spub1"), B: g.N(nt), C: g.Log(1, g.Pick(20, 300, 5000)) - 1, F: g.N(nKinds)}
			if op.K == "spub1" && p.Knobs["one"] == 0 {
				op.K = "spub"
			}
			if g.P(2) {
				op.D = g.Log(1, g.Pick(1000, 300_000))
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	genHuge(g, p, func(op *Op, n int) {
		if strings.Contains(op.K, "pub") {
			op.C = n
		}
	})
}

type psPub struct {
	id, from int // from: client, -1 the server
	topic    int
	one      bool
	data     []byte
	t0, t1   time.Duration
	n0, n1   int64 // wall clock
	s0, s1   int
	err      error
	done     bool
	denied   bool // the publisher was not authenticated
	over     map[int]int
	final    bool
	actor    int
}

type psState struct {
	s, st int // 0 not subscribed, 1 subscribed, 2 unknown
	t     time.Duration
}

type psGot struct {
	id, cli, link, s int
}

func execPubsub(r *Run) {
	nc := r.Plan.K("_clients")
	pw := ""
	if r.Plan.K("pw") == 1 {
		pw = "sesame"
	}
	stalls := r.Plan.Sched.StallP > 0
	const tmo = 3 * time.Second
	W := ms(100) + us(2*r.Plan.Net.DelayMax)
	var srv *pubsub.Server
	var ln *Listener
	pubs := map[int]*psPub{}
	var order []*psPub
	var got []psGot
	finished := false
	down := false
	startServer := func() {
		down = false
		s := pubsub.NewServer()
		s.Password = pw
		r.setupHandler(s.Handler)
		s.Codec = r.codec()
		s.Handler.HandleOverstock(func(c *arpc.Client, m *arpc.Message) {
			r.count("overstock")
			if b := pubs[(&rpcWorld{}).msgID(m)]; b != nil {
				b.over[linkID(c)]++
			}
		})
		srv = s
		ln = r.Net.Listen("s0")
		l := ln
		go r.runServer(s.Server, l)
	}
	startServer()
	time.Sleep(us(10))
	for i := range r.faults {
		f := &r.faults[i]
		if f.Kind != "crash" {
			continue
		}
		time.AfterFunc(time.Second+us(f.At), func() {
			if f.done || r.stopped || finished || down {
				return
			}
			f.done = true
			r.fault("crash")
			down = true
			ln.Close()
			for _, l := range r.Net.links {
				l.reset(errReset)
			}
			old := srv
			go func() { old.Stop() }()
			time.Sleep(us(f.Dur))
			if !finished {
				startServer()
			}
		})
	}
	clis := make([]*pubsub.Client, nc)
	sub := make([]map[int][]psState, nc)
	taint := make([]map[int]bool, nc)
	authAt := make([]int, nc) // event at which authentication may have begun (-1: never)
	stopped := make([]bool, nc)
	authed := make([]bool, nc)
	cur := func(i, t int) int {
		l := sub[i][t]
		if len(l) == 0 {
			return 0
		}
		return l[len(l)-1].st
	}
	set := func(i, t, st int) {
		if taint[i][t] {
			st = 2
		}
		sub[i][t] = append(sub[i][t], psState{r.nev, st, r.Now()})
	}
	hsubs := 0
	onTopic := func(i int) pubsub.TopicHandler {
		return func(tp *pubsub.Topic) {
			r.ev("topic", i, len(tp.Data))
			id := -1
			s := string(tp.Data)
			if len(s) > 0 && s[0] == '@' {
				b := []byte(s)
				for k := range b {
					b[k] ^= 0x15
				}
				s = string(b)
			}
			if k := strings.Index(s, "Q;"); k >= 0 {
				fmt.Sscanf(s[k+2:], "%d", &id)
			}
			b := pubs[id]
			if b == nil {
				r.Fail("phantom", "client %d got %q on topic %q, which nobody published", i, clip(s), clip(tp.Name))
				return
			}
			if tp.Name != psTopics[b.topic] {
				r.Fail("topic", "publication %d for topic %q reached client %d as one for topic %q", id, clip(psTopics[b.topic]), i, clip(tp.Name))
			}
			if !bytes.Equal(tp.Data, b.data) {
				r.Fail("payload", "publication %d of %d bytes reached client %d as %d bytes %q", id, len(b.data), i, len(tp.Data), clip(string(tp.Data)))
			}
			if tp.Timestamp < b.n0 || (b.done && tp.Timestamp > b.n1) {
				r.Fail("timestamp", "publication %d carries the timestamp %d, it was made from %d on", id, tp.Timestamp, b.n0)
			}
			got = append(got, psGot{id, i, 0, r.nev})
			switch x := hash64(r.Plan.Seed, 91, uint64(id), uint64(i)) % 8; {
			case r.Plan.K("hfail")&1 != 0 && x < 3:
				r.count("topic_handler_panics")
				panic("simulated failure of a topic handler")
			case r.Plan.K("hfail")&2 != 0 && x == 3 && hsubs < 3 && r.Plan.K("syncresp") == 0 && clis[i] != nil:
				// a topic handler that subscribes
				hsubs++
				r.count("topic_handler_subscribes")
				clis[i].Subscribe("aux", func(*pubsub.Topic) {}, ms(200))
			}
		}
	}
	for i := 0; i < nc; i++ {
		sub[i], taint[i] = map[int][]psState{}, map[int]bool{}
		authAt[i] = -1
		for k := 0; k < 50 && clis[i] == nil; k++ {
			c, err := pubsub.NewClient(r.Net.Dialer("s0", fmt.Sprintf("c%d", i)), r.newHandler())
			if err == nil {
				clis[i] = c
			} else {
				time.Sleep(ms(100))
			}
		}
		if clis[i] == nil {
			return
		}
		clis[i].Codec = r.codec()
		if r.Plan.K(fmt.Sprintf("onpub%d", i)) == 1 {
			clis[i].OnPublish(onTopic(i))
		}
		if pw == "" {
			authAt[i] = 0 // by itself
		}
	}
	time.Sleep(time.Second)
	if stalls {
		time.Sleep(30 * time.Second)
	}
	authenticate := func(i int) {
		if authAt[i] < 0 {
			authAt[i] = r.nev
		}
		clis[i].Password = pw
		err := clis[i].Authenticate()
		r.ev("auth", i)
		if err == nil {
			authed[i] = true
		} else if err.Error() == pubsub.ErrInvalidPassword.Error() {
			r.Fail("auth", "client %d was refused with the right password", i)
		} else {
			r.count("auth_err")
		}
	}
	pubVal := func(b *psPub, kind, size int) (v interface{}, chk func()) {
		str := mkPay("Q", b.id, b.topic, size)
		chk = func() {}
		switch kind % nKinds {
		case 1, 4: // part of a larger array of the publisher
			whole := append([]byte(str), bytes.Repeat([]byte{0xEE}, 64)...)
			part := whole[:len(str)]
			chk = func() {
				if string(whole[:len(str)]) != str || !bytes.Equal(whole[len(str):], bytes.Repeat([]byte{0xEE}, 64)) {
					r.Fail("slice", "publication %d changed the publisher's array", b.id)
				}
			}
			v = part
			if kind%nKinds == 4 {
				v = &part
			}
		default:
			v = mkVal(kind, str)
		}
		b.data = append([]byte(nil), util.ValueToBytes(r.codec(), v)...)
		return
	}
	begin := func(a, i int, op Op, from int) *psPub {
		b := &psPub{id: a*1000 + i + 1, from: from, topic: op.B, one: strings.HasSuffix(op.K, "1"), over: map[int]int{}, actor: a}
		pubs[b.id] = b
		order = append(order, b)
		b.t0, b.n0 = r.Now(), time.Now().UnixNano()
		r.ev("pub", b.id, b.topic, from)
		b.s0 = r.nev
		return b
	}
	end := func(b *psPub, err error) {
		r.ev("pub-end", b.id)
		b.err, b.t1, b.n1, b.s1, b.done = err, r.Now(), time.Now().UnixNano(), r.nev, true
	}
	for i := 0; i < nc; i++ {
		if r.Plan.K(fmt.Sprintf("auth%d", i)) == 0 {
			authenticate(i)
		} else {
			clis[i].Password = "wrong"
		}
	}
	serverPub := func(a, i int, op Op) *psPub {
		b := begin(a, i, op, -1)
		v, chk := pubVal(b, op.F, op.C)
		s := srv
		var err error
		if b.one {
			err = s.PublishToOne(psTopics[op.B], v)
		} else {
			err = s.Publish(psTopics[op.B], v)
		}
		chk()
		end(b, err)
		if err != nil {
			r.Fail("publish", "the server's publication failed: %v", err)
		}
		return b
	}
	ok := r.actors(5*time.Minute, func(a, i int, op Op) {
		if op.K == "spub" || op.K == "spub1" {
			serverPub(a, i, op)
			return
		}
		c := clis[op.A]
		t := psTopics[op.B]
		timeout := tmo
		if authAt[op.A] < 0 {
			timeout = ms(300)
		}
		switch op.K {
		case "sub", "unsub":
			was := cur(op.A, op.B)
			r.ev(op.K, op.A, op.B)
			unauth := authAt[op.A] < 0
			want := 1
			if op.K == "unsub" {
				want = 0
			}
			if was != want && !unauth {
				set(op.A, op.B, 2)
			}
			var err error
			if op.K == "sub" {
				th := onTopic(op.A)
				if r.Plan.K(fmt.Sprintf("onpub%d", op.A)) == 1 {
					th = func(*pubsub.Topic) {} // everything goes to the OnPublish handler
				}
				err = c.Subscribe(t, th, timeout)
			} else {
				err = c.Unsubscribe(t, timeout)
			}
			r.ev(op.K+"-end", op.A, op.B)
			if unauth {
				r.count("denied")
				if err == nil {
					r.Fail("auth", "%s of client %d, which is not authenticated, succeeded", op.K, op.A)
				}
				return
			}
			if err != nil {
				r.count("sub_err")
				if len(r.Fired) == 0 && !stalls && r.Plan.K("sq") == 0 && r.Plan.Net.SendBuf == 0 {
					r.Fail("refused", "%s of client %d failed: %v", op.K, op.A, err)
				}
				taint[op.A][op.B] = true
			}
			set(op.A, op.B, want)
		case "pub", "pub1":
			b := begin(a, i, op, op.A)
			v, chk := pubVal(b, op.F, op.C)
			b.denied = authAt[op.A] < 0
			var err error
			if b.one {
				err = c.PublishToOne(t, v, timeout)
			} else {
				err = c.Publish(t, v, timeout)
			}
			chk()
			end(b, err)
			if b.denied {
				r.count("denied")
				if err == nil {
					r.Fail("auth", "a publication of client %d, which is not authenticated, succeeded", op.A)
				}
			} else if err != nil && len(r.Fired) == 0 && !stalls && r.Plan.K("sq") == 0 && r.Plan.Net.SendBuf == 0 {
				r.Fail("refused", "a publication of client %d failed: %v", op.A, err)
			}
		case "auth":
			if len(r.Fired) > 0 || stalls {
				// answers to what was sent before may still be on the way
				time.Sleep(10 * time.Second)
			}
			authenticate(op.A)
		case "reauth":
			if authAt[op.A] >= 0 {
				authenticate(op.A)
			} else {
				err := c.Authenticate()
				if err == nil {
					r.Fail("auth", "client %d was authenticated with a wrong password", op.A)
				} else if err.Error() != pubsub.ErrInvalidPassword.Error() && len(r.Fired) == 0 && !stalls && r.Plan.K("sq") == 0 {
					r.Fail("auth", "client %d with a wrong password got %v", op.A, err)
				}
				r.count("denied")
			}
		case "bad":
			for _, name := range []string{"", strings.Repeat("y", 1025)} {
				e := []error{c.Subscribe(name, onTopic(op.A), ms(300)), c.Unsubscribe(name, ms(300)), c.Publish(name, "x", ms(300)), c.PublishToOne(name, "x", ms(300)), srv.Publish(name, "x"), srv.PublishToOne(name, "x")}
				for k, err := range e {
					if err == nil {
						r.Fail("badtopic", "operation %d with a topic name of %d bytes succeeded", k, len(name))
					}
				}
			}
			// not made by this package's client
			long := make([]byte, 1200)
			long[1200-10], long[1200-9] = 1025&0xff, 1025>>8
			for k, raw := range [][]byte{{}, make([]byte, 9), make([]byte, 10), {5, 0, 1, 2, 3, 4, 5, 6, 7, 8}, {1, 2, 3, 4, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}, long} {
				route := []string{"in_S", "in_P", "in_P1", "in_U"}[(op.C+k)%4]
				if err := c.Call(route, raw, nil, ms(300)); err == nil {
					r.Fail("badtopic", "malformed topic %d was accepted by %s", k, route)
				} else if authed[op.A] && err == arpc.ErrClientTimeout && len(r.Fired) == 0 && !stalls && r.Plan.K("sq") == 0 && r.Plan.Net.SendBuf == 0 {
					r.Fail("badtopic", "malformed topic %d was not refused by %s", k, route)
				}
			}
		case "stop":
			c.Stop()
			stopped[op.A] = true
			r.fault("client-stop")
			for t := range psTopics {
				set(op.A, t, 2)
			}
		}
	})
	if !ok {
		r.Fail("stuck", "operations have not ended after 5 minutes")
		return
	}
	r.quell()
	finished = true
	if down {
		startServer()
	}
	time.Sleep(40 * time.Second)
	if stalls {
		time.Sleep(300 * time.Second)
	}
	// everybody who is still subscribed gets what is published now
	fin := map[int]*psPub{}
	for t := range psTopics {
		b := serverPub(900+t, 0, Op{K: "spub", B: t, C: 10})
		b.final = true
		fin[t] = b
		time.Sleep(time.Second)
		if stalls {
			time.Sleep(20 * time.Second)
		}
		if r.Plan.K("one") == 1 {
			b := serverPub(910+t, 0, Op{K: "spub1", B: t, C: 10})
			b.final = true
			time.Sleep(time.Second)
		}
	}
	time.Sleep(5 * time.Second)
	if stalls {
		time.Sleep(300 * time.Second)
	}
	links := make([][]*Link, nc)
	for _, l := range r.Net.links {
		if l.accepted {
			links[tagIdx(l.Tag)] = append(links[tagIdx(l.Tag)], l)
		}
	}
	cnt := map[[2]int]int{}
	tot := map[int]int{}
	for _, g := range got {
		cnt[[2]int{g.id, g.cli}]++
		tot[g.id]++
	}
	for _, b := range order {
		kind := "publication"
		if b.one {
			kind = "publication to one"
		}
		if b.denied && tot[b.id] > 0 {
			r.Fail("auth", "a %s (%d) of client %d, which was not authenticated, was delivered", kind, b.id, b.from)
		}
		if b.one && tot[b.id] > 1 {
			r.Fail("one", "publication %d to one subscriber of topic %d was delivered %d times", b.id, b.topic, tot[b.id])
		}
		musts, overs, unknown := 0, 0, 0
		for i := 0; i < nc; i++ {
			n := cnt[[2]int{b.id, i}]
			if n > 1 {
				r.Fail("twice", "%s %d was delivered to client %d %d times", kind, b.id, i, n)
			}
			st, all1, all0 := 0, true, true
			l := sub[i][b.topic]
			until := b.t1 + W
			if stalls || b.err != nil || len(r.Fired) > 0 { // delivered late: an Unsubscribe may come first
				until = 1 << 60
			}
			for _, e := range l {
				if e.s <= b.s0 {
					st = e.st
				} else if e.t <= until {
					all1 = all1 && e.st == 1
					all0 = all0 && e.st == 0
				}
			}
			all1 = all1 && st == 1
			all0 = all0 && st == 0
			same := len(links[i]) == 1 && !links[i][0].Dead() && !links[i][0].h[0].fin && !links[i][0].h[1].fin
			onpub := r.Plan.K(fmt.Sprintf("onpub%d", i)) == 1
			if authAt[i] < 0 && n > 0 {
				r.Fail("auth", "client %d, which is not authenticated, got %s %d", i, kind, b.id)
			}
			if all0 && n > 0 && (same || !onpub) {
				r.Fail("unsubscribed", "%s %d on topic %d was delivered to client %d, which was not subscribed", kind, b.id, b.topic, i)
			}
			if stopped[i] {
				if n > 0 && b.final {
					r.Fail("unsubscribed", "%s %d was delivered to client %d, which is stopped", kind, b.id, i)
				}
				if !b.final {
					unknown++
				}
				continue
			}
			must := false
			if len(links[i]) > 0 && b.over[links[i][len(links[i])-1].ID] > 0 {
				overs++
			} else if all1 && (same || b.final) {
				must = b.err == nil
			} else if !all0 || (len(l) > 0 && len(links[i]) > 1) {
				// an Unsubscribe may meet the subscribing again after a reconnect
				unknown++
			}
			if !must {
				continue
			}
			musts++
			if b.final && !same {
				r.count("resub")
			}
			if !b.one {
				r.count("due")
				if n != 1 {
					if b.final && !same {
						r.Fail("resubscribe", "client %d subscribed topic %d, lost the connection and is connected again, but %s %d did not reach it", i, b.topic, kind, b.id)
					} else {
						r.Fail("lost", "%s %d on topic %d did not reach client %d, which was subscribed", kind, b.id, b.topic, i)
					}
				}
			}
		}
		if b.one && musts > 0 && unknown == 0 {
			r.count("one")
			if tot[b.id] != 1 {
				r.Fail("one", "publication %d to one of the %d subscribers of topic %d was delivered %d times", b.id, musts, b.topic, tot[b.id])
			}
		}
	}
	// a subscriber with a synchronous handler sees what the server publishes in order
	if r.Plan.K("syncresp") == 1 {
		for x, a := range got {
			for _, b := range got[x+1:] {
				pa, pb := pubs[a.id], pubs[b.id]
				if a.cli == b.cli && pa.from < 0 && pb.from < 0 && pb.s1 < pa.s0 && len(links[a.cli]) == 1 {
					r.Fail("reordered", "the server published %d before %d, client %d got them in the opposite order", pb.id, pa.id, a.cli)
				}
			}
		}
	}
	for _, c := range clis {
		c.Stop()
	}
	srv.Stop()
	time.Sleep(3 * time.Second)
}
