package main

import (
	"fmt"
	"net"
	"runtime"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/lesismal/arpc"
)

// ---------------------------------------------------------------- C19

func init() {
	register(&Prop{ID: "C19", Rule: "non-trivial when Next was called while some client was not usable, or when all were usable throughout", Gen: genC19, Exec: execC19,
		NonTrivial: func(r *Run) bool {
			return r.Counts["next_degraded"] > 0 || r.Counts["fair"] > 0 || r.Counts["refused"] > 0
		}})
}

func genC19(g *Rng, p *Plan) {
	noStalls(p)
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "clone")
	size := g.In(1, 5)
	p.Knobs["_size"] = size
	p.Knobs["dialers"] = g.N(2)
	p.Knobs["mrt"] = g.Pick(0, 0, 1, 2)
	p.Knobs["defh"] = g.N(2)
	n := g.In(1, 4)
	for a := 0; a < n; a++ {
		var ops []Op
		for k := g.In(1, 14); k > 0; k-- {
			op := Op{K: g.PickS("next", "next", "next", "call", "get"), A: g.N(20)}
			if g.P(4) {
				op.D = g.Log(1, 30000)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	switch g.N(4) {
	case 0:
	case 1:
		var ops []Op
		for k := g.In(1, 4); k > 0; k-- {
			ops = append(ops, Op{K: "stop", A: g.N(size), D: g.Log(1, 20000)})
		}
		p.Actors = append(p.Actors, ops)
	default:
		for k := g.In(1, 4); k > 0; k-- {
			f := Fault{Kind: g.PickS("reset", "reset", "dialfail", "partition", "slowdial"), At: g.N(60000), Conn: g.N(size)}
			switch f.Kind {
			case "dialfail":
				f.N = g.In(1, 5)
			case "slowdial":
				f.Dur = g.Log(1000, 500_000)
			case "partition":
				f.Dur = g.Log(1000, 500_000)
			}
			p.Faults = append(p.Faults, f)
		}
	}
	if g.P(8) {
		p.Faults = append(p.Faults, Fault{Kind: "dialfail", N: 1, At: 0})
	}
	if g.P(3) { // the pool is stopped while the network is as the faults left it
		p.Knobs["early"] = 1
		for k := g.In(0, 2); k > 0; k-- {
			p.Faults = append(p.Faults, Fault{Kind: "reset", At: g.N(60000), Conn: g.N(size)})
		}
		if g.P(2) {
			p.Faults = append(p.Faults, Fault{Kind: "dialfail", At: 5000 + g.N(60000), N: 20, Conn: -1})
		}
		p.Actors[0] = append(p.Actors[0], Op{K: "next", D: g.Log(1, 2_000_000)})
	}
	p.Net.SendBuf = 0
}

func execC19(r *Run) {
	size := r.Plan.K("_size")
	base := runtime.VerifBubbleTotal()
	servers := 1
	if r.Plan.K("dialers") == 1 {
		servers = size
	}
	var ss []*arpc.Server
	served := make([]int, servers)
	for i := 0; i < servers; i++ {
		i := i
		s := r.newServer()
		s.Handler.Handle("id", func(ctx *arpc.Context) { served[i]++; ctx.Write(fmt.Sprint(i)) })
		r.serve(s, fmt.Sprintf("s%d", i))
		ss = append(ss, s)
	}
	h := r.newHandler()
	h.SetMaxReconnectTimes(r.Plan.K("mrt"))
	args := []interface{}{h}
	if r.Plan.K("defh") == 1 && r.Plan.K("mrt") == 0 {
		args = nil // the default handler
	}
	time.Sleep(ms(1))
	var pool *arpc.ClientPool
	var err error
	if _, err := arpc.NewClientPoolFromDialers(nil, args...); err == nil {
		r.Fail("pool", "a pool without dialers was made")
	}
	if r.Plan.K("dialers") == 1 {
		var ds []arpc.DialerFunc
		for i := 0; i < size; i++ {
			d := r.Net.Dialer(fmt.Sprintf("s%d", i), fmt.Sprintf("c%d", i))
			ds = append(ds, func() (net.Conn, error) { return d() })
		}
		pool, err = arpc.NewClientPoolFromDialers(ds, args...)
	} else {
		k := 0
		pool, err = arpc.NewClientPool(func() (net.Conn, error) {
			k++
			return r.Net.dial("s0", fmt.Sprintf("c%d", k-1))
		}, size, args...)
	}
	if err != nil {
		// nothing may stay behind of a pool that could not be made
		r.count("refused")
		if r.healthy() {
			r.Fail("pool", "making the pool failed: %v", err)
		}
		time.Sleep(5 * time.Second)
		for _, l := range r.Net.links {
			if !l.ends[0].closed {
				r.Fail("pool-leak", "the pool could not be made (%v), connection %d stays open", err, l.ID)
			}
		}
		for _, s := range ss {
			s.Stop()
		}
		r.leakCheck(base, 20*time.Second)
		return
	}
	if pool.Size() != size {
		r.Fail("size", "Size is %d, %d clients were asked for", pool.Size(), size)
	}
	index := map[*arpc.Client]int{}
	for i := 0; i < size; i++ {
		index[pool.Get(i)] = i
	}
	if len(index) != size {
		r.Fail("size", "a pool of %d has %d different clients", size, len(index))
	}
	counts := make([]int, size)
	stopped := make([]bool, size)
	// state changes of clients: usable states can only change by these
	snap := func() []bool {
		out := make([]bool, size)
		for i := range out {
			out[i] = pool.Get(i).CheckState() == nil
		}
		return out
	}
	undisturbed := true
	next := func() (*arpc.Client, int) {
		// track every change while Next runs
		b := snap()
		d0 := len(r.Net.DialLog)
		c := pool.Next()
		a := snap()
		i, ok := index[c]
		if !ok {
			r.Fail("foreign", "Next returned a client that is not in the pool")
			return nil, 0
		}
		counts[i]++
		same := d0 == len(r.Net.DialLog)
		anyUp := false
		all := true
		for k := range b {
			if b[k] != a[k] {
				same = false
			}
			if b[k] && a[k] {
				anyUp = true
			} else {
				all = false
			}
		}
		if !all {
			undisturbed = false
		}
		if same && anyUp && !b[i] {
			r.Fail("unusable", "Next returned client %d which is not usable though another one is: %v", i, b)
		}
		if anyUp && !all {
			r.count("next_degraded")
		}
		return c, i
	}
	r.actors(time.Minute, func(a, i int, op Op) {
		switch op.K {
		case "next":
			next()
		case "get":
			if k, ok := index[pool.Get(op.A)]; !ok || k != op.A%size {
				r.Fail("get", "Get(%d) of a pool of %d returned client %d", op.A, size, k)
			}
		case "call":
			c, k := next()
			if c == nil {
				return
			}
			var rsp string
			err := c.Call("id", "x", &rsp, 2*time.Second)
			if err == nil {
				want := 0
				if servers > 1 {
					want = k
				}
				if rsp != fmt.Sprint(want) {
					r.Fail("call", "client %d was answered by server %s", k, rsp)
				}
			} else if r.healthy() {
				r.Fail("call", "a call through the pool failed: %v", err)
			}
		case "stop":
			r.fault("client-stop")
			stopped[op.A] = true
			pool.Get(op.A).Stop()
		}
	})
	if undisturbed {
		lo, hi := 1<<30, 0
		for _, n := range counts {
			lo, hi = min(lo, n), max(hi, n)
		}
		if hi-lo > 1 {
			r.Fail("unfair", "with every client usable, Next returned them %v times", counts)
		}
		r.count("fair")
	}
	if r.Plan.K("early") == 1 {
		for i := 0; i < size; i++ {
			if pool.Get(i).CheckState() != nil && !stopped[i] {
				r.count("stop_reconnecting")
			}
			stopped[i] = true
		}
		pool.Stop()
		for i := 0; i < size; i++ {
			if err := pool.Get(i).CheckState(); err != arpc.ErrClientStopped {
				r.Fail("pool-leak", "client %d of a stopped pool reports %v", i, err)
			}
		}
		sleep(us(int(r.Plan.Seed % 100_000)))
	}
	// once the network is back every client that was not stopped is handed out again, in turn
	r.quell()
	time.Sleep(6 * time.Second)
	var up []int
	for i := 0; i < size; i++ {
		if pool.Get(i).CheckState() == nil {
			up = append(up, i)
		} else if !stopped[i] && r.Plan.K("mrt") == 0 {
			r.Fail("reconnect", "client %d of the pool is not usable after the network came back", i)
		}
	}
	if len(up) > 0 {
		seen := map[int]int{}
		for k := 0; k < size*2; k++ {
			if _, i := next(); true {
				seen[i]++
			}
		}
		for _, i := range up {
			if seen[i] == 0 {
				r.Fail("unfair", "usable client %d was not returned by %d calls of Next in a row (%v)", i, size*2, seen)
			}
		}
		for i := range seen {
			if pool.Get(i).CheckState() != nil {
				r.Fail("unusable", "Next returned client %d which is not usable though %v are", i, up)
			}
		}
	}
	pool.Stop()
	time.Sleep(10 * time.Second)
	for _, l := range r.Net.links {
		if !l.ends[0].closed {
			r.Fail("pool-leak", "connection %d is open after the pool was stopped", l.ID)
		}
	}
	pool.Next()
	for i := 0; i < size; i++ {
		if err := pool.Get(i).CheckState(); err != arpc.ErrClientStopped {
			r.Fail("pool-leak", "client %d of a stopped pool reports %v", i, err)
		}
	}
	for _, s := range ss {
		s.Stop()
	}
	r.leakCheck(base, 20*time.Second)
}

// ---------------------------------------------------------------- C24

func init() {
	register(&Prop{ID: "C24", Rule: "non-trivial when values were read while others were written", Gen: genC24, Exec: execC24,
		NonTrivial: func(r *Run) bool { return r.Counts["kv_get"] > 0 && r.Counts["kv_set"] > 0 }})
}

func genC24(g *Rng, p *Plan) {
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "nobatchsend", "nobatchrecv", "pool", "clone")
	nk := g.In(1, 3)
	n := g.In(2, 5)
	for a := 0; a < n; a++ {
		var ops []Op
		for k := g.In(1, 8); k > 0; k-- {
			op := Op{K: g.PickS("set", "set", "get", "get", "del", "rset", "rget", "rget", "setnil"), A: g.N(nc), B: g.N(nk), C: g.N(2)}
			if g.P(5) {
				op.D = g.Log(1, 30000)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(3) {
		genFaults(g, p, 3, 30000, "reset", "cut", "hold")
	}
	p.Net.SendBuf = 0
}

type kvIn struct {
	op  int // 0 get 1 set 2 delete
	key string
	val int
}

var kvModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(kvIn).key
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, k := range sortedKeys(m) {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() interface{} { return 0 },
	Step: func(state, in, out interface{}) (bool, interface{}) {
		i := in.(kvIn)
		switch i.op {
		case 1:
			return true, i.val
		case 2:
			return true, 0
		}
		return out.(int) == state.(int), state
	},
}

func execC24(r *Run) {
	nc := r.Plan.K("_clients")
	var hist []porcupine.Operation
	tick := 0
	do := func(actor int, c *arpc.Client, scope string, op int, key string, val int) {
		tick++
		t0 := tick
		out := 0
		switch op {
		case 0:
			if v, ok := c.Get(key); ok {
				out, _ = v.(int)
			}
			r.count("kv_get")
		case 1:
			c.Set(key, val)
			r.count("kv_set")
		case 2:
			c.Delete(key)
		}
		tick++
		hist = append(hist, porcupine.Operation{ClientId: actor, Input: kvIn{op, scope + "/" + key, val}, Call: int64(t0), Output: out, Return: int64(tick)})
	}
	s := r.newServer()
	srvOf := map[int]*arpc.Client{}
	s.Handler.HandleConnected(func(c *arpc.Client) { srvOf[tagIdx(LinkOf(c.Conn).Tag)] = c })
	conn := map[int]*arpc.Client{}
	n := 1000
	handle := func(ctx *arpc.Context) {
		// values of the connection as its handlers see them
		l := linkID(ctx.Client)
		if conn[l] == nil {
			conn[l] = ctx.Client
		}
		if conn[l] != ctx.Client {
			r.Fail("identity", "handlers of connection %d are given different clients", l)
		}
		var in [3]int
		ctx.Bind(&in)
		n++
		do(1000+n, ctx.Client, fmt.Sprintf("conn%d", l), in[0], fmt.Sprintf("k%d", in[1]), in[2])
		ctx.Write("ok")
	}
	s.Handler.Handle("kv", handle, true)
	s.Handler.Handle("kvs", handle)
	r.serve(s, "s0")
	clis := make([]*arpc.Client, nc)
	for i := range clis {
		if clis[i] = r.connect("s0", fmt.Sprintf("c%d", i), r.newHandler()); clis[i] == nil {
			return
		}
	}
	vals := 0
	r.actors(2*time.Minute, func(a, i int, op Op) {
		c := clis[op.A]
		key := fmt.Sprintf("k%d", op.B)
		vals++
		v := vals
		scope := fmt.Sprintf("cli%d", op.A)
		m := []string{"kv", "kvs"}[op.C]
		switch op.K {
		case "get":
			do(a, c, scope, 0, key, 0)
		case "set":
			do(a, c, scope, 1, key, v)
		case "del":
			do(a, c, scope, 2, key, 0)
		case "setnil": // has no effect
			c.Set(key, nil)
			c.Set(nil, 5)
		case "rset":
			c.Call(m, [3]int{1, op.B, v}, nil, 5*time.Second)
		case "rget":
			c.Call(m, [3]int{0, op.B, 0}, nil, 5*time.Second)
		}
	})
	time.Sleep(5 * time.Second)
	for i, c := range clis {
		for k := 0; k < 3; k++ {
			do(5000+i, c, fmt.Sprintf("cli%d", i), 0, fmt.Sprintf("k%d", k), 0)
		}
	}
	if !porcupine.CheckOperations(kvModel, hist) {
		var s string
		for _, o := range hist {
			i := o.Input.(kvIn)
			s += fmt.Sprintf(" [%d-%d %s %s %d=%d]", o.Call, o.Return, []string{"get", "set", "del"}[i.op], i.key, i.val, o.Output)
		}
		r.Fail("linearizability", "the values of a client are not linearizable:%s", s)
	}
	for _, c := range clis {
		c.Stop()
	}
	s.Stop()
	time.Sleep(2 * time.Second)
}
