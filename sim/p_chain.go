package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
)

// ---------------------------------------------------------------- C21

func init() {
	register(&Prop{ID: "C21", Rule: "non-trivial when a request passed a handler chain", Gen: genC21, Exec: execC21,
		NonTrivial: func(r *Run) bool { return r.Counts["chains"] > 0 },
		Real:       []string{"extension/middleware/router: Recover, Logger"}})
}

func genC21(g *Rng, p *Plan) {
	if g.P(2) {
		noStalls(p)
	}
	nc := g.In(1, 3)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "pool", "clone", "exec", "syncresp")
	p.Knobs["before"] = g.N(4)
	p.Knobs["after"] = g.N(3)
	p.Knobs["recover"] = g.Pick(0, 0, 0, 1)
	p.Knobs["logger"] = g.Pick(0, 0, 1)
	p.Knobs["nf"] = g.Pick(0, 0, 1)
	p.Knobs["dec"] = g.Pick(0, 0, 1, 2, 3)
	p.Knobs["decmid"] = g.N(2)
	p.Knobs["nops"] = g.Pick(0, 0, 1, 3)
	p.Knobs["slow"] = g.N(2)
	p.Knobs["wild"] = g.Pick(0, 1, 3) // how often elements abort or panic
	n := g.In(1, 4)
	for a := 0; a < n; a++ {
		var ops []Op
		for k := g.In(1, 7); k > 0; k-- {
			op := Op{K: g.PickS("call", "call", "async", "notify", "scall", "nf", "nfn", "stream", "cbpanic"), A: g.N(nc), B: g.N(4), C: g.Log(1, 200), E: g.Log(2_000_000, 5_000_000)}
			if g.P(2) {
				op.D = g.Log(1, 5000)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(4) {
		genFaults(g, p, 2, 30000, "reset", "cut", "hold")
	}
	p.Net.SendBuf = 0
}

const (
	elPass = iota
	elNext
	elAbort
	elPanic
	elNextAbort
	elSet
)

type chainRec struct {
	id      int
	trace   []string
	started int
	method  string
	set     map[string]bool
	cmd     byte
	rsp     string      // first response written, "" none
	rerr    interface{} // the last error responded
	over    bool
	sent    bool // a notify that was accepted
}

// chain behaviour of element e for request id
func chainDo(r *Run, id int, e int, handler bool) int {
	h := hash64(r.Plan.Seed, 77, uint64(id), uint64(e))
	w := r.Plan.K("wild")
	x := int(h % 20)
	switch {
	case handler && x < w:
		return elPanic
	case handler:
		return []int{elPass, elPass, elNext, elSet}[h>>8&3]
	case x < w:
		return elAbort
	case x < 2*w:
		return elPanic
	case x < 3*w:
		return elNextAbort
	}
	return []int{elPass, elPass, elNext, elSet}[h>>8&3]
}

// chainModel interprets a chain by the documented meaning of Next and Abort.
func chainModel(r *Run, id int, names []string, notify bool, rec bool) (trace []string, rsp string) {
	idx := 0
	aborted := false
	panicked := false
	var next func()
	next = func() {
		if aborted || idx >= len(names) {
			return
		}
		e := idx
		idx++
		n := names[e]
		if n == "n" {
			// the default not-found handler
			if rsp == "" && !notify {
				rsp = arpc.ErrMethodNotFound.Error()
			}
			next()
			return
		}
		trace = append(trace, n)
		handler := n[0] == 'h'
		if handler && rsp == "" && !notify && chainDo(r, id, e, true) != elPanic {
			rsp = fmt.Sprintf("R%d", id)
		}
		switch chainDo(r, id, e, handler) {
		case elNext:
			next()
			if panicked {
				return
			}
			trace = append(trace, "/"+n)
		case elAbort:
			if rsp == "" && !notify {
				rsp = fmt.Sprintf("A%d.%s", id, n)
			}
			aborted = true
		case elNextAbort:
			next()
			if panicked {
				return
			}
			aborted = true
			trace = append(trace, "/"+n)
		case elPanic:
			panicked = true
			return
		}
		next()
	}
	next()
	return
}

// decoy clones h and returns the one of the two that is to be used; the other is
// changed in every way by the function it also returns, which must have no effect
// on the one that is used.
func (r *Run) decoy(h arpc.Handler) (arpc.Handler, func()) {
	k := r.Plan.K("dec")
	if k == 0 {
		return h, func() {}
	}
	d := h.Clone()
	if k == 2 {
		h, d = d, h
	}
	r.count("decoys")
	var d2 arpc.Handler
	if k == 3 {
		// two clones of one handler
		d2 = h.Clone()
		h = h.Clone()
	}
	return h, func() { r.spoil(h, d, d2) }
}

func (r *Run) spoil(h, d, d2 arpc.Handler) {
	bad := func(what string) { r.Fail("not-independent", "a %s registered on another Handler was used", what) }
	mid := func(ctx *arpc.Context) { bad("middleware") }
	d.Use(mid)
	if d2 != nil {
		d2.Use(mid)
		d2.UseCoder(decoyCoder{r})
	}
	d.Handle("decoy.m", func(ctx *arpc.Context) { bad("method") })
	d.HandleNotFound(func(ctx *arpc.Context) { bad("not-found handler") })
	d.HandleStream("decoy.s", func(st *arpc.Stream) { bad("stream handler") })
	d.UseCoder(decoyCoder{r})
	d.HandleConnected(func(c *arpc.Client) { bad("HandleConnected callback") })
	d.HandleDisconnected(func(c *arpc.Client) { bad("HandleDisconnected callback") })
	d.HandleOverstock(func(c *arpc.Client, m *arpc.Message) { bad("HandleOverstock callback") })
	d.HandleMessageDropped(func(c *arpc.Client, m *arpc.Message) { bad("HandleMessageDropped callback") })
	d.HandleSessionMiss(func(c *arpc.Client, m *arpc.Message) { bad("HandleSessionMiss callback") })
	d.HandleMalloc(func(n int) []byte { bad("HandleMalloc callback"); return make([]byte, n) })
	d.HandleFree(func(b []byte) { bad("HandleFree callback") })
	d.SetAsyncExecutor(func(f func()) { bad("executor"); go f() })
	d.SetMaxBodyLen(1)
	d.SetSendQueueSize(1)
	d.SetReadTimeout(1)
	d.SetWriteTimeout(1)
	d.SetAsyncWrite(!h.AsyncWrite())
	d.SetBatchSend(!h.BatchSend())
	d.SetBatchRecv(!h.BatchRecv())
	d.Cancel()
	if ctx, _ := h.Context(); ctx != nil && ctx.Err() != nil {
		bad("Cancel")
	}
}

type nopCoder struct{}

func (nopCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message { return m }
func (nopCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message { return m }

type decoyCoder struct{ r *Run }

func (d decoyCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	d.r.Fail("not-independent", "a coder registered on another Handler was used")
	return m
}

func (d decoyCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	d.r.Fail("not-independent", "a coder registered on another Handler was used")
	return m
}

// a name of the greatest length
var longName = strings.Repeat("s", arpc.MaxMethodLen)

func execC21(r *Run) {
	nc := r.Plan.K("_clients")
	base := 0
	recs := map[int]*chainRec{}
	parse := func(ctx *arpc.Context) int {
		var s string
		ctx.Bind(&s)
		_, id, _, err := chkPay(s)
		if err != nil {
			r.Fail("payload", "a handler got %v", err)
			return 0
		}
		return id
	}
	names := map[string][]string{}
	mk := func(name string, e int) arpc.HandlerFunc {
		handler := name[0] == 'h'
		return func(ctx *arpc.Context) {
			if m := ctx.Message.Method(); m == "plain" || m == "slow" || m == longName {
				return
			}
			id := parse(ctx)
			rec := recs[id]
			if rec == nil {
				r.Fail("phantom", "a handler got request %d which was never sent", id)
				return
			}
			if rec.over {
				r.Fail("late-chain", "element %s of request %d ran after its chain had ended", name, id)
			}
			if len(rec.trace) == 0 {
				rec.started++
				r.count("chains")
				if v, ok := ctx.Get("v"); ok {
					r.Fail("leaked-value", "request %d starts with the value %v", id, v)
				}
			}
			rec.trace = append(rec.trace, name)
			r.ev("el:"+name, id)
			// a value set earlier in this chain, and only that, is visible
			v, ok := ctx.Get("v")
			if ok != rec.set["v"] || (ok && v != id) {
				r.Fail("value", "request %d at %s: value present %v (%v), set before %v", id, name, ok, v, rec.set["v"])
			}
			if ctx.Value("v") != v {
				r.Fail("value", "Value and Get differ")
			}
			seen := func() {
				if e := ctx.ResponseError(); base == 0 && (rec.method != "nf" || r.Plan.K("nf") == 1) && e != rec.rerr {
					r.Fail("response-error", "request %d at %s: ResponseError is %v, the error responded is %v", id, name, e, rec.rerr)
				}
			}
			seen()
			w := func(v string, isErr bool) {
				var err error
				if isErr {
					err = ctx.Error(v)
					if rec.cmd != arpc.CmdNotify {
						rec.rerr = v
					}
				} else {
					err = ctx.Write(v)
				}
				if rec.cmd == arpc.CmdNotify && err != arpc.ErrContextResponseToNotify {
					r.Fail("notify-reply", "replying to a notify returned %v", err)
				}
			}
			do := chainDo(r, id, e, handler)
			if handler && do != elPanic {
				if id%3 == 0 {
					time.Sleep(us(id % 50))
				}
				w(fmt.Sprintf("R%d", id), false)
			}
			switch do {
			case elSet:
				ctx.Set("v", id)
				rec.set["v"] = true
			case elNext:
				ctx.Next()
				seen()
				rec.trace = append(rec.trace, "/"+name)
			case elAbort:
				w(fmt.Sprintf("A%d.%s", id, name), true)
				ctx.Abort()
			case elNextAbort:
				ctx.Next()
				seen()
				rec.trace = append(rec.trace, "/"+name)
				ctx.Abort()
			case elPanic:
				r.fault("handler-panic")
				panic(errors.New("simulated failure of a handler"))
			}
		}
	}
	setup := func(h arpc.Handler) arpc.Handler {
		var mids []string
		for i := r.Plan.K("nops"); i > 0; i-- {
			h.UseCoder(nopCoder{})
		}
		h.Use(nil)
		h.UseCoder(nil)
		if r.Plan.K("recover") == 1 {
			h.Use(router.Recover())
			base = 1
		}
		if r.Plan.K("logger") == 1 {
			h.Use(router.Logger())
		}
		for i := 0; i < r.Plan.K("before"); i++ {
			n := fmt.Sprintf("b%d", i)
			h.Use(mk(n, i))
			mids = append(mids, n)
		}
		nb := len(mids)
		h.Handle(longName, func(ctx *arpc.Context) { ctx.Write("x") })
		for k, m := range []string{"m0", "m1", "m2"} {
			h.Handle(m, mk("h"+m, nb), k > 0)
			names[m] = append(append([]string{}, mids...), "h"+m)
		}
		if r.Plan.K("nf") == 1 {
			h.HandleNotFound(mk("hnf", nb))
			names["nf"] = append(append([]string{}, mids...), "hnf")
		} else {
			names["nf"] = append(append([]string{}, mids...), "n")
		}
		h.Handle("slow", func(ctx *arpc.Context) {
			time.Sleep(3 * time.Second)
			ctx.Write("x")
		}, true)
		h.HandleStream(longName, func(st *arpc.Stream) {
			var s string
			for st.Recv(&s) == nil {
				st.Send(s + "!")
			}
			st.CloseRecv()
			st.CloseSend()
		}, true)
		var spoil func()
		if r.Plan.K("decmid") == 1 {
			h, spoil = r.decoy(h)
			if r.Plan.K("nops") > 0 {
				h.UseCoder(nopCoder{})
			}
		}
		for i := 0; i < r.Plan.K("after"); i++ {
			n := fmt.Sprintf("a%d", i)
			e := nb + 1 + i
			f := mk(n, e)
			late := mk(n, nb+i)
			_ = late
			h.Use(func(ctx *arpc.Context) {
				// for routes registered later this middleware comes before the handler
				if ctx.Message.Method() == "m3" {
					late(ctx)
				} else {
					f(ctx)
				}
			})
			for _, m := range []string{"m0", "m1", "m2", "nf"} {
				if names[m] != nil {
					names[m] = append(names[m], n)
				}
			}
			mids = append(mids, n)
		}
		if spoil != nil {
			spoil()
		}
		h.Handle("m3", mk("hm3", len(mids)), true)
		names["m3"] = append(append([]string{}, mids...), "hm3")
		h.HandleStream("sp", func(st *arpc.Stream) {
			var s string
			st.Recv(&s)
			r.fault("stream-handler-panic")
			panic("simulated failure of a stream handler")
		}, true)
		h.Handle("plain", func(ctx *arpc.Context) { ctx.Write("x") }, true)
		if spoil == nil {
			h, spoil = r.decoy(h)
			spoil()
		}
		return h
	}
	s := r.newServer()
	s.Handler = setup(s.Handler)
	srvOf := map[int]*arpc.Client{}
	s.Handler.HandleConnected(func(c *arpc.Client) { srvOf[tagIdx(LinkOf(c.Conn).Tag)] = c })
	r.serve(s, "s0")
	clis := make([]*arpc.Client, nc)
	for i := range clis {
		h := r.newHandler()
		names = map[string][]string{}
		h = setup(h)
		if clis[i] = r.connect("s0", fmt.Sprintf("c%d", i), h); clis[i] == nil {
			return
		}
	}
	calm := func() bool {
		for k := range r.Fired {
			if !strings.HasSuffix(k, "panic") {
				return false
			}
		}
		return r.Plan.Net.SendBuf == 0 && r.Plan.Sched.StallP == 0
	}
	nfText := arpc.ErrMethodNotFound.Error()
	type res struct {
		id     int
		err    error
		rsp    string
		method string
		done   bool
		ncb    int
		async  bool
		d      time.Duration
		to     time.Duration
	}
	var results []*res
	r.actors(3*time.Minute, func(a, i int, op Op) {
		id := a*1000 + i + 1
		c := clis[op.A]
		kind := op.K
		if kind == "scall" {
			kind = "call"
			if c = srvOf[op.A]; c == nil {
				return
			}
		}
		m := fmt.Sprintf("m%d", op.B)
		pay := mkPay("Q", id, 0, op.C)
		rec := &chainRec{id: id, method: m, set: map[string]bool{}, cmd: arpc.CmdRequest}
		to := us(op.E)
		rs := &res{id: id, method: m, to: to}
		t0 := r.Now()
		switch kind {
		case "nf", "nfn":
			rs.method = "nf"
			rec.method = "nf"
			m = "no.such.method"
			if r.Plan.K("dec") > 0 && id%2 == 0 {
				m = "decoy.m" // registered on another handler
			}
			recs[id] = rec
			if kind == "nfn" {
				rec.cmd = arpc.CmdNotify
				rec.sent = c.Notify(m, pay, to) == nil
				return
			}
			rs.err = c.Call(m, pay, &rs.rsp, to)
			rs.done = true
			results = append(results, rs)
		case "call":
			recs[id] = rec
			rs.err = c.Call(m, pay, &rs.rsp, to)
			rs.done = true
			rs.d = r.Now() - t0
			results = append(results, rs)
		case "async", "cbpanic":
			recs[id] = rec
			rs.async = true
			results = append(results, rs)
			c.CallAsync(m, pay, func(ctx *arpc.Context, err error) {
				rs.ncb++
				rs.err = err
				if err == nil {
					ctx.Bind(&rs.rsp)
				}
				rs.done = true
				if kind == "cbpanic" {
					r.fault("callback-panic")
					panic("simulated failure of a callback")
				}
			}, to)
		case "notify":
			rec.cmd = arpc.CmdNotify
			recs[id] = rec
			rec.sent = c.Notify(m, pay, to) == nil
		case "stream":
			st := c.NewStream("sp")
			st.Send("x")
			st.CloseSend()
			st.CloseRecv()
		}
	})
	time.Sleep(10 * time.Second)
	if r.Plan.Sched.StallP > 0 {
		time.Sleep(200 * time.Second)
	}
	for id, rec := range recs {
		if len(rec.trace) == 0 && !(rec.sent && calm()) {
			continue
		}
		rec.over = true
		if rec.started > 1 {
			r.Fail("twice", "request %d went through its chain %d times", id, rec.started)
		}
		if base == 1 {
			// Recover resumes the chain after a panic; only the order is claimed
			continue
		}
		want, _ := chainModel(r, id, names[rec.method], rec.cmd == arpc.CmdNotify, false)
		if strings.Join(want, " ") != strings.Join(rec.trace, " ") {
			r.Fail("chain", "request %d for %s ran [%s], want [%s]", id, rec.method, strings.Join(rec.trace, " "), strings.Join(want, " "))
		}
	}
	for _, rs := range results {
		if rs.async && rs.ncb > 1 {
			r.Fail("callback-twice", "the callback of request %d was called %d times", rs.id, rs.ncb)
		}
		if !rs.done || base == 1 || !calm() {
			continue
		}
		_, want := chainModel(r, rs.id, names[rs.method], false, false)
		got := rs.rsp
		if rs.err != nil {
			got = rs.err.Error()
			if isArpcErr(rs.err) && got != nfText {
				got = ""
			}
		}
		if rs.method == "nf" && r.Plan.K("nf") == 0 {
			r.count("not_found")
		}
		if want != got {
			r.Fail("response", "call %d for %s returned %q (%v), want %q", rs.id, rs.method, got, rs.err, want)
		}
	}
	// everything still works
	r.quell()
	if r.Plan.Sched.StallP == 0 {
		for i, c := range clis {
			var rsp string
			if r.Plan.K("slow") == 1 && r.Plan.K("exec") == 0 && calm() {
				// a handler registered as asynchronous holds nothing else up
				slow := 0
				if err := c.CallAsync("slow", "q", func(ctx *arpc.Context, err error) { slow++ }, 10*time.Second); err == nil {
					t0 := r.Now()
					if err := c.Call("plain", "q", &rsp, 10*time.Second); err != nil || r.Now()-t0 > 2*time.Second {
						r.Fail("held-up", "a request took %v (%v) while an asynchronous handler was running", r.Now()-t0, err)
					}
					until(11*time.Second, ms(100), func() bool { return slow > 0 })
					r.count("slow_handlers")
				}
			}
			var last error
			if !until(15*time.Second, ms(100), func() bool { last = c.Call("plain", "q", &rsp, time.Second); return last == nil }) || rsp != "x" {
				r.Fail("dead-after-panic", "client %d can't call the server any more: %v", i, last)
			}
			if err := c.Call(longName, "q", &rsp, 10*time.Second); calm() && (err != nil || rsp != "x") {
				r.Fail("long-name", "a method with a name of %d bytes answered %q, %v", len(longName), rsp, err)
			}
			ends := []*arpc.Client{c}
			sc := srvOf[i]
			if sc != nil && linkAlive(sc) {
				ends = append(ends, sc)
			}
			if len(ends) == 2 && calm() {
				// stream handlers, too, are found, and hold nothing else up
				for k, e := range ends {
					st := e.NewStream(longName)
					ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
					err := st.SendContext(ctx, "a")
					if err == nil {
						err = st.RecvContext(ctx, &rsp)
					}
					if err != nil || rsp != "a!" {
						r.Fail("stream", "end %d of client %d: a stream answered %q, %v", k, i, rsp, err)
					}
					if err := e.Call("plain", "q", &rsp, 3*time.Second); err != nil && r.Plan.K("exec") == 0 {
						r.Fail("held-up", "a request failed (%v) while an asynchronous stream handler was running", err)
					}
					cancel()
					st.CloseSend()
					st.CloseRecv()
					r.count("streams")
					time.Sleep(ms(10))
				}
			}
			if len(ends) < 2 {
				continue
			}
			if err := sc.Call("plain", "q", &rsp, 5*time.Second); err != nil && linkAlive(sc) {
				r.Fail("dead-after-panic", "the server can't call client %d any more: %v", i, err)
			}
		}
		if calm() {
			for _, l := range r.Net.links {
				if l.ends[0].closed || l.ends[1].closed {
					r.Fail("closed", "connection %d was closed because of a failing handler", l.ID)
				}
			}
		}
	}
	for _, c := range clis {
		c.Stop()
	}
	s.Stop()
	time.Sleep(3 * time.Second)
}
