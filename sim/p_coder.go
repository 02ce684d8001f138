package main

import (
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	"github.com/lesismal/arpc/extension/middleware/coder/msgpack"
	"github.com/lesismal/arpc/extension/middleware/coder/tracing"
	basictracer "github.com/opentracing/basictracer-go"
)

// ---------------------------------------------------------------- C16

func init() {
	register(&Prop{ID: "C16", Rule: "non-trivial when a message passed the coder chain", Gen: genC16, Exec: execC16,
		NonTrivial: func(r *Run) bool { return r.Counts["checked"] > 0 },
		Real:       []string{"extension/middleware/coder: Appender, gzip, msgpack, tracing"}})
}

const traceKey = "arpc-opentracing"

func genC16(g *Rng, p *Plan) {
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "clone")
	p.Knobs["chain"] = g.In(1, 127)
	p.Knobs["perm"] = g.N(720)
	p.Knobs["gz"] = g.Pick(0, 16, 50, 100, 300, 1000)
	p.Knobs["bigapp"] = g.Pick(0, 0, 0, 0, 0, 0, 200, 1000, 65526, 65527, 65528, 65600, 131100)
	n := g.In(1, 4)
	for a := 0; a < n; a++ {
		var ops []Op
		for k := g.In(1, 6); k > 0; k-- {
			op := Op{K: g.PickS("call", "call", "async", "notify", "err", "scall", "snotify", "sasync", "bc", "stream", "sstream"), A: g.N(nc), B: g.N(4), C: g.Log(1, g.Pick(50, 400, 3000)) - 1, E: g.N(8) + 8*g.Pick(0, 0, 1), F: g.N(6), G: g.N(4)}
			if g.P(2) {
				op.D = g.Log(1, 5000)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(3) {
		genFaults(g, p, 2, 30000, "reset", "cut", "partwrite", "hold")
	} else {
		p.Net.SendBuf = 0
	}
	genHuge(g, p, func(op *Op, n int) { op.C = n })
}

// content of n bytes: compressible or not, printable or not
func content(id, n int) string {
	switch id % 4 {
	case 0:
		return fill(id, n)
	case 1:
		return strings.Repeat("a", n)
	case 2:
		b := []byte(fill(id, n))
		for i := range b {
			b[i] = byte(int(b[i])*7 + i)
		}
		return string(b)
	default:
		return strings.Repeat(fill(id, 7), n/7+1)[:n]
	}
}

func cPay(tag string, id, n int) string {
	return tag + strconv.Itoa(id) + ";" + strconv.Itoa(n) + ";" + content(id, n)
}

func cChk(tag, s string) (int, error) {
	f := strings.SplitN(s, ";", 3)
	if len(f) != 3 || !strings.HasPrefix(f[0], tag) {
		return 0, fmt.Errorf("unparsable body %q", clip(s))
	}
	id, e1 := strconv.Atoi(f[0][len(tag):])
	n, e2 := strconv.Atoi(f[1])
	if e1 != nil || e2 != nil || n < 0 || n > 1<<24 || f[2] != content(id, n) {
		return id, fmt.Errorf("changed body of message %d: %d bytes %q", id, len(s), clip(s))
	}
	return id, nil
}

type coderOp struct {
	app, trace, extra bool
	n                 int
	appLen            int
}

func appVal(id, n int) string {
	if n > 0 {
		return fill(id, n)
	}
	return "app;" + strconv.Itoa(id)
}

func (r *Run) coderChain(h arpc.Handler) {
	ch := r.Plan.K("chain")
	order := []int{0, 1, 2, 3, 4, 5}
	k := r.Plan.K("perm")
	for i := 5; i > 0; i-- {
		j := k % (i + 1)
		k /= i + 1
		order[i], order[j] = order[j], order[i]
	}
	for _, i := range order {
		if ch&(1<<i) == 0 {
			continue
		}
		switch i {
		case 0:
			h.UseCoder(&xorCoder{0x5a, 4})
		case 1:
			h.UseCoder(msgpack.New())
		case 2:
			h.UseCoder(&growCoder{"<tail>"})
		case 3:
			h.UseCoder(newAppender())
		case 4:
			h.UseCoder(&xorCoder{0xff, 3})
		case 5:
			h.UseCoder(tracing.NewTracer(nil))
		}
	}
	if ch&64 != 0 {
		h.UseCoder(gzip.New(r.Plan.K("gz")))
	}
}

func execC16(r *Run) {
	nc := r.Plan.K("_clients")
	ch := r.Plan.K("chain")
	ops := map[int]*coderOp{}
	seen := map[int]int{}
	spanOf := func(id int) basictracer.SpanContext {
		return basictracer.SpanContext{TraceID: uint64(id) * 77, SpanID: uint64(id) + 5, Sampled: id%2 == 0, Baggage: map[string]string{"id": strconv.Itoa(id)}}
	}
	args := func(id int, f int, n int) (interface{}, bool) {
		o := &coderOp{n: n}
		ops[id] = o
		m := map[interface{}]interface{}{}
		if ch&8 != 0 && f&1 != 0 {
			o.app = true
			m["sim-app"] = appVal(id, 0)
			if f&8 != 0 && ch&2 == 0 { // cannot be encoded: is not sent
				o.app = false
				m["sim-app"] = "bad;" + strconv.Itoa(id)
			} else if r.Plan.K("bigapp") > 0 && id%4 == 0 { // has 16 bits for its length
				o.appLen = r.Plan.K("bigapp")
				m["sim-app"] = appVal(id, o.appLen)
				o.app = len("sim-app")+o.appLen+2 < 1<<16 || ch&2 != 0
			}
		}
		if ch&32 != 0 && f&2 != 0 && ch&2 == 0 {
			o.trace = true
			m[traceKey] = spanOf(id)
		}
		if ch&2 != 0 && f&4 != 0 {
			o.extra = true
			m["extra"] = "x" + strconv.Itoa(id)
		}
		return m, len(m) > 0 || f == 6
	}
	// checkVals: the values of a message are those it was sent with
	checkVals := func(where string, id int, get func(k interface{}) (interface{}, bool)) {
		o := ops[id]
		if o == nil {
			r.Fail("phantom", "%s got message %d which was never sent", where, id)
			return
		}
		one := func(k string, want bool, val interface{}) {
			v, ok := get(k)
			if ok != want {
				r.Fail("value", "%s, message %d: value %q present %v, sent %v", where, id, k, ok, want)
			} else if ok && fmt.Sprint(v) != fmt.Sprint(val) {
				r.Fail("value", "%s, message %d: value %q is %v, sent %v", where, id, k, v, val)
			}
		}
		one("sim-app", o.app, appVal(id, o.appLen))
		one("extra", o.extra, "x"+strconv.Itoa(id))
		one(traceKey, o.trace, spanOf(id))
		r.count("checked")
	}
	tracer := tracing.NewTracer(nil)
	register := func(h arpc.Handler, where string) {
		r.coderChain(h)
		hf := func(ctx *arpc.Context) {
			id, err := cChk("Q", string(ctx.Body()))
			if err != nil {
				r.Fail("body", "%s: handler got %v", where, err)
				return
			}
			if m := ctx.Message.Method(); m != "echo" && m != "echo.s" && m != "err" {
				r.Fail("method", "%s: method %q", where, m)
			}
			if n := ctx.Message.BodyLen(); n != len(ctx.Message.Buffer)-arpc.HeadLen {
				r.Fail("length", "%s, message %d: BodyLen is %d, there are %d bytes", where, id, n, len(ctx.Message.Buffer)-arpc.HeadLen)
			}
			if ctx.Message.IsFlagBitSet(coder.FlagBitGZip) || ctx.Message.IsFlagBitSet(coder.FlagBitOpenTracing) {
				r.Fail("flags", "%s, message %d: decoded, but marked as encoded", where, id)
			}
			seen[id]++
			checkVals(where, id, ctx.Get)
			if ops[id] != nil {
				// the tracer finds the span in the context
				sc, err := tracer.Extract(nil, ctx)
				if want := ops[id].trace; (err == nil) != want || want && fmt.Sprint(sc) != fmt.Sprint(spanOf(id)) {
					r.Fail("span", "%s, message %d: Extract returned %v, %v; a span was sent: %v", where, id, sc, err, want)
				}
			}
			if ctx.Message.Cmd() == arpc.CmdNotify {
				return
			}
			if ctx.Message.Method() == "err" {
				ctx.Error(cPay("E", id, ops[id].n))
				return
			}
			ctx.Write(cPay("R", id, ops[id].n))
		}
		h.Handle("echo", hf, true)
		h.Handle("echo.s", hf)
		h.Handle("err", hf)
		h.HandleStream("st", func(st *arpc.Stream) {
			for {
				var s string
				err := st.Recv(&s)
				if err != nil {
					if err == io.EOF {
						st.SendAndClose("end")
					}
					st.CloseRecv()
					st.CloseSend()
					return
				}
				id, err := cChk("S", s)
				if err != nil {
					r.Fail("body", "%s: stream handler got %v", where, err)
					return
				}
				r.count("checked")
				if err := st.Send(cPay("T", id, 10)); err != nil {
					st.CloseRecv()
					return
				}
			}
		})
	}
	s := r.newServer()
	register(s.Handler, "server")
	srvOf := map[int]*arpc.Client{}
	s.Handler.HandleConnected(func(c *arpc.Client) { srvOf[tagIdx(LinkOf(c.Conn).Tag)] = c })
	r.serve(s, "s0")
	clis := make([]*arpc.Client, nc)
	for i := range clis {
		h := r.newHandler()
		register(h, fmt.Sprintf("client %d", i))
		if clis[i] = r.connect("s0", fmt.Sprintf("c%d", i), h); clis[i] == nil {
			return
		}
	}
	netty := func(err error) bool { return isArpcErr(err) || isNetErr(err) }
	okWanted := func() bool { return r.healthy() && r.Plan.Net.SendBuf == 0 && r.Plan.Sched.StallP == 0 }
	pend := 0
	r.actors(3*time.Minute, func(a, i int, op Op) {
		id := a*1000 + i + 1
		c := clis[op.A]
		kind := op.K
		if strings.HasPrefix(kind, "s") && kind != "stream" {
			kind = kind[1:]
			if c = srvOf[op.A]; c == nil {
				return
			}
		}
		mp, has := args(id, op.E, op.C)
		var av []interface{}
		if has {
			av = []interface{}{mp}
		}
		method := []string{"echo", "echo.s", "echo", "echo"}[op.B]
		pay := cPay("Q", id, op.C)
		var v interface{} = pay
		if op.F%2 == 1 {
			v = []byte(pay)
		}
		const to = 60 * time.Second
		switch kind {
		case "call":
			var rsp string
			var err error
			ctx, cancel := ctxTimeout(to)
			switch op.F / 2 {
			case 0:
				err = c.Call(method, v, &rsp, to, av...)
			case 1:
				err = c.CallContext(ctx, method, v, &rsp, av...)
			default:
				err = c.CallWith(ctx, method, v, &rsp, av...)
			}
			cancel()
			if err != nil {
				if okWanted() || !netty(err) {
					r.Fail("call", "call %d failed: %v", id, err)
				}
				return
			}
			if rid, e := cChk("R", rsp); e != nil || rid != id || rsp != cPay("R", id, op.C) {
				r.Fail("body", "call %d: response %d %v", id, rid, e)
			}
			r.count("checked")
		case "err":
			err := c.Call("err", v, nil, to, av...)
			if err == nil {
				r.Fail("call", "call %d: the error response was lost", id)
			} else if err.Error() != cPay("E", id, op.C) && (okWanted() || !netty(err)) {
				r.Fail("body", "call %d: error %q", id, clip(err.Error()))
			}
		case "async":
			m := method
			if op.B == 3 {
				m = "err"
			}
			pend++
			err := c.CallAsync(m, v, func(ctx *arpc.Context, err error) {
				pend--
				if err != nil {
					if m == "err" && err.Error() == cPay("E", id, op.C) {
						return
					}
					if okWanted() || !netty(err) {
						r.Fail("call", "asynchronous call %d: %v", id, err)
					}
					return
				}
				var rsp string
				if e := ctx.Bind(&rsp); e != nil || rsp != cPay("R", id, op.C) {
					r.Fail("body", "asynchronous call %d: response %v %q", id, e, clip(rsp))
				}
				checkVals("callback", id, ctx.Get)
			}, to, av...)
			if err != nil && okWanted() {
				r.Fail("call", "asynchronous call %d: %v", id, err)
			}
		case "notify":
			ctx, cancel := ctxTimeout(to)
			switch op.F / 2 {
			case 0:
				c.Notify(method, v, to, av...)
			case 1:
				c.NotifyContext(ctx, method, v, av...)
			default:
				c.NotifyWith(ctx, method, v, av...)
			}
			cancel()
		case "bc":
			s.Broadcast(method, v, av...)
		case "stream":
			st := c.NewStream("st")
			ops[id] = &coderOp{}
			n := op.G
			bad, unsent := false, false
			for k := 0; k < n; k++ {
				if err := st.Send(cPay("S", id*10+k, op.C), av...); err != nil {
					bad, unsent = true, true
					break
				}
			}
			st.CloseSendContext(bgCtx())
			k := 0
			for ; ; k++ {
				var rs string
				ctx, cancel := ctxTimeout(30 * time.Second)
				err := st.RecvContext(ctx, &rs)
				cancel()
				if err == io.EOF {
					break
				}
				if err != nil {
					bad = true
					if okWanted() {
						r.Fail("stream", "stream %d: after %d items: %v", id, k, err)
					}
					break
				}
				if unsent && rs == "end" {
					break
				}
				if k < n {
					if rid, e := cChk("T", rs); e != nil || rid != id*10+k {
						r.Fail("body", "stream %d: item %d is %d, %v", id, k, rid, e)
					}
				} else if rs != "end" {
					r.Fail("body", "stream %d: last item is %q", id, clip(rs))
				}
				r.count("checked")
			}
			st.CloseRecv()
			// a stream of which nothing but EOF was sent is echoed by nobody
			if okWanted() && !bad && k != n+1 && n > 0 {
				r.Fail("stream", "stream %d: %d items came back, %d sent", id, k, n)
			}
		}
	})
	time.Sleep(5 * time.Second)
	_ = pend
	if okWanted() {
		for id, n := range seen {
			if n > nc {
				r.Fail("twice", "message %d was handled %d times", id, n)
			}
		}
	}
	for _, c := range clis {
		c.Stop()
	}
	s.Stop()
	time.Sleep(2 * time.Second)
}
