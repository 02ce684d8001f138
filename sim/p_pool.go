package main

import (
	"fmt"
	"io"
	"time"
	"unsafe"

	"github.com/lesismal/arpc"
)

// ---------------------------------------------------------------- C15

func init() {
	register(&Prop{ID: "C15", Rule: "non-trivial when buffers were freed", Gen: genC15, Exec: execC15,
		NonTrivial: func(r *Run) bool { return r.Counts["frees"] > 0 },
		Stub:       []string{"buffer pool: a tracking allocator installed through HandleMalloc/HandleAppend/HandleFree"}})
}

// trackPool is a buffer pool that knows who owns what. A buffer given back is
// poisoned and either kept aside, to see later writes, or handed out again.
type trackPool struct {
	r     *Run
	g     *Rng
	live  map[uintptr]int
	freed map[uintptr]bool
	quar  [][]byte
	free  [][]byte
	reuse bool
	n     int
}

func baseOf(b []byte) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(unsafe.SliceData(b)))
}

func (t *trackPool) malloc(n int) []byte {
	t.n++
	t.r.Counts["mallocs"]++
	if t.reuse {
		for i := len(t.free) - 1; i >= 0; i-- {
			b := t.free[i]
			if cap(b) >= n {
				t.free = append(t.free[:i], t.free[i+1:]...)
				t.check(b, "before it was handed out again")
				delete(t.freed, baseOf(b))
				t.live[baseOf(b)] = t.n
				return b[:n]
			}
		}
	}
	b := make([]byte, max(n, 1)+t.g.Pick(0, 0, 8, 100))
	poison(b)
	t.live[baseOf(b)] = t.n
	return b[:n]
}

func (t *trackPool) check(b []byte, when string) {
	b = b[:cap(b)]
	for i := range b {
		if b[i] != 0xDB {
			t.r.Fail("write-after-free", "a buffer of %d bytes was written to after it was freed, at offset %d (seen %s): %q", len(b), i, when, clip(string(b[i:])))
			return
		}
	}
}

func (t *trackPool) freeBuf(b []byte) {
	p := baseOf(b)
	t.r.Counts["frees"]++
	if _, ok := t.live[p]; !ok {
		if t.freed[p] {
			t.r.Fail("double-free", "a buffer of %d bytes was freed twice", cap(b))
		} else {
			t.r.Fail("foreign-free", "a buffer of %d bytes was freed that did not come from the pool", cap(b))
		}
		return
	}
	delete(t.live, p)
	t.freed[p] = true
	poison(b)
	if t.reuse {
		t.free = append(t.free, b)
	} else {
		t.quar = append(t.quar, b)
	}
}

func (t *trackPool) app(b []byte, more ...byte) []byte {
	p := baseOf(b)
	if _, ok := t.live[p]; !ok {
		t.r.Fail("append-to-freed", "Append to a buffer that is not owned (freed before: %v)", t.freed[p])
		return append(b, more...)
	}
	if len(b)+len(more) <= cap(b) {
		return append(b, more...)
	}
	nb := t.malloc(len(b) + len(more))
	copy(nb, b)
	copy(nb[len(b):], more)
	t.freeBuf(b)
	return nb
}

func (t *trackPool) install(h arpc.Handler) {
	h.HandleMalloc(t.malloc)
	h.HandleAppend(t.app)
	h.HandleFree(t.freeBuf)
	h.HandleContextDone(func(ctx *arpc.Context) { ctx.Release() })
	h.HandleMessageDone(func(c *arpc.Client, m *arpc.Message) { m.Release() })
}

// genAlloc: the allocator alone, used by several goroutines.
func genAlloc(g *Rng, p *Plan) {
	p.Knobs["alloc"] = 1
	p.Knobs["small"] = g.Pick(0, 1, 16, 64)
	p.Knobs["big"] = g.Pick(1, 16, 64, 64, 100, 300)
	p.Knobs["debug"] = g.Pick(0, 0, 0, 1)
	max := g.Pick(20, 100, 700)
	for a := g.In(1, 4); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 25); k > 0; k-- {
			ops = append(ops, Op{K: g.PickS("malloc", "malloc", "append", "append", "appends", "realloc", "free", "free"), A: g.N(3), C: g.Log(1, max) - 1})
		}
		p.Actors = append(p.Actors, ops)
	}
}

func execAlloc(r *Run) {
	al := arpc.New(r.Plan.K("small"), r.Plan.K("big"))
	if bp, ok := al.(*arpc.BufferPool); ok && r.Plan.K("debug") == 1 {
		bp.Debug = true
	}
	held := make([][3][]byte, len(r.Plan.Actors))
	want := make([][3]string, len(r.Plan.Actors))
	r.actors(time.Minute, func(a, i int, op Op) {
		b, w := &held[a][op.A], &want[a][op.A]
		check := func(when string) {
			if string(*b) != *w {
				r.Fail("alloc", "%s %d.%d: the buffer has %d bytes %q, written were %d %q", when, a, i, len(*b), clip(string(*b)), len(*w), clip(*w))
			}
		}
		check("before " + op.K)
		more := fill(a*100+i, op.C)
		if *b == nil {
			*b = al.Malloc(op.C)
			if len(*b) != op.C {
				r.Fail("alloc", "Malloc(%d) returned %d bytes", op.C, len(*b))
				return
			}
			copy(*b, more)
			*w = more
			r.count("rsp")
			if op.C == 0 {
				// may be nil
				*b, *w = al.Append(*b, 'x'), "x"
			}
			return
		}
		switch op.K {
		case "malloc", "free":
			poison(*b)
			al.Free(*b)
			r.count("frees")
			*b, *w = nil, ""
		case "append":
			*b = al.Append(*b, []byte(more)...)
			*w += more
		case "appends":
			*b = al.AppendString(*b, more)
			*w += more
		case "realloc":
			n := len(*w)
			*b = al.Realloc(*b, op.C+1)
			if len(*b) != op.C+1 {
				r.Fail("alloc", "Realloc(%d) returned %d bytes", op.C+1, len(*b))
				return
			}
			if op.C+1 > n {
				copy((*b)[n:], fill(i, op.C+1-n))
				*w += fill(i, op.C+1-n)
			} else {
				*w = (*w)[:op.C+1]
			}
		}
		check("after " + op.K)
	})
	for a := range held {
		for k := range held[a] {
			if string(held[a][k]) != want[a][k] {
				r.Fail("alloc", "at the end: a buffer has %q, written was %q", clip(string(held[a][k])), clip(want[a][k]))
			}
		}
	}
}

func genC15(g *Rng, p *Plan) {
	if g.P(12) {
		genAlloc(g, p)
		return
	}
	nc := g.In(1, 3)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "syncresp", "exec", "clone", "nil")
	p.Knobs["reuse"] = g.N(2)
	p.Knobs["stq"] = g.Pick(1, 4, 64)
	genOps(g, p, opGen{
		kinds:   []string{"call", "call", "cctx", "cancel", "async", "async", "notify", "nctx", "push", "notify0", "scall", "sasync", "snotify", "spush", "spush0"},
		methods: []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, actors: 4, ops: 6, clients: nc,
		maxGap: 20000, tmin: g.Pick(1, 300), tmax: 3_000_000, slow: g.Pick(0, 100, 3000, 100_000), size: g.Pick(20, 300, 3000)})
	for n := g.N(3); n > 0; n-- {
		var ops []Op
		for k := g.In(1, 4); k > 0; k-- {
			ops = append(ops, Op{K: g.PickS("bc", "bc", "stream", "stream", "sstream", "ubc", "keep", "keep", "skeep"), A: g.N(nc), B: g.N(3), C: g.Log(1, 300) - 1, E: g.In(0, 5), F: g.N(nKinds), G: g.N(3), D: g.Log(1, 10000)})
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(2) {
		p.Actors = append(p.Actors, []Op{{K: g.PickS("stop", "sstop"), A: g.N(nc), D: g.Log(1, 50000)}})
	}
	if g.Pct(60) {
		genFaults(g, p, 4, 60000, "reset", "cut", "partwrite", "hold", "slowread", "partition", "dialfail", "crash")
	}
}

func execC15(r *Run) {
	if r.Plan.K("alloc") == 1 {
		execAlloc(r)
		return
	}
	t := &trackPool{r: r, g: NewRng(r.Plan.Seed, 0x9001), live: map[uintptr]int{}, freed: map[uintptr]bool{}, reuse: r.Plan.K("reuse") == 1}
	w := newRPCWorld(r, r.Plan.K("_clients"))
	strHandler := func(stream *arpc.Stream) {
		defer func() { r.count("stream_handled") }()
		for {
			var s string
			err := stream.Recv(&s)
			if err != nil {
				if err == io.EOF {
					stream.SendAndClose("end")
				} else {
					stream.CloseSend()
				}
				stream.CloseRecv()
				return
			}
			if _, _, _, e := chkPay(s); e != nil {
				r.Fail("stream-payload", "stream handler got %v", e)
			}
			if err := stream.Send(s); err != nil {
				stream.CloseRecv()
				return
			}
		}
	}
	w.tune = func(h arpc.Handler, server bool) {
		t.install(h)
		h.HandleStream("st", strHandler)
		// keep uses the message after the handler has returned
		h.Handle("keep", func(ctx *arpc.Context) {
			var n int
			was := string(ctx.Body())
			fmt.Sscan(was, &n)
			m := ctx.Message
			m.Retain()
			go func() {
				for k := 0; k < 3; k++ {
					time.Sleep(us(n))
					if got := string(m.Data()); got != was {
						r.Fail("retained", "a message that was retained changed: %q, was %q", clip(got), clip(was))
					}
				}
				m.Release()
				r.count("retained")
			}()
			ctx.Write(was)
		}, r.Plan.Seed>>11&1 == 1)
	}
	if !w.start() {
		w.stop()
		return
	}
	r.actors(5*time.Minute, func(a, i int, op Op) {
		id := a*1000 + i + 1
		switch op.K {
		case "stop":
			r.fault("client-stop")
			w.clis[op.A%len(w.clis)].Stop()
		case "sstop":
			if c := w.slast[op.A%len(w.clis)]; c != nil {
				r.fault("client-stop")
				c.Stop()
			}
		case "bc":
			vk := op.F
			if kindStruct(vk) {
				vk = 0
			}
			w.byID[id] = &callRec{id: id, method: "none.a", size: op.C}
			if op.B == 0 {
				w.srv.BroadcastWithFilter("none.a", mkVal(vk, mkPay("Q", id, 0, op.C)), func(c *arpc.Client) bool { return op.E > 2 })
			} else {
				w.srv.Broadcast("none.a", mkVal(vk, mkPay("Q", id, 0, op.C)))
			}
		case "ubc":
			// a broadcast of one message as applications write it
			w.byID[id] = &callRec{id: id, method: "none.a", size: op.C}
			m := w.srv.NewMessage(arpc.CmdNotify, "none.a", mkPay("Q", id, 0, op.C))
			w.srv.ForEach(func(c *arpc.Client) {
				m.Retain()
				c.PushMsg(m, us(op.B*1000))
			})
			m.Release()
		case "keep", "skeep":
			c := w.clis[op.A%len(w.clis)]
			if op.K == "skeep" {
				if c = w.slast[op.A%len(w.clis)]; c == nil {
					return
				}
			}
			q := fmt.Sprint(op.D, " ", fill(id, op.C))
			if op.G == 0 {
				c.Notify("keep", q, time.Second)
				return
			}
			var s string
			if err := c.Call("keep", q, &s, time.Second); err == nil && s != q {
				r.Fail("retained", "a call got %q, the handler was to echo %q", clip(s), clip(q))
			}
		case "stream", "sstream":
			c := w.clis[op.A%len(w.clis)]
			if op.K == "sstream" {
				if c = w.slast[op.A%len(w.clis)]; c == nil {
					return
				}
			}
			st := c.NewStream("st")
			var got []string
			var raws []*[]byte
			fin := make(chan bool, 1)
			rcv := func() {
				defer func() { fin <- true }()
				for {
					b := new([]byte)
					ctx, cancel := ctxTimeout(20 * time.Second)
					err := st.RecvContext(ctx, b)
					cancel()
					if err != nil {
						return
					}
					got = append(got, string(*b))
					raws = append(raws, b)
				}
			}
			go rcv()
			for k := 0; k < op.E; k++ {
				ctx, cancel := ctxTimeout(5 * time.Second)
				err := st.SendContext(ctx, mkPay("S", id*100+k, 0, op.C))
				cancel()
				if err != nil {
					break
				}
			}
			ctx, cancel := ctxTimeout(5 * time.Second)
			st.CloseSendContext(ctx)
			cancel()
			<-fin
			st.CloseRecv()
			for k, s := range got {
				if s == "end" {
					continue
				}
				if _, sid, _, err := chkPay(s); err != nil || sid != id*100+k {
					r.Fail("stream-payload", "stream %d received %d: %v %q", id, k, err, clip(s))
				}
				_ = raws
			}
		default:
			w.issue(a, i, op)
		}
	})
	time.Sleep(5 * time.Second)
	w.checkCorrelation()
	for _, cr := range w.calls {
		if cr.done && isCall(cr.kind) && cr.err == nil && cr.raw() != cr.rsp {
			r.Fail("aliased", "the response of %s %d changed after the call returned: %q, was %q", cr.kind, cr.id, clip(cr.raw()), clip(cr.rsp))
		}
	}
	w.stop()
	time.Sleep(20 * time.Second)
	for _, b := range t.quar {
		t.check(b, "at the end")
	}
	for _, b := range t.free {
		t.check(b, "at the end")
	}
	r.Counts["unreturned"] += len(t.live)
}

var _ = fmt.Sprint
