package main

import (
	"context"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/lesismal/arpc"
)

// Streams: every stream is described by one op; both ends know from the
// first item which op it belongs to.
//
// Op fields: K open|sopen, A client, B mode, C opener items, E acceptor items,
// F value kind / API variant, G item size, D pause before.
//
// modes: 0 half duplex: opener sends all and closes, acceptor then answers
//        1 full duplex
//        2 acceptor closes both directions after the first item
//        3 opener stops receiving early
//        4 acceptor does not read for a while

type strSide struct {
	sent     []int // item ids of successful sends, in order
	tried    []int
	recv     []int
	recvErr  error
	recvAt   time.Duration
	recvEnd  bool
	closed   bool // its send side was closed by the application
	sendErr  error
	sendDone bool
	early    bool // stopped receiving on purpose
	link     int
	s0       int
}

type strRec struct {
	id     int
	op     Op
	opener strSide
	accs   []*strSide // one per handler invocation
	t0     time.Duration
	cli    *arpc.Client
	done   bool
}

type strWorld struct {
	w    *rpcWorld
	r    *Run
	recs map[int]*strRec
	all  []*strRec
	slow bool
}

const strMax = 40

func (sw *strWorld) item(id, dir, i, size int) (int, string) {
	k := (id*2+dir)*strMax + i
	return k, mkPay("S", k, 0, size)
}

func (sw *strWorld) val(kind int, s string) interface{} {
	if kind == 5 {
		kind = 0
	}
	return mkVal(kind, s)
}

// send sends items n of direction dir; last item may carry EOF.
func (sw *strWorld) send(rec *strRec, sd *strSide, st *arpc.Stream, dir, n int) {
	op := rec.op
	g := NewRng(sw.r.Plan.Seed, 5, uint64(rec.id), uint64(dir))
	for i := 0; i < n; i++ {
		size := 1 + g.N(op.G+1)
		k, s := sw.item(rec.id, dir, i, size)
		v := sw.val(op.F%nKinds, s)
		sd.tried = append(sd.tried, k)
		sw.r.ev("ssend", k)
		var err error
		last := i == n-1 && op.F&8 != 0
		switch g.N(4) {
		case 0:
			if last {
				err = st.SendAndCloseContext(context.Background(), v)
				break
			}
			// what timed out was not sent
			for {
				ctx, cancel := context.WithTimeout(context.Background(), us(g.Log(1, 100_000)))
				err = st.SendContext(ctx, v)
				cancel()
				if err != arpc.ErrTimeout {
					break
				}
				sw.r.count("send_timeout")
			}
		case 1:
			if last {
				err = st.SendAndCloseWith(context.Background(), v)
			} else {
				err = st.SendWith(context.Background(), v)
			}
		default:
			if last {
				err = st.SendAndClose(v)
			} else {
				err = st.Send(v)
			}
		}
		if err != nil {
			sd.sendErr = err
			sd.sendDone = true
			return
		}
		sd.sent = append(sd.sent, k)
		if last {
			sd.closed = true
			if e := st.Send("x"); e != arpc.ErrStreamClosedSend && sw.r.healthy() {
				sw.r.Fail("send-after-close", "Send after SendAndClose returned %v", e)
			}
		}
		if op.F&16 != 0 {
			time.Sleep(us(g.N(300)))
		}
	}
	if !sd.closed {
		sd.closed = true
		if g.P(2) {
			st.CloseSend()
		} else {
			st.CloseSendContext(context.Background())
		}
	}
	sd.sendDone = true
}

func (sw *strWorld) decode(kind int, recv func(v interface{}) error) (string, error) {
	switch kind % nKinds {
	case 2:
		var t tval
		err := recv(&t)
		return t.P, err
	case 1, 4:
		var b []byte
		err := recv(&b)
		return string(b), err
	}
	var s string
	err := recv(&s)
	return s, err
}

// recv receives until an error or max items (max<0: all).
func (sw *strWorld) recv(id, kind, dir, max int, sd *strSide, st *arpc.Stream, g *Rng) {
	for max < 0 || len(sd.recv) < max {
		s, err := sw.decode(kind, func(v interface{}) error {
			switch g.N(4) {
			case 0:
				for {
					ctx, cancel := context.WithTimeout(context.Background(), us(g.Log(1, 100_000)))
					err := st.RecvContext(ctx, v)
					cancel()
					if err != arpc.ErrTimeout {
						return err
					}
					sw.r.count("recv_timeout")
				}
			case 1:
				return st.RecvWith(context.Background(), v)
			}
			return st.Recv(v)
		})
		if err != nil {
			sd.recvErr = err
			break
		}
		tag, k, _, e := chkPay(s)
		if e != nil || tag != "S" {
			sw.r.Fail("stream-payload", "stream %d direction %d: %v", id, dir, e)
			return
		}
		sw.r.ev("srecv", k)
		sw.r.count("stream_item")
		sd.recv = append(sd.recv, k)
		if g.P(6) {
			time.Sleep(us(g.N(2000)))
		}
	}
	sd.recvEnd = true
	sd.recvAt = sw.r.Now()
	sw.r.ev("srecv-end", id, len(sd.recv))
}

// accept is the stream handler of both sides.
func (sw *strWorld) accept(kind int, server bool) func(st *arpc.Stream) {
	return func(st *arpc.Stream) {
		sd := &strSide{s0: sw.r.nev}
		sw.r.ev("saccept", int(st.Id()))
		if sw.r.stopped {
			return
		}
		// the first item tells which stream it is; the direction of the opener is 0
		s, err := sw.decode(kind, st.Recv)
		if err != nil {
			sw.r.count("accept_noitem")
			st.CloseSend()
			return
		}
		tag, k, _, e := chkPay(s)
		if e != nil || tag != "S" {
			sw.r.Fail("stream-payload", "stream handler: %v", e)
			return
		}
		id := k / strMax / 2
		rec := sw.recs[id]
		if rec == nil || k/strMax%2 != 0 {
			sw.r.Fail("stream-payload", "stream handler got an item %d that no opener sent", k)
			return
		}
		sw.r.ev("srecv", k)
		sw.r.count("stream_item")
		sd.recv = append(sd.recv, k)
		rec.accs = append(rec.accs, sd)
		if kind != rec.op.F%nKinds || server == strings.HasPrefix(rec.op.K, "s") {
			sw.r.Fail("misrouted", "stream %d reached the wrong handler", id)
		}
		g := NewRng(sw.r.Plan.Seed, 6, uint64(id))
		switch rec.op.B {
		case 0:
			sw.recv(id, kind, 0, -1, sd, st, g)
			sw.send(rec, sd, st, 1, rec.op.E)
		case 2:
			sd.early = true
			st.CloseRecv()
			sw.send(rec, sd, st, 1, rec.op.E)
			if sd.sendErr != nil {
				st.CloseSend()
			}
		case 4:
			if d := sw.r.Plan.K("slow"); d > 0 && !sw.slow {
				// one receiver that takes very long
				sw.slow = true
				time.Sleep(time.Duration(d) * time.Second)
			}
			time.Sleep(us(1000 + g.N(200_000)))
			fallthrough
		default:
			go sw.send(rec, sd, st, 1, rec.op.E)
			sw.recv(id, kind, 0, -1, sd, st, g)
		}
	}
}

func (sw *strWorld) register(h arpc.Handler, server bool) {
	for k := 0; k < nKinds; k++ {
		h.HandleStream(fmt.Sprintf("st%d", k), sw.accept(k, server), true)
	}
}

func (sw *strWorld) open(a, i int, op Op) *strRec {
	id := a*100 + i + 1
	rec := &strRec{id: id, op: op}
	c := sw.w.clis[op.A%len(sw.w.clis)]
	if op.K == "sopen" {
		c = sw.w.slast[op.A%len(sw.w.clis)]
		if c == nil {
			return nil
		}
	}
	sw.recs[id] = rec
	sw.all = append(sw.all, rec)
	rec.cli = c
	sd := &rec.opener
	sd.link = linkID(c)
	sw.r.ev("sopen", id)
	sd.s0 = sw.r.nev
	rec.t0 = sw.r.Now()
	st := c.NewStream(fmt.Sprintf("st%d", op.F%nKinds))
	g := NewRng(sw.r.Plan.Seed, 7, uint64(id))
	max := -1
	if op.B == 3 {
		max = g.N(op.E + 1)
	}
	rx := func() {
		sw.recv(id, op.F%nKinds, 1, max, sd, st, g)
		if max >= 0 && sd.recvErr == nil {
			sd.early = true
			if id&1 == 0 {
				st.CloseRecv()
			} else {
				st.CloseRecvContext(context.Background())
			}
			// what was buffered may still be read, then EOF
			for {
				_, err := sw.decode(op.F%nKinds, st.Recv)
				if err != nil {
					if err != io.EOF && sw.r.healthy() {
						sw.r.Fail("recv-after-close", "Recv after CloseRecv returned %v", err)
					}
					break
				}
			}
		}
	}
	// an opener that could not send stops waiting for answers
	tx := func() {
		sw.send(rec, sd, st, 0, op.C)
		if sd.sendErr != nil {
			sd.early = true
			st.CloseSend()
			st.CloseRecv()
		}
	}
	if op.B == 0 {
		tx()
		rx()
	} else {
		ch := make(chan int)
		go func() { rx(); close(ch) }()
		tx()
		<-ch
	}
	rec.done = true
	return rec
}

func genStreams(g *Rng, p *Plan, nc int, modes ...int) {
	n := g.In(1, 4)
	for a := 0; a < n; a++ {
		var ops []Op
		for k := g.In(1, 3); k > 0; k-- {
			op := Op{K: g.PickS("open", "open", "sopen"), A: g.N(nc), B: modes[g.N(len(modes))], C: 1 + g.N(g.Pick(1, 4, 12)), E: g.N(g.Pick(1, 4, 12)), F: g.N(nKinds) + 8*g.N(4), G: g.Pick(1, 10, 100, 1000)}
			// F%nKinds selects the kind, bits 3 and 4 the variant
			if g.P(2) {
				op.D = g.Log(1, 20000)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	genHuge(g, p, func(op *Op, n int) { op.G = n / 5 })
}

func newStrWorld(r *Run) *strWorld {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	sw := &strWorld{w: w, r: r, recs: map[int]*strRec{}}
	w.tune = func(h arpc.Handler, server bool) { sw.register(h, server) }
	return sw
}

// ---------------------------------------------------------------- C13

func init() {
	register(&Prop{ID: "C13", Rule: "non-trivial when a stream item was received", Gen: genC13, Exec: execC13,
		NonTrivial: func(r *Run) bool { return r.Counts["stream_item"] > 0 }})
}

func genC13(g *Rng, p *Plan) {
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "clone", "codec", "coder")
	p.Knobs["stq"] = g.Pick(1, 1, 2, 4, 16)
	genStreams(g, p, nc, 0, 0, 1, 1, 2, 3, 4)
	if g.P(8) {
		p.Knobs["slow"] = g.Pick(2, 10, 40, 100)
	}
	if g.P(3) {
		genFaults(g, p, 3, 60000, "reset", "cut", "partwrite", "hold", "slowread", "partition", "crash")
	} else if g.P(2) {
		genFaults(g, p, 2, 60000, "hold", "slowread")
	}
	if p.Knobs["syncwrite"] == 1 {
		// both readers blocked in writes is not the library's fault
		p.Net.SendBuf = 0
	}
	p.Net.SendBuf = 0
}

func idxOf(xs []int, x int) int {
	for i, v := range xs {
		if v == x {
			return i
		}
	}
	return -1
}

// checkDir compares what one side sent with what the other received.
func (sw *strWorld) checkDir(rec *strRec, dir string, tx, rx *strSide, lossless bool) {
	r := sw.r
	for i, k := range rx.recv {
		if i >= len(tx.tried) || tx.tried[i] != k {
			r.Fail("stream-order", "stream %d %s: item %d received is number %d of the items sent (%d sent, %d received)", rec.id, dir, i+1, idxOf(tx.tried, k)+1, len(tx.sent), len(rx.recv))
			return
		}
	}
	if rx.recvErr == io.EOF && !rx.early {
		if len(rx.recv) < len(tx.sent) {
			r.Fail("stream-eof", "stream %d %s: EOF after %d of %d items", rec.id, dir, len(rx.recv), len(tx.sent))
		}
		if !tx.closed {
			r.Fail("stream-eof", "stream %d %s: EOF but the sender has not closed", rec.id, dir)
		}
		r.count("stream_eof")
	}
	if lossless {
		if tx.sendErr != nil || !tx.sendDone {
			r.Fail("stream-send", "stream %d %s: sending ended after %d items with %v (done %v) on a healthy connection", rec.id, dir, len(tx.sent), tx.sendErr, tx.sendDone)
		}
		if !rx.early && (rx.recvErr != io.EOF || len(rx.recv) != len(tx.sent)) {
			r.Fail("stream-lost", "stream %d %s: %d items sent and closed, %d received, then %v", rec.id, dir, len(tx.sent), len(rx.recv), rx.recvErr)
		}
	}
}

func execC13(r *Run) {
	sw := newStrWorld(r)
	if !sw.w.start() {
		sw.w.stop()
		return
	}
	ok := r.actors(3*time.Minute+time.Duration(r.Plan.K("slow"))*time.Second, func(a, i int, op Op) { sw.open(a, i, op) })
	// stalls may delay the receivers
	quiet := func() bool {
		for _, rec := range sw.all {
			if !rec.done || len(rec.accs) == 0 {
				return false
			}
			for _, a := range rec.accs {
				if !a.sendDone || (!a.recvEnd && !a.early) {
					return false
				}
			}
		}
		return true
	}
	until(time.Duration(5+r.Plan.K("slow"))*time.Second, 500*time.Millisecond, quiet)
	lossless := true
	for _, k := range []string{"reset", "cut", "partwrite", "crash"} {
		if r.Fired[k] > 0 {
			lossless = false
		}
	}
	if lossless {
		until(3*time.Minute, time.Second, quiet)
	}
	if !ok && lossless {
		for _, rec := range sw.all {
			if !rec.done {
				r.Fail("stream-stuck", "stream %d (mode %d) is not finished after %v on a healthy connection: opener sent %d of %d, received %d (%v); handler invocations %d", rec.id, rec.op.B, r.Now()-rec.t0, len(rec.opener.sent), rec.op.C, len(rec.opener.recv), rec.opener.recvErr, len(rec.accs))
			}
		}
	}
	for _, rec := range sw.all {
		if len(rec.accs) == 0 && lossless {
			r.Fail("handler-never", "the handler of stream %d was not called", rec.id)
		}
		// items still queued when the opener's connection is lost go out on the
		// next one, where they look like a new stream
		if n := len(rec.accs); n > 0 && !lossless && rec.opener.link >= 0 {
			e := r.Net.links[rec.opener.link].ends[0]
			if rec.op.K == "sopen" {
				e = e.peer()
			}
			var keep []*strSide
			for _, a := range rec.accs {
				if e.rerrd && e.rerrSeq < a.s0 && a.recv[0] != rec.opener.tried[0] {
					r.FailSoft("stream-requeued", "items of stream %d queued on connection %d were delivered to a new handler after that connection was lost", rec.id, rec.opener.link)
					r.count("requeued")
					continue
				}
				keep = append(keep, a)
			}
			rec.accs = keep
		}
		if len(rec.accs) > 1 {
			r.Fail("handler-twice", "the handler of stream %d (mode %d) was called %d times", rec.id, rec.op.B, len(rec.accs))
		}
		if len(rec.accs) == 1 {
			sw.checkDir(rec, "from its opener", &rec.opener, rec.accs[0], lossless)
			sw.checkDir(rec, "to its opener", rec.accs[0], &rec.opener, lossless)
		}
	}
	sw.w.stop()
	time.Sleep(3 * time.Second)
}

// ---------------------------------------------------------------- C14

func init() {
	register(&Prop{ID: "C14", Rule: "non-trivial when a stream operation was pending at a loss, a stop or a deadline", Gen: genC14, Exec: execC14,
		NonTrivial: func(r *Run) bool { return r.Counts["ended"] > 0 }})
}

// Ops: recv / recvctx (block in receive), send / sendctx (fill the peer), drop
// (peer does not read, then closes), close variants; plus stop and faults.
func genC14(g *Rng, p *Plan) {
	noStalls(p)
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "nobatchsend", "nobatchrecv", "sbs", "rbs", "pool", "clone")
	p.Knobs["sq"] = g.Pick(0, 1, 2, 4)
	p.Knobs["stq"] = g.Pick(1, 1, 2, 4)
	n := g.In(1, 5)
	for a := 0; a < n; a++ {
		op := Op{K: g.PickS("recv", "recv", "recvctx", "send", "sendctx", "arecv", "drop", "peerclose", "closed"), A: g.N(nc), B: g.N(2), C: g.Log(1, 100), E: g.Log(1, 2_000_000), D: g.Log(1, 20000)}
		p.Actors = append(p.Actors, []Op{op})
	}
	if g.P(3) {
		p.Actors = append(p.Actors, []Op{{K: "stop", A: g.N(nc), D: g.Log(1, 100_000)}})
	}
	if g.P(4) {
		p.Actors = append(p.Actors, []Op{{K: "sstop", A: g.N(nc), D: g.Log(1, 100_000)}})
	}
	if g.Pct(60) {
		genFaults(g, p, 3, 100_000, "reset", "reset", "cut", "crash", "hold")
	}
	p.Net.SendBuf = g.Pick(0, 0, 100, 1000)
}

type pendRec struct {
	kind   string
	c      *arpc.Client
	side   int // end of the link whose reader has to notice
	link   int
	t0, t1 time.Duration
	s0, s1 int
	err    error
	done   bool
	limit  time.Duration // deadline of its context (0: none)
}

func execC14(r *Run) {
	base := runtime.VerifBubbleTotal()
	w := newRPCWorld(r, r.Plan.K("_clients"))
	var pend []*pendRec
	start := func(kind string, c *arpc.Client, side int) *pendRec {
		p := &pendRec{kind: kind, c: c, side: side, link: linkID(c), t0: r.Now()}
		r.ev("pend:"+kind, p.link)
		p.s0 = r.nev
		pend = append(pend, p)
		return p
	}
	end := func(p *pendRec, err error) {
		p.t1, p.err, p.done = r.Now(), err, true
		e := 0
		if err != nil {
			e = 1
		}
		r.ev("ended:"+p.kind, p.link, e)
		p.s1 = r.nev
	}
	w.tune = func(h arpc.Handler, server bool) {
		side := 0
		if server {
			side = 1
		}
		// idle: the acceptor never sends, it waits for the opener's end
		h.HandleStream("idle", func(st *arpc.Stream) {
			var s string
			for {
				if st.Recv(&s) != nil {
					break
				}
			}
			st.CloseSend()
		}, true)
		// echo waits for more than comes
		h.HandleStream("wait", func(st *arpc.Stream) {
			var s string
			if st.Recv(&s) != nil {
				return
			}
			var c *arpc.Client
			var ci, link int
			fmt.Sscanf(s, "w%d-%d", &ci, &link)
			if server {
				c = w.slast[ci]
			} else {
				c = w.clis[ci]
			}
			p := start("accepted-recv", c, side)
			if p.link != link || len(r.Net.linksOf(fmt.Sprintf("c%d", ci))) > 1 {
				p.link, p.c = -1, nil // not sure which connection it came from
			}
			err := st.Recv(&s)
			end(p, err)
			st.CloseSend()
		}, true)
		// drop does not read, then closes its receiving side
		h.HandleStream("drop", func(st *arpc.Stream) {
			time.Sleep(200 * time.Millisecond)
			if r.Plan.Seed>>13&1 == 0 {
				st.CloseRecv()
			} else {
				st.CloseRecvContext(context.Background())
			}
			r.ev("drop-closed")
			time.Sleep(400 * time.Millisecond)
			st.CloseSend()
		}, true)
		// bye ends at once
		h.HandleStream("bye", func(st *arpc.Stream) {
			st.SendAndClose("bye")
			st.CloseRecv()
		}, true)
	}
	if !w.start() {
		w.stop()
		return
	}
	pick := func(op Op) (*arpc.Client, int) {
		if op.B == 1 {
			return w.slast[op.A%len(w.clis)], 1
		}
		return w.clis[op.A%len(w.clis)], 0
	}
	type stp struct {
		c  *arpc.Client
		t  time.Duration
		sq int
	}
	var stops []stp
	r.actors(5*time.Minute, func(a, i int, op Op) {
		c, side := pick(op)
		if c == nil {
			return
		}
		switch op.K {
		case "stop":
			c = w.clis[op.A%len(w.clis)]
			c.Stop()
			r.fault("client-stop")
			stops = append(stops, stp{c, r.Now(), r.nev})
		case "sstop":
			if c = w.slast[op.A%len(w.clis)]; c != nil {
				c.Stop()
				r.fault("client-stop")
				stops = append(stops, stp{c, r.Now(), r.nev})
			}
		case "recv":
			st := c.NewStream("idle")
			if st.Send("hello") != nil {
				return
			}
			p := start(op.K, c, side)
			// ends with the stream, the connection or after a while by our own close
			go func() {
				time.Sleep(10 * time.Second)
				st.CloseSend()
				time.Sleep(10 * time.Second)
				st.CloseRecv()
			}()
			var s string
			end(p, st.Recv(&s))
		case "recvctx":
			st := c.NewStream("idle")
			if st.Send("hello") != nil {
				return
			}
			p := start(op.K, c, side)
			p.limit = us(op.E)
			ctx, cancel := context.WithTimeout(context.Background(), p.limit)
			var s string
			end(p, st.RecvContext(ctx, &s))
			cancel()
			st.CloseSend()
			st.CloseRecv()
		case "arecv":
			st := c.NewStream("wait")
			if st.Send(fmt.Sprintf("w%d-%d", op.A%len(w.clis), linkID(c))) != nil {
				return
			}
			time.Sleep(us(op.E))
			st.CloseSend()
			var s string
			p := start("recv-eof", c, side)
			end(p, st.Recv(&s))
			st.CloseRecv()
		case "send", "sendctx":
			// the peer does not read: the queues fill up and Send blocks
			st := c.NewStream("drop")
			for k := 0; k < 30; k++ {
				p := start(op.K, c, side)
				ctx, cancel := context.Background(), context.CancelFunc(func() {})
				if op.K == "sendctx" {
					p.limit = us(op.E)
					ctx, cancel = context.WithTimeout(ctx, p.limit)
				}
				err := st.SendContext(ctx, fill(k, 1+op.C))
				cancel()
				end(p, err)
				if err != nil {
					break
				}
			}
			st.CloseSend()
			st.CloseRecv()
		case "drop":
			st := c.NewStream("drop")
			for k := 0; k < 8; k++ {
				if st.Send(fill(k, op.C)) != nil {
					return
				}
			}
			st.CloseSend()
			var s string
			p := start("recv-eof", c, side)
			end(p, st.Recv(&s))
			st.CloseRecv()
		case "peerclose":
			st := c.NewStream("bye")
			if st.Send("hello") != nil {
				return
			}
			var s string
			p := start("recv-bye", c, side)
			err := st.Recv(&s)
			end(p, err)
			if err == nil {
				if s != "bye" {
					r.Fail("stream-data", "received %q", clip(s))
				}
				p = start("recv-eof", c, side)
				err = st.Recv(&s)
				end(p, err)
				if err != io.EOF && r.healthy() {
					r.Fail("stream-eof", "after the peer's SendAndClose: %v", err)
				}
				if err == io.EOF {
					// and it stays so
					if e := st.Recv(&s); e != io.EOF && r.healthy() {
						r.Fail("stream-eof", "Recv after EOF: %v", e)
					}
					ctx, cancel := ctxTimeout(time.Second)
					if e := st.RecvContext(ctx, &s); e != io.EOF && r.healthy() {
						r.Fail("stream-eof", "RecvContext after EOF: %v", e)
					}
					cancel()
				}
			}
			st.CloseSend()
		case "closed":
			st := c.NewStream("idle")
			if st.SendAndClose("x") != nil {
				return
			}
			t := r.Now()
			err := st.Send("y")
			if r.Now() > t || (err != arpc.ErrStreamClosedSend) {
				r.Fail("send-after-close", "Send after SendAndClose returned %v after %v", err, r.Now()-t)
			}
			if err := st.SendAndClose("y"); err != arpc.ErrStreamClosedSend {
				r.Fail("send-after-close", "SendAndClose after SendAndClose returned %v", err)
			}
			st.CloseSend()
			st.CloseRecv()
			st.CloseRecv()
			var s string
			if err := st.Recv(&s); err == nil {
				r.Fail("recv-after-close", "Recv after CloseRecv returned nil")
			}
		}
	})
	time.Sleep(25 * time.Second)
	for _, p := range pend {
		if !p.done {
			r.Fail("stream-stuck", "%s on connection %d is still blocked after %v", p.kind, p.link, r.Now()-p.t0)
			continue
		}
		if p.limit > 0 {
			if p.t1 > p.t0+p.limit+slack {
				r.Fail("late", "%s with a context of %v returned %v after %v", p.kind, p.limit, p.err, p.t1-p.t0)
			}
			if p.err == arpc.ErrTimeout {
				r.count("ended")
				if p.t1 < p.t0+p.limit {
					r.Fail("early", "%s with a context of %v returned %v after %v", p.kind, p.limit, p.err, p.t1-p.t0)
				}
			}
		} else if p.err == arpc.ErrTimeout {
			r.Fail("early", "%s without a deadline returned %v", p.kind, p.err)
		}
		// its connection was lost while it was pending
		if p.link >= 0 {
			e := r.Net.links[p.link].ends[p.side]
			if e.rerrd && p.s0 < e.rerrSeq && p.s1 > e.rerrSeq {
				r.count("ended")
				if p.t1 > e.rerrAt+slack && !strings.HasPrefix(p.kind, "send") {
					r.Fail("late-loss", "%s: connection %d was found lost at %v, %s returned only at %v", p.kind, p.link, e.rerrAt, p.kind, p.t1)
				}
				if strings.HasPrefix(p.kind, "recv") && p.kind != "recv-eof" && p.err == io.EOF && !r.Net.links[p.link].Dead() {
					r.Fail("loss-as-eof", "%s: connection %d was lost, Recv returned EOF", p.kind, p.link)
				}
			}
		}
		for _, s := range stops {
			if s.c == p.c && p.s0 < s.sq && p.s1 > s.sq {
				r.count("ended")
				if p.t1 > s.t+slack {
					r.Fail("late-stop", "%s: the client was stopped at %v, it returned only at %v", p.kind, s.t, p.t1)
				}
			}
		}
	}
	// the connections are still good for calls
	r.quell()
	r.Net.unlimit()
	until(5*time.Second, 10*time.Millisecond, w.serverUp)
	stopped := map[*arpc.Client]bool{}
	for _, s := range stops {
		stopped[s.c] = true
	}
	for i, c := range w.clis {
		if stopped[c] {
			continue
		}
		var last error
		if !until(8*time.Second, ms(100), func() bool {
			last = w.tryCall(c, 500000+i*100000+int(r.Now()/ms(1))%100000, "echo.a", true, time.Second)
			return last == nil
		}) {
			r.Fail("connection-stuck", "client %d can't call after its streams ended: %v", i, last)
		}
	}
	w.stop()
	r.leakCheck(base, 30*time.Second)
}
