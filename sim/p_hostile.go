package main

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"time"

	"github.com/lesismal/arpc"
)

// ---------------------------------------------------------------- C20

func init() {
	register(&Prop{ID: "C20", Rule: "non-trivial when bytes that are no valid message were sent", Gen: genC20, Exec: execC20,
		NonTrivial: func(r *Run) bool { return r.Counts["hostile"] > 0 }})
}

var hostileOps = []string{"req", "req", "req", "areq", "notify", "exact", "exact", "ping", "pong", "nf", "ml0", "ml128", "mlbig", "rsp", "rsp", "strm", "over", "huge", "badcmd", "flip", "flip", "garbage", "trunc", "close", "reset", "empty"}

func genC20(g *Rng, p *Plan) {
	noStalls(p)
	p.Net.RstClose = false
	p.Net.SendBuf = 0
	p.Knobs["role"] = g.Pick(0, 0, 1)
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "rbs", "pool", "clone")
	if g.P(4) {
		p.Knobs["coder"] = g.In(1, 31)
	}
	p.Knobs["maxbody"] = g.Pick(50, 50, 200, 1000, 5000)
	if p.Knobs["role"] == 0 && g.P(8) {
		p.Knobs["maxbody"] = 0
	}
	p.Knobs["piece"] = g.Pick(0, 0, 1, 3, 15, 17, 100)
	p.Knobs["gap"] = g.Pick(0, 0, 100, 3000)
	if p.Knobs["role"] == 0 {
		for a := g.In(1, 4); a > 0; a-- {
			var ops []Op
			fatal := g.P(2) // some connections get something fatal
			for k := g.In(1, 10); k > 0; k-- {
				op := Op{K: hostileOps[g.N(len(hostileOps))], A: g.N(1 << 30), C: g.Log(1, g.Pick(20, 100, 3000)) - 1}
				if p.Knobs["maxbody"] == 0 && (op.K == "flip" || op.K == "garbage") {
					op.K = "huge" // a random length may be a valid one of many megabytes
				}
				if !fatal {
					switch op.K {
					case "over", "huge", "badcmd", "garbage", "trunc", "close", "reset", "flip":
						op.K = "req"
					}
				}
				if g.P(3) {
					op.D = g.Log(1, 5000)
				}
				ops = append(ops, op)
			}
			p.Actors = append(p.Actors, ops)
		}
		p.Knobs["noread"] = 0
		if g.P(5) {
			p.Knobs["noread"] = 1
			p.Net.SendBuf = g.Pick(64, 300)
		}
		p.Knobs["honest"] = g.In(1, 6)
		return
	}
	p.Knobs["hostile"] = g.In(1, 3) // so many connections
	genOps(g, p, opGen{
		kinds:   []string{"call", "call", "cctx", "async", "notify"},
		methods: []int{0, 1}, actors: 4, ops: 8, clients: 1,
		maxGap: 20000, tmin: 1000, tmax: 1_000_000, slow: 0, size: g.Pick(20, 300)})
	for _, a := range p.Actors {
		for i := range a {
			a[i].C = min(a[i].C, 3000) // below the bound for own messages
		}
	}
}

// hcall is one message of a byte stream as the wire format defines it.
type hcall struct {
	cmd    byte
	async  bool
	isErr  bool
	method string
	seq    uint64
	data   string
}

// hparse interprets a byte stream: the valid messages, how many of them come
// before an unknown command, and whether something fatal is in it.
func hparse(b []byte, max int) (calls []hcall, certain, pings int, fatal bool, badcmd bool) {
	certain = -1
	for len(b) >= 4 {
		n := int(binary.LittleEndian.Uint32(b))
		if n > max {
			fatal = true
			break
		}
		if len(b) < wHead+n {
			break
		}
		cmd, ml := b[5]&0x3f, int(b[7])
		switch {
		case cmd == wPing:
			if !badcmd {
				pings++
			}
		case cmd == wPong:
		case ml == 0 || ml > 127 || ml > n:
		case cmd < wRequest || cmd > wStream:
			if !badcmd {
				badcmd = true
				certain = len(calls)
			}
		default:
			calls = append(calls, hcall{cmd: cmd, async: b[6]&2 != 0, isErr: b[6]&1 != 0, method: string(b[wHead : wHead+ml]), seq: binary.LittleEndian.Uint64(b[8:]), data: string(b[wHead+ml : wHead+n])})
		}
		b = b[wHead+n:]
	}
	if certain < 0 {
		certain = len(calls)
	}
	return
}

func execC20(r *Run) {
	if r.Plan.K("role") == 0 {
		execHostileClient(r)
	} else {
		execHostileServer(r)
	}
}

// limits sets the body limit and watches the sizes the library allocates.
func (r *Run) limits(h arpc.Handler, maxOwn int) int {
	m := r.Plan.K("maxbody")
	if m > 0 {
		h.SetMaxBodyLen(m)
	} else {
		m = h.MaxBodyLen()
	}
	bound := max(2048, wHead+m, wHead+maxOwn)
	malloc := func(n int) []byte { return make([]byte, n) }
	if r.Plan.K("pool") == 1 {
		malloc = arpc.DefaultAllocator.Malloc
	}
	h.HandleMalloc(func(n int) []byte {
		if n > bound {
			r.Fail("allocation", "a buffer of %d bytes was allocated, the body limit is %d", n, m)
			return make([]byte, 0)
		}
		return malloc(n)
	})
	return m
}

func execHostileClient(r *Run) {
	base := runtime.VerifBubbleTotal()
	s := r.newServer()
	maxb := r.limits(s.Handler, 4096)
	plain := r.Plan.K("coder") == 0
	type seen struct {
		sync  []hcall
		async []hcall
		nf    int
	}
	got := map[int]*seen{}
	at := func(ctx *arpc.Context) *seen {
		l := linkID(ctx.Client)
		if got[l] == nil {
			got[l] = &seen{}
		}
		return got[l]
	}
	call := func(ctx *arpc.Context) hcall {
		m := ctx.Message
		return hcall{cmd: m.Cmd(), async: m.IsAsync(), isErr: m.IsError(), method: m.Method(), seq: m.Seq(), data: string(m.Data())}
	}
	s.Handler.Handle("m", func(ctx *arpc.Context) {
		sn := at(ctx)
		c := call(ctx)
		sn.sync = append(sn.sync, c)
		r.ev("handle", linkID(ctx.Client), len(sn.sync))
		ctx.Write(fmt.Sprintf("%d:%d", c.seq, len(c.data)))
	}, false)
	s.Handler.Handle("a", func(ctx *arpc.Context) {
		sn := at(ctx)
		sn.async = append(sn.async, call(ctx))
		r.ev("handle-a", linkID(ctx.Client), len(sn.async))
		c := sn.async[len(sn.async)-1]
		ctx.Write(fmt.Sprintf("%d:%d", c.seq, len(c.data)))
	}, true)
	s.Handler.Handle("honest", func(ctx *arpc.Context) {
		ctx.Write(ctx.Body())
	}, true)
	ln := r.serve(s, "s0")
	time.Sleep(us(10))
	hh := r.newHandler()
	honest := r.connect("s0", "honest", hh)
	if honest == nil {
		return
	}
	hlink := linkID(honest)
	hdone := false
	psize := 20
	if maxb < 100 {
		psize = 5
	}
	honestCall := func(i int) {
		var rsp string
		p := mkPay("H", i, i, psize)
		if err := honest.Call("honest", p, &rsp, 60*time.Second); err != nil || rsp != p {
			r.Fail("other-connection", "a call over a well-behaved connection returned %v %q", err, clip(rsp))
		}
		r.count("honest_ok")
	}
	go func() {
		for i := 0; i < r.Plan.K("honest"); i++ {
			honestCall(i)
			time.Sleep(us(300 * (i + 1)))
		}
		hdone = true
	}()
	type peer struct {
		*rawPeer
		sent   []byte // delivered or on its way
		lossy  bool
		closed bool
	}
	peers := map[int]*peer{}
	r.actors(time.Hour, func(a, i int, op Op) {
		pe := peers[a]
		if pe == nil {
			rp := r.dialRaw("s0", "raw")
			if rp == nil {
				return
			}
			pe = &peer{rawPeer: rp}
			peers[a] = pe
			if r.Plan.K("noread") == 0 {
				go pe.pump()
			} else {
				pe.lossy = true
			}
		}
		if pe.closed {
			return
		}
		g := NewRng(r.Plan.Seed, 21, uint64(op.A))
		var b []byte
		req := frame{cmd: wRequest, method: "m", seq: uint64(a*1000 + i), data: []byte(fill(i, min(op.C, maxb-1)))}
		if r.Plan.K("coder") != 0 {
			req.resv = byte(g.N(256))
		}
		hostile := true
		switch op.K {
		case "req":
			b = req.enc()
			hostile = req.resv != 0
		case "areq":
			req.method, req.async = "a", g.P(2)
			b = req.enc()
			hostile = false
		case "notify":
			req.cmd, req.async = wNotify, true
			b = req.enc()
			hostile = false
		case "empty":
			req.data = nil
			b = req.enc()
			hostile = false
		case "exact":
			if maxb > 10000 {
				return
			}
			req.data = []byte(fill(i, maxb-1))
			b = req.enc()
			hostile = false
		case "ping":
			b = frame{cmd: wPing}.enc()
			hostile = false
		case "pong":
			b = frame{cmd: wPong}.enc()
			hostile = false
		case "nf":
			req.method = "nosuch"
			req.data = nil
			if maxb < 40 {
				return
			}
			b = req.enc()
			hostile = false
		case "ml0":
			req.cmd = byte(g.Pick(wRequest, wResponse, wNotify, wStream))
			b = req.enc()
			b[7] = 0
		case "ml128":
			if maxb < 300 {
				return
			}
			req.cmd = byte(g.Pick(wRequest, wResponse, wNotify, wStream))
			req.data = []byte(fill(i, 280))
			b = req.enc()
			b[7] = byte(g.In(128, 255))
		case "mlbig":
			req.cmd = byte(g.Pick(wRequest, wResponse, wNotify, wStream))
			req.data = req.data[:min(len(req.data), 20)]
			b = req.enc()
			b[7] = byte(len(req.data) + 1 + g.In(1, 100))
		case "rsp":
			req.cmd = wResponse
			req.seq = uint64(g.Pick(0, 1, 2, 1<<40))
			req.async, req.isErr = g.P(2), g.P(2)
			b = req.enc()
		case "strm":
			req.cmd = wStream
			req.local, req.eof = g.P(2), g.P(2)
			b = req.enc()
		case "over":
			req.data = []byte(fill(i, min(maxb, 6000)))
			b = req.enc()
			binary.LittleEndian.PutUint32(b, uint32(maxb+1))
		case "huge":
			b = req.enc()
			binary.LittleEndian.PutUint32(b, uint32(g.Pick(0xffffffff, 0x80000000, 0x7fffffff, 0xfffffff0, 1<<30)))
		case "badcmd":
			req.cmd = byte(g.Pick(0, 7, 8, 31, 63))
			b = req.enc()
		case "flip":
			b = req.enc()
			for k := g.In(1, 3); k > 0; k-- {
				b[g.N(min(len(b), 20))] ^= byte(1 << g.N(8))
			}
		case "garbage":
			b = make([]byte, g.In(1, 60))
			for k := range b {
				b[k] = byte(g.U64())
			}
			if g.P(2) {
				b = append([]byte{byte(g.N(40)), 0, 0, 0}, b...)
			}
		case "trunc":
			b = req.enc()
			b = b[:g.N(len(b))]
		case "close":
			// writing a response fails then, which ends the connection
			pe.closed, pe.lossy = true, true
			if r.Plan.K("noread") == 0 {
				pe.e.Close()
			}
			r.count("hostile")
			return
		case "reset":
			pe.closed, pe.lossy = true, true
			pe.e.l.reset(errReset)
			r.fault("reset")
			r.count("hostile")
			return
		}
		if hostile {
			r.count("hostile")
			r.count("sent_" + op.K)
		}
		pe.sent = append(pe.sent, b...)
		if pe.send(g, b, r.Plan.K("piece"), us(r.Plan.K("gap"))) != nil {
			pe.closed = true
		}
	})
	time.Sleep(5 * time.Second)
	for a := range r.Plan.Actors {
		pe := peers[a]
		if pe == nil {
			continue
		}
		l := pe.e.l
		calls, certain, pings, fatal, bad := hparse(pe.sent, maxb)
		sn := got[l.ID]
		if sn == nil {
			sn = &seen{}
		}
		if plain {
			var ws, wa []hcall
			ns, na, nreq := 0, 0, 0 // certain ones
			for k, c := range calls {
				if c.cmd != wRequest && c.cmd != wNotify {
					continue
				}
				switch c.method {
				case "m":
					ws = append(ws, c)
					if k < certain {
						ns++
					}
				case "a":
					wa = append(wa, c)
					if k < certain {
						na++
					}
				}
				if k < certain && c.cmd == wRequest && c.method != "honest" {
					nreq++
				}
			}
			if pe.lossy {
				ns, na, nreq = 0, 0, 0
			}
			if len(sn.sync) < ns || len(sn.sync) > len(ws) {
				r.Fail("handled", "connection %d: %d valid messages for m before anything fatal, %d in all, %d were handled", l.ID, ns, len(ws), len(sn.sync))
			}
			for k := range sn.sync {
				if k < len(ws) && sn.sync[k] != ws[k] {
					r.Fail("handled", "connection %d: message %d is %+v, was sent as %+v", l.ID, k, sn.sync[k], ws[k])
				}
			}
			if len(sn.async) < na || len(sn.async) > len(wa) {
				r.Fail("handled", "connection %d: %d valid messages for a before anything fatal, %d in all, %d were handled", l.ID, na, len(wa), len(sn.async))
			}
			if !pe.lossy && !pe.closed && !fatal && !bad {
				nr, np := 0, 0
				for _, f := range pe.got {
					switch f.cmd {
					case wResponse:
						nr++
					case wPong:
						np++
					default:
						r.Fail("answer", "connection %d got a frame with command %d", l.ID, f.cmd)
					}
				}
				if nr != nreq || np != pings {
					r.Fail("answer", "connection %d: %d requests and %d pings were answered with %d responses and %d pongs", l.ID, nreq, pings, nr, np)
				}
			}
			if (fatal || bad) && !l.ends[1].closed && r.Plan.K("noread") == 0 {
				r.Fail("not-closed", "connection %d is open 5 s after an invalid length (%v) or command (%v)", l.ID, fatal, bad)
			}
			if !fatal && !bad && !pe.closed && l.ends[1].closed {
				r.Fail("closed", "connection %d was closed by the server though nothing fatal was sent", l.ID)
			}
		}
		if fatal {
			r.count("fatal_len")
		}
		if bad {
			r.count("fatal_cmd")
		}
	}
	if !until(30*time.Second, ms(10), func() bool { return hdone }) {
		r.Fail("other-connection", "calls over a well-behaved connection hang")
	}
	honestCall(1000)
	if honest.CheckState() != nil || linkID(honest) != hlink {
		r.Fail("other-connection", "the well-behaved connection was lost")
	}
	for a := range r.Plan.Actors {
		if pe := peers[a]; pe != nil && !pe.e.closed {
			pe.e.Close()
		}
	}
	time.Sleep(2 * time.Second)
	if s.CurrLoad != 1 {
		r.Fail("cleanup", "one connection is left, CurrLoad is %d", s.CurrLoad)
	}
	honest.Stop()
	ln.Close()
	s.Stop()
	r.leakCheck(base, 10*time.Second)
}

func execHostileServer(r *Run) {
	base := runtime.VerifBubbleTotal()
	maxb := 0
	plain := r.Plan.K("coder") == 0
	type sentRsp struct {
		conn int
		at   time.Duration
	}
	ln := r.Net.Listen("s0")
	streams := map[int][]byte{} // link -> bytes sent by the server
	lossy := map[int]bool{}
	unsent := map[int]int{} // link -> messages the server is still sending
	seqOf := map[int]uint64{} // operation -> seq
	nconn := 0
	var ends []*End
	cid := 0
	chandled := map[int]int{}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			p := &rawPeer{r: r, e: c.(*End)}
			ends = append(ends, p.e)
			li := p.e.l.ID
			nconn++
			evil := nconn <= r.Plan.K("hostile")
			outq := make(chan []byte, 4000)
			closed := false
			go func() {
				g := NewRng(r.Plan.Seed, 13, uint64(li))
				defer func() { unsent[li] = -1 << 30 }()
				for b := range outq {
					if b == nil {
						p.e.Close()
						return
					}
					if p.send(g, b, r.Plan.K("piece"), us(r.Plan.K("gap"))) != nil {
						return
					}
					unsent[li]--
				}
			}()
			put := func(b []byte) {
				if !closed {
					streams[li] = append(streams[li], b...)
					unsent[li]++
					outq <- b
				}
			}
			n := 0
			p.onF = func(f frame) {
				n++
				r.count("frames")
				g := NewRng(r.Plan.Seed, 12, uint64(li), uint64(n))
				_, id, _, err := chkPay(string(f.data))
				if err == nil {
					seqOf[id] = f.seq
				}
				rsp := frame{cmd: wResponse, method: f.method, seq: f.seq, async: f.async, data: []byte(fmt.Sprintf("R%d", f.seq))}
				if !plain {
					rsp.resv = byte(g.N(256)) & byte(g.N(256))
					if !evil {
						rsp.resv = 0
					}
				}
				if !evil {
					if f.cmd == wRequest {
						put(rsp.enc())
					}
					return
				}
				for k := g.In(1, 3); k > 0; k-- {
					b := rsp.enc()
					what := g.N(22)
					switch what {
					case 0, 1, 2, 3:
					case 4:
						rsp.isErr = true
						rsp.data = []byte(fmt.Sprintf("E%d", f.seq))
						b = rsp.enc()
					case 5:
						continue
					case 6:
						x := rsp
						x.seq = f.seq + uint64(g.N(4))
						x.data = []byte(fmt.Sprintf("R%d", x.seq))
						b = x.enc()
					case 7:
						x := rsp
						x.async = !x.async
						b = x.enc()
					case 8:
						b[7] = 0
					case 9:
						b[7] = byte(len(f.method) + len(rsp.data) + 1)
					case 10:
						b[5] = byte(g.Pick(0, 7, 60))
						if g.P(3) {
							continue
						}
					case 11:
						binary.LittleEndian.PutUint32(b, uint32(g.Pick(0xffffffff, maxb+1, maxb+1)))
					case 12:
						b = b[:g.N(len(b))]
					case 13:
						b = make([]byte, g.In(1, 50))
						for k := range b {
							b[k] = byte(g.U64())
						}
					case 14:
						closed, lossy[li] = true, true
						outq <- nil
					case 15:
						closed, lossy[li] = true, true
						p.e.l.reset(errReset)
						r.fault("reset")
					case 16:
						b = append(frame{cmd: wPing}.enc(), frame{cmd: wPong}.enc()...)
					case 17:
						cid++
						b = frame{cmd: byte(g.Pick(wRequest, wNotify)), method: g.PickS("cm", "nosuch"), seq: f.seq, data: []byte(fmt.Sprint(cid))}.enc()
					case 18:
						b = frame{cmd: wStream, method: "cm", seq: f.seq, local: g.P(2), eof: g.P(2), data: []byte("x")}.enc()
					case 19:
						for k := 0; k < 2; k++ {
							b[g.N(min(len(b), 20))] ^= byte(1 << g.N(8))
						}
					case 20:
						x := rsp
						x.data = []byte(fill(1, max(0, maxb-len(f.method))))
						if maxb > 10000 {
							continue
						}
						b = x.enc()
					case 21:
						x := rsp
						x.method = fill(3, g.Pick(1, 127))
						if maxb < 200 {
							x.method = "z"
						}
						b = x.enc()
					}
					if what > 4 {
						r.count("hostile")
					}
					put(b)
				}
			}
			go p.pump()
		}
	}()
	time.Sleep(us(10))
	h := r.newHandler()
	maxb = r.limits(h, 4096)
	h.Handle("cm", func(ctx *arpc.Context) {
		var k int
		fmt.Sscan(string(ctx.Body()), &k)
		chandled[k]++
		ctx.Write("x")
	})
	c := r.connect("s0", "c0", h)
	if c == nil {
		return
	}
	w := newRPCWorld(r, 1)
	w.clis[0] = c
	if !r.actors(w.limit, func(a, i int, op Op) { w.issue(a, i, op) }) {
		r.Fail("no-return", "an operation against a hostile server has not returned")
	}
	until(time.Hour, 100*time.Millisecond, func() bool {
		for _, k := range unsent {
			if k > 0 {
				return false
			}
		}
		return true
	})
	time.Sleep(3 * time.Second)
	// what the server really said
	type ans struct{ data, err map[string]bool }
	said := map[uint64]*ans{}
	saidAsync := map[uint64]*ans{}
	surelyStopped, maybeStopped := false, false
	for li, b := range streams {
		calls, certain, _, _, bad := hparse(b, maxb)
		_ = certain
		if bad {
			maybeStopped = true
			if !lossy[li] {
				surelyStopped = true
			}
		}
		for _, hc := range calls {
			if hc.cmd != wResponse {
				continue
			}
			m := said
			if hc.async {
				m = saidAsync
			}
			if m[hc.seq] == nil {
				m[hc.seq] = &ans{map[string]bool{}, map[string]bool{}}
			}
			if hc.isErr {
				m[hc.seq].err[hc.data] = true
			} else {
				m[hc.seq].data[hc.data] = true
			}
		}
	}
	if !plain {
		maybeStopped, surelyStopped = true, false
	}
	judge := func(cr *callRec, m map[uint64]*ans, err error, rsp string) {
		seq, ok := seqOf[cr.id]
		a := m[seq]
		if !ok {
			// the server guessed the seq of a request it never got
			a = &ans{map[string]bool{}, map[string]bool{}}
			for _, x := range m {
				for d := range x.data {
					a.data[d] = true
				}
				for d := range x.err {
					a.err[d] = true
				}
			}
		}
		switch {
		case err == nil:
			if !plain {
				return
			}
			if a == nil || !a.data[rsp] {
				r.Fail("response", "%s %d (seq %d, sent %v) returned %q, which the server did not say", cr.kind, cr.id, seq, ok, clip(rsp))
			}
			r.count("answered")
		case isArpcErr(err) || isNetErr(err):
		default:
			if plain && (a == nil || !a.err[err.Error()]) {
				r.Fail("response", "%s %d (seq %d, sent %v) returned error %q, which the server did not say", cr.kind, cr.id, seq, ok, clip(err.Error()))
			}
		}
	}
	for _, cr := range w.calls {
		if !cr.done {
			r.Fail("no-return", "%s %d has not returned", cr.kind, cr.id)
			continue
		}
		if cr.t1 > cr.t0+cr.timeout+slack && r.Plan.K("syncwrite") == 0 {
			r.Fail("late", "%s %d with timeout %v returned after %v", cr.kind, cr.id, cr.timeout, cr.t1-cr.t0)
		}
		if isAsyncOp(cr.kind) {
			if len(cr.cbs) > 1 || cr.err == nil && len(cr.cbs) != 1 {
				r.Fail("callback", "%s %d returned %v, its callback was called %d times", cr.kind, cr.id, cr.err, len(cr.cbs))
			}
			for _, cb := range cr.cbs {
				judge(cr, saidAsync, cb.err, cb.rsp)
			}
		} else if isCall(cr.kind) {
			judge(cr, said, cr.err, cr.rsp)
		}
	}
	for k, n := range chandled {
		if n > 1 && k > 0 && plain {
			r.Fail("twice", "request %d of the server was handled %d times", k, n)
		}
	}
	// the client recovers as soon as it is connected to a decent server
	if surelyStopped && c.CheckState() != arpc.ErrClientStopped {
		r.Fail("not-closed", "a message with an unknown command was received, CheckState is %v", c.CheckState())
	}
	if !maybeStopped && c.CheckState() == arpc.ErrClientStopped {
		r.Fail("stopped", "the client stopped by itself")
	}
	if c.CheckState() != arpc.ErrClientStopped {
		for _, e := range ends {
			if !e.closed {
				e.Close()
			}
		}
		nconn = 100
		time.Sleep(3 * time.Second)
		ok := false
		var err error
		for k := 0; k < 5 && !ok; k++ {
			var rsp string
			err = c.Call("echo.a", mkPay("Q", 990000+k, 0, 1), &rsp, time.Second)
			ok = err == nil
			time.Sleep(time.Second)
		}
		if !ok && c.CheckState() != arpc.ErrClientStopped {
			r.Fail("dead", "the client does not work with a well-behaved server after a hostile one: %v", err)
		}
		r.count("recovered")
	}
	c.Stop()
	ln.Close()
	for _, e := range ends {
		if !e.closed {
			e.Close()
		}
	}
	time.Sleep(2 * time.Second)
	_ = base
}
