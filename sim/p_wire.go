package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/lesismal/arpc"
)

// ---------------------------------------------------------------- C06

func init() {
	register(&Prop{ID: "C06", Rule: "non-trivial when frames were decoded", Gen: genC06, Exec: execC06,
		NonTrivial: func(r *Run) bool { return r.Counts["frames"] > 0 }})
}

func genC06(g *Rng, p *Plan) {
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	p.Knobs["role"] = g.Pick(0, 0, 0, 1, 1, 2, 2)
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "syncresp", "clone", "codec")
	if g.P(3) {
		p.Knobs["bigrsp"] = g.Pick(5000, 20000, 70000)
	}
	switch p.Knobs["role"] {
	case 0:
		genKnobs(g, p, "nil")
		p.Knobs["stq"] = g.Pick(2, 4, 16)
		genOps(g, p, opGen{
			kinds:   []string{"call", "cctx", "async", "notify", "nctx", "push", "notify0", "scall", "sasync", "snotify", "spush", "snctx", "ping", "sping", "open", "sopen", "pmsg", "spmsg", "prsp"},
			methods: []int{0, 1, 2, 3, 4, 5, 6, 7, 8}, actors: 5, ops: 8, clients: nc,
			maxGap: 20000, tmin: 300, tmax: 5_000_000, slow: g.Pick(0, 100, 3000), size: g.Pick(20, 300, 3000, 70000)})
		for a := range p.Actors {
			for i := range p.Actors[a] {
				op := &p.Actors[a][i]
				if op.K == "open" || op.K == "sopen" {
					*op = Op{K: op.K, A: op.A, B: g.Pick(0, 1), C: 1 + g.N(6), E: g.N(6), F: g.N(nKinds) + 8*g.N(4), G: g.Pick(1, 100, 3000)}
				}
			}
		}
		if g.Pct(70) {
			genFaults(g, p, 5, 60000, "reset", "cut", "partwrite", "partwrite", "partwrite", "hold", "slowread", "partition", "crash")
			for i := range p.Faults {
				if p.Faults[i].N > 0 && g.P(2) {
					p.Faults[i].N = g.N(200)
				}
			}
		}
		if g.P(3) {
			p.Knobs["wto"] = g.Pick(1, 3, 20)
			p.Net.SendBuf = g.Pick(32, 100, 1000)
		}
	case 1: // raw clients of a server
		noStalls(p)
		for a := g.In(1, 3); a > 0; a-- {
			var ops []Op
			for k := g.In(1, 12); k > 0; k-- {
				ops = append(ops, Op{K: g.PickS("req", "req", "req", "areq", "notify", "ping", "nf", "pong", "stream"), A: g.N(1 << 30), B: g.N(9), C: g.Log(1, g.Pick(20, 300, 5000, 70000)) - 1, F: g.N(nKinds), G: g.N(2000)})
			}
			p.Actors = append(p.Actors, ops)
		}
		p.Knobs["piece"] = g.Pick(0, 1, 2, 5, 15, 17, 100)
		p.Knobs["gap"] = g.Pick(0, 0, 100, 5000)
	case 2: // clients of a raw server
		noStalls(p)
		genOps(g, p, opGen{
			kinds:   []string{"call", "call", "cctx", "async", "notify", "nctx", "push"},
			methods: []int{0, 1, 7}, actors: 5, ops: 6, clients: nc,
			maxGap: 20000, tmin: 300, tmax: 2_000_000, slow: 0, size: g.Pick(20, 300, 3000)})
		p.Knobs["piece"] = g.Pick(0, 1, 2, 5, 15, 17, 100)
		p.Knobs["gap"] = g.Pick(0, 0, 100, 5000)
	}
	smallC06(p)
}

// small keeps runs with tiny segments short.
func smallC06(p *Plan) {
	c, k := p.Net.Chunk, p.Knobs["piece"]
	if (c > 0 && c < 40) || (k > 0 && k < 40) || p.Net.SendBuf > 0 {
		if p.Knobs["bigrsp"] > 0 {
			p.Knobs["bigrsp"] = 1000
		}
		for a := range p.Actors {
			for i := range p.Actors[a] {
				op := &p.Actors[a][i]
				op.C = min(op.C, 400)
				op.G = min(op.G, 2000)
			}
		}
	}
}

func execC06(r *Run) {
	switch r.Plan.K("role") {
	case 0:
		execWireBoth(r)
	case 1:
		execWireServer(r)
	default:
		execWireClient(r)
	}
}

func (w *rpcWorld) wantData(cr *callRec) []byte {
	if cr.want == nil {
		cr.want = w.wantData1(cr)
	}
	return cr.want
}

func (w *rpcWorld) wantData1(cr *callRec) []byte {
	s := mkPay("Q", cr.id, cr.arg, cr.size)
	if kindStruct(cr.vkind) {
		b, _ := w.r.codec().Marshal(mkVal(2, s))
		return b
	}
	return []byte(s)
}

// frameID finds the operation a request frame belongs to.
func (w *rpcWorld) frameID(f frame) *callRec {
	for _, cr := range w.calls {
		if bytes.Equal(f.data, w.wantData(cr)) {
			return cr
		}
	}
	return nil
}

// handSeq marks messages whose sequence number is chosen by hand.
const handSeq = 1 << 63

func handMade(c *arpc.Client, byHandler bool, cmd byte, method string, v interface{}, isErr, async bool, seq uint64) *arpc.Message {
	if byHandler {
		return c.Handler.NewMessage(cmd, method, v, isErr, async, seq, c.Codec, nil)
	}
	return arpc.NewMessage(cmd, method, v, isErr, async, seq, c.Handler, c.Codec, nil)
}

func execWireBoth(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	sw := &strWorld{w: w, r: r, recs: map[int]*strRec{}}
	w.tune = func(h arpc.Handler, server bool) {
		sw.register(h, server)
		if t := r.Plan.K("wto"); t > 0 {
			h.SetWriteTimeout(ms(t))
		}
	}
	if !w.start() {
		w.stop()
		return
	}
	pings := 0
	r.actors(3*time.Minute, func(a, i int, op Op) {
		switch op.K {
		case "ping":
			w.clis[op.A%len(w.clis)].Ping()
			pings++
		case "sping":
			if c := w.slast[op.A%len(w.clis)]; c != nil {
				c.Ping()
				pings++
			}
		case "open", "sopen":
			sw.open(a, i, op)
		case "prsp":
			// a response nobody waits for, made by hand
			c := w.clis[op.A%len(w.clis)]
			v := mkPay("E", a*1000+i+1, 0, op.C)
			m := handMade(c, op.A%2 == 1, arpc.CmdResponse, "echo.a", v, op.G%2 == 1, op.F%2 == 1, handSeq|uint64(op.F%2)<<1|uint64(op.G%2))
			c.PushMsg(m, ms(50))
		default:
			w.issue(a, i, op)
		}
	})
	time.Sleep(5 * time.Second)
	w.stop()
	time.Sleep(3 * time.Second)
	byData := map[string]*callRec{}
	for _, cr := range w.calls {
		byData[string(w.wantData(cr))] = cr
	}
	seen := map[int]int{}
	for _, l := range r.Net.links {
		var fs [2][]frame
		for d := range l.h {
			var rest []byte
			var err error
			fs[d], rest, err = decFrames(l.h[d].log)
			r.Counts["frames"] += len(fs[d])
			if err != nil {
				r.Fail("frame", "connection %d direction %d: %v", l.ID, d, err)
				return
			}
			if len(rest) > 0 && !l.h[d].werr {
				r.Fail("frame", "connection %d direction %d: ends with %d bytes of a frame though no write failed", l.ID, d, len(rest))
				return
			}
		}
		for d := range fs {
			reqs := map[uint64]bool{}
			type sk struct {
				id    uint64
				local bool
			}
			eof := map[sk]bool{}
			meth := map[sk]string{}
			rsps := map[uint64]int{}
			for i, f := range fs[d] {
				where := fmt.Sprintf("connection %d direction %d frame %d (cmd %d, method %q, seq %d, %d bytes)", l.ID, d, i, f.cmd, clip(f.method), f.seq, len(f.data))
				if f.resv != 0 || f.rawFlg&^3 != 0 || (f.cmd != wStream && f.rawCmd != f.cmd) {
					r.Fail("frame-flags", "%s: reserved %#x, flags %#x, cmd %#x", where, f.resv, f.rawFlg, f.rawCmd)
					return
				}
				switch f.cmd {
				case wRequest, wNotify:
					cr := byData[string(f.data)]
					if isNil(f.method) && len(f.data) == 0 {
						cr = w.byID[w.nilOf(f.method)]
					}
					if cr == nil {
						r.Fail("frame-data", "%s carries %q, which was never sent", where, clip(string(f.data)))
						return
					}
					seen[cr.id]++
					if seen[cr.id] > 1 {
						r.Fail("frame-twice", "%s: %s %d was written more than once", where, cr.kind, cr.id)
					}
					if f.method != cr.method || cr.toServer != (d == 0) || f.isErr {
						r.Fail("frame-head", "%s is for %s %d on %q", where, cr.kind, cr.id, cr.method)
					}
					if strings.HasSuffix(cr.kind, "pmsg") && (f.seq != handSeq|uint64(cr.id) || f.async != (cr.id%2 == 1)) {
						r.Fail("frame-head", "%s is a message made with seq %d, async %v", where, handSeq|uint64(cr.id), cr.id%2 == 1)
					}
					if isReq := isCall(cr.kind) || isAsyncOp(cr.kind); isReq != (f.cmd == wRequest) {
						r.Fail("frame-head", "%s is for %s %d", where, cr.kind, cr.id)
					} else if isReq && f.async != isAsyncOp(cr.kind) {
						r.Fail("frame-head", "%s is for %s %d but its async flag is %v", where, cr.kind, cr.id, f.async)
					}
					if f.cmd == wRequest {
						if reqs[f.seq] {
							r.Fail("frame-seq", "%s: the seq was used by an earlier request of this connection", where)
						}
						reqs[f.seq] = true
					}
				case wResponse:
					if f.seq&handSeq != 0 {
						if f.method != "echo.a" || f.isErr != (f.seq&1 == 1) || f.async != (f.seq&2 == 2) {
							r.Fail("frame-head", "%s is a response made with method echo.a, error %v, async %v; it has error %v, async %v", where, f.seq&1 == 1, f.seq&2 == 2, f.isErr, f.async)
						}
						if tag, _, _, err := chkPay(string(f.data)); err != nil || tag != "E" {
							r.Fail("frame-data", "%s: %v", where, err)
						}
						r.count("hand_made")
						continue
					}
					var q *frame
					for j := range fs[1-d] {
						if fs[1-d][j].cmd == wRequest && fs[1-d][j].seq == f.seq {
							q = &fs[1-d][j]
						}
					}
					if q == nil {
						// a handler of the client may answer after a reconnect
						if d == 1 {
							r.Fail("frame-rsp", "%s answers no request of this connection", where)
						}
						continue
					}
					rsps[f.seq]++
					if rsps[f.seq] > 1 {
						r.Fail("frame-rsp", "%s answers seq %d again", where, f.seq)
					}
					cr := byData[string(q.data)]
					if isNil(q.method) {
						cr = w.byID[w.nilOf(q.method)]
					}
					if cr == nil {
						continue
					}
					isErr := strings.HasPrefix(q.method, "err")
					if f.method != q.method || f.async != q.async || f.isErr != isErr {
						r.Fail("frame-rsp", "%s answers %q: async %v/%v, error %v", where, q.method, f.async, q.async, f.isErr)
					}
					data := string(f.data)
					if strings.HasPrefix(q.method, "struct") {
						var t tval
						if err := r.codec().Unmarshal(f.data, &t); err != nil {
							r.Fail("frame-data", "%s: %v", where, err)
						}
						data = t.P
					}
					if isNil(q.method) && cr.id%2 == 0 {
						if data != "" {
							r.Fail("frame-data", "%s answers %d, whose handler answered with no data", where, cr.id)
						}
						continue
					}
					if _, id, _, err := chkPay(data); err != nil || id != cr.id {
						r.Fail("frame-data", "%s answers %d: %v", where, cr.id, err)
					}
				case wPing, wPong:
					if len(f.method) != 0 || len(f.data) != 0 {
						r.Fail("frame-head", "%s: ping or pong with a body", where)
					}
				case wStream:
					k := sk{f.seq, f.local}
					if eof[k] {
						r.Fail("frame-stream", "%s follows the EOF of its stream", where)
					}
					eof[k] = f.eof
					if m, ok := meth[k]; ok && m != f.method {
						r.Fail("frame-stream", "%s: its stream's method was %q", where, m)
					}
					meth[k] = f.method
					if len(f.data) == 0 && !f.eof {
						r.Fail("frame-stream", "%s: empty item", where)
					}
					if len(f.data) > 0 {
						kind := -1
						fmt.Sscanf(f.method, "st%d", &kind)
						s := string(f.data)
						if kind == 2 {
							var t tval
							if err := r.codec().Unmarshal(f.data, &t); err != nil {
								r.Fail("frame-data", "%s: %v", where, err)
							}
							s = t.P
						}
						tag, it, _, err := chkPay(s)
						rec := sw.recs[it/strMax/2]
						if err != nil || tag != "S" || rec == nil || kind != rec.op.F%nKinds {
							if s != "x" { // the probe after a close
								r.Fail("frame-data", "%s: %v", where, err)
							}
						} else if fromOpener := it/strMax%2 == 0; fromOpener != f.local || fromOpener != ((rec.op.K == "open") == (d == 0)) {
							r.Fail("frame-stream", "%s: local flag %v for an item of direction %d of a stream opened by %s", where, f.local, it/strMax%2, rec.op.K)
						}
					}
				}
			}
		}
	}
}

// execWireServer drives a server with raw peers.
func execWireServer(r *Run) {
	w := newRPCWorld(r, 1)
	w.tune = func(h arpc.Handler, server bool) {
		h.HandleStream("up", func(st *arpc.Stream) {
			for {
				var s string
				if err := st.Recv(&s); err != nil {
					break
				}
				st.Send("<" + s)
			}
			st.CloseSend()
		}, true)
	}
	w.startServer()
	type exp struct {
		f     frame
		id    int
		rsp   []frame
		items []string
		sent  time.Duration
	}
	done := make(chan int, 8)
	for a := range r.Plan.Actors {
		a := a
		go func() {
			defer func() { done <- a }()
			p := r.dialRaw("s0", fmt.Sprintf("c%d", a))
			if p == nil {
				return
			}
			g := NewRng(r.Plan.Seed, 9, uint64(a))
			var exps []*exp
			pongs := 0
			p.onF = func(f frame) {
				r.count("frames")
				switch f.cmd {
				case wPong:
					pongs++
					if len(f.data) != 0 || f.rawFlg != 0 || f.rawCmd != wPong {
						r.Fail("frame-head", "malformed pong")
					}
					return
				case wResponse, wStream:
					for _, e := range exps {
						if e.f.seq == f.seq && (e.f.cmd == wStream) == (f.cmd == wStream) {
							e.rsp = append(e.rsp, f)
							return
						}
					}
				}
				r.Fail("frame-rsp", "the server sent a frame (cmd %d, method %q, seq %d) nobody asked for", f.cmd, f.method, f.seq)
			}
			go p.pump()
			var out []byte
			pings := 0
			for i, op := range r.Plan.Actors[a] {
				id := a*1000 + i + 1
				m := rpcMethods[op.B%9]
				e := &exp{id: id}
				data := []byte(mkPay("Q", id, op.G, op.C))
				if strings.HasPrefix(m, "struct") {
					data, _ = r.codec().Marshal(mkVal(2, string(data)))
				}
				seq := uint64(op.A)<<8 | uint64(i)
				if op.A%5 == 0 {
					seq |= 1 << 63
				}
				w.byID[id] = &callRec{id: id, method: m, toServer: true, arg: op.G, size: op.C, kind: op.K}
				switch op.K {
				case "req", "areq":
					e.f = frame{cmd: wRequest, method: m, seq: seq, data: data, async: op.K == "areq"}
				case "notify":
					e.f = frame{cmd: wNotify, method: m, seq: seq, data: data, async: op.F%2 == 0}
				case "nf":
					e.f = frame{cmd: wRequest, method: fill(op.F, 1+op.G%127), seq: seq, data: data, async: op.F%2 == 0}
				case "ping":
					e.f = frame{cmd: wPing}
					pings++
				case "pong":
					e.f = frame{cmd: wPong}
				case "stream":
					n := 1 + op.G%4
					e.f = frame{cmd: wStream, method: "up", seq: seq}
					for k := 0; k < n; k++ {
						it := mkPay("T", id*100+k, 0, op.C%500)
						e.items = append(e.items, it)
						out = append(out, frame{cmd: wStream, method: "up", seq: seq, local: true, data: []byte(it), eof: k == n-1 && op.F%2 == 0}.enc()...)
					}
					if op.F%2 != 0 {
						out = append(out, frame{cmd: wStream, method: "up", seq: seq, local: true, eof: true}.enc()...)
					}
				}
				exps = append(exps, e)
				if op.K != "stream" {
					out = append(out, e.f.enc()...)
				}
			}
			if err := p.send(g, out, r.Plan.K("piece"), us(r.Plan.K("gap"))); err != nil {
				r.Fail("closed", "the server closed the connection of a well-behaved peer")
				return
			}
			for last := -1; last != p.e.in().read; {
				last = p.e.in().read
				time.Sleep(3 * time.Second)
			}
			if p.bad != nil || len(p.buf) > 0 || p.eof {
				r.Fail("frame", "what the server sent does not decode: %v, %d bytes left, closed %v", p.bad, len(p.buf), p.eof)
			}
			if pongs != pings {
				r.Fail("pong", "%d pings were answered with %d pongs", pings, pongs)
			}
			for _, e := range exps {
				r.Ops++
				hs := w.handled[e.id]
				switch e.f.cmd {
				case wRequest, wNotify:
					nf := w.routeMissing(e.f.method)
					if !nf && (len(hs) != 1 || hs[0].method != e.f.method || hs[0].arg != w.byID[e.id].arg) {
						r.Fail("handled", "frame %d for %q was handled %d times", e.id, e.f.method, len(hs))
						continue
					}
					want := 1
					if e.f.cmd == wNotify || strings.HasPrefix(e.f.method, "none") {
						want = 0
					}
					if len(e.rsp) != want {
						r.Fail("frame-rsp", "request %d for %q got %d responses", e.id, clip(e.f.method), len(e.rsp))
						continue
					}
					if want == 0 {
						continue
					}
					f := e.rsp[0]
					isErr := nf || strings.HasPrefix(e.f.method, "err")
					if f.rawCmd != wResponse || f.method != e.f.method || f.async != e.f.async || f.isErr != isErr || f.resv != 0 || f.rawFlg&^3 != 0 {
						r.Fail("frame-rsp", "the response to %d (%q, async %v) is cmd %#x, %q, async %v, error %v", e.id, clip(e.f.method), e.f.async, f.rawCmd, clip(f.method), f.async, f.isErr)
					}
					data := string(f.data)
					if nf {
						if data != arpc.ErrMethodNotFound.Error() {
							r.Fail("frame-data", "the response to an unknown method is %q", clip(data))
						}
						continue
					}
					if strings.HasPrefix(e.f.method, "struct") {
						var t tval
						if err := r.codec().Unmarshal(f.data, &t); err != nil {
							r.Fail("frame-data", "response to %d: %v", e.id, err)
						}
						data = t.P
					}
					if _, id, _, err := chkPay(data); err != nil || id != e.id {
						r.Fail("frame-data", "the response to %d is for %d: %v", e.id, id, err)
					}
				case wStream:
					got := ""
					eof := false
					for _, f := range e.rsp {
						if eof || f.local || f.method != "up" {
							r.Fail("frame-stream", "stream %d: frame after EOF %v, local %v, method %q", e.id, eof, f.local, f.method)
						}
						eof = f.eof
						got += string(f.data)
					}
					want := ""
					for _, it := range e.items {
						want += "<" + it
					}
					if got != want || !eof {
						r.Fail("frame-stream", "stream %d: %d bytes sent, %d of %d bytes came back, EOF %v", e.id, len(want)-len(e.items), len(got), len(want), eof)
					}
				}
			}
			p.e.Close()
		}()
	}
	for range r.Plan.Actors {
		<-done
	}
	time.Sleep(time.Second)
	w.srv.Stop()
	time.Sleep(time.Second)
}

func (w *rpcWorld) routeMissing(m string) bool {
	for _, x := range rpcMethods {
		if x == m {
			return false
		}
	}
	return true
}

// execWireClient drives clients with a raw server.
func execWireClient(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	ln := r.Net.Listen("s0")
	type answer struct {
		given bool
		at    time.Duration
		err   string
		data  string
	}
	ans := map[int]*answer{}
	stray := 0
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			p := &rawPeer{r: r, e: c.(*End)}
			li := p.e.l.ID
			outq := make(chan []byte, 1000)
			go func() {
				g := NewRng(r.Plan.Seed, 13, uint64(li))
				for b := range outq {
					if p.send(g, b, r.Plan.K("piece"), us(r.Plan.K("gap"))) != nil {
						return
					}
				}
			}()
			n := 0
			seqs := map[uint64]bool{}
			p.onF = func(f frame) {
				r.count("frames")
				n++
				g := NewRng(r.Plan.Seed, 12, uint64(li), uint64(n))
				// noise that a client must cope with
				switch g.N(8) {
				case 0:
					outq <- frame{cmd: wPing}.enc()
				case 1:
					outq <- frame{cmd: wResponse, method: "echo.a", seq: g.U64(), async: g.P(2), data: []byte("stray")}.enc()
				case 2:
					stray++
					id := 900000 + stray
					w.byID[id] = &callRec{id: id, method: "echo.a", toServer: false}
					outq <- frame{cmd: wNotify, method: "echo.a", seq: g.U64(), data: []byte(mkPay("Q", id, 0, g.N(300)))}.enc()
				case 3:
					outq <- frame{cmd: wStream, method: "nosuch", seq: g.U64(), local: g.P(2), data: []byte("stray")}.enc()
				}
				if f.cmd == wNotify || f.cmd == wRequest {
					cr := w.frameID(f)
					if cr == nil || cr.method != f.method || f.resv != 0 || f.rawFlg&^3 != 0 {
						r.Fail("frame-data", "the client sent %q for %q, which is no operation of it", clip(string(f.data)), f.method)
						return
					}
					if len(w.handled[cr.id]) > 0 {
						r.Fail("frame-twice", "the client sent %d twice", cr.id)
					}
					w.handled[cr.id] = append(w.handled[cr.id], &handleRec{id: cr.id})
					if f.cmd == wRequest {
						if seqs[f.seq] {
							r.Fail("frame-seq", "the client used seq %d twice", f.seq)
						}
						seqs[f.seq] = true
						a := &answer{}
						ans[cr.id] = a
						rsp := frame{cmd: wResponse, method: f.method, seq: f.seq, async: f.async}
						k := g.N(8)
						switch k {
						case 0: // none
							return
						case 1:
							rsp.isErr = true
							rsp.data = []byte(mkPay("E", cr.id, 0, g.N(100)))
							a.err = string(rsp.data)
						default:
							pay := mkPay("R", cr.id, 0, g.N(g.Pick(10, 300, 20000)))
							rsp.data = []byte(pay)
							if strings.HasPrefix(f.method, "struct") {
								rsp.data, _ = r.codec().Marshal(&tval{P: pay, N: len(pay)})
							}
							a.data = pay
						}
						d := us(g.Pick(0, 0, g.N(1000), g.N(300_000)))
						send := func() {
							if a.given {
								return
							}
							a.given = true
							a.at = r.Now()
							outq <- rsp.enc()
							for n := k - 2; k < 6 && n >= 0; n-- {
								outq <- rsp.enc() // again and again
							}
						}
						if d == 0 {
							send()
						} else {
							time.AfterFunc(d, send)
						}
					}
				}
			}
			go p.pump()
		}
	}()
	for i := range w.clis {
		h := r.newHandler()
		w.register(h, false)
		w.clis[i] = r.connect("s0", fmt.Sprintf("c%d", i), h)
		if w.clis[i] == nil {
			return
		}
		w.clis[i].Codec = r.codec()
	}
	r.actors(w.limit, func(a, i int, op Op) { w.issue(a, i, op) })
	time.Sleep(20 * time.Second)
	// a response takes its time: pieces, pauses and the link
	for _, cr := range w.calls {
		if !cr.done {
			r.Fail("no-return", "%s %d has not returned", cr.kind, cr.id)
			continue
		}
		err, rsp, at := cr.err, cr.rsp, cr.t1
		if isAsyncOp(cr.kind) {
			if cr.err != nil || len(cr.cbs) == 0 {
				continue
			}
			err, rsp, at = cr.cbs[0].err, cr.cbs[0].rsp, cr.cbs[0].at
		} else if !isCall(cr.kind) {
			if cr.err == nil && len(w.handled[cr.id]) != 1 {
				r.Fail("frame-lost", "%s %d returned nil, the server got it %d times", cr.kind, cr.id, len(w.handled[cr.id]))
			}
			continue
		}
		a := ans[cr.id]
		switch {
		case err == nil:
			if a == nil || !a.given || a.err != "" || rsp != a.data {
				r.Fail("response", "%s %d returned %q, the server answered %+v", cr.kind, cr.id, clip(rsp), a)
			}
		case err == arpc.ErrClientTimeout || err == arpc.ErrTimeout:
			// it arrived well before?
			if a != nil && a.given && r.Plan.K("piece") == 0 && r.Plan.Net.Chunk == 0 && a.at+ms(100) < at && a.at+ms(100) < cr.t0+cr.timeout && r.Plan.Net.SendBuf == 0 {
				r.Fail("response", "%s %d timed out at %v, the server answered at %v", cr.kind, cr.id, at, a.at)
			}
		default:
			if a == nil || a.err == "" || err.Error() != a.err {
				r.Fail("response", "%s %d returned error %v, the server answered %+v", cr.kind, cr.id, err, a)
			}
		}
	}
	if r.Plan.Net.SendBuf == 0 {
		for id, hs := range w.handled {
			if id > 900000 && len(hs) != 1 {
				r.Fail("handled", "a notify of the server was handled %d times", len(hs))
			}
		}
	}
	for _, l := range r.Net.links {
		if l.ends[0].closed {
			r.Fail("closed", "the client closed a connection to a well-behaved server")
		}
	}
	ln.Close()
	for _, c := range w.clis {
		c.Stop()
	}
	for _, l := range r.Net.links {
		l.ends[1].Close()
	}
	time.Sleep(3 * time.Second)
}
