package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/arpchttp"
)

// ---------------------------------------------------------------- C30

func init() {
	register(&Prop{ID: "C30", Rule: "non-trivial when requests were answered", Gen: genC30, Exec: execC30,
		NonTrivial: func(r *Run) bool { return r.Counts["answered"] > 0 }})
}

func genC30(g *Rng, p *Plan) {
	noStalls(p)
	p.Net.SendBuf = 0
	p.Net.Chunk = g.Pick(0, 0, 7, 100)
	genKnobs(g, p, "coder", "clone", "codec")
	span := g.Pick(100, 10_000, 500_000)
	for a := g.In(1, 5); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 6); k > 0; k-- {
			op := Op{K: g.PickS("req", "req", "req", "req", "err", "panic", "none", "notify", "nomethod", "bad", "cut", "get", "ping"), A: g.N(1000), B: g.N(1000), C: g.Log(1, g.Pick(10, 300, 10_000)), E: g.Pick(0, 0, 1, 100, 5000), F: g.N(1000)}
			if g.P(2) {
				op.D = g.Log(1, span)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(4) {
		genFaults(g, p, 2, span, "reset", "cut", "hold")
	}
}

type httpRec struct {
	handled int
	nonce   int
	bad     bool
}

func execC30(r *Run) {
	h := r.newHandler()
	h.SetAsyncWrite(false)
	recs := map[int]*httpRec{}
	nonce := 0
	handle := func(name string, fn func(ctx *arpc.Context, id, arg int, hr *httpRec)) {
		h.Handle(name, func(ctx *arpc.Context) {
			var s string
			if err := ctx.Bind(&s); err != nil {
				r.count("unbound")
				return
			}
			tag, id, arg, err := chkPay(s)
			hr := recs[id]
			if err != nil || tag != "Q" || hr == nil {
				r.count("garbled") // flipped on purpose
				return
			}
			nonce++
			hr.handled++
			hr.nonce = nonce
			r.ev("handle", id, nonce)
			if arg > 0 {
				time.Sleep(us(arg))
			}
			fn(ctx, id, hr.nonce, hr)
		}, false)
	}
	handle("req", func(ctx *arpc.Context, id, n int, hr *httpRec) {
		if err := ctx.Write(mkPay("R", id, n, id%1000)); err != nil && len(r.Fired) == 0 && !hr.bad {
			r.Fail("write", "Write in a handler: %v", err)
		}
	})
	handle("err", func(ctx *arpc.Context, id, n int, hr *httpRec) {
		ctx.Error(errors.New(mkPay("E", id, n, 20)))
	})
	handle("panic", func(ctx *arpc.Context, id, n int, hr *httpRec) { panic("handler panic") })
	handle("none", func(ctx *arpc.Context, id, n int, hr *httpRec) {})
	handle("notify", func(ctx *arpc.Context, id, n int, hr *httpRec) {
		if ctx.Write("x") == nil && !hr.bad {
			r.Fail("notify", "a notify could be answered")
		}
	})
	ln := r.Net.Listen("s0")
	mux := http.NewServeMux()
	mux.HandleFunc("/rpc", arpchttp.Handler(h, r.codec()))
	hs := &http.Server{Handler: mux, ErrorLog: quietLog}
	go hs.Serve(ln)

	conns := make([]net.Conn, len(r.Plan.Actors)+1)
	brs := make([]*bufio.Reader, len(conns))
	drop := func(a int) {
		if conns[a] != nil {
			conns[a].Close()
			conns[a] = nil
		}
	}
	// post sends body on actor a's connection: status and body of the response
	post := func(a int, method string, body []byte, cl int, chunked bool) (int, []byte, error) {
		if conns[a] == nil {
			c, err := r.Net.dial("s0", fmt.Sprintf("c%d", a))
			if err != nil {
				return 0, nil, err
			}
			conns[a], brs[a] = c, bufio.NewReader(c)
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s /rpc HTTP/1.1\r\nHost: x\r\n", method)
		switch {
		case method == "GET":
			b.WriteString("\r\n")
		case chunked:
			b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
			for rest := body; len(rest) > 0; {
				n := min(len(rest), 1+len(body)/3)
				fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
				rest = rest[n:]
			}
			b.WriteString("0\r\n\r\n")
		default:
			fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", cl)
			b.Write(body)
		}
		if _, err := conns[a].Write(b.Bytes()); err != nil {
			drop(a)
			return 0, nil, err
		}
		if cl > len(body) { // the rest never comes
			drop(a)
			return 0, nil, io.ErrUnexpectedEOF
		}
		rsp, err := http.ReadResponse(brs[a], nil)
		if err != nil {
			drop(a)
			return 0, nil, err
		}
		out, err := io.ReadAll(rsp.Body)
		if err != nil || rsp.Close {
			drop(a)
		}
		return rsp.StatusCode, out, err
	}
	cli := &arpc.Client{Conn: nil, Handler: h, Codec: r.codec()} // whom coders see
	code := func(f frame) []byte {
		m := h.NewMessageWithBuffer(f.enc())
		for _, c := range h.Coders() {
			m = c.Encode(cli, m)
		}
		return append([]byte(nil), m.Buffer...)
	}
	decode := func(b []byte) (frame, error) {
		if len(b) < wHead {
			return frame{}, fmt.Errorf("%d bytes", len(b))
		}
		m := h.NewMessageWithBuffer(append([]byte(nil), b...))
		cs := h.Coders()
		for i := len(cs) - 1; i >= 0; i-- {
			m = cs[i].Decode(cli, m)
		}
		fs, rest, err := decFrames(m.Buffer)
		if err != nil {
			return frame{}, err
		}
		if len(fs) != 1 || len(rest) > 0 {
			return frame{}, fmt.Errorf("%d messages and %d more bytes", len(fs), len(rest))
		}
		return fs[0], nil
	}
	hurt := func() bool { return len(r.Fired) > 0 }
	do := func(a, i int, op Op) {
		id := a*100 + i + 1
		rec := &httpRec{}
		recs[id] = rec
		seq := uint64(op.A)<<20 + uint64(id)
		if op.F%7 == 0 {
			seq = ^uint64(0) - uint64(op.A)
		}
		f := frame{cmd: wRequest, method: op.K, seq: seq, async: op.F%3 == 0, data: []byte(mkPay("Q", id, op.E, op.C))}
		g := NewRng(r.Plan.Seed, 0x30, uint64(id))
		chunked := op.F%4 == 1
		r.ev("post", id)
		switch op.K {
		case "req", "err", "panic", "none", "notify", "nomethod":
			if op.K == "notify" {
				f.cmd = wNotify
			}
			body := code(f)
			st, out, err := post(a, "POST", body, len(body), chunked)
			r.ev("rsp", id, st, len(out))
			if err != nil {
				if !hurt() {
					r.Fail("post", "%s %d: %v", op.K, id, err)
				}
				if rec.handled > 1 {
					r.Fail("handled", "%s %d was handled %d times", op.K, id, rec.handled)
				}
				return
			}
			if st != 200 {
				r.Fail("status", "%s %d: HTTP status %d", op.K, id, st)
				return
			}
			want := 1
			if op.K == "nomethod" {
				want = 0
			}
			if rec.handled != want {
				r.Fail("handled", "%s %d was handled %d times when its response came", op.K, id, rec.handled)
			}
			if op.K != "req" && op.K != "err" && op.K != "nomethod" {
				if len(out) > 0 {
					r.Fail("response", "%s %d, which is not answered, got a response of %d bytes", op.K, id, len(out))
				}
				return
			}
			rf, err := decode(out)
			if err != nil {
				r.Fail("response", "%s %d: the response body is no message: %v", op.K, id, err)
				return
			}
			if rf.cmd != wResponse || rf.seq != seq || rf.method != op.K || rf.isErr == (op.K == "req") || rf.async != f.async {
				r.Fail("response", "%s %d (seq %d): response %d seq %d method %q error %v async %v", op.K, id, seq, rf.cmd, rf.seq, rf.method, rf.isErr, rf.async)
			}
			if op.K == "nomethod" {
				if string(rf.data) != arpc.ErrMethodNotFound.Error() {
					r.Fail("response", "unknown method: the response is %q", clip(string(rf.data)))
				}
				return
			}
			tag, rid, n, err := chkPay(string(rf.data))
			if err != nil || tag != map[string]string{"req": "R", "err": "E"}[op.K] || rid != id || n != rec.nonce {
				r.Fail("response", "%s %d, handled as %d, got the response %s of %d handled as %d: %v", op.K, id, rec.nonce, tag, rid, n, err)
			}
			r.count("answered")
		case "cut": // the upload ends before its length
			f.method = "req"
			body := code(f)
			n := g.N(len(body))
			post(a, "POST", body[:n], len(body), false)
			time.Sleep(time.Second)
			if rec.handled > 0 {
				r.Fail("cut", "request %d was handled though only %d of %d bytes came", id, n, len(body))
			}
		case "get":
			st, out, err := post(a, "GET", nil, 0, false)
			if err == nil && len(out) > 0 && st == 200 {
				r.Fail("response", "a GET without body got a response of %d bytes", len(out))
			}
		case "ping":
			f = frame{cmd: wPing}
			post(a, "POST", f.enc(), wHead, chunked)
		case "bad":
			rec.bad = true
			var body []byte
			switch op.B % 6 {
			case 0:
				body = []byte(fill(op.A, g.N(40)))
			case 1: // flipped bits
				f.method = "req"
				body = code(f)
				for k := g.In(1, 4); k > 0; k-- {
					body[g.N(min(len(body), 40))] ^= 1 << g.N(8)
				}
			case 2: // unknown command
				f.cmd = byte(g.Pick(0, 7, 9, 63))
				body = code(f)
			case 3:
				f.cmd, f.local, f.eof = wStream, g.P(2), g.P(2)
				body = code(f)
			case 4:
				f.cmd = wResponse
				body = code(f)
			case 5: // short
				f.method = "req"
				body = code(f)
				body = body[:g.N(min(len(body), 20))]
			}
			post(a, "POST", body, len(body), chunked)
			if conns[a] != nil && g.P(2) {
				drop(a)
			}
		}
	}
	ok := r.actors(10*time.Minute, do)
	if !ok {
		if !hurt() {
			r.Fail("stuck", "posts are not finished")
		}
	} else {
		// it serves as before
		a := len(r.Plan.Actors)
		for k := 0; k < 3; k++ {
			id := 90000 + k
			rec := &httpRec{}
			recs[id] = rec
			f := frame{cmd: wRequest, method: "req", seq: uint64(id), data: []byte(mkPay("Q", id, 0, 30))}
			body := code(f)
			st, out, err := post(a, "POST", body, len(body), false)
			if err != nil || st != 200 {
				if !hurt() {
					r.Fail("after", "a request at the end: %d %v", st, err)
				}
				continue
			}
			rf, err := decode(out)
			if err != nil || rf.seq != uint64(id) || rec.handled != 1 {
				r.Fail("after", "a request at the end: response seq %d, handled %d times, %v", rf.seq, rec.handled, err)
			}
		}
	}
	for a := range conns {
		drop(a)
	}
	hs.Close()
	ln.Close()
	time.Sleep(3 * time.Second)
}
