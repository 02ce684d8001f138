package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	alog "github.com/lesismal/arpc/log"
)

func init() { alog.SetLevel(alog.LevelNone) }

// ---- payloads: self-describing, so corruption and mixing are visible ----

func fill(id, n int) string {
	b := make([]byte, n)
	x := uint64(id)*2654435761 + 12345
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ+-"[x>>58]
	}
	return string(b)
}

// mkPay makes a payload carrying id and an argument, padded with n bytes.
func mkPay(tag string, id, arg, n int) string {
	return tag + ";" + strconv.Itoa(id) + ";" + strconv.Itoa(arg) + ";" + strconv.Itoa(n) + ";" + fill(id, n)
}

// chkPay parses and verifies a payload.
func chkPay(s string) (tag string, id, arg int, err error) {
	f := strings.SplitN(s, ";", 5)
	if len(f) != 5 {
		return "", 0, 0, fmt.Errorf("unparsable payload %q", clip(s))
	}
	id, e1 := strconv.Atoi(f[1])
	arg, e2 := strconv.Atoi(f[2])
	n, e3 := strconv.Atoi(f[3])
	if e1 != nil || e2 != nil || e3 != nil || n < 0 || n > 1<<24 {
		return "", 0, 0, fmt.Errorf("unparsable payload %q", clip(s))
	}
	if f[4] != fill(id, n) {
		return f[0], id, arg, fmt.Errorf("corrupt payload for id %d: %q", id, clip(s))
	}
	return f[0], id, arg, nil
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

type tval struct {
	P string
	N int
	L []string `json:",omitempty"`
}

const nKinds = 6

// mkVal wraps a payload in one of the value kinds the library accepts.
func mkVal(kind int, s string) interface{} {
	switch kind % nKinds {
	case 0:
		return s
	case 1:
		return []byte(s)
	case 2:
		return &tval{P: s, N: len(s), L: []string{"x", s[:min(len(s), 3)]}}
	case 3:
		return &s
	case 4:
		b := []byte(s)
		return &b
	default:
		return errors.New(s)
	}
}

func kindStruct(kind int) bool { return kind%nKinds == 2 }

// ---- configuration knobs ----

func genKnobs(g *Rng, p *Plan, names ...string) {
	for _, n := range names {
		v := 0
		switch n {
		case "syncwrite":
			if g.P(3) {
				v = 1
			}
		case "nobatchsend":
			if g.P(3) {
				v = 1
			}
		case "nobatchrecv":
			if g.P(3) {
				v = g.Pick(1, 1, 2)
			}
		case "sbs":
			v = g.Pick(0, 1, 40, 100, 1000, 8192, 8192)
		case "rbs":
			v = g.Pick(0, 16, 64, 300)
		case "sq":
			v = g.Pick(0, 1, 2, 4, 16)
		case "pool":
			if g.P(3) {
				v = 1
			}
		case "syncresp":
			if g.P(3) {
				v = 1
			}
		case "exec":
			v = g.Pick(0, 0, 0, 1, 4)
		case "coder":
			if g.P(3) {
				v = g.In(1, 31)
			}
		case "nil":
			if g.P(3) {
				v = 1
			}
		case "clone":
			v = g.N(3)
		case "codec":
			v = g.N(2)
		}
		if v != 0 {
			p.Knobs[n] = v
		}
	}
}

// chunkReader is what a user may install as reader wrapper.
type chunkReader struct{ r io.Reader }

func (c *chunkReader) Read(b []byte) (int, error) {
	return c.r.Read(b[:min(len(b), 7)])
}

// setupHandler applies the plan's knobs to a handler.
func (r *Run) setupHandler(h arpc.Handler) {
	p := r.Plan
	if p.K("syncwrite") == 1 {
		h.SetAsyncWrite(false)
	}
	if p.K("nobatchsend") == 1 {
		h.SetBatchSend(false)
	}
	if p.K("nobatchrecv") == 1 {
		h.SetBatchRecv(false)
	} else if p.K("nobatchrecv") == 2 {
		h.SetReaderWrapper(func(conn net.Conn) io.Reader { return &chunkReader{conn} })
	}
	if v := p.K("sbs"); v > 0 {
		h.SetSendBufferSize(v)
	}
	if v := p.K("rbs"); v > 0 {
		h.SetRecvBufferSize(v)
	}
	if v := p.K("sq"); v > 0 {
		h.SetSendQueueSize(v)
	}
	if v := p.K("stq"); v > 0 {
		h.SetStreamQueueSize(v)
	}
	if p.K("pool") == 1 {
		h.EnablePool(true)
		h.HandleFree(func(b []byte) {
			poison(b)
			arpc.DefaultAllocator.Free(b)
		})
	}
	if p.K("syncresp") == 1 {
		h.SetAsyncResponse(false)
	}
	if n := p.K("exec"); n > 0 {
		// a bounded worker pool as a user would install it
		q := make(chan func(), 1024)
		for i := 0; i < n; i++ {
			go func() {
				for f := range q {
					func() {
						defer func() { recover() }()
						f()
					}()
				}
			}()
		}
		h.SetAsyncExecutor(func(f func()) { q <- f })
	}
	r.addCoders(h, p.K("coder"))
}

// oddCodec is a user codec that is not JSON on the wire.
type oddCodec struct{}

func (oddCodec) Marshal(v interface{}) ([]byte, error) {
	b, err := json.Marshal(v)
	for i := range b {
		b[i] ^= 0x15
	}
	return append([]byte{'@'}, b...), err
}

func (oddCodec) Unmarshal(data []byte, v interface{}) error {
	if len(data) == 0 || data[0] != '@' {
		return errors.New("not encoded by this codec")
	}
	b := append([]byte(nil), data[1:]...)
	for i := range b {
		b[i] ^= 0x15
	}
	return json.Unmarshal(b, v)
}

func (r *Run) codec() codec.Codec {
	if r.Plan.K("codec") == 1 {
		return oddCodec{}
	}
	return codec.DefaultCodec
}

func poison(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xDB
	}
}

// pkgHandler registers with the default handler through the package's functions.
type pkgHandler struct{ arpc.Handler }

func (pkgHandler) SetBatchSend(v bool)                         { arpc.SetBatchSend(v) }
func (pkgHandler) SetBatchRecv(v bool)                         { arpc.SetBatchRecv(v) }
func (pkgHandler) SetReaderWrapper(f func(net.Conn) io.Reader) { arpc.SetReaderWrapper(f) }
func (pkgHandler) SetSendBufferSize(n int)                     { arpc.SetSendBufferSize(n) }
func (pkgHandler) SetRecvBufferSize(n int)                     { arpc.SetRecvBufferSize(n) }
func (pkgHandler) SetSendQueueSize(n int)                      { arpc.SetSendQueueSize(n) }
func (pkgHandler) SetStreamQueueSize(n int)                    { arpc.SetStreamQueueSize(n) }
func (pkgHandler) SetMaxBodyLen(n int)                         { arpc.SetMaxBodyLen(n) }
func (pkgHandler) SetReadTimeout(d time.Duration)              { arpc.SetReadTimeout(d) }
func (pkgHandler) SetWriteTimeout(d time.Duration)             { arpc.SetWriteTimeout(d) }
func (pkgHandler) EnablePool(v bool)                           { arpc.EnablePool(v) }
func (pkgHandler) HandleMalloc(f func(int) []byte)             { arpc.HandleMalloc(f) }
func (pkgHandler) HandleFree(f func([]byte))                   { arpc.HandleFree(f) }
func (pkgHandler) SetAsyncResponse(v bool)                     { arpc.SetAsyncResponse(v) }
func (pkgHandler) SetAsyncExecutor(f func(func()))             { arpc.SetAsyncExecutor(f) }
func (pkgHandler) Use(f arpc.HandlerFunc)                      { arpc.Use(f) }
func (pkgHandler) UseCoder(c arpc.MessageCoder)                { arpc.UseCoder(c) }
func (pkgHandler) HandleNotFound(f arpc.HandlerFunc)           { arpc.HandleNotFound(f) }
func (pkgHandler) HandleConnected(f func(*arpc.Client))        { arpc.HandleConnected(f) }
func (pkgHandler) HandleDisconnected(f func(*arpc.Client))     { arpc.HandleDisconnected(f) }
func (pkgHandler) BeforeRecv(f func(net.Conn) error)           { arpc.BeforeRecv(f) }
func (pkgHandler) BeforeSend(f func(net.Conn) error)           { arpc.BeforeSend(f) }
func (pkgHandler) HandleOverstock(f func(*arpc.Client, *arpc.Message)) {
	arpc.HandleOverstock(f)
}
func (pkgHandler) HandleMessageDropped(f func(*arpc.Client, *arpc.Message)) {
	arpc.HandleMessageDropped(f)
}
func (pkgHandler) HandleSessionMiss(f func(*arpc.Client, *arpc.Message)) {
	arpc.HandleSessionMiss(f)
}
func (pkgHandler) Handle(m string, f arpc.HandlerFunc, args ...interface{}) {
	arpc.Handle(m, f, args...)
}

// newHandler makes a handler with the plan's knobs and what reg registers: a new
// one, a clone of the default one, or (clone=2) a clone of a default one that was
// set up before it was cloned.
func (r *Run) newHandler(reg ...func(arpc.Handler)) arpc.Handler {
	h := arpc.NewHandler()
	switch r.Plan.K("clone") {
	case 1:
		h = arpc.DefaultHandler.Clone()
	case 2:
		r.defMux.Lock()
		defer r.defMux.Unlock()
		arpc.SetHandler(h)
		h = pkgHandler{h}
	}
	r.setupHandler(h)
	for _, f := range reg {
		f(h)
	}
	if r.Plan.K("clone") == 2 {
		h = arpc.DefaultHandler.Clone()
		arpc.SetHandler(arpc.NewHandler())
	}
	return h
}

// newServer makes a server with the plan's knobs.
func (r *Run) newServer(reg ...func(arpc.Handler)) *arpc.Server {
	var s *arpc.Server
	if r.Plan.K("clone") == 2 {
		h := r.newHandler(reg...)
		r.defMux.Lock()
		defer r.defMux.Unlock()
		arpc.SetHandler(h)
		s = arpc.NewServer()
		arpc.SetHandler(arpc.NewHandler())
	} else {
		s = arpc.NewServer()
		s.Handler = r.newHandler(reg...)
	}
	s.Codec = r.codec()
	return s
}

// serve starts s on addr.
func (r *Run) serve(s *arpc.Server, addr string) *Listener {
	ln := r.Net.Listen(addr)
	go r.runServer(s, ln)
	return ln
}

// runServer serves ln, through Serve or (in half of the plans) through Run.
func (r *Run) runServer(s *arpc.Server, ln *Listener) error {
	if r.Plan.K("_ws") == 1 {
		return r.wsServe(s, ln)
	}
	if r.Plan.Seed>>9&1 == 1 {
		if r.Net.pend == nil {
			r.Net.pend = map[string]*Listener{}
		}
		r.Net.pend[ln.addr] = ln
		return s.Run(ln.addr)
	}
	return s.Serve(ln)
}

// connect retries NewClient until it works (bounded simulated time).
func (r *Run) connect(addr, tag string, h arpc.Handler) *arpc.Client {
	for i := 0; i < 200; i++ {
		var c *arpc.Client
		var err error
		if h == nil {
			c, err = arpc.NewClient(r.Net.Dialer(addr, tag))
		} else {
			c, err = arpc.NewClient(r.Net.Dialer(addr, tag), h)
		}
		if err == nil {
			return c
		}
		time.Sleep(100 * time.Millisecond)
	}
	return nil
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }
func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

func isNetErr(err error) bool {
	var ne net.Error
	if errors.As(err, &ne) {
		return true
	}
	return errors.Is(err, net.ErrClosed)
}

func ctxTimeout(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

func bgCtx() context.Context { return context.Background() }
