package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/lesismal/arpc"
)

// The RPC world: one server (restartable), some clients, both sides able to
// call the other, every operation recorded.

type cbRec struct {
	at  time.Duration
	err error
	rsp string
	id  int
	bad error
}

// callRec is one client operation of the history.
type callRec struct {
	id, cli  int
	kind     string
	toServer bool
	method   string
	arg      int
	vkind    int
	size     int
	timeout  time.Duration
	t0, t1   time.Duration
	done     bool
	err      error
	rsp      string
	cbs      []cbRec
	link     int // link in use when the op started
	link1    int // and when it ended
	order    int // start order among all ops
	actor    int
	want     []byte
	s0, s1   int           // event order of start and return
	cancel   time.Duration // cctx: cancelled after this (0: never)
	raw      func() string // reads the caller's response variable again
}

func (cr *callRec) paySize() int {
	if isNil(cr.method) {
		return 0
	}
	return len(mkPay("Q", cr.id, cr.arg, cr.size))
}

// handleRec is one handler invocation.
type handleRec struct {
	id, nonce int
	atServer  bool
	link      int
	at, end   time.Duration
	method    string
	wrote     bool
	werr      error
	seq       int // global handling order
	s0, s1    int // event order of start and end
	arg       int
	size      int
}

type connEv struct {
	connected bool
	cli       *arpc.Client
	link      int
	at        time.Duration
}

type rpcWorld struct {
	r        *Run
	srv      *arpc.Server
	ln       *Listener
	srvs     []*arpc.Server
	clis     []*arpc.Client
	chs      []arpc.Handler
	calls    []*callRec
	byID     map[int]*callRec
	handled  map[int][]*handleRec
	allH     []*handleRec
	nonce    int
	sconn    map[int]*arpc.Client // link id -> server side client
	slast    map[int]*arpc.Client // client index -> latest server side client
	srvEv    []connEv
	cliEv    [][]connEv
	limit    time.Duration
	onHandle func(h *handleRec)
	onConn   func(i int, c *arpc.Client) // end of a client's connected handler
	finished bool
	tune     func(h arpc.Handler, server bool)
	overst   map[int]int
	dropped  map[int]int
	dropAt   map[int]time.Duration
	maxSlow  int
	crashes  int
	nils     []int // operations without payload: nilN.x is the method of nils[N]
}

// Some operations have no payload at all; their method tells which one it is.
const maxNil = 6

func (w *rpcWorld) nilOf(method string) int {
	var k int
	if n, _ := fmt.Sscanf(method, "nil%d", &k); n == 1 && k < len(w.nils) {
		return w.nils[k]
	}
	return -1
}

func isNil(method string) bool { return strings.HasPrefix(method, "nil") }

// nilVal returns a value whose payload is empty.
func nilVal(kind int) interface{} {
	s, b := "", []byte{}
	switch kind % 6 {
	case 0:
		return ""
	case 1:
		return []byte{}
	case 2:
		return &s
	case 3:
		return &b
	case 4:
		return []byte(nil)
	}
	return nil
}

var rpcMethods = []string{"echo.s", "echo.a", "slow.a", "slow.s", "err.s", "err.a", "none.a", "struct.a", "spawn.a", "wt.a"}

func tagIdx(tag string) int {
	var i int
	fmt.Sscanf(tag, "c%d", &i)
	return i
}

func linkID(c *arpc.Client) int {
	if l := LinkOf(c.Conn); l != nil {
		return l.ID
	}
	return -1
}

func newRPCWorld(r *Run, nclients int) *rpcWorld {
	w := &rpcWorld{r: r, byID: map[int]*callRec{}, handled: map[int][]*handleRec{}, sconn: map[int]*arpc.Client{}, slast: map[int]*arpc.Client{}, limit: 10 * time.Minute,
		overst: map[int]int{}, dropped: map[int]int{}, dropAt: map[int]time.Duration{}}
	w.cliEv = make([][]connEv, nclients)
	w.clis = make([]*arpc.Client, nclients)
	w.chs = make([]arpc.Handler, nclients)
	return w
}

// register installs the application handlers.
func (w *rpcWorld) register(h arpc.Handler, server bool) {
	rec := func(ctx *arpc.Context, method string) (*handleRec, int) {
		body := string(ctx.Body())
		if strings.HasPrefix(method, "struct") {
			var t tval
			if err := ctx.Bind(&t); err != nil {
				w.r.Fail("handler-payload", "handler of %s could not decode its request: %v (%q)", method, err, clip(body))
				return nil, 0
			}
			if t.N != len(t.P) {
				w.r.Fail("handler-payload", "handler of %s got an inconsistent struct %q", method, clip(body))
			}
			body = t.P
		} else {
			var s string
			if err := ctx.Bind(&s); err != nil || s != body {
				w.r.Fail("handler-payload", "handler of %s: Bind returned %v %q for body %q", method, err, clip(s), clip(body))
			}
		}
		tag, id, arg, err := "Q", w.nilOf(method), 0, error(nil)
		if !isNil(method) {
			tag, id, arg, err = chkPay(body)
		} else if body != "" || id < 0 {
			err = fmt.Errorf("payload %q instead of none", clip(body))
		}
		if err != nil || tag != "Q" {
			w.r.Fail("handler-payload", "handler of %s got %v (tag %q)", method, err, tag)
			return nil, 0
		}
		w.nonce++
		hr := &handleRec{id: id, nonce: w.nonce, atServer: server, at: w.r.Now(), method: method, link: linkID(ctx.Client), seq: len(w.allH)}
		hr.arg, hr.size = arg, len(body)
		w.handled[id] = append(w.handled[id], hr)
		w.allH = append(w.allH, hr)
		w.r.ev("handle", id, w.nonce)
		hr.s0 = w.r.nev
		if w.onHandle != nil {
			w.onHandle(hr)
		}
		if m := ctx.Message.Method(); m != method {
			w.r.Fail("wrong-method", "request %d for %q was handled by %q", id, m, method)
		}
		return hr, arg
	}
	reply := func(hr *handleRec, ctx *arpc.Context, v interface{}) {
		hr.werr = ctx.Write(v)
		hr.wrote = true
		hr.end = w.r.Now()
		w.r.ev("replied", hr.id)
	}
	methods := rpcMethods
	if w.r.Plan.K("nil") == 1 {
		methods = append([]string{}, methods...)
		for k := 0; k < maxNil; k++ {
			methods = append(methods, fmt.Sprintf("nil%d.s", k), fmt.Sprintf("nil%d.a", k))
		}
	}
	for _, m := range methods {
		m := m
		async := strings.HasSuffix(m, ".a")
		base := strings.TrimSuffix(strings.TrimSuffix(m, ".a"), ".s")
		h.Handle(m, func(ctx *arpc.Context) {
			hr, arg := rec(ctx, m)
			if hr == nil {
				return
			}
			defer func() {
				w.r.ev("handled", hr.id)
				hr.end = w.r.Now()
				hr.s1 = w.r.nev
			}()
			if ctx.Message.Cmd() == arpc.CmdNotify {
				if base == "slow" {
					time.Sleep(us(arg))
				}
				if err := ctx.Write("x"); err == nil {
					w.r.Fail("notify-reply", "a handler could reply to a notify")
				}
				hr.end = w.r.Now()
				return
			}
			size := (hr.id * 7) % 200
			if w.r.Plan.K("bigrsp") > 0 && hr.id%5 == 0 {
				size = w.r.Plan.K("bigrsp")
			}
			switch base {
			case "echo":
				reply(hr, ctx, mkPay("R", hr.id, hr.nonce, size))
			case "slow":
				time.Sleep(us(arg))
				reply(hr, ctx, mkPay("R", hr.id, hr.nonce, size))
			case "err":
				s := mkPay("E", hr.id, hr.nonce, size)
				hr.wrote = true
				if hr.id%2 == 0 {
					hr.werr = ctx.Error(s)
				} else {
					hr.werr = ctx.Error(errors.New(s))
				}
			case "struct":
				p := mkPay("R", hr.id, hr.nonce, size)
				reply(hr, ctx, &tval{P: p, N: len(p)})
			case "wt":
				hr.wrote = true
				hr.werr = ctx.WriteWithTimeout([]byte(mkPay("R", hr.id, hr.nonce, size)), 50*time.Millisecond)
			case "spawn":
				// reply from the handler after doing an upcall-free pause in pieces
				for i := 0; i < 3; i++ {
					time.Sleep(us(arg / 3))
				}
				b := []byte(mkPay("R", hr.id, hr.nonce, size))
				reply(hr, ctx, &b)
			case "none":
			default: // no payload
				if hr.id%2 == 0 {
					reply(hr, ctx, nilVal(hr.id/2))
				} else {
					reply(hr, ctx, mkPay("R", hr.id, hr.nonce, size))
				}
			}
			hr.end = w.r.Now()
		}, async)
	}
	h.HandleOverstock(func(c *arpc.Client, m *arpc.Message) { w.overst[w.msgID(m)]++; w.r.count("overstock") })
	h.HandleMessageDropped(func(c *arpc.Client, m *arpc.Message) {
		w.dropped[w.msgID(m)]++
		w.dropAt[w.msgID(m)] = w.r.Now()
		w.r.count("dropped")
	})
	h.HandleSessionMiss(func(c *arpc.Client, m *arpc.Message) { w.r.count("session_miss") })
	if w.tune != nil {
		w.tune(h, server)
	}
}

func (w *rpcWorld) msgID(m *arpc.Message) int {
	if isNil(m.Method()) {
		return w.nilOf(m.Method())
	}
	s := string(m.Data())
	if len(s) > 0 && s[0] == '@' { // oddCodec
		b := []byte(s)
		for i := range b {
			b[i] ^= 0x15
		}
		s = string(b)
	}
	if i := strings.Index(s, "Q;"); i >= 0 {
		var id int
		fmt.Sscanf(s[i+2:], "%d", &id)
		return id
	}
	return -1
}

func (w *rpcWorld) startServer() {
	s := w.r.newServer(func(h arpc.Handler) {
		w.register(h, true)
		h.HandleConnected(func(c *arpc.Client) {
			l := LinkOf(c.Conn)
			w.sconn[l.ID] = c
			w.slast[tagIdx(l.Tag)] = c
			w.srvEv = append(w.srvEv, connEv{true, c, l.ID, w.r.Now()})
			w.r.ev("srv-connected", l.ID)
		})
		h.HandleDisconnected(func(c *arpc.Client) {
			w.srvEv = append(w.srvEv, connEv{false, c, linkID(c), w.r.Now()})
			w.r.ev("srv-disconnected", linkID(c))
		})
	})
	w.srv = s
	w.srvs = append(w.srvs, s)
	w.ln = w.r.serve(s, "s0")
}

func (w *rpcWorld) crash() {
	w.r.fault("crash")
	w.crashes++
	w.ln.Close()
	for _, l := range w.r.Net.links {
		l.reset(errReset)
	}
	old := w.srv
	if old.Listener != nil {
		go func() { old.Stop() }()
	}
}

func (w *rpcWorld) start() bool {
	w.startServer()
	for i := range w.r.faults {
		f := &w.r.faults[i]
		if f.Kind == "crash" {
			time.AfterFunc(us(f.At), func() {
				if f.done || w.r.stopped || w.finished {
					return
				}
				f.done = true
				w.crash()
				time.AfterFunc(us(f.Dur), func() {
					if !w.finished {
						w.startServer()
					}
				})
			})
		}
	}
	for i := range w.clis {
		i := i
		h := w.r.newHandler(func(h arpc.Handler) {
			w.register(h, false)
			h.HandleConnected(func(c *arpc.Client) {
				w.cliEv[i] = append(w.cliEv[i], connEv{true, c, linkID(c), w.r.Now()})
				w.r.ev("cli-connected", i, linkID(c))
				if w.onConn != nil {
					w.onConn(i, c)
				}
			})
			h.HandleDisconnected(func(c *arpc.Client) {
				w.cliEv[i] = append(w.cliEv[i], connEv{false, c, linkID(c), w.r.Now()})
				w.r.ev("cli-disconnected", i)
			})
		})
		w.chs[i] = h
		c := w.r.connect("s0", fmt.Sprintf("c%d", i), h)
		if c == nil {
			return false
		}
		c.Codec = w.r.codec()
		w.clis[i] = c
	}
	return true
}

// issue performs one operation and records it.
func (w *rpcWorld) issue(actor, i int, op Op) *callRec {
	id := actor*1000 + i + 1
	ci := op.A % len(w.clis)
	cr := &callRec{id: id, cli: ci, kind: op.K, method: rpcMethods[op.B%len(rpcMethods)], size: op.C, timeout: us(op.E), vkind: op.F, arg: op.G, actor: actor}
	cr.toServer = !strings.HasPrefix(op.K, "s")
	var c *arpc.Client
	if cr.toServer {
		c = w.clis[ci]
	} else {
		c = w.slast[ci]
		if c == nil {
			return nil
		}
	}
	kind := strings.TrimPrefix(op.K, "s")
	if strings.HasPrefix(cr.method, "struct") {
		cr.vkind = 2
	} else if kindStruct(cr.vkind) {
		cr.vkind = 0
	}
	v := mkVal(cr.vkind, mkPay("Q", id, cr.arg, cr.size))
	if w.r.Plan.K("nil") == 1 && cr.size == 0 && cr.vkind != 2 && len(w.nils) < maxNil {
		cr.method = fmt.Sprintf("nil%d%s", len(w.nils), cr.method[len(cr.method)-2:])
		cr.arg = 0
		v = nilVal(op.F)
		w.nils = append(w.nils, id)
		w.r.count("no_payload")
	}
	cr.order = len(w.calls)
	cr.link = linkID(c)
	cr.t0 = w.r.Now()
	w.calls = append(w.calls, cr)
	w.byID[id] = cr
	w.r.ev("op:"+op.K, id, cr.link)
	cr.s0 = w.r.nev
	var rs string
	var rb []byte
	var rt tval
	var rsp interface{}
	isStruct := strings.HasPrefix(cr.method, "struct")
	switch {
	case isStruct:
		rsp = &rt
	case id%2 == 0:
		rsp = &rb
	default:
		rsp = &rs
	}
	get := func() string {
		switch rsp.(type) {
		case *tval:
			return rt.P
		case *[]byte:
			return string(rb)
		}
		return rs
	}
	cr.raw = get
	switch kind {
	case "call":
		cr.err = c.Call(cr.method, v, rsp, cr.timeout)
		cr.rsp = get()
	case "cctx":
		ctx, cancel := context.WithTimeout(context.Background(), cr.timeout)
		if id%2 == 0 {
			cr.err = c.CallContext(ctx, cr.method, v, rsp)
		} else {
			cr.err = c.CallWith(ctx, cr.method, v, rsp)
		}
		cancel()
		cr.rsp = get()
	case "cancel": // a context cancelled by the caller
		ctx, cancel := context.WithCancel(context.Background())
		cr.cancel = cr.timeout
		time.AfterFunc(cr.timeout, cancel)
		cr.err = c.CallContext(ctx, cr.method, v, rsp)
		cancel()
		cr.rsp = get()
	case "async":
		cr.err = c.CallAsync(cr.method, v, func(ctx *arpc.Context, err error) {
			cb := cbRec{at: w.r.Now(), err: err}
			if err == nil {
				if ctx == nil {
					cb.bad = errors.New("nil context without error")
				} else {
					var e error
					if isStruct {
						var t tval
						e = ctx.Bind(&t)
						cb.rsp = t.P
					} else {
						e = ctx.Bind(&cb.rsp)
					}
					if e != nil {
						cb.bad = e
					}
				}
			} else if ctx != nil {
				var s string
				if e := ctx.Bind(&s); e == nil || e.Error() != err.Error() || s != "" {
					w.r.Fail("bind-error", "%s %d got the error %v, Bind in its callback returns %v %q", cr.kind, id, clip(err.Error()), e, clip(s))
				}
			}
			cr.cbs = append(cr.cbs, cb)
			w.r.ev("callback", id, len(cr.cbs))
			if err == arpc.ErrClientReconnecting {
				// a callback that takes its time
				sleep(ms(w.r.Plan.K("slowcb")))
			}
		}, cr.timeout)
	case "notify":
		cr.err = c.Notify(cr.method, v, cr.timeout)
	case "nctx":
		ctx, cancel := context.WithTimeout(context.Background(), cr.timeout)
		if id%2 == 0 {
			cr.err = c.NotifyContext(ctx, cr.method, v)
		} else {
			cr.err = c.NotifyWith(ctx, cr.method, v)
		}
		cancel()
	case "notify0":
		cr.timeout = 0
		cr.err = c.Notify(cr.method, v, 0)
	case "pmsg": // made without a client
		cr.err = c.PushMsg(handMade(c, id%3 == 0, arpc.CmdNotify, cr.method, v, false, id%2 == 1, handSeq|uint64(id)), cr.timeout)
	case "push0", "pushf", "push":
		if kind == "push0" {
			cr.timeout = 0
		} else if kind == "pushf" {
			cr.timeout = -1
		}
		m := c.NewMessage(arpc.CmdNotify, cr.method, v)
		cr.err = c.PushMsg(m, cr.timeout)
	}
	cr.t1 = w.r.Now()
	cr.done = true
	cr.link1 = linkID(c)
	e := 0
	if cr.err != nil {
		e = 1
		w.r.count("op_err")
	} else {
		w.r.count("op_ok")
	}
	w.r.ev("done:"+op.K, id, e)
	cr.s1 = w.r.nev
	return cr
}

// stop winds everything down.
func (w *rpcWorld) stop() {
	w.finished = true
	for _, c := range w.clis {
		if c != nil {
			c.Stop()
		}
	}
	for _, s := range w.srvs {
		if s.Listener != nil {
			s.Stop()
		}
	}
}

// genOps fills the actors with RPC operations.
type opGen struct {
	kinds   []string
	methods []int // indices into rpcMethods
	actors  int
	ops     int
	clients int
	maxGap  int // us
	tmin    int // us
	tmax    int
	slow    int // us
	size    int
}

func genOps(g *Rng, p *Plan, o opGen) {
	n := g.In(1, o.actors)
	// ties: responses arrive at the very moment at which the timeout fires
	ties := g.P(3)
	if ties {
		p.Net.DelayMin = g.Pick(0, 50, 700)
		p.Net.DelayMax = p.Net.DelayMin
	}
	for a := 0; a < n; a++ {
		var ops []Op
		k := g.In(1, o.ops)
		for i := 0; i < k; i++ {
			op := Op{K: o.kinds[g.N(len(o.kinds))], A: g.N(o.clients), B: o.methods[g.N(len(o.methods))], C: g.Log(1, o.size) - 1, E: g.Log(o.tmin, o.tmax), F: g.N(nKinds), G: g.N(o.slow + 1)}
			if g.P(2) {
				op.D = g.Log(1, o.maxGap)
			}
			if ties && g.P(2) {
				switch rpcMethods[op.B] {
				case "slow.a", "slow.s":
					op.E = op.G + 2*p.Net.DelayMin
				case "spawn.a":
					op.E = op.G/3*3 + 2*p.Net.DelayMin
				default:
					op.E = 2 * p.Net.DelayMin
				}
				if op.E == 0 {
					op.E = g.Log(o.tmin, o.tmax)
				}
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	genHuge(g, p, func(op *Op, n int) { op.C = n })
}

// genHuge makes one message of a few plans larger than any buffer is by default.
func genHuge(g *Rng, p *Plan, set func(op *Op, n int)) {
	if !g.P(40) || p.Net.SendBuf > 0 {
		return
	}
	p.Net.Chunk = 0
	a := p.Actors[g.N(len(p.Actors))]
	if len(a) > 0 {
		set(&a[g.N(len(a))], g.Log(3000, 300_000))
	}
}

// genFaults adds network faults in the first span microseconds.
func genFaults(g *Rng, p *Plan, max, span int, kinds ...string) {
	n := g.In(0, max)
	for i := 0; i < n; i++ {
		f := Fault{Kind: kinds[g.N(len(kinds))], At: g.N(span), Conn: -1}
		if g.P(2) {
			f.Conn = g.N(4)
		}
		f.Dir = g.N(3)
		switch f.Kind {
		case "cut", "partwrite":
			f.Dir = g.N(2)
			f.N = g.Log(1, 4000)
			if f.Conn < 0 {
				f.Conn = g.N(4)
			}
		case "hold", "slowread":
			f.Dur = g.Log(100, 2_000_000)
		case "partition":
			f.Dur = g.Log(1000, 3_000_000)
		case "dialfail":
			f.N = g.In(1, 4)
		case "slowdial":
			f.Dur = g.Log(1000, 1_000_000)
		case "accepterr":
			f.N = g.In(1, 3)
		case "crash":
			f.Dur = g.Log(1000, 2_000_000)
		case "reset":
		}
		p.Faults = append(p.Faults, f)
	}
}

var errAllowed = []error{arpc.ErrClientTimeout, arpc.ErrClientStopped, arpc.ErrClientReconnecting, arpc.ErrClientOverstock, arpc.ErrTimeout}

func isArpcErr(err error) bool {
	for _, e := range errAllowed {
		if err == e {
			return true
		}
	}
	return false
}
