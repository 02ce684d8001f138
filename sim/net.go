package main

import (
	"errors"
	"fmt"
	"github.com/lesismal/arpc/extension/protocol/websocket"
	"io"
	"net"
	"os"
	"runtime"
	"syscall"
	"time"
)

// The simulated network. Harness code is not preempted by the simulator
// between blocking points, so it needs no locks.

const (
	siteNetRead  = 900001
	siteNetWrite = 900002
	siteNetClose = 900003
	siteNetDial  = 900004
	siteActor    = 900010
)

// NetCfg is the fault-free behaviour of the links of a run.
type NetCfg struct {
	DelayMin int // one-way delay, microseconds
	DelayMax int
	Chunk    int  // max bytes returned by one Read (0: unlimited), randomised
	SendBuf  int  // bytes in flight before Write blocks
	RstClose bool // Close with peer data in flight resets instead of FIN
}

// Fault is one planned fault.
type Fault struct {
	Kind string // reset, cut, partwrite, hold, partition, dialfail, slowdial, accepterr, crash, slowread
	At   int    // microseconds of simulated time (time-triggered kinds)
	Conn int    // dial index (-1: every connection)
	Dir  int    // 0: dialer to listener, 1: back
	N    int    // bytes / count
	Dur  int    // microseconds
}

type gate struct{ ch chan struct{} }

// wait blocks until wake or d elapses (d<0: no limit).
func (g *gate) wait(d time.Duration) {
	if g.ch == nil {
		g.ch = make(chan struct{})
	}
	ch := g.ch
	if d < 0 {
		<-ch
		return
	}
	t := time.NewTimer(d)
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
}

func (g *gate) wake() {
	if g.ch != nil {
		close(g.ch)
		g.ch = nil
	}
}

type seg struct {
	b  []byte
	at time.Time
}

// half is one direction of a link.
type half struct {
	q         []seg
	inflight  int
	lastAt    time.Time
	fin       bool
	finAt     time.Time
	finErr    error
	holdUntil time.Time // segments are not delivered before
	holdInf   bool
	slowUntil time.Time
	log       []byte // everything accepted from the writer
	read      int    // bytes handed to the reader
	writes    int
	werr      bool   // some write failed or was partial
	reads     []ioEv // with Net.trace: after each read
	wrote     []ioEv // with Net.trace: after each write of a part
	rerr      bool
}

// ioEv: total bytes transferred at a time.
type ioEv struct {
	total int
	at    time.Duration
}

// Link is one TCP-like connection.
type Link struct {
	n        *Net
	ID       int
	h        [2]half
	ends     [2]*End
	rst      error
	rstAt    time.Duration
	rng      *Rng
	openedAt time.Duration
	addr     string
	accepted bool
	accAt    time.Duration
	accSeq   int
	trouble  bool // some fault was applied to it
	Tag      string
}

// End is one endpoint; it implements net.Conn. Side 0 dialed, side 1 accepted.
type End struct {
	l        *Link
	side     int
	closed   bool
	closedAt time.Time
	closedT  time.Duration
	rdl, wdl time.Time
	g        gate // wakes readers and writers of this end
	wbusy    bool
	rerrAt   time.Duration // when Read first returned an error
	rerrSeq  int
	rerrd    bool
	rerr     error // that error
	werr     error // first error of Write
	werrAt   time.Duration
	wStart   time.Duration // start of the Write in progress (-1: none)
	wBegan   time.Duration // start of the Write that failed first
}

type Net struct {
	r         *Run
	cfg       NetCfg
	links     []*Link
	lns       map[string]*Listener
	partUntil time.Time
	dialFail  int
	slowDial  time.Duration
	dials     int
	dialErrs  int
	// DialLog records every dial attempt.
	DialLog []DialEv
	live    int
	trace   bool
	rstNext int                  // that many next dials give connections that are reset
	pend    map[string]*Listener // handed out by the next net.Listen of the address
}

type DialEv struct {
	At, Done time.Duration
	OK       bool
	Tag      string
	Link     int
}

func newNet(r *Run, cfg NetCfg) *Net {
	if cfg.SendBuf <= 0 {
		cfg.SendBuf = 1 << 20
	}
	return &Net{r: r, cfg: cfg, lns: map[string]*Listener{}}
}

type netErr struct {
	msg             string
	timeout, tempor bool
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.tempor }

var errReset = error(&net.OpError{Op: "read", Net: "sim", Err: syscall.ECONNRESET})
var errPipe = error(&net.OpError{Op: "write", Net: "sim", Err: syscall.EPIPE})
var errRefused = error(&net.OpError{Op: "dial", Net: "sim", Err: syscall.ECONNREFUSED})
var errDialTimeout = error(&net.OpError{Op: "dial", Net: "sim", Err: os.ErrDeadlineExceeded})

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

// Listener implements net.Listener.
type Listener struct {
	n      *Net
	addr   string
	q      []*Link
	closed bool
	errs   int // temporary accept errors to return
	fatal  error
	g      gate
	Closes int
	accs   []int // accepted links
}

func (n *Net) Listen(addr string) *Listener {
	ln := &Listener{n: n, addr: addr}
	n.lns[addr] = ln
	return ln
}

// hookListen is what net.Listen does in the simulation.
func (n *Net) hookListen(network, addr string) (net.Listener, error) {
	if ln := n.pend[addr]; ln != nil {
		delete(n.pend, addr)
		return ln, nil
	}
	if ln := n.lns[addr]; ln != nil && !ln.closed {
		return nil, &netErr{"listen: address already in use", false, false}
	}
	return n.Listen(addr), nil
}

func (ln *Listener) Accept() (net.Conn, error) {
	runtime.VerifYield(siteNetRead)
	for {
		if ln.closed {
			return nil, &net.OpError{Op: "accept", Net: "sim", Err: net.ErrClosed}
		}
		if ln.fatal != nil {
			return nil, ln.fatal
		}
		if ln.errs > 0 {
			ln.errs--
			ln.n.r.fault("accepterr")
			return nil, &netErr{"accept: too many open files", false, true}
		}
		if len(ln.q) > 0 {
			l := ln.q[0]
			ln.q = ln.q[1:]
			l.accepted, l.accAt = true, ln.n.r.Now()
			ln.n.r.ev("accept", l.ID)
			l.accSeq = ln.n.r.nev
			ln.accs = append(ln.accs, l.ID)
			return l.ends[1], nil
		}
		ln.g.wait(-1)
	}
}

func (ln *Listener) Close() error {
	runtime.VerifYield(siteNetClose)
	ln.Closes++
	if ln.closed {
		return net.ErrClosed
	}
	ln.closed = true
	if ln.n.lns[ln.addr] == ln {
		delete(ln.n.lns, ln.addr)
	}
	for _, l := range ln.q {
		l.reset(errReset)
	}
	ln.q = nil
	ln.g.wake()
	ln.n.r.ev("lnclose")
	return nil
}

func (ln *Listener) Addr() net.Addr { return simAddr(ln.addr) }

// Dialer returns a dial function for addr.
func (n *Net) Dialer(addr, tag string) func() (net.Conn, error) {
	if n.r.Plan.K("_ws") == 1 {
		return func() (net.Conn, error) { return n.wsDial(addr, tag) }
	}
	return func() (net.Conn, error) { return n.dial(addr, tag) }
}

func (n *Net) partitioned() bool { return n.partUntil.After(time.Now()) }

func (n *Net) dial(addr, tag string) (net.Conn, error) {
	runtime.VerifYield(siteNetDial)
	k := n.dials
	n.dials++
	i := len(n.DialLog)
	n.DialLog = append(n.DialLog, DialEv{At: n.r.Now(), Tag: tag, Link: -1})
	n.r.ev("dial", k)
	fail := func(err error) (net.Conn, error) {
		n.dialErrs++
		n.DialLog[i].Done = n.r.Now()
		n.r.ev("dialerr", k)
		return nil, err
	}
	rng := NewRng(n.r.Plan.Seed, 0xd1a1, uint64(k))
	d := 50*time.Microsecond + n.delay(rng)*2
	if n.slowDial > 0 {
		d += n.slowDial
		n.r.fault("slowdial")
	}
	if n.dialFail > 0 {
		n.dialFail--
		n.r.fault("dialfail")
		sleep(d)
		return fail(errRefused)
	}
	if n.partitioned() {
		n.r.fault("dial-in-partition")
		w := time.Until(n.partUntil)
		if w > 3*time.Second {
			sleep(3 * time.Second)
			return fail(errDialTimeout)
		}
		sleep(w)
	}
	sleep(d)
	ln := n.lns[addr]
	if ln == nil || ln.closed {
		return fail(errRefused)
	}
	if n.partitioned() {
		return fail(errDialTimeout)
	}
	l := &Link{n: n, ID: len(n.links), rng: NewRng(n.r.Plan.Seed, 0x11, uint64(len(n.links))), openedAt: n.r.Now(), addr: addr, Tag: tag}
	l.ends[0] = &End{l: l, side: 0, wStart: -1}
	l.ends[1] = &End{l: l, side: 1, wStart: -1}
	n.links = append(n.links, l)
	n.DialLog[i].OK = true
	n.DialLog[i].Done = n.r.Now()
	n.DialLog[i].Link = l.ID
	n.r.ev("dialok", k, l.ID)
	if n.rstNext > 0 {
		n.rstNext--
		n.r.fault("reset-at-dial")
		l.reset(errReset)
	}
	ln.q = append(ln.q, l)
	ln.g.wake()
	return l.ends[0], nil
}

func sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
}

func (n *Net) delay(rng *Rng) time.Duration {
	if n.cfg.DelayMax <= 0 {
		return 0
	}
	return time.Duration(rng.In(n.cfg.DelayMin, n.cfg.DelayMax)) * time.Microsecond
}

func (l *Link) reset(err error) {
	if l.rst != nil {
		return
	}
	l.rst = err
	l.rstAt = l.n.r.Now()
	l.h[0].q, l.h[1].q = nil, nil
	l.wakeAll()
}

func (l *Link) wakeAll() {
	l.ends[0].g.wake()
	l.ends[1].g.wake()
}

// Dead reports that the link can carry nothing more.
func (l *Link) Dead() bool { return l.rst != nil || l.ends[0].closed || l.ends[1].closed }

func (e *End) in() *half  { return &e.l.h[1-e.side] }
func (e *End) out() *half { return &e.l.h[e.side] }
func (e *End) peer() *End { return e.l.ends[1-e.side] }

func (e *End) Read(b []byte) (int, error) {
	runtime.VerifYield(siteNetRead)
	n, err := e.read(b)
	if err != nil {
		e.in().rerr = true
		if !e.rerrd {
			e.l.n.r.ev("readerr", e.l.ID, e.side)
			e.rerrd, e.rerrAt, e.rerrSeq = true, e.l.n.r.Now(), e.l.n.r.nev
			e.rerr = err
		}
	}
	runtime.VerifYield(siteNetRead)
	return n, err
}

func (e *End) read(b []byte) (int, error) {
	h := e.in()
	for {
		if e.closed {
			return 0, &net.OpError{Op: "read", Net: "sim", Err: net.ErrClosed}
		}
		now := time.Now()
		if !e.rdl.IsZero() && !e.rdl.After(now) {
			return 0, &net.OpError{Op: "read", Net: "sim", Err: os.ErrDeadlineExceeded}
		}
		if len(b) == 0 {
			return 0, nil
		}
		var next time.Time
		blocked := h.holdInf
		if h.holdUntil.After(now) {
			next = h.holdUntil
			blocked = true
		}
		if h.slowUntil.After(now) {
			if h.slowUntil.After(next) {
				next = h.slowUntil
			}
			blocked = true
		}
		if e.l.n.partitioned() {
			if e.l.n.partUntil.After(next) {
				next = e.l.n.partUntil
			}
			blocked = true
		}
		if e.l.rst != nil && !h.holdInf {
			return 0, e.l.rst
		}
		if !blocked {
			if len(h.q) > 0 {
				s := &h.q[0]
				if !s.at.After(now) {
					max := len(b)
					if c := e.l.n.cfg.Chunk; c > 0 {
						if m := 1 + e.l.rng.N(c); m < max {
							max = m
							e.l.n.r.count("short_read")
						}
					}
					total := 0
					for len(h.q) > 0 && total < max {
						s = &h.q[0]
						if s.at.After(now) {
							break
						}
						m := copy(b[total:max], s.b)
						total += m
						s.b = s.b[m:]
						if len(s.b) == 0 {
							h.q = h.q[1:]
						}
					}
					h.inflight -= total
					h.read += total
					if e.l.n.trace {
						h.reads = append(h.reads, ioEv{h.read, e.l.n.r.Now()})
					}
					e.peer().g.wake()
					return total, nil
				}
				next = s.at
			} else if h.fin {
				if !h.finAt.After(now) {
					if h.finErr != nil {
						return 0, h.finErr
					}
					return 0, io.EOF
				}
				next = h.finAt
			}
		}
		d := time.Duration(-1)
		if !next.IsZero() {
			d = next.Sub(now)
		}
		if !e.rdl.IsZero() {
			if dd := e.rdl.Sub(now); d < 0 || dd < d {
				d = dd
			}
		}
		e.g.wait(d)
	}
}

func (e *End) Write(b []byte) (int, error) {
	runtime.VerifYield(siteNetWrite)
	n, err := e.write(b)
	if err != nil {
		e.out().werr = true
		e.l.n.r.ev("writeerr", e.l.ID, e.side, n, len(b))
		if e.werr == nil {
			e.werr, e.werrAt = err, e.l.n.r.Now()
		}
	}
	runtime.VerifYield(siteNetWrite)
	return n, err
}

func (e *End) write(b []byte) (int, error) {
	h := e.out()
	// like the fd lock of a real connection: one Write at a time
	for e.wbusy {
		if e.closed {
			return 0, &net.OpError{Op: "write", Net: "sim", Err: net.ErrClosed}
		}
		e.g.wait(-1)
	}
	e.wbusy = true
	if e.werr == nil {
		e.wBegan = e.l.n.r.Now()
	}
	e.wStart = e.l.n.r.Now()
	defer func() { e.wbusy = false; e.wStart = -1; e.g.wake() }()
	h.writes++
	n := 0
	for {
		if e.closed {
			return n, &net.OpError{Op: "write", Net: "sim", Err: net.ErrClosed}
		}
		now := time.Now()
		if !e.wdl.IsZero() && !e.wdl.After(now) {
			return n, &net.OpError{Op: "write", Net: "sim", Err: os.ErrDeadlineExceeded}
		}
		if e.l.rst != nil && !h.holdInf {
			return n, errPipe
		}
		p := e.peer()
		if p.closed && !h.holdInf && now.Sub(p.closedAt) >= e.l.n.delay(NewRng(1)) {
			return n, errPipe
		}
		if n == len(b) {
			return n, nil
		}
		room := e.l.n.cfg.SendBuf - h.inflight
		if room > 0 {
			m := min(room, len(b)-n)
			var act *Fault
			for i := range e.l.n.r.faults {
				f := &e.l.n.r.faults[i]
				if f.done || (f.Kind != "cut" && f.Kind != "partwrite") || f.Dir != e.side || (f.Conn >= 0 && f.Conn != e.l.ID) {
					continue
				}
				if len(h.log) <= f.N && f.N < len(h.log)+m {
					m = f.N - len(h.log)
					f.done = true
					act = &f.Fault
				}
			}
			if m > 0 {
				e.push(b[n : n+m])
				n += m
			}
			if act != nil {
				e.l.n.r.fault(act.Kind)
				if act.Kind == "cut" {
					// what was sent still arrives, then both ends see a reset
					h.fin, h.finAt, h.finErr = true, h.lastAt, errReset
					o := &e.l.h[1-e.side]
					o.fin, o.finAt, o.finErr = true, now, errReset
					o.q = nil
					e.l.wakeAll()
					return n, errPipe
				}
				if act.N%2 == 0 {
					return n, &net.OpError{Op: "write", Net: "sim", Err: os.ErrDeadlineExceeded}
				}
				return n, &net.OpError{Op: "write", Net: "sim", Err: syscall.ENOBUFS}
			}
			continue
		}
		e.l.n.r.count("write_blocked")
		d := time.Duration(-1)
		if !e.wdl.IsZero() {
			d = e.wdl.Sub(now)
		}
		e.g.wait(d)
	}
}

func (e *End) push(b []byte) {
	h := e.out()
	h.log = append(h.log, b...)
	if e.l.n.trace {
		h.wrote = append(h.wrote, ioEv{len(h.log), e.l.n.r.Now()})
	}
	if e.peer().closed || h.fin {
		return
	}
	at := time.Now().Add(e.l.n.delay(e.l.rng))
	if at.Before(h.lastAt) {
		at = h.lastAt
	}
	h.lastAt = at
	h.q = append(h.q, seg{append([]byte(nil), b...), at})
	h.inflight += len(b)
	e.peer().g.wake()
}

func (e *End) Close() error {
	runtime.VerifYield(siteNetClose)
	if e.closed {
		return net.ErrClosed
	}
	e.closed = true
	e.closedAt = time.Now()
	e.closedT = e.l.n.r.Now()
	e.l.n.r.ev("close", e.l.ID, e.side)
	h := e.out()
	if !h.fin {
		h.fin = true
		h.finAt = time.Now().Add(e.l.n.delay(e.l.rng))
		if h.finAt.Before(h.lastAt) {
			h.finAt = h.lastAt
		}
		in := e.in()
		if e.l.n.cfg.RstClose && in.inflight > 0 {
			e.l.n.r.count("rst_on_close")
			h.q = nil
			h.finErr = errReset
			h.finAt = time.Now()
		}
	}
	e.in().q = nil
	e.in().inflight = 0
	e.l.wakeAll()
	runtime.VerifYield(siteNetClose)
	return nil
}

func (e *End) LocalAddr() net.Addr {
	if e.side == 0 {
		return simAddr(fmt.Sprintf("c%d", e.l.ID))
	}
	return simAddr(e.l.addr)
}

func (e *End) RemoteAddr() net.Addr {
	if e.side == 1 {
		return simAddr(fmt.Sprintf("c%d", e.l.ID))
	}
	return simAddr(e.l.addr)
}

func (e *End) SetDeadline(t time.Time) error {
	e.rdl, e.wdl = t, t
	e.g.wake()
	return e.dlErr()
}
func (e *End) SetReadDeadline(t time.Time) error {
	e.rdl = t
	e.g.wake()
	return e.dlErr()
}
func (e *End) SetWriteDeadline(t time.Time) error {
	e.wdl = t
	e.g.wake()
	return e.dlErr()
}
func (e *End) dlErr() error {
	if e.closed {
		return net.ErrClosed
	}
	return nil
}

// LinkOf returns the link behind a connection created by this network.
func LinkOf(c net.Conn) *Link {
	if w, ok := c.(*websocket.Conn); ok {
		c = w.Conn.UnderlyingConn()
	}
	if e, ok := c.(*End); ok {
		return e.l
	}
	return nil
}

// applyTimed runs one time-triggered fault; called at its time.
func (n *Net) applyTimed(f *Fault) {
	dur := time.Duration(f.Dur) * time.Microsecond
	each := func(fn func(l *Link)) {
		for _, l := range n.links {
			if (f.Conn < 0 || l.ID == f.Conn) && !l.Dead() {
				fn(l)
				l.trouble = true
				n.r.fault(f.Kind)
			}
		}
	}
	switch f.Kind {
	case "reset":
		each(func(l *Link) { l.reset(errReset) })
	case "hold":
		each(func(l *Link) {
			for d := 0; d < 2; d++ {
				if f.Dir == 2 || f.Dir == d {
					if f.Dur == 0 {
						l.h[d].holdInf = true
					} else {
						l.h[d].holdUntil = time.Now().Add(dur)
					}
				}
			}
			l.wakeAll()
		})
	case "slowread":
		each(func(l *Link) { l.h[f.Dir&1].slowUntil = time.Now().Add(dur) })
	case "partition":
		n.partUntil = time.Now().Add(dur)
		n.r.fault(f.Kind)
		for _, l := range n.links {
			l.wakeAll()
		}
	case "dialfail":
		n.dialFail += f.N
	case "slowdial":
		n.slowDial = dur
	case "accepterr":
		for _, ln := range n.lns {
			ln.errs += f.N
			ln.g.wake()
		}
	case "healall":
		n.heal()
	}
}

// unlimit removes the limit on bytes in flight.
func (n *Net) unlimit() {
	n.cfg.SendBuf = 1 << 20
	for _, l := range n.links {
		l.wakeAll()
	}
}

// heal removes every lasting network fault.
func (n *Net) heal() {
	n.partUntil = time.Time{}
	n.dialFail = 0
	n.slowDial = 0
	for _, ln := range n.lns {
		ln.errs = 0
	}
	for _, l := range n.links {
		for d := range l.h {
			l.h[d].holdInf = false
			l.h[d].holdUntil = time.Time{}
			l.h[d].slowUntil = time.Time{}
		}
		l.wakeAll()
	}
}

var errStub = errors.New("stub")
