package main

import (
	"context"
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"runtime"
	"time"

	"github.com/lesismal/arpc"
	aquic "github.com/lesismal/arpc/extension/protocol/quic"
	"github.com/quic-go/quic-go"
)

// ---------------------------------------------------------------- C34

func init() {
	register(&Prop{ID: "C34", Rule: "non-trivial when bytes or a call crossed a QUIC connection", Gen: genC34, Exec: execC34,
		NonTrivial: func(r *Run) bool { return r.Counts["echoed"]+r.Counts["called"] > 0 },
		Real:       []string{"QUIC transport", "quic-go and TLS", "arpc client and server"},
		Stub:       []string{"UDP sockets: simulated packets"}})
}

func genC34(g *Rng, p *Plan) {
	noStalls(p)
	p.Knobs["rpc"] = g.Pick(0, 0, 1)
	p.Knobs["keep"] = g.Pick(0, 0, 5000, 1000) // KeepAlivePeriod of the dialing side, ms
	p.Knobs["loss"] = g.Pick(0, 0, 0, 1, 10)   // percent of the packets
	p.Knobs["dup"] = g.Pick(0, 0, 0, 5)
	if p.Net.DelayMax > 20_000 {
		p.Net.DelayMax = 20_000
	}
	span := g.Pick(1000, 100_000, 3_000_000, 20_000_000)
	for a := g.In(1, 4); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 3); k > 0; k-- {
			// A: payload id, B: writes, C: size, E: who closes, F: Dial's timeout in ms, G: pause before closing
			op := Op{K: g.PickS("conn", "conn", "conn", "conn", "silent", "gone", "nobody", "nostream"), A: g.N(1000), B: g.In(1, 5), C: g.Log(1, g.Pick(10, 300, 5000)), E: g.N(4), F: g.Pick(0, 1000, 5000, 60_000), G: g.Log(1, 5_000_000)}
			if g.P(2) {
				op.D = g.Log(1, span)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(4) {
		p.Actors = append(p.Actors, []Op{{K: "close", D: g.Log(1, 2*span)}})
	}
	if g.P(2) {
		genFaults(g, p, 2, span, "qdown", "qloss", "qvanish")
		for i := range p.Faults {
			f := &p.Faults[i]
			f.Dur = g.Log(1000, g.Pick(1_000_000, 60_000_000))
			f.N = g.Pick(10, 50, 90)
		}
	}
}

// pktNet carries datagrams.
type pktNet struct {
	r      *Run
	g      *Rng
	conns  map[string]*pktConn
	all    []*pktConn
	down   time.Time
	lossTo time.Time
	lossP  int
	quiet  bool
	nport  int
	sent   int
	// tags of the goroutines that are dialing
	tags map[uint32]string
}

type pkt struct {
	b    []byte
	from net.Addr
}

type pktConn struct {
	n      *pktNet
	addr   *net.UDPAddr
	tag    string
	q      []pkt
	closed bool
	mute   bool // vanished: nothing gets in or out
	rdl    time.Time
	g      gate
}

func (n *pktNet) listen(network string, addr *net.UDPAddr) (net.PacketConn, error) {
	a := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: addr.Port}
	if a.Port == 0 {
		n.nport++
		a.Port = 50000 + n.nport
	}
	if c := n.conns[a.String()]; c != nil && !c.closed {
		return nil, &net.OpError{Op: "listen", Net: "udp", Err: errors.New("address already in use")}
	}
	c := &pktConn{n: n, addr: a, tag: n.tags[runtime.VerifGID()]}
	n.conns[a.String()] = c
	n.all = append(n.all, c)
	return c, nil
}

func (c *pktConn) LocalAddr() net.Addr { return c.addr }

func (c *pktConn) ReadFrom(b []byte) (int, net.Addr, error) {
	runtime.VerifYield(siteNetRead)
	for {
		if c.closed {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
		}
		if len(c.q) > 0 {
			p := c.q[0]
			c.q = c.q[1:]
			return copy(b, p.b), p.from, nil
		}
		d := time.Duration(-1)
		if !c.rdl.IsZero() {
			d = time.Until(c.rdl)
		}
		c.g.wait(d)
	}
}

func (c *pktConn) WriteTo(b []byte, to net.Addr) (int, error) {
	runtime.VerifYield(siteNetWrite)
	n := c.n
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: net.ErrClosed}
	}
	n.sent++
	if c.mute {
		return len(b), nil
	}
	times := 1
	if !n.quiet {
		if time.Now().Before(n.down) {
			n.r.fault("qdown-drop")
			return len(b), nil
		}
		if time.Now().Before(n.lossTo) && n.g.N(100) < n.lossP {
			n.r.fault("qloss-drop")
			return len(b), nil
		}
		if n.g.N(100) < n.r.Plan.K("loss") {
			n.r.count("lost_packets")
			return len(b), nil
		}
		if n.g.N(100) < n.r.Plan.K("dup") {
			n.r.count("dup_packets")
			times = 2
		}
	}
	for ; times > 0; times-- {
		p := pkt{append([]byte(nil), b...), c.addr}
		d := n.r.Net.delay(n.g)
		deliver := func() {
			if t := n.conns[to.String()]; t != nil && !t.closed && !t.mute && len(t.q) < 2000 {
				t.q = append(t.q, p)
				t.g.wake()
			}
		}
		if d <= 0 {
			deliver()
		} else {
			time.AfterFunc(d, deliver)
		}
	}
	return len(b), nil
}

func (c *pktConn) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.g.wake()
	return nil
}
func (c *pktConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *pktConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *pktConn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	c.g.wake()
	return nil
}
func (c *pktConn) SetReadBuffer(int) error  { return nil }
func (c *pktConn) SetWriteBuffer(int) error { return nil }

var quicCert = func() tls.Certificate {
	key := ed25519.NewKeyFromSeed(make([]byte, 32))
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)}
	der, err := x509.CreateCertificate(nil, t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}()

func quicConf() (srv, cli *tls.Config) {
	curves := []tls.CurveID{tls.X25519}
	return &tls.Config{Certificates: []tls.Certificate{quicCert}, NextProtos: []string{"arpc"}, CurvePreferences: curves},
		&tls.Config{InsecureSkipVerify: true, NextProtos: []string{"arpc"}, CurvePreferences: curves}
}

type quicEcho struct {
	id   string // remote address
	c    net.Conn
	got  int
	done bool
	err  error
}

func execC34(r *Run) {
	base := runtime.VerifBubbleTotal()
	n := &pktNet{r: r, g: NewRng(r.Plan.Seed, 0x9a1c), conns: map[string]*pktConn{}, tags: map[uint32]string{}}
	quic.VerifListenUDP = n.listen
	quic.VerifReset()
	const addr = "127.0.0.1:4433"
	stls, ctls := quicConf()
	nl, err := aquic.Listen(addr, stls)
	if err != nil {
		r.Fail("listen", "Listen: %v", err)
		return
	}
	for i := range r.faults {
		f := &r.faults[i]
		time.AfterFunc(us(f.At), func() {
			if f.done || r.stopped {
				return
			}
			f.done = true
			r.fault(f.Kind)
			switch f.Kind {
			case "qdown":
				n.down = time.Now().Add(us(f.Dur))
			case "qloss":
				n.lossTo, n.lossP = time.Now().Add(us(f.Dur)), f.N
			case "qvanish": // a dialing process dies without a word
				var live []*pktConn
				for _, c := range n.all {
					if c != n.all[0] && !c.closed && !c.mute && c.tag == "raw" {
						live = append(live, c)
					}
				}
				if len(live) > 0 {
					live[max(f.Conn, 0)%len(live)].mute = true
				}
			}
		})
	}
	rtt := us(10*r.Plan.Net.DelayMax) + 100*time.Millisecond
	if r.Plan.K("loss") > 0 || r.Plan.K("dup") > 0 {
		rtt += 20 * time.Second
	}
	qc := func() *quic.Config {
		return &quic.Config{KeepAlivePeriod: ms(r.Plan.K("keep"))}
	}
	closing, closed := false, false
	rpc := r.Plan.K("rpc") == 1
	accepted := map[string]*quicEcho{}
	var acceptErr error
	acceptEnded := false
	var svr *arpc.Server
	if rpc {
		svr = arpc.NewServer()
		svr.Handler.Handle("/echo", func(c *arpc.Context) {
			var s string
			if err := c.Bind(&s); err != nil {
				r.Fail("bind", "Bind: %v", err)
			}
			c.Write(s)
		})
		go func() {
			acceptErr = svr.Serve(nl)
			acceptEnded = true
		}()
	} else {
		go func() {
			for {
				c, err := nl.Accept()
				if err != nil {
					acceptErr, acceptEnded = err, true
					return
				}
				e := &quicEcho{id: c.RemoteAddr().String(), c: c}
				if accepted[e.id] != nil {
					r.Fail("twice", "a connection from %s was accepted twice", e.id)
				}
				accepted[e.id] = e
				r.ev("quic-accept")
				go func() {
					b := make([]byte, 3000)
					g := NewRng(r.Plan.Seed, 0x5e, uint64(len(accepted)))
					for {
						k, err := c.Read(b[:g.In(1, len(b))])
						if k > 0 {
							e.got += k
							if m, err := c.Write(b[:k]); err == nil && m != k {
								r.Fail("write", "Write of %d bytes returned %d", k, m)
							}
						}
						if err != nil {
							e.err = err
							break
						}
					}
					c.Close()
					e.done = true
				}()
			}
		}()
	}
	healthy := func() bool { return len(r.Fired) == 0 && !closing }
	dial := func(to string, timeout time.Duration) (net.Conn, error) {
		n.tags[runtime.VerifGID()] = "raw"
		t0 := r.Now()
		c, err := aquic.Dial(to, ctls, qc(), timeout)
		if timeout > 0 && r.Now() > t0+timeout+slack {
			r.Fail("dial-late", "Dial with a timeout of %v returned after %v", timeout, r.Now()-t0)
		}
		return c, err
	}
	var clis []*arpc.Client
	var raws []quic.Connection
	var nostream []*quic.Listener
	ok := r.actors(30*time.Minute, func(a, i int, op Op) {
		switch op.K {
		case "close":
			r.ev("quic-close")
			closing = true
			if rpc {
				if !within(time.Minute, func() { svr.Stop() }) {
					r.Fail("stop", "Server.Stop did not return in a minute")
				}
			} else if err := nl.Close(); err != nil {
				r.Fail("close", "Close: %v", err)
			}
			closed = true
		case "silent", "gone": // a peer that connects and sends nothing
			n.tags[runtime.VerifGID()] = "raw"
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			c, err := quic.DialAddr(ctx, addr, ctls, qc())
			cancel()
			if err != nil {
				if healthy() && 20*time.Second > rtt {
					r.Fail("dial", "DialAddr: %v", err)
				}
				return
			}
			r.count("silent_peers")
			if op.K == "gone" {
				sleep(us(op.G % 100_000))
				c.CloseWithError(7, "bye")
			} else {
				raws = append(raws, c)
			}
		case "nobody":
			c, err := dial("127.0.0.1:9", ms(max(op.F, 1000)))
			if err == nil {
				r.Fail("dial", "Dial to an address nobody listens on succeeded")
				c.Close()
			}
			r.count("nobody")
		case "nostream": // a server that allows no stream
			n.tags[runtime.VerifGID()] = "raw"
			st, _ := quicConf()
			at := fmt.Sprintf("127.0.0.1:%d", 5000+100*a+i)
			l, err := quic.ListenAddr(at, st, &quic.Config{MaxIncomingStreams: -1})
			if err != nil {
				r.Fail("listen", "ListenAddr: %v", err)
				return
			}
			nostream = append(nostream, l)
			c, err := dial(at, ms(max(op.F, 1000)))
			if err == nil {
				r.Fail("dial", "Dial to a server that allows no stream succeeded")
				c.Close()
			}
			r.count("nostream")
		case "conn":
			if rpc {
				var c *arpc.Client
				c, err := arpc.NewClient(func() (net.Conn, error) { return dial(addr, ms(max(op.F, 1000))) })
				if err != nil {
					if healthy() && ms(max(op.F, 1000)) > rtt {
						r.Fail("dial", "NewClient: %v", err)
					}
					return
				}
				clis = append(clis, c)
				for k := 0; k < op.B; k++ {
					want := fill(op.A+k, op.C*(k%3))
					var got string
					err := c.Call("/echo", want, &got, rtt+2*time.Second)
					if err == nil {
						r.count("called")
						if got != want {
							r.Fail("bytes", "a call was answered with something else")
						}
					} else if healthy() {
						r.Fail("call", "a call failed on a healthy network: %v", err)
					}
				}
				if op.E == 0 {
					sleep(us(op.G))
					c.Stop()
				}
				return
			}
			c, err := dial(addr, ms(op.F))
			if err != nil {
				if healthy() && (op.F == 0 || ms(op.F) > rtt) {
					r.Fail("dial", "Dial: %v", err)
				}
				return
			}
			r.quicConn(n, c, op, accepted, healthy, rtt)
		}
	})
	if !ok {
		r.Fail("hang", "an operation did not return in 30 minutes")
		return
	}
	if acceptEnded && !closing {
		r.Fail("accept", "the server's accept loop ended (%v) though nobody closed the listener", acceptErr)
	}
	// faults end
	if last := r.Now(); last < us(90_000_000) && len(r.faults) > 0 {
		time.Sleep(us(90_000_000) - last)
	}
	r.quell()
	n.quiet = true
	if !closing {
		time.Sleep(time.Minute)
		// a new connection is served
		c, err := dial(addr, 10*time.Second)
		if err != nil {
			r.Fail("dead", "the server cannot be reached a minute after the last fault: %v", err)
		} else if rpc {
			cl, _ := arpc.NewClient(func() (net.Conn, error) { return c, nil })
			var got string
			if err := cl.Call("/echo", "hello", &got, 5*time.Second); err != nil || got != "hello" {
				r.Fail("dead", "a call on a new connection failed a minute after the last fault: %v", err)
			}
			cl.Stop()
		} else {
			r.quicConn(n, c, Op{A: 7, B: 2, C: 100}, accepted, func() bool { return true }, time.Second)
		}
	}
	for _, c := range clis {
		c.Stop()
	}
	for _, c := range raws {
		c.CloseWithError(0, "")
	}
	if rpc {
		svr.Stop()
	} else if !closed {
		nl.Close()
	}
	time.Sleep(20 * time.Second)
	for i, c := range n.all[1:] {
		// those of the servers without streams are still open; a connection that lost its peer lives until its idle timeout
		if !c.closed && len(r.Fired) == 0 && c.addr.Port > 50000 && r.Plan.K("loss") == 0 {
			r.Fail("socket-leak", "socket %d (%v) is open 20 s after everything was closed", i, c.addr)
			break
		}
	}
	for _, l := range nostream {
		l.Close()
	}
	time.Sleep(time.Minute)
	if !acceptEnded {
		r.Fail("close", "Accept has not returned a minute after Close")
	}
	for _, e := range accepted {
		if !e.done {
			r.Fail("left", "the accepted connection of %s has not ended", e.id)
		}
	}
	for i, c := range n.all {
		if !c.closed {
			r.Fail("socket-leak", "socket %d (%v) is open a minute after everything was closed", i, c.addr)
			break
		}
	}
	r.leakCheck(base, time.Minute)
}

// quicConn writes op.B pieces, reads the echo and closes.
func (r *Run) quicConn(n *pktNet, c net.Conn, op Op, accepted map[string]*quicEcho, healthy func() bool, rtt time.Duration) {
	t0 := r.Now()
	var want []byte
	for k := 0; k < op.B; k++ {
		want = append(want, fill(op.A+k, 1+op.C*(k%3))...)
	}
	id := c.LocalAddr().(*net.UDPAddr).Port
	key := fmt.Sprintf("127.0.0.1:%d", id)
	g := NewRng(r.Plan.Seed, 0x5f, uint64(id))
	sent := make(chan error, 1)
	go func() {
		for b := want; len(b) > 0; {
			k := g.In(1, len(b))
			m, err := c.Write(b[:k])
			if err != nil {
				sent <- err
				return
			}
			if m != k {
				r.Fail("write", "Write of %d bytes returned %d", k, m)
			}
			b = b[k:]
		}
		sent <- nil
	}()
	if op.E == 3 { // closes with the echo on its way, the Read ends
		rd := make(chan error, 1)
		go func() {
			_, err := io.Copy(io.Discard, c)
			rd <- err
		}()
		werr := <-sent
		sleep(us(op.G))
		r.ev("quic-conn-close")
		c.Close()
		t := r.Now()
		if werr == nil {
			select {
			case <-rd:
			case <-time.After(slack + 10*time.Millisecond):
				r.Fail("read-after-close", "Read has not returned %v after Close", r.Now()-t)
			}
		}
		if _, err := c.Write([]byte("x")); err == nil {
			r.Fail("write-after-close", "Write after Close succeeded")
		}
		// what was written before Close arrives
		if werr == nil && healthy() {
			time.Sleep(rtt + time.Second)
			if e := accepted[key]; healthy() && (e == nil || e.got != len(want)) {
				r.Fail("bytes", "%d bytes were written before Close, %v arrived", len(want), e)
			} else if healthy() && !e.done {
				r.Fail("no-eof", "the peer closed, and Read has not returned an error")
			}
		}
		return
	}
	c.SetReadDeadline(time.Now().Add(rtt + 20*time.Second))
	got := make([]byte, 0, len(want))
	b := make([]byte, 2000)
	var err error
	for len(got) < len(want) && err == nil {
		var k int
		k, err = c.Read(b[:g.In(1, len(b))])
		got = append(got, b[:k]...)
	}
	if len(got) > len(want) || string(got) != string(want[:len(got)]) {
		r.Fail("bytes", "the echo differs from what was written at byte %d of %d", diffAt(got, want), len(got))
	}
	if err != nil && healthy() {
		r.Fail("bytes", "%d of %d bytes came back in %v: %v (accepted: %v)", len(got), len(want), r.Now()-t0, err, accepted[key] != nil)
	}
	if err == nil {
		r.count("echoed")
		<-sent
	}
	if op.E == 1 {
		if e := accepted[key]; e != nil { // the server closes first
			e.c.Close()
			c.SetReadDeadline(time.Now().Add(rtt + 20*time.Second))
			k, rerr := c.Read(b)
			if healthy() && (k > 0 || rerr != io.EOF) {
				r.Fail("eof", "the peer closed after everything was read; Read: %d, %v", k, rerr)
			}
		}
	}
	if op.E == 2 {
		sleep(us(op.G))
	}
	c.Close()
	if err == nil && healthy() {
		time.Sleep(rtt + time.Second)
		if e := accepted[key]; healthy() && (e == nil || !e.done) {
			r.Fail("no-eof", "the peer closed, and Read has not returned an error")
		}
	}
}
