package main

import (
	"encoding/binary"
	"fmt"
	"time"

	"runtime"
)

// An independent implementation of the wire format, for raw peers and for
// judging what the library writes.

const (
	wNone     = 0
	wRequest  = 1
	wResponse = 2
	wNotify   = 3
	wPing     = 4
	wPong     = 5
	wStream   = 6

	wHead = 16
)

type frame struct {
	cmd    byte
	local  bool // stream opened by the sender
	eof    bool
	isErr  bool
	async  bool
	resv   byte
	rawCmd byte
	rawFlg byte
	method string
	seq    uint64
	data   []byte
}

func (f frame) enc() []byte {
	b := make([]byte, wHead+len(f.method)+len(f.data))
	binary.LittleEndian.PutUint32(b, uint32(len(f.method)+len(f.data)))
	b[4] = f.resv
	b[5] = f.cmd
	if f.local {
		b[5] |= 0x80
	}
	if f.eof {
		b[5] |= 0x40
	}
	if f.isErr {
		b[6] |= 1
	}
	if f.async {
		b[6] |= 2
	}
	b[6] |= f.rawFlg
	b[7] = byte(len(f.method))
	binary.LittleEndian.PutUint64(b[8:], f.seq)
	copy(b[wHead:], f.method)
	copy(b[wHead+len(f.method):], f.data)
	return b
}

// decFrames decodes a byte stream; rest is what does not make a whole frame.
func decFrames(b []byte) (fs []frame, rest []byte, err error) {
	for len(b) >= wHead {
		n := int(binary.LittleEndian.Uint32(b))
		ml := int(b[7])
		if n > 256<<20 || ml > n {
			return fs, b, fmt.Errorf("frame %d: body length %d, method length %d", len(fs), n, ml)
		}
		if len(b) < wHead+n {
			break
		}
		f := frame{rawCmd: b[5], rawFlg: b[6], resv: b[4], seq: binary.LittleEndian.Uint64(b[8:])}
		f.cmd = b[5] & 0x3f
		f.local = b[5]&0x80 != 0
		f.eof = b[5]&0x40 != 0
		f.isErr = b[6]&1 != 0
		f.async = b[6]&2 != 0
		f.method = string(b[wHead : wHead+ml])
		f.data = append([]byte(nil), b[wHead+ml:wHead+n]...)
		if f.cmd < wRequest || f.cmd > wStream {
			return fs, b, fmt.Errorf("frame %d: command %#x", len(fs), b[5])
		}
		fs = append(fs, f)
		b = b[wHead+n:]
	}
	return fs, b, nil
}

// rawPeer is a scripted peer on a connection end.
type rawPeer struct {
	r     *Run
	e     *End
	buf   []byte
	got   []frame
	bad   error
	eof   bool
	eofAt time.Duration
	onF   func(f frame)
}

// pump reads frames until the connection ends.
func (p *rawPeer) pump() {
	b := make([]byte, 4096)
	for {
		n, err := p.e.Read(b)
		p.buf = append(p.buf, b[:n]...)
		var fs []frame
		var e error
		if len(p.buf) >= wHead && len(p.buf) >= wHead+int(binary.LittleEndian.Uint32(p.buf)) {
			var rest []byte
			fs, rest, e = decFrames(p.buf)
			p.buf = p.buf[:copy(p.buf, rest)]
		}
		if e != nil && p.bad == nil {
			p.bad = e
		}
		for _, f := range fs {
			p.got = append(p.got, f)
			if p.onF != nil {
				p.onF(f)
			}
		}
		if err != nil {
			p.eof = true
			p.eofAt = p.r.Now()
			return
		}
		if p.bad != nil {
			return
		}
	}
}

// send writes b in pieces of random size with pauses up to gap.
func (p *rawPeer) send(g *Rng, b []byte, maxPiece int, gap time.Duration) error {
	for len(b) > 0 {
		n := len(b)
		if maxPiece > 0 {
			n = min(n, 1+g.N(maxPiece))
		}
		if _, err := p.e.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if gap > 0 && len(b) > 0 && g.P(2) {
			time.Sleep(time.Duration(g.N(int(gap))))
		}
		runtime.VerifYield(siteNetWrite)
	}
	return nil
}

// dialRaw connects a raw peer to addr.
func (r *Run) dialRaw(addr, tag string) *rawPeer {
	c, err := r.Net.dial(addr, tag)
	if err != nil {
		return nil
	}
	return &rawPeer{r: r, e: c.(*End)}
}
