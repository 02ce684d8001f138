package main

import (
	"errors"
	"strings"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	"github.com/lesismal/arpc/extension/middleware/coder/msgpack"
)

// xorCoder is a user-style coder that transforms the body in place and marks
// the message with a flag bit.
type xorCoder struct {
	key byte
	bit int
}

func (x *xorCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	b := m.Buffer[arpc.HeadLen+m.MethodLen():]
	for i := range b {
		b[i] ^= x.key
	}
	m.SetFlagBit(x.bit, !m.IsFlagBitSet(x.bit))
	return m
}

func (x *xorCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	if m.IsFlagBitSet(x.bit) {
		b := m.Buffer[arpc.HeadLen+m.MethodLen():]
		for i := range b {
			b[i] ^= x.key
		}
		m.SetFlagBit(x.bit, false)
	}
	return m
}

// growCoder returns a new message, longer than the one it was given.
type growCoder struct{ tail string }

func (x *growCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	m.Buffer = append(m.Buffer, x.tail...)
	m.SetBodyLen(len(m.Buffer) - arpc.HeadLen)
	return m
}

func (x *growCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	n := len(m.Buffer) - len(x.tail)
	if n < arpc.HeadLen || string(m.Buffer[n:]) != x.tail {
		return m
	}
	m.Buffer = m.Buffer[:n]
	m.SetBodyLen(n - arpc.HeadLen)
	return m
}

func newAppender() *coder.Appender {
	return coder.NewAppender("sim-app", 5,
		func(v interface{}) ([]byte, error) {
			if s := v.(string); !strings.HasPrefix(s, "bad") {
				return []byte(s), nil
			}
			return nil, errors.New("a value that cannot be encoded")
		},
		func(b []byte) (interface{}, error) { return string(b), nil })
}

// addCoders installs one of the coder chains on a handler. The chain is the
// same on both ends.
func (r *Run) addCoders(h arpc.Handler, n int) {
	for i := 0; i < 5; i++ {
		if n&(1<<i) == 0 {
			continue
		}
		switch i {
		case 0:
			h.UseCoder(&xorCoder{0x5a, 4})
		case 1:
			h.UseCoder(msgpack.New())
		case 2:
			h.UseCoder(&growCoder{"<tail>"})
		case 3:
			h.UseCoder(newAppender())
		case 4: // compresses most of the header too: has to be the last one
			h.UseCoder(gzip.New(100))
		}
	}
}
