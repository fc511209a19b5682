package common

import (
	"context"

	"github.com/golang/protobuf/proto"
)

// vcPacket stands for any message type with a field of bytes.
type vcPacket struct{ data []byte }

func (p *vcPacket) Reset()         { p.data = nil }
func (p *vcPacket) String() string { return "" }
func (p *vcPacket) ProtoMessage()  {}

func vcField(m proto.Message) *[]byte { return &m.(*vcPacket).data }

// vcStream is the stream: RecvMsg fills the message with the next packet of
// the peer, SendMsg encodes the message it is given, before it returns.
type vcStream struct {
	next  []byte // what the next RecvMsg receives
	recvs int
	fail  bool
	out   []byte // what was sent, in order
	pos   int
	sent  bool
	max   int // the longest packet sent
}

func (s *vcStream) Context() context.Context { return nil }

func (s *vcStream) RecvMsg(m interface{}) error {
	s.recvs++
	if s.fail {
		return vcErr()
	}
	m.(*vcPacket).data = s.next
	return nil
}

func (s *vcStream) SendMsg(m interface{}) error {
	if s.fail {
		return vcErr()
	}
	p := m.(*vcPacket)
	copy(s.out[s.pos:], p.data)
	s.pos += len(p.data)
	s.sent = true
	if len(p.data) > s.max {
		s.max = len(p.data)
	}
	return nil
}

// vcConn reads a packet of any length of which any number of bytes was read:
// the state between two Reads (offset 0: the packet is yet to be received).
func vcConn(packet []byte, off int) (*Conn, *vcStream) {
	s := &vcStream{next: packet}
	c := &Conn{Stream: s, InMsg: &vcPacket{}, OutMsg: &vcPacket{}, Encode: Encode(vcField), Decode: Decode(vcField)}
	if off > 0 {
		c.InMsg.(*vcPacket).data = packet
		c.readOffset = off
	}
	return c, s
}

// VC_C21_read: a Read returns the next bytes of the packet, as many as there
// are or fit, and leaves the connection in the state the next Read starts from:
// by induction over the Reads, exactly the bytes of the packets, in order.
func VC_C21_read() {
	packet := vcBytes("packet", 0, -1)
	off := vcRange("offset", 0, 1<<40)
	vcAssume(off == 0 || off < len(packet))
	p := vcBytes("buf", 0, -1)
	was := vcCopyBytes(p)
	c, s := vcConn(packet, off)
	orig := vcCopyBytes(packet)
	n, err := c.Read(p)
	want := len(packet) - off
	if want > len(p) {
		want = len(p)
	}
	vcAssert("read reports no error", err == nil)
	vcAssert("read returns as many bytes as there are or fit", n == want)
	j := vcRange("j", 0, 1<<40)
	if j < want {
		vcAssert("read returns the packet's next bytes", p[j] == orig[off+j])
	} else if j < len(p) {
		vcAssert("read leaves the rest of the buffer", p[j] == was[j])
	}
	if off > 0 {
		vcAssert("a packet half read is not replaced", s.recvs == 0)
	} else {
		vcAssert("one packet is received", s.recvs == 1 || len(p) == 0 && s.recvs == 0)
	}
	if len(p) == 0 && len(packet) > 0 {
		vcAssert("a packet nothing can be read of is not received", s.recvs == 0)
	}
	if off+want < len(packet) && want > 0 {
		vcAssert("the rest stays to be read", c.readOffset == off+want && vcEqBytes(c.InMsg.(*vcPacket).data, orig))
	} else if want > 0 || s.recvs == 1 {
		vcAssert("a packet read to its end is done with", c.readOffset == 0)
	} else {
		vcAssert("an empty read changes nothing", c.readOffset == off && (off == 0 || vcEqBytes(c.InMsg.(*vcPacket).data, orig)))
	}
}

// VC_C21_readerr: an error of the stream is passed on and nothing is read.
func VC_C21_readerr() {
	c, s := vcConn(nil, 0)
	s.fail = true
	p := vcBytes("buf", 1, -1)
	n, err := c.Read(p)
	vcAssert("stream error is returned", n == 0 && err != nil && c.readOffset == 0)
}

var (
	vcOrig  []byte // what is written
	vcAt    int    // an arbitrary position in it
	vcChunk int
)

// What was sent and what is left to send make up what is written.
//verif:loop (*Conn).Write 0
func vcWriting(k int, c *Conn, p []byte) bool {
	s, total := c.Stream.(*vcStream), len(vcOrig)
	return s.pos >= 0 && s.pos+len(p) == total && len(s.out) == total &&
		s.max <= vcChunk && (s.sent || k == 0) &&
		(vcAt >= s.pos || s.out[vcAt] == vcOrig[vcAt]) &&
		(vcAt < s.pos || vcAt >= total || p[vcAt-s.pos] == vcOrig[vcAt])
}

// VC_C21_write: what is sent is what was written, in order, in packets no
// longer than the encoder's chunks, for every chunk size.
func VC_C21_write() {
	p := vcBytes("data", 0, -1)
	size := vcRange("chunk", 1, 1<<40)
	c, s := vcConn(nil, 0)
	s.out = make([]byte, len(p))
	c.Encode = ChunkedEncoder(Encode(vcField), size)
	vcOrig, vcChunk = vcCopyBytes(p), size
	vcAt = vcRange("at", 0, 1<<40)
	n, err := c.Write(p)
	vcAssert("everything is written", err == nil && n == len(vcOrig) && s.pos == len(vcOrig))
	vcAssert("in packets no longer than a chunk", s.max <= size && s.sent)
	if vcAt < len(vcOrig) {
		vcAssert("the bytes sent are the bytes written", s.out[vcAt] == vcOrig[vcAt])
	}
}
