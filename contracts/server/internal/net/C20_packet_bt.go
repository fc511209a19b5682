package net

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/golang/protobuf/proto"
	pbx "github.com/unit-io/unitdb/server/proto"
	"github.com/unit-io/unitdb/server/utp"
)

func vcText(v *vcT) string {
	switch v.rnd.Intn(6) {
	case 0:
		return ""
	case 1:
		return "teams.alpha.ch1?ttl=1m"
	}
	n := v.rnd.Intn(1 << uint(v.rnd.Intn(10)))
	r := make([]rune, n)
	for i := range r {
		r[i] = rune(v.rnd.Intn(300))
		if v.rnd.Intn(8) == 0 {
			r[i] = rune(0x10000 + v.rnd.Intn(0xFFFFF))
		}
	}
	return string(r)
}

func vcBlob(v *vcT) []byte {
	if v.rnd.Intn(5) == 0 {
		return nil
	}
	b := make([]byte, 1+v.rnd.Intn(1<<uint(v.rnd.Intn(15))))
	v.rnd.Read(b)
	return b
}

func vcInt32(v *vcT) int32 {
	switch v.rnd.Intn(5) {
	case 0:
		return 0
	case 1:
		return int32(v.rnd.Intn(300))
	case 2:
		return -int32(v.rnd.Intn(300))
	}
	return int32(v.rnd.Uint32() >> uint(v.rnd.Intn(32)))
}

func vcID(v *vcT) uint16 { return uint16(v.rnd.Uint32() >> uint(v.rnd.Intn(32))) }
func vcByte(v *vcT) uint8  { return uint8(v.rnd.Uint32() >> uint(v.rnd.Intn(32))) }

// vcPacket is an arbitrary packet of the protocol.
func vcPacket(v *vcT) MessagePack {
	n := v.rnd.Intn(1 << uint(v.rnd.Intn(6)))
	subs := func() (s []*utp.Subscription) {
		for i := 0; i < n; i++ {
			s = append(s, &utp.Subscription{DeliveryMode: vcByte(v), Delay: vcInt32(v), Topic: vcText(v)})
		}
		return
	}
	switch v.rnd.Intn(9) {
	case 0:
		return &utp.Connect{Version: vcInt32(v), InsecureFlag: v.rnd.Intn(2) == 0, ClientID: vcText(v), KeepAlive: vcInt32(v), CleanSessFlag: v.rnd.Intn(2) == 0,
			SessKey: vcInt32(v), Username: vcText(v), Password: vcBlob(v), BatchDuration: vcInt32(v), BatchByteThreshold: vcInt32(v), BatchCountThreshold: vcInt32(v)}
	case 1:
		p := &utp.Publish{MessageID: vcID(v), DeliveryMode: vcByte(v)}
		for i := 0; i < n; i++ {
			p.Messages = append(p.Messages, &utp.PublishMessage{Topic: vcText(v), Payload: vcBlob(v), Ttl: vcText(v)})
		}
		return p
	case 2:
		p := &utp.Relay{MessageID: vcID(v)}
		for i := 0; i < n; i++ {
			p.RelayRequests = append(p.RelayRequests, &utp.RelayRequest{Topic: vcText(v), Last: vcText(v)})
		}
		return p
	case 3:
		return &utp.Subscribe{MessageID: vcID(v), Subscriptions: subs()}
	case 4:
		return &utp.Unsubscribe{MessageID: vcID(v), Subscriptions: subs()}
	case 5:
		return &utp.Pingreq{}
	case 6:
		return &utp.Disconnect{MessageID: vcID(v)}
	}
	c := &utp.ControlMessage{MessageID: vcID(v), MessageType: utp.PUBLISH, FlowControl: utp.FlowControl(1 + v.rnd.Intn(5)), Message: vcBlob(v)}
	if c.FlowControl == utp.ACKNOWLEDGE {
		c.MessageType = utp.MessageType(1 + v.rnd.Intn(6))
	}
	return c
}

func vcShow(p MessagePack) string {
	s := fmt.Sprintf("%T %+v", p, p)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// BT_C20_roundtrip: streams of arbitrary packets decode to the packets, each
// from exactly its own bytes; cut short anywhere they give an error.
func BT_C20_roundtrip(v *vcT) {
	for !v.over() {
		var stream bytes.Buffer
		var want []MessagePack
		var ends []int
		for i := 1 + v.rnd.Intn(6); i > 0; i-- {
			p := vcPacket(v)
			b, err := p.ToBinary()
			v.check(err == nil, "encoding %s: %v", vcShow(p), err)
			if p.Type() == utp.PUBLISH || p.Type() == utp.DISCONNECT || p.Type() == utp.FLOWCONTROL {
				e, err := Encode(p)
				v.check(err == nil && bytes.Equal(e.Bytes(), b.Bytes()), "Encode of %s differs from its encoding: %v", vcShow(p), err)
			}
			stream.Write(b.Bytes())
			want, ends = append(want, p), append(ends, stream.Len())
		}
		raw := stream.Bytes()
		r := bytes.NewReader(raw)
		for i, p := range want {
			g, err := Read(r)
			v.check(err == nil, "decoding %s: %v", vcShow(p), err)
			v.check(reflect.DeepEqual(g, p), "%s decodes to %s", vcShow(p), vcShow(g))
			v.check(g.Type() == p.Type() && g.Info() == p.Info(), "%s and its decoding are of types %d, %d and information %v, %v", vcShow(p), p.Type(), g.Type(), p.Info(), g.Info())
			v.check(len(raw)-r.Len() == ends[i], "decoding %s consumed %d bytes instead of %d", vcShow(p), len(raw)-r.Len(), ends[i])
		}
		_, err := Read(r)
		v.check(err != nil, "a packet was decoded from nothing")
		for k := 0; k < 20; k++ {
			cut := v.rnd.Intn(len(raw))
			r := bytes.NewReader(raw[:cut])
			n := 0
			for n < len(ends) && ends[n] <= cut {
				n++
			}
			for i := 0; i < n; i++ {
				_, err := Read(r)
				v.check(err == nil, "packet %d of a stream cut short after it: %v", i, err)
			}
			g, err := Read(r)
			v.check(err != nil, "%s cut to %d of %d bytes decodes to %v", vcShow(want[n]), cut, ends[n], g)
		}
		v.eval(fmt.Sprintf("%d packets, %d bytes, first %s", len(want), len(raw), vcShow(want[0])))
	}
}

// BT_C20_ack: the reply to a connect, which travels inside a control message.
func BT_C20_ack(v *vcT) {
	for !v.over() {
		a := &utp.ConnectAcknowledge{ReturnCode: vcByte(v), Epoch: vcInt32(v), ConnID: vcInt32(v)}
		raw, err := a.ToBinary()
		v.check(err == nil, "encoding %+v: %v", a, err)
		c := &utp.ControlMessage{MessageType: utp.CONNECT, FlowControl: utp.ACKNOWLEDGE, Message: raw.Bytes()}
		b, err := c.ToBinary()
		v.check(err == nil, "encoding the reply: %v", err)
		p, err := Read(&b)
		v.check(err == nil, "decoding the reply to a connect: %v", err)
		d, ok := p.(*utp.ControlMessage)
		v.check(ok && d.MessageType == utp.CONNECT && d.FlowControl == utp.ACKNOWLEDGE, "the reply to a connect decodes to %s", vcShow(p))
		var g utp.ConnectAcknowledge
		v.check(g.FromBinary(utp.FixedHeader{MessageType: utp.CONNECT}, d.Message) == nil && g == *a, "%+v decodes to %+v", a, g)
		v.eval(fmt.Sprintf("%+v", a))
	}
}

// BT_C20_malformed: what is not a packet gives an error: bodies and headers
// that are not what the lengths say, lengths that do not end, unknown types.
func BT_C20_malformed(v *vcT) {
	varint := func(n int) []byte {
		var b []byte
		for ; n >= 128; n >>= 7 {
			b = append(b, byte(n)|128)
		}
		return append(b, byte(n))
	}
	packet := func(t, fc, l int32, body []byte) []byte {
		h, _ := proto.Marshal(&pbx.FixedHeader{MessageType: pbx.MessageType(t), FlowControl: pbx.FlowControl(fc), MessageLength: l})
		return append(append(varint(len(h)), h...), body...)
	}
	read := func(b []byte) (p MessagePack, err error) {
		defer func() {
			if x := recover(); x != nil {
				v.failf("decoding % x panics: %v", b[:vcMin(len(b), 60)], x)
			}
		}()
		r := io.Reader(bytes.NewReader(b))
		return Read(r)
	}
	for !v.over() {
		body := vcBlob(v)
		if len(body) > 200 {
			body = body[:200]
		}
		t := int32(1 + v.rnd.Intn(7))
		switch v.rnd.Intn(7) {
		case 0: // a length that goes on
			b := append([]byte{0x80 | vcByte(v), 0x80 | vcByte(v), 0x80 | vcByte(v), 0x80 | vcByte(v), 0x80 | vcByte(v)}, packet(t, 0, int32(len(body)), body)...)
			_, err := read(b)
			v.check(err != nil, "a length of more than four bytes is accepted: % x", b[:8])
		case 1: // a negative or excessive length
			l := vcInt32(v)
			if l >= 0 && int(l) <= len(body) {
				l = -1 - l
			}
			_, err := read(packet(t, 0, l, body))
			v.check(err != nil, "a message of length %d with %d bytes left is accepted", l, len(body))
		case 2: // a type there is none of
			t := []int32{0, 8, 9, 100, 255}[v.rnd.Intn(5)]
			_, err := read(packet(t, 0, int32(len(body)), body))
			v.check(err != nil, "a message of type %d is accepted", t)
		case 3: // a body that is not a message: a field cut short, or a group end
			bad := [][]byte{{0x0A, 0x7F}, {0x08}, {0x08, 0x80}, {0x0C}, {0x07}, {0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}}[v.rnd.Intn(6)]
			fc := int32(v.rnd.Intn(6))
			g, err := read(packet(t, fc, int32(len(bad)), bad))
			v.check(err != nil, "a body % x that is not a message of type %d decodes to %v", bad, t, g)
		case 4: // a header that is not one
			bad := [][]byte{{0x08}, {0x0A, 0x7F}, {0x18, 0x80}, {0x07}}[v.rnd.Intn(4)]
			_, err := read(append(append(varint(len(bad)), bad...), body...))
			v.check(err != nil, "a header % x is accepted", bad)
		case 5: // a packet with bytes changed
			p := vcPacket(v)
			b, _ := p.ToBinary()
			raw := b.Bytes()
			for i := 1 + v.rnd.Intn(3); i > 0; i-- {
				raw[v.rnd.Intn(vcMin(len(raw), 1+v.rnd.Intn(len(raw))))] = vcByte(v)
			}
			read(raw)
		default:
			read(body)
		}
		v.eval(fmt.Sprintf("%d % x", t, body))
	}
}

func vcMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
