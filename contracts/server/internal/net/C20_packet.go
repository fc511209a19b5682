package net

import (
	"errors"
	"io"

	"github.com/golang/protobuf/proto"
	pbx "github.com/unit-io/unitdb/server/proto"
	"github.com/unit-io/unitdb/server/utp"
)

// vcIn is what a packet is read from: its bytes and those that follow.
type vcIn struct {
	b   []byte
	pos int
}

func (r *vcIn) Read(p []byte) (int, error) {
	if r.pos >= len(r.b) {
		return 0, io.EOF
	}
	n := copy(p, r.b[r.pos:])
	r.pos += n
	return n, nil
}

// io.ReadFull's contract on this reader: all of p, or an error.
//
//verif:model =io.ReadFull
func vcReadFull(r io.Reader, p []byte) (int, error) {
	s := r.(*vcIn)
	left := len(s.b) - s.pos
	if left < len(p) {
		s.pos = len(s.b)
		if left == 0 {
			return 0, io.EOF
		}
		return left, io.ErrUnexpectedEOF
	}
	n := copy(p, s.b[s.pos:])
	s.pos += n
	return n, nil
}

// io.CopyN's contract on this reader: n bytes, or as many as there are and EOF.
//
//verif:model =io.CopyN
func vcCopyN(w io.Writer, r io.Reader, n int64) (int64, error) {
	s := r.(*vcIn)
	left := int64(len(s.b) - s.pos)
	if left < n {
		w.Write(s.b[s.pos:])
		s.pos = len(s.b)
		return left, io.EOF
	}
	w.Write(s.b[s.pos : s.pos+int(n)])
	s.pos += int(n)
	return n, nil
}

// The contract assumed of package proto: a message is encoded as some bytes, or
// refused, and those bytes decode to a message with the same fields. Decoding
// other bytes gives an error or a message about which nothing is known.
var (
	vcBody    proto.Message
	vcBodyRaw []byte
	vcHead    pbx.FixedHeader
	vcHeadRaw []byte
)

//verif:model github.com/golang/protobuf/proto.Marshal
func vcMarshal(m proto.Message) ([]byte, error) {
	n := vcNondetInt()
	vcAssume(n >= 0 && n < 1<<28)
	h, ok := m.(*pbx.FixedHeader)
	if ok {
		vcAssume(n <= 33) // three numbers
	} else if vcNondetBool() {
		return nil, errors.New("refused")
	}
	raw := vcNondetBytes(n)
	if ok {
		vcHead.MessageType, vcHead.FlowControl, vcHead.MessageLength = h.MessageType, h.FlowControl, h.MessageLength
		vcHeadRaw = vcCopyBytes(raw)
		return raw, nil
	}
	vcBody, vcBodyRaw = m, vcCopyBytes(raw)
	return raw, nil
}

//verif:model github.com/golang/protobuf/proto.Unmarshal
func vcUnmarshal(b []byte, m proto.Message) error {
	if h, ok := m.(*pbx.FixedHeader); ok {
		vcAssert("the header decoded is the header encoded", vcEqBytes(b, vcHeadRaw))
		h.MessageType, h.FlowControl, h.MessageLength = vcHead.MessageType, vcHead.FlowControl, vcHead.MessageLength
		return nil
	}
	vcAssert("the message decoded is the message encoded", vcEqBytes(b, vcBodyRaw))
	switch x := m.(type) {
	case *pbx.Connect:
		y := vcBody.(*pbx.Connect)
		x.Version, x.InsecureFlag, x.ClientID, x.KeepAlive = y.Version, y.InsecureFlag, y.ClientID, y.KeepAlive
		x.CleanSessFlag, x.SessKey, x.Username, x.Password = y.CleanSessFlag, y.SessKey, y.Username, y.Password
		x.BatchDuration, x.BatchByteThreshold, x.BatchCountThreshold = y.BatchDuration, y.BatchByteThreshold, y.BatchCountThreshold
	case *pbx.PingRequest:
		vcAssert("a ping decodes a ping", vcBody.(*pbx.PingRequest) != nil)
	case *pbx.Disconnect:
		x.MessageID = vcBody.(*pbx.Disconnect).MessageID
	case *pbx.ControlMessage:
		y := vcBody.(*pbx.ControlMessage)
		x.MessageID, x.Message = y.MessageID, y.Message
	case *pbx.ConnectAcknowledge:
		y := vcBody.(*pbx.ConnectAcknowledge)
		x.ReturnCode, x.Epoch, x.ConnID = y.ReturnCode, y.Epoch, y.ConnID
	case *pbx.Publish:
		y := vcBody.(*pbx.Publish)
		x.MessageID, x.DeliveryMode = y.MessageID, y.DeliveryMode
		for _, m := range y.Messages {
			x.Messages = append(x.Messages, &pbx.PublishMessage{Topic: m.Topic, Payload: m.Payload, Ttl: m.Ttl})
		}
	case *pbx.Relay:
		y := vcBody.(*pbx.Relay)
		x.MessageID = y.MessageID
		for _, r := range y.RelayRequests {
			x.RelayRequests = append(x.RelayRequests, &pbx.RelayRequest{Topic: r.Topic, Last: r.Last})
		}
	case *pbx.Subscribe:
		y := vcBody.(*pbx.Subscribe)
		x.MessageID, x.Subscriptions = y.MessageID, vcSubs(y.Subscriptions)
	case *pbx.Unsubscribe:
		y := vcBody.(*pbx.Unsubscribe)
		x.MessageID, x.Subscriptions = y.MessageID, vcSubs(y.Subscriptions)
	}
	return nil
}

func vcSubs(y []*pbx.Subscription) (x []*pbx.Subscription) {
	for _, s := range y {
		x = append(x, &pbx.Subscription{DeliveryMode: s.DeliveryMode, Delay: s.Delay, Topic: s.Topic})
	}
	return
}

// vcSend encodes a packet and reads it back: were more bytes
// than its own asked for, there would be an error.
func vcSend(p MessagePack) (MessagePack, bool) {
	buf, err := p.ToBinary()
	if err != nil {
		return nil, false
	}
	raw := buf.Bytes()
	r := &vcIn{b: raw}
	q, err := Read(r)
	vcAssert("an encoded packet is read without an error", err == nil)
	vcAssert("exactly its bytes are read", r.pos == len(raw))
	return q, true
}

// VC_C20_connect: a connect packet decodes to one with the same fields.
func VC_C20_connect() {
	c := &utp.Connect{Version: vcI32("version"), InsecureFlag: vcBool("insecure"), ClientID: vcStr("client", 0, -1), KeepAlive: vcI32("keepalive"),
		CleanSessFlag: vcBool("clean"), SessKey: vcI32("key"), Username: vcStr("user", 0, -1), Password: vcBytes("password", 0, -1),
		BatchDuration: vcI32("duration"), BatchByteThreshold: vcI32("bytes"), BatchCountThreshold: vcI32("count")}
	q, ok := vcSend(c)
	if !ok {
		return
	}
	g := q.(*utp.Connect)
	vcAssert("flags", g.Version == c.Version && g.InsecureFlag == c.InsecureFlag && g.CleanSessFlag == c.CleanSessFlag)
	vcAssert("times", g.KeepAlive == c.KeepAlive && g.SessKey == c.SessKey && g.BatchDuration == c.BatchDuration)
	vcAssert("limits", g.BatchByteThreshold == c.BatchByteThreshold && g.BatchCountThreshold == c.BatchCountThreshold)
	vcAssert("texts", g.ClientID == c.ClientID && g.Username == c.Username && vcEqBytes(g.Password, c.Password))
}

// VC_C20_disconnect: a disconnect packet, likewise.
func VC_C20_disconnect() {
	d := &utp.Disconnect{MessageID: vcU16("id")}
	q, ok := vcSend(d)
	if !ok {
		return
	}
	vcAssert("identifier", q.(*utp.Disconnect).MessageID == d.MessageID)
}

// VC_C20_control: every reply the protocol has: acknowledgements of every
// request and the four replies of a publish.
func VC_C20_control() {
	c := &utp.ControlMessage{MessageID: vcU16("id"), MessageType: utp.MessageType(vcU8("type")), FlowControl: utp.FlowControl(vcU8("flow")), Message: vcBytes("message", 0, -1)}
	vcAssume(c.FlowControl >= utp.ACKNOWLEDGE && c.FlowControl <= utp.COMPLETE)
	vcAssume(c.MessageType == utp.PUBLISH || c.FlowControl == utp.ACKNOWLEDGE && c.MessageType >= utp.CONNECT && c.MessageType <= utp.PINGREQ)
	q, ok := vcSend(c)
	if !ok {
		return
	}
	g := q.(*utp.ControlMessage)
	vcAssert("kind of reply", g.MessageType == c.MessageType && g.FlowControl == c.FlowControl)
	vcAssert("contents of the reply", g.MessageID == c.MessageID && vcEqBytes(g.Message, c.Message))
}

// VC_C20_ping: a ping.
func VC_C20_ping() {
	q, ok := vcSend(&utp.Pingreq{})
	if !ok {
		return
	}
	_, is := q.(*utp.Pingreq)
	vcAssert("a ping decodes to a ping", is)
}

// VC_C20_connack: the reply to a connect has no header of its own.
func VC_C20_connack() {
	a := &utp.ConnectAcknowledge{ReturnCode: vcU8("code"), Epoch: vcI32("epoch"), ConnID: vcI32("conn")}
	buf, err := a.ToBinary()
	if err != nil {
		return
	}
	var g utp.ConnectAcknowledge
	err = g.FromBinary(utp.FixedHeader{}, buf.Bytes())
	vcAssert("the reply to a connect decodes", err == nil && g.ReturnCode == a.ReturnCode && g.Epoch == a.Epoch && g.ConnID == a.ConnID)
}

// The packets with lists, with n items: n is fixed in each proof, everything
// else is not.
func vcPublish(n int) {
	p := &utp.Publish{MessageID: vcU16("id"), DeliveryMode: vcU8("mode")}
	for i := 0; i < n; i++ {
		p.Messages = append(p.Messages, &utp.PublishMessage{Topic: vcStr("topic", 0, -1), Payload: vcBytes("payload", 0, -1), Ttl: vcStr("ttl", 0, -1)})
	}
	q, ok := vcSend(p)
	if !ok {
		return
	}
	g := q.(*utp.Publish)
	vcAssert("publish identifier and mode", g.MessageID == p.MessageID && g.DeliveryMode == p.DeliveryMode)
	vcAssert("number of messages", len(g.Messages) == n)
	for i := 0; i < n; i++ {
		x, y := g.Messages[i], p.Messages[i]
		vcAssert("message", x.Topic == y.Topic && x.Ttl == y.Ttl && vcEqBytes(x.Payload, y.Payload))
	}
}

func vcRelay(n int) {
	p := &utp.Relay{MessageID: vcU16("id")}
	for i := 0; i < n; i++ {
		p.RelayRequests = append(p.RelayRequests, &utp.RelayRequest{Topic: vcStr("topic", 0, -1), Last: vcStr("last", 0, -1)})
	}
	q, ok := vcSend(p)
	if !ok {
		return
	}
	g := q.(*utp.Relay)
	vcAssert("relay identifier", g.MessageID == p.MessageID)
	vcAssert("number of requests", len(g.RelayRequests) == n)
	for i := 0; i < n; i++ {
		vcAssert("request", *g.RelayRequests[i] == *p.RelayRequests[i])
	}
}

func vcSubscriptions(n int) (s []*utp.Subscription) {
	for i := 0; i < n; i++ {
		s = append(s, &utp.Subscription{DeliveryMode: vcU8("mode"), Delay: vcI32("delay"), Topic: vcStr("topic", 0, -1)})
	}
	return
}

func vcSubscribe(n int) {
	p := &utp.Subscribe{MessageID: vcU16("id"), Subscriptions: vcSubscriptions(n)}
	q, ok := vcSend(p)
	if !ok {
		return
	}
	g := q.(*utp.Subscribe)
	vcAssert("subscribe identifier", g.MessageID == p.MessageID)
	vcAssert("number of subscriptions", len(g.Subscriptions) == n)
	for i := 0; i < n; i++ {
		vcAssert("subscription", *g.Subscriptions[i] == *p.Subscriptions[i])
	}
}

func vcUnsubscribe(n int) {
	p := &utp.Unsubscribe{MessageID: vcU16("id"), Subscriptions: vcSubscriptions(n)}
	q, ok := vcSend(p)
	if !ok {
		return
	}
	g := q.(*utp.Unsubscribe)
	vcAssert("unsubscribe identifier", g.MessageID == p.MessageID)
	vcAssert("number of subscriptions", len(g.Subscriptions) == n)
	for i := 0; i < n; i++ {
		vcAssert("subscription", *g.Subscriptions[i] == *p.Subscriptions[i])
	}
}

func VC_C20_publish0()     { vcPublish(0) }
func VC_C20_publish3()     { vcPublish(3) }
func VC_C20_relay3()       { vcRelay(3) }
func VC_C20_subscribe3()   { vcSubscribe(3) }
func VC_C20_unsubscribe3() { vcUnsubscribe(3) }
