package internal

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/internal/message/security"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"github.com/unit-io/unitdb/server/internal/store"
	"github.com/unit-io/unitdb/server/utp"
)

// vcPeer is a connection and what it was sent.
type vcPeer struct {
	c        *_Conn
	contract uint32
	got      map[string]int // payload to how often it was delivered
	notified map[uint16]int // identifier to how often it was announced
	bad      string
	flush    chan chan bool
	counts   map[string]int // model: topic to how often it is subscribed
	modes    map[string]uint8
	payload  map[string]string // payload to topic it was received under
}

func vcNewPeer(v *vcT, s *_Service, contract uint32) *vcPeer {
	a, b := net.Pipe()
	go func() {
		buf := make([]byte, 1024)
		for {
			if _, err := b.Read(buf); err != nil {
				return
			}
		}
	}()
	c := s.newConn(a)
	id, err := uid.NewClientID(1)
	if err != nil {
		v.failf("client id: %v", err)
	}
	id.SetContract(contract)
	c.clientID, c.insecure = id, true
	p := &vcPeer{c: c, contract: contract, got: map[string]int{}, notified: map[uint16]int{}, flush: make(chan chan bool), counts: map[string]int{}, modes: map[string]uint8{}, payload: map[string]string{}}
	go p.drain()
	return p
}

func (p *vcPeer) drain() {
	send := p.c.send
	take := func(m interface{}) {
		switch x := m.(type) {
		case *utp.Publish:
			for _, q := range x.Messages {
				p.got[string(q.Payload)]++
				p.payload[string(q.Payload)] = q.Topic
			}
		case *utp.ControlMessage:
			if x.FlowControl == utp.NOTIFY {
				p.notified[x.MessageID]++
			}
		}
	}
	for {
		select {
		case m := <-p.c.pub:
			take(m)
		case m, ok := <-send:
			if !ok {
				send = nil
				continue
			}
			take(m)
		case r := <-p.flush:
			for more := send != nil; more; {
				select {
				case m, ok := <-send:
					if ok {
						take(m)
					} else {
						send, more = nil, false
					}
				default:
					more = false
				}
			}
			r <- true
		}
	}
}

func (p *vcPeer) wait() { r := make(chan bool); p.flush <- r; <-r }

func vcLevels(s string) (lv []string, multi bool) {
	multi = strings.HasSuffix(s, "...")
	for _, p := range strings.Split(s, ".") {
		if p != "" {
			lv = append(lv, p)
		}
	}
	return
}

func vcReaches(sub, topic string) bool {
	sl, multi := vcLevels(sub)
	ql, _ := vcLevels(topic)
	if multi && len(ql) <= len(sl) || !multi && len(ql) != len(sl) {
		return false
	}
	for i := range sl {
		if sl[i] != "*" && sl[i] != ql[i] {
			return false
		}
	}
	return true
}

func vcSubTopic(rnd *rand.Rand, wild bool) string {
	n := 1 + rnd.Intn(3)
	lv := make([]string, n)
	for i := range lv {
		lv[i] = []string{"a", "b", "unit8", "c1"}[rnd.Intn(4)]
		if wild && rnd.Intn(4) == 0 {
			lv[i] = "*"
		}
	}
	t := strings.Join(lv, ".")
	if wild && rnd.Intn(4) == 0 {
		t += "..."
	}
	return t
}

// BT_C23_deliver: histories of subscribe, unsubscribe, publish, connect and
// close through the real handlers and the real store, against a count per
// connection and topic. Bounds: up to 6 connections of 2 contracts, 4 words,
// up to 3 levels, about 60 steps a history.
func BT_C23_deliver(v *vcT) {
	s := vcService(v)
	defer store.Close()
	var seq int
	for n := 0; n < 100000 && !v.over(); n++ {
		vcDeliver(v, s, &seq)
	}
}

func vcDeliver(v *vcT, s *_Service, seq *int) {
	rnd := v.rnd
	contracts := []uint32{rnd.Uint32() | 1, rnd.Uint32() | 1}
	var peers []*vcPeer
	var log []string
	note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	fail := func(f string, a ...interface{}) {
		if len(log) > 40 {
			log = log[len(log)-40:]
		}
		v.failf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(log, "; "))
	}
	open := func() {
		peers = append(peers, vcNewPeer(v, s, contracts[rnd.Intn(2)]))
	}
	closePeer := func(i int) {
		p := peers[i]
		note("close %d", p.c.connID)
		if err := p.c.close(); err != nil {
			fail("close: %v", err)
		}
		peers = append(peers[:i], peers[i+1:]...)
	}
	open()
	open()
	defer func() {
		for len(peers) > 0 {
			closePeer(0)
		}
	}()
	topics := make([]string, 5)
	for i := range topics {
		topics[i] = vcSubTopic(rnd, true)
	}
	steps := 20 + rnd.Intn(60)
	for i := 0; i < steps; i++ {
		p := peers[rnd.Intn(len(peers))]
		switch k := rnd.Intn(20); {
		case k < 1 && len(peers) < 6:
			open()
		case k < 2 && len(peers) > 1:
			closePeer(rnd.Intn(len(peers)))
		case k < 8:
			t := topics[rnd.Intn(len(topics))]
			mode := uint8(rnd.Intn(2))
			note("%d subscribes %q key %d mode %d", p.c.connID, t, k, mode)
			m := &utp.Subscribe{MessageID: uint16(i), Subscriptions: []*utp.Subscription{{DeliveryMode: mode, Topic: fmt.Sprintf("key%d/%s", rnd.Intn(2), t)}}}
			if err := p.c.handler(m); err != nil {
				fail("subscribe: %v", err)
			}
			if p.counts[t]++; p.counts[t] == 1 {
				p.modes[t] = mode
			}
		case k < 12:
			t := topics[rnd.Intn(len(topics))]
			note("%d unsubscribes %q", p.c.connID, t)
			m := &utp.Unsubscribe{MessageID: uint16(i), Subscriptions: []*utp.Subscription{{Topic: fmt.Sprintf("key%d/%s", rnd.Intn(2), t)}}}
			if err := p.c.handler(m); err != nil {
				fail("unsubscribe: %v", err)
			}
			if p.counts[t]--; p.counts[t] <= 0 {
				delete(p.counts, t)
			}
		default:
			*seq++
			t := vcSubTopic(rnd, false)
			if rnd.Intn(2) == 0 {
				t = strings.Replace(strings.TrimSuffix(topics[rnd.Intn(len(topics))], "..."), "*", "b", -1)
			}
			mode := uint8(rnd.Intn(2))
			body := fmt.Sprintf("m%d", *seq)
			id := uint16(*seq)
			if id == 0 {
				id = 1
			}
			note("%d publishes %q mode %d id %d", p.c.connID, t, mode, id)
			pm := &utp.PublishMessage{Topic: "key0/" + t, Payload: []byte(body)}
			pub := utp.Publish{MessageID: id, DeliveryMode: mode, Messages: []*utp.PublishMessage{pm}}
			want := func(q *vcPeer) (sent, told int) {
				if q.contract != p.contract {
					return
				}
				for sub := range q.counts {
					if vcReaches(sub, t) {
						if mode == 1 && q.modes[sub] == 1 {
							told++
						} else {
							sent++
						}
					}
				}
				return
			}
			total := 0
			for _, q := range peers {
				sent, told := want(q)
				total += sent + told
			}
			// in the background only where it can be told that it has started
			async := total > 0 && rnd.Intn(4) == 0
			note("async %v", async)
			if async {
				if err := p.c.handler(&pub); err != nil {
					fail("publish: %v", err)
				}
			} else if err := p.c.publish(pub, security.ParseKey(pm.Topic), pm); err != nil {
				fail("publish: %v", err)
			}
			v.eval(fmt.Sprint(len(peers), mode, t))
			for _, q := range peers {
				sent, told := want(q)
				q.wait()
				for try := 0; async && try < 2000 && (q.got[body] < sent || q.notified[id] < told); try++ {
					time.Sleep(5 * time.Millisecond)
					q.wait()
				}
				if q.got[body] != sent || q.notified[id] != told {
					fail("%q published to %q: connection %d (subscribed to %v) received it %d times and was notified %d times, expected %d and %d", body, t, q.c.connID, q.counts, q.got[body], q.notified[id], sent, told)
				}
				if sent > 0 && q.payload[body] != t {
					fail("%q published to %q was received under %q", body, t, q.payload[body])
				}
				delete(q.got, body)
				delete(q.notified, id)
				delete(q.payload, body)
			}
		}
	}
	// no delivery may come late
	for _, q := range peers {
		q.wait()
		if len(q.got) > 0 || len(q.notified) > 0 {
			fail("connection %d received %v and was notified of %v more often than it should", q.c.connID, q.got, q.notified)
		}
	}
}

// BT_C23_ids: identifiers handed out while others are resumed, against a set.
// Bound: histories of up to 400 operations.
func BT_C23_ids(v *vcT) {
	for n := 0; n < 20000 && !v.over(); n++ {
		m := vcNewPeerIds()
		used := map[int64]bool{}
		resumed := map[int64]bool{}
		kinds := map[int64]utp.MessageType{}
		for i := 0; i < 1+v.rnd.Intn(400); i++ {
			switch v.rnd.Intn(6) {
			case 0:
				id := int64(v.rnd.Intn(300))
				m.ResumeID(vcMID(id))
				resumed[id] = true
			case 1:
				id := int64(v.rnd.Intn(300))
				m.FreeID(vcMID(id))
				delete(kinds, id)
			case 2:
				if v.rnd.Intn(20) == 0 {
					m.Reset()
					used = map[int64]bool{}
				}
			default:
				k := utp.MessageType(v.rnd.Intn(15))
				id := int64(m.NextID(k))
				v.check(!used[id], "identifier %d handed out twice", id)
				v.check(!resumed[id], "resumed identifier %d handed out", id)
				used[id], kinds[id] = true, k
			}
			if v.rnd.Intn(10) == 0 {
				id := int64(v.rnd.Intn(300))
				v.check(m.GetType(vcMID(id)) == kinds[id], "type of %d is %v, expected %v", id, m.GetType(vcMID(id)), kinds[id])
			}
		}
		v.eval(fmt.Sprint(len(used), len(resumed)))
	}
}
