package internal

import (
	"fmt"
	"net"

	"github.com/unit-io/unitdb/server/internal/message/security"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"github.com/unit-io/unitdb/server/internal/store"
	"github.com/unit-io/unitdb/server/internal/types"
	"github.com/unit-io/unitdb/server/utp"
)

// BT_C22_guard: requests on a connection that validates keys, with keys of
// every combination of permissions, for the topic itself, another topic, a
// wildcard topic and every topic, and with texts that are no keys. Bounds: up
// to 4 levels of 3 words.
func BT_C22_guard(v *vcT) {
	s := vcService(v)
	defer store.Close()
	rnd := v.rnd
	a, b := net.Pipe()
	defer b.Close()
	c := s.newConn(a)
	id, err := uid.NewClientID(1)
	if err != nil {
		v.failf("client id: %v", err)
	}
	c.clientID = id
	go func() {
		for {
			select {
			case <-c.pub:
			case <-c.send:
			}
		}
	}()
	words := []string{"alpha", "beta", "c"}
	topic := func() (t string) {
		for i := 0; i <= rnd.Intn(4); i++ {
			if i > 0 {
				t += "."
			}
			t += words[rnd.Intn(3)]
		}
		return
	}
	for n := 0; n < 20000 && !v.over(); n++ {
		t := topic()
		target, valid, wild := t, true, false
		switch rnd.Intn(5) {
		case 0:
			target, wild = "...", true
		case 1:
			target = topic()
			valid = target == t
		case 2:
			t += ".*"
			target, wild = t, true
		}
		perm := uint32(rnd.Intn(256))
		key, err := security.GenerateKey(id.Contract(), target, perm)
		v.check(err == nil, "no key for %q: %v", target, err)
		switch rnd.Intn(8) {
		case 0:
			key, valid = key[:rnd.Intn(len(key))], false
			if len(key) == 0 {
				continue
			}
		case 1:
			key, valid = "nokey", false
		}
		full := key + "/" + t
		what := fmt.Sprintf("key for %q with permissions %d used for %q", target, perm, t)
		read, write := perm&security.AllowRead != 0, perm&security.AllowWrite != 0
		want := func(name string, got *types.Error, ok bool) {
			v.check((got == nil) == ok, "%s: %s answered %v, expected allowed %v", what, name, got, ok)
		}
		want("subscribe", c.onSubscribe(utp.Subscribe{}, &utp.Subscription{Topic: full}), valid && read)
		want("unsubscribe", c.onUnsubscribe(utp.Unsubscribe{}, &utp.Subscription{Topic: full}), valid && read)
		want("relay", c.onRelay(&utp.RelayRequest{Topic: full}), valid && read)
		pub := utp.Publish{MessageID: 1, Messages: []*utp.PublishMessage{{Topic: full, Payload: []byte("x")}}}
		want("publish", c.onPublish(pub), valid && write && !wild)
		v.eval(fmt.Sprint(valid, wild, perm, len(target), len(t)))
	}
}
