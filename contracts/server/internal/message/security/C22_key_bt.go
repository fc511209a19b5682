package security

import (
	"fmt"
	"strings"
)

// vcWild tells whether a target is a wildcard: it ends in "..." or has a part
// that ends in '*'.
func vcWild(topic string) bool {
	if strings.HasSuffix(topic, "...") {
		return true
	}
	for _, p := range strings.Split(topic, ".") {
		if strings.HasSuffix(p, "*") {
			return true
		}
	}
	return false
}

func vcTopic(v *vcT) string {
	n := 1 + v.rnd.Intn(6)
	if v.rnd.Intn(6) == 0 {
		n = 20 + v.rnd.Intn(6)
	}
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, []string{"a", "b", "team", "dev", "x1", "*", "ab*", "0"}[v.rnd.Intn(8)])
	}
	t := strings.Join(ps, ".")
	if v.rnd.Intn(5) == 0 {
		t += "..."
	}
	if v.rnd.Intn(15) == 0 {
		t = "..."
	}
	return t
}

// BT_C22_keys: keys generated for a topic, as text, against the rules.
func BT_C22_keys(v *vcT) {
	for n := 0; n < 40000 && !v.over(); n++ {
		contract := v.rnd.Uint32() >> uint(v.rnd.Intn(32))
		topic := vcTopic(v)
		perm := uint32(v.rnd.Intn(256))
		text, err := GenerateKey(contract, topic, perm)
		var parts int
		for _, p := range strings.Split(topic, ".") {
			if p != "" {
				parts++
			}
		}
		v.check((err == ErrTargetTooLong) == (parts > 23), "topic %q of %d parts: error %v", topic, parts, err)
		if err != nil {
			continue
		}
		k, err := DecodeKey(text)
		v.check(err == nil, "key %q of topic %q: %v", text, topic, err)
		v.check(k.Permissions() == perm, "key for %q has permissions %d, want %d", topic, k.Permissions(), perm)
		for _, ask := range []uint32{AllowOwner, AllowAdmin, AllowRead, AllowWrite, AllowReadWrite, AllowNone} {
			v.check(k.HasPermission(ask) == (perm&ask == ask), "permissions %d: HasPermission(%d) = %v", perm, ask, k.HasPermission(ask))
		}
		ok, wild := k.ValidateTopic(contract, topic)
		v.check(ok, "key for %q does not validate it", topic)
		v.check(wild == vcWild(topic), "key for %q reports wildcard %v", topic, wild)
		other := vcTopic(v)
		if other != topic {
			ok, _ = k.ValidateTopic(contract, other)
			v.check(ok == (topic == "..."), "key for %q validates %q: %v", topic, other, ok)
		}
		if contract != 0 && len(topic) > 3 && topic != "..." {
			// a different order of the same characters is another topic
			o := topic[1:] + topic[:1]
			ok, _ = k.ValidateTopic(contract, o)
			v.check(o == topic || !ok, "key for %q validates %q", topic, o)
		}
		// the topic carries the key in front and options behind
		for _, opt := range []string{"", "?last=1h", "?ttl=3m&last=10"} {
			p := ParseKey(text + "/" + topic + opt)
			v.check(p.Key == text && p.Topic == topic+opt && p.Size == len(topic), "ParseKey(%q) = %+v", text+"/"+topic+opt, *p)
			v.check(p.TopicType != TopicInvalid, "ParseKey(%q) is invalid", text+"/"+topic)
			ok, _ = k.ValidateTopic(contract, p.Topic[:p.Size])
			v.check(ok, "key for %q does not validate it with options %q", topic, opt)
		}
		v.eval(topic)
	}
}

// BT_C22_anytext: no text crashes the parsers.
func BT_C22_anytext(v *vcT) {
	for n := 0; n < 200000 && !v.over(); n++ {
		b := make([]byte, v.rnd.Intn(20))
		for i := range b {
			b[i] = "a/?.*&=\x00\xff1Z"[v.rnd.Intn(11)]
		}
		s := string(b)
		p := ParseKey(s)
		v.check(p != nil && p.Size <= len(p.Topic), "ParseKey(%q) = %+v", s, p)
		if strings.Trim(s, "/") == "" {
			v.check(p.TopicType == TopicInvalid, "ParseKey(%q) is not invalid", s)
		}
		k, err := DecodeKey(s)
		v.check((err == nil) == (len(s) == 13), "DecodeKey(%q): %v", s, err)
		if err == nil {
			k.ValidateTopic(uint32(n), s)
		}
		v.eval(fmt.Sprint(len(s)))
	}
}
