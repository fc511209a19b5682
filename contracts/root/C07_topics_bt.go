package unitdb

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/unit-io/unitdb/hash"
	"github.com/unit-io/unitdb/message"
)

func vcTopicLevels(s string) (lv []string, multi bool) {
	if strings.HasSuffix(s, "...") {
		multi = true
	}
	for _, p := range strings.Split(s, ".") {
		if p != "" {
			lv = append(lv, p)
		}
	}
	return
}

// vcTopicMatch decides from the texts whether a query for the static topic q
// reaches messages stored under s.
func vcTopicMatch(s, q string) bool {
	sl, multi := vcTopicLevels(s)
	ql, _ := vcTopicLevels(q)
	if multi && len(ql) <= len(sl) || !multi && len(ql) != len(sl) {
		return false
	}
	for i := range sl {
		if sl[i] != "*" && sl[i] != ql[i] {
			return false
		}
	}
	return true
}

func vcTopicText(rnd *rand.Rand, words []string, wild bool) string {
	n := 1 + rnd.Intn(4)
	switch rnd.Intn(12) {
	case 0:
		n = 1 + rnd.Intn(9)
	case 1:
		n = 1
	case 2:
		if rnd.Intn(8) == 0 {
			n = 90 + rnd.Intn(10)
		}
	}
	lv := make([]string, n)
	for i := range lv {
		lv[i] = words[rnd.Intn(len(words))]
		if wild && rnd.Intn(3) == 0 {
			lv[i] = "*"
		}
	}
	t := strings.Join(lv, ".")
	if wild && rnd.Intn(3) == 0 {
		if rnd.Intn(12) == 0 {
			return "..."
		}
		t += "..."
	}
	return t
}

// BT_C07_match: topics stored through the real parser, encoding and trie,
// queried with static topics and compared with matching on the texts. Bounds:
// up to 60 stored topics of up to 100 levels over up to 5 words in up to 4
// contracts per case. Words whose 32-bit hashes collide are not used together.
func BT_C07_match(v *vcT) {
	mu := newMutex()
	for n := 0; !v.over() && n < 200000; n++ {
		vcTopicCase(v, n, mu)
	}
}

func vcTopicCase(v *vcT, n int, mu _Mutex) {
	rnd := rand.New(rand.NewSource(v.seed*31337 + int64(n)))
	pool := []string{"a", "b", "c", "unit", "b1", "b11", "1b1", "teams", "alpha", "ch1", "abcdefghi", "ihgfedcba", "x y", "é", "A"}
	rnd.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	words := pool[:1+rnd.Intn(5)]
	contracts := []uint32{message.MasterContract, rnd.Uint32() | 1, 0, 7}
	contracts[2] = contracts[1] ^ 0x01000000
	contracts = contracts[:1+rnd.Intn(4)]
	for _, c := range contracts {
		seen := map[uint32]string{message.Wildcard: "..."}
		for _, w := range words {
			h := hash.WithSalt([]byte(w), c)
			if _, ok := seen[h]; ok {
				return
			}
			seen[h] = w
		}
	}
	parse := func(c uint32, text string) *message.Topic {
		t := new(message.Topic)
		t.ParseKey([]byte(text))
		t.Parse(c, true)
		if t.TopicType == message.TopicInvalid {
			v.failf("case %d: topic %q is refused", n, text)
		}
		t.AddContract(c)
		return t
	}
	type stored struct {
		c    uint32
		text string
	}
	tr := &_Trie{mutex: mu, topicTrie: newTopicTrie()}
	byHash := map[uint64]stored{}
	known := map[stored]uint64{}
	var all []stored
	for i := 1 + rnd.Intn(60); i > 0; i-- {
		s := stored{contracts[rnd.Intn(len(contracts))], vcTopicText(rnd, words, rnd.Intn(2) == 0)}
		if lv, multi := vcTopicLevels(s.text); len(lv) > 0 { // one spelling per topic
			s.text = strings.Join(lv, ".")
			if multi {
				s.text += "..."
			}
		}
		if _, ok := known[s]; ok {
			continue
		}
		text := s.text
		if rnd.Intn(3) == 0 {
			text += "?ttl=1h"
		}
		t := parse(s.c, text)
		h := t.GetHash(s.c)
		if o, ok := byHash[h]; ok {
			v.failf("case %d: topics %q of contract %d and %q of contract %d share the hash %x", n, o.text, o.c, s.text, s.c, h)
		}
		byHash[h], known[s] = s, h
		all = append(all, s)
		u := new(message.Topic)
		if err := u.Unmarshal(t.Marshal()); err != nil {
			v.failf("case %d: topic %q: %v", n, s.text, err)
		}
		if !tr.add(newTopic(h, int64(4096*len(all))), u.Parts, u.Depth) {
			v.failf("case %d: topic %q is not added", n, s.text)
		}
	}
	query := func(c uint32, text string) map[stored]bool {
		q := &Query{Topic: []byte(text), Contract: c, internal: _InternalQuery{opts: &_QueryOptions{defaultQueryLimit: 10, maxQueryLimit: 10}}}
		if err := q.parse(); err != nil {
			v.failf("case %d: query %q: %v", n, text, err)
		}
		got := map[stored]bool{}
		for _, tp := range tr.lookup(q.internal.parts, q.internal.depth, q.internal.topicType) {
			s, ok := byHash[tp.hash]
			if !ok || got[s] {
				v.failf("case %d: query %q returns an unknown or repeated topic", n, text)
			}
			if tp.offset == 0 || all[tp.offset/4096-1] != s {
				v.failf("case %d: query %q returns the offset of another topic", n, text)
			}
			got[s] = true
		}
		return got
	}
	for i := 0; i < 20; i++ {
		c := contracts[rnd.Intn(len(contracts))]
		text := vcTopicText(rnd, words, false)
		if rnd.Intn(2) == 0 { // fill in the wildcards of a stored topic
			s := all[rnd.Intn(len(all))]
			lv, multi := vcTopicLevels(s.text)
			lv = append([]string{}, lv...)
			for j := range lv {
				if lv[j] == "*" {
					lv[j] = words[rnd.Intn(len(words))]
				}
			}
			if multi {
				for k := rnd.Intn(4); k >= 0; k-- {
					lv = append(lv, words[rnd.Intn(len(words))])
				}
			}
			if len(lv) > message.TopicMaxDepth || len(lv) == 0 {
				continue
			}
			c, text = s.c, strings.Join(lv, ".")
		}
		got := query(c, text)
		for _, s := range all {
			want := s.c == c && vcTopicMatch(s.text, text)
			if got[s] != want {
				v.failf("case %d: query for %q in contract %d reaches messages of topic %q in contract %d: %v, expected %v", n, text, c, s.text, s.c, got[s], want)
			}
		}
	}
	for i := 0; i < 6; i++ { // a topic reaches its own messages, wildcard or not
		s := all[rnd.Intn(len(all))]
		if !query(s.c, s.text)[s] {
			v.failf("case %d: query for %q does not reach messages stored under it", n, s.text)
		}
	}
	v.eval(fmt.Sprint(n, all[0]))
}

// BT_C07_text: arbitrary topic texts never crash parsing; texts without a level
// and texts above the supported depth are refused. Bounds: texts up to 600 bytes
// over a small alphabet.
func BT_C07_text(v *vcT) {
	rnd := rand.New(rand.NewSource(v.seed))
	alpha := "a.*?b=&.*"
	for n := 0; n < 20000 && !v.over(); n++ {
		b := make([]byte, rnd.Intn(1+rnd.Intn(24)))
		if n%500 == 0 {
			b = make([]byte, rnd.Intn(600))
		}
		for i := range b {
			b[i] = alpha[rnd.Intn(len(alpha))]
		}
		text := string(b)
		t := new(message.Topic)
		t.ParseKey([]byte(text))
		t.Parse(1, true)
		key := ""
		for _, p := range strings.Split(text, "?") {
			if p != "" {
				key = p
				break
			}
		}
		lv, multi := vcTopicLevels(key)
		bad := len(lv) == 0 && !multi || len(lv) > message.TopicMaxDepth
		if got := t.TopicType == message.TopicInvalid; got != bad {
			v.failf("topic %q refused: %v, expected %v", text, got, bad)
		}
		if !bad {
			t.AddContract(1)
			u := new(message.Topic)
			if err := u.Unmarshal(t.Marshal()); err != nil || u.Depth != t.Depth || fmt.Sprint(u.Parts) != fmt.Sprint(t.Parts) {
				v.failf("topic %q does not survive its encoding", text)
			}
		}
		v.eval(text)
	}
}
