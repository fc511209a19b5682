package message

import "github.com/unit-io/unitdb/server/utp"

// vcIds is a state of the identifiers with anything resumed and in use.
func vcIds() *MessageIds {
	m := NewMessageIds()
	vcScramble(&m.resume)
	vcScramble(&m.index)
	m.id = MID(vcI32("id"))
	_, neg := m.resume[-1<<31]
	vcAssume(m.id >= 0 && !neg) // the identifiers of packets are not negative
	return &m
}

// Identifiers are skipped upwards, up to the largest.
//
//verif:loop (*MessageIds).NextID 0
func vcInvNext(mids *MessageIds, has_ok, ok bool) bool {
	_, r := mids.resume[mids.id]
	return (mids.id > vcLastID || mids.id == -1<<31) && (!has_ok || ok == r)
}

var vcLastID MID

// VC_C23_next: an identifier handed out is larger than every one before it, so
// it was not handed out since the last reset, and it is not a resumed one.
// Nothing else changes.
func VC_C23_next() {
	m := vcIds()
	vcLastID = m.id
	x := MID(vcI32("other"))
	t, is := m.index[x]
	_, res := m.resume[x]
	kind := utp.MessageType(vcU8("kind"))
	id := m.NextID(kind)
	if id < 0 {
		return // 2^31 identifiers have been used up
	}
	vcAssert("never handed out before", id > vcLastID)
	_, resumed := m.resume[id]
	vcAssert("not a resumed one", !resumed)
	vcAssert("known as handed out", m.id == id)
	vcAssert("its kind is known", m.GetType(id) == kind)
	if x != id {
		t2, is2 := m.index[x]
		vcAssert("the others keep their kind", is == is2 && t == t2)
	}
	_, res2 := m.resume[x]
	vcAssert("resumed ones stay so", res == res2)
}

// VC_C23_resume: a resumed identifier is, and no other; freeing one forgets
// its kind and no other's; a reset starts over.
func VC_C23_resume() {
	m := vcIds()
	a, b := MID(vcI32("a")), MID(vcI32("b"))
	_, was := m.resume[b]
	last := m.id
	m.ResumeID(a)
	_, ra := m.resume[a]
	_, rb := m.resume[b]
	vcAssert("resumed", ra && rb == (was || a == b))
	t := m.GetType(b)
	m.FreeID(a)
	vcAssert("freed", m.GetType(a) == 0)
	vcAssert("others not freed", a == b || m.GetType(b) == t)
	vcAssert("no identifier handed out", m.id == last)
	m.Reset()
	vcAssert("starts over", m.id == 0)
	_, rb2 := m.resume[b]
	vcAssert("resumed ones stay so", rb2 == rb)
}

func vcStats() (*Stats, string, int) {
	s := NewStats()
	for i := 0; i < 2; i++ {
		if vcBool("present") {
			st := &Stat{ID: vcBytes("id", 0, 16), Topic: vcStr("topic", 0, -1), Counter: vcRange("count", 1, 1<<40)}
			s.stats[vcStr("key", 0, -1)] = st
		}
	}
	k := vcStr("k", 0, -1)
	if st, ok := s.stats[k]; ok {
		return s, k, st.Counter
	}
	return s, k, 0
}

// VC_C23_count: a key subscribed n times ends with the nth unsubscribe, and
// only it; the identifier given back is the one it was first subscribed with.
func VC_C23_count() {
	s, k, n := vcStats()
	o := vcStr("other", 0, -1)
	id := vcBytes("newid", 0, 16)
	before, on := false, 0
	if st, ok := s.stats[o]; ok {
		before, on = true, st.Counter
	}
	vcAssert("known exactly when counted", s.Exist(k) == (n > 0))
	old := id
	if n > 0 {
		old = s.stats[k].ID
	}
	first := s.Increment(k, k, id)
	vcAssert("first exactly when not counted", first == (n == 0))
	vcAssert("counted", s.Exist(k) && s.stats[k].Counter == n+1)
	last, got := s.Decrement(k, k)
	vcAssert("last exactly when first", last == first)
	if last {
		vcAssert("the identifier it was subscribed with", vcEqBytes(got, old))
		vcAssert("gone", !s.Exist(k))
		last, got = s.Decrement(k, k)
		vcAssert("unsubscribing what is not subscribed does nothing", !last && got == nil && !s.Exist(k))
	} else {
		vcAssert("back to what it was", s.stats[k].Counter == n && vcEqBytes(s.stats[k].ID, old))
	}
	st, ok := s.stats[o]
	vcAssert("others untouched", ok == before)
	if ok && before {
		vcAssert("others keep their count", st.Counter == on)
	}
}
