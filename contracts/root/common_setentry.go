package unitdb

import (
	"encoding/binary"

	"github.com/unit-io/unitdb/crypto"
	"github.com/unit-io/unitdb/message"
)

// The contract of setting an entry, over ghosts kept by the contracts of the
// functions it calls.
var (
	vcSE        *Entry
	vcSContract uint32
	vcSTopic    *message.Topic
	vcSTTL      uint32
	vcSInvalid  bool
	vcSHash     uint64
	vcSOffset   int64
	vcSRaw      []byte // the topic's binary form
	vcSMarshals int
	vcSEncoded  []byte
	vcSPlain    bool // it has been compressed
	vcSSealed   []byte
	vcSCrypts   int
	vcSB        int // an arbitrary byte
)

//verif:model (*github.com/unit-io/unitdb.DB).parseTopic only setentry
func vcSParseTopic(db *DB, contract uint32, topic []byte) (*message.Topic, uint32, error) {
	vcEnsures("the entry's topic is parsed under its contract", contract == vcSContract && len(topic) == len(vcSE.Topic) && &topic[0] == &vcSE.Topic[0])
	if vcNondetBool() {
		vcSInvalid = true
		return nil, 0, errBadRequest
	}
	n := vcNondetInt()
	vcAssume(n >= 1 && n <= 100)
	vcSTopic = &message.Topic{Parts: make([]message.Part, n)}
	vcSTTL = vcNondetU32()
	return vcSTopic, vcSTTL, nil
}

//verif:model (*github.com/unit-io/unitdb/message.Topic).GetHash only setentry
func vcSGetHash(t *message.Topic, contract uint32) uint64 {
	vcEnsures("the topic is hashed with its contract", t == vcSTopic && contract == vcSContract && t.Parts[0].Hash == vcSContract)
	vcSHash = vcNondetU64()
	return vcSHash
}

//verif:model (*github.com/unit-io/unitdb._Trie).getOffset only setentry
func vcSGetOffset(t *_Trie, hash uint64) (int64, bool) {
	vcEnsures("the topic is looked up", hash == vcSHash)
	if vcNondetBool() {
		return 0, false
	}
	vcSOffset = vcNondetI64()
	return vcSOffset, true
}

// The contract of Marshal, proved for C07.
//
//verif:model (*github.com/unit-io/unitdb/message.Topic).Marshal only setentry
func vcSMarshal(t *message.Topic) []byte {
	vcEnsures("the topic is packed with its contract", t == vcSTopic && t.Parts[0].Hash == vcSContract)
	vcSMarshals++
	vcSRaw = vcNondetBytes(1 + 5*len(t.Parts))
	return vcSRaw
}

//verif:model github.com/golang/snappy.Encode only setentry
func vcSEncode(dst, src []byte) []byte {
	vcEnsures("the payload is compressed", len(src) == len(vcSE.Payload) && (vcSB >= len(src) || src[vcSB] == vcSE.Payload[vcSB]))
	n := vcNondetInt()
	vcAssume(n >= 1 && n <= 1<<31) // MaxEncodedLen of a payload
	vcSEncoded = vcNondetBytes(n)
	vcSPlain = true
	return vcSEncoded
}

//verif:model (*github.com/unit-io/unitdb/crypto.MAC).Encrypt only setentry
func vcSEncrypt(m *crypto.MAC, dst, src []byte) []byte {
	vcEnsures("the compressed payload is encrypted", vcSPlain && len(src) == len(vcSEncoded) && (vcSB >= len(src) || src[vcSB] == vcSEncoded[vcSB]))
	vcSCrypts++
	vcSSealed = vcNondetBytes(len(src) + 40)
	return vcSSealed
}

// vcSetEntry checks the setting of any entry.
func vcSetEntry() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := &DB{internal: &_DB{mac: &crypto.MAC{}, trie: &_Trie{}}}
	before := vcU64("sequence")
	vcAssume(before < 1<<63)
	db.internal.dbInfo.sequence = before
	db.internal.dbInfo.encryption = int8(vcRange("db encryption", 0, 1))
	vcSContract = vcU32("contract")
	vcSE = &Entry{Topic: make([]byte, vcRange("topic", 1, 65536)), Payload: make([]byte, vcRange("payload", 0, 1<<30)),
		Contract: vcSContract, ExpiresAt: vcU32("expires"), Encryption: vcBool("encryption")}
	vcScramble(vcSE.Topic)
	vcScramble(vcSE.Payload)
	if vcSContract == 0 {
		vcSContract = message.MasterContract
	}
	n := vcRange("id", 0, 40)
	if n > 0 {
		vcSE.ID = make([]byte, n)
		vcScramble(vcSE.ID)
	}
	var idSeq uint64
	if n == 16 {
		idSeq = message.ID(vcSE.ID).Sequence()
	}
	vcSB = vcRange("byte", 0, 1<<33)
	expires, enc, payload := vcSE.ExpiresAt, vcSE.Encryption || db.internal.dbInfo.encryption == 1, vcSE.Payload
	err := db.setEntry(vcSE)
	refused := vcSInvalid || n != 0 && (n != 16 || idSeq == 0)
	vcEnsures("only an invalid topic or ID is refused", (err != nil) == refused && (err == nil || err == errBadRequest))
	if err != nil || n != 0 {
		vcEnsures("no sequence number is assigned", db.internal.dbInfo.sequence == before)
		if err != nil {
			return
		}
	}
	e := vcSE.entry
	want := idSeq
	if n == 0 {
		vcEnsures("the next sequence number is assigned", db.internal.dbInfo.sequence == before+1)
		want = before + 1
	}
	vcEnsures("sequence", e.seq == want && e.seq != 0)
	vcEnsures("topic", e.topicHash == vcSHash && vcSE.Contract == vcSContract)
	if expires == 0 {
		vcEnsures("the topic's time to live counts if the entry has no expiry", e.expiresAt == vcSTTL)
	} else {
		vcEnsures("the entry's expiry", e.expiresAt == expires)
	}
	if vcSOffset == 0 {
		vcEnsures("a topic not synced yet is packed", vcSMarshals == 1 && int(e.topicSize) == len(vcSRaw))
	} else {
		vcEnsures("another topic is not", vcSMarshals == 0 && e.topicSize == 0)
	}
	val := vcSEncoded
	if enc {
		vcEnsures("encrypted as asked", vcSCrypts == 1)
		val = vcSSealed
	} else {
		vcEnsures("not encrypted unasked", vcSCrypts == 0)
	}
	m := int(e.topicSize)
	vcEnsures("value", int(e.valueSize) == len(val))
	vcEnsures("size", len(e.cache) == 26+9+m+len(val))
	// the entry header
	vcEnsures("header", binary.LittleEndian.Uint64(e.cache[0:8]) == e.seq && binary.LittleEndian.Uint16(e.cache[8:10]) == e.topicSize &&
		binary.LittleEndian.Uint32(e.cache[10:14]) == e.valueSize && binary.LittleEndian.Uint32(e.cache[14:18]) == e.expiresAt &&
		binary.LittleEndian.Uint64(e.cache[18:26]) == e.topicHash)
	vcEnsures("the ID carries the contract", message.ID(e.cache[26:34]).EvalPrefix(vcSContract, 0))
	flag := byte(0)
	if enc {
		flag = 1
	}
	vcEnsures("the encryption flag", e.cache[34] == flag)
	vcEnsures("the packed topic", m == 0 || vcSB >= m || e.cache[35+vcSB] == vcSRaw[vcSB])
	vcEnsures("the value", vcSB >= len(val) || e.cache[35+m+vcSB] == val[vcSB])
	vcEnsures("the payload given is unchanged", len(vcSE.Payload) == len(payload) && (len(payload) == 0 || &vcSE.Payload[0] == &payload[0]))
	vcCover("an entry is set")
}
