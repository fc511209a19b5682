package unitdb

import (
	"io"

	"github.com/unit-io/unitdb/crypto"
	"github.com/unit-io/unitdb/message"
)

// The contract of reading the messages of a query, over ghosts kept by the
// contracts of the functions it calls: what has been read last, and what became
// of an arbitrary window entry, the first of its sequence number, at vcRP.
var (
	vcRQ      *Query
	vcRP      int
	vcRSeq    uint64
	vcRTried  bool // it has been read
	vcRKept   bool // it is stored and belongs to the query
	vcRAt     int  // as the vcRAt-th message
	vcRCur    bool // it is the one read last
	vcRLast   uint64
	vcRReads  int
	vcRID     []byte
	vcRRaw    []byte // the stored value of the one read last
	vcRPlain  []byte // decrypted
	vcRState  int    // 1 read, 2 message read, 3 decrypted
	vcRCount  int    // messages found
	vcRX      int    // an arbitrary message
	vcRXVal   []byte
	vcRFailed bool
	vcRB      int // an arbitrary byte
)

//verif:model (*github.com/unit-io/unitdb.DB).readEntry only readitems
func vcRReadEntry(db *DB, q _Query) (_IndexEntry, error) {
	vcEnsures("no entry is read after a failure", !vcRFailed)
	vcEnsures("an entry is read once", vcRReads == 0 || q.seq != vcRLast)
	vcEnsures("no entry is read beyond the limit", vcRCount < vcRQ.Limit)
	vcRReads++
	vcRLast = q.seq
	vcRCur = q.seq == vcRSeq && !vcRTried
	if vcRCur {
		vcRTried = true
	}
	vcRState = 0
	if vcNondetBool() {
		return _IndexEntry{}, errMsgIDDeleted
	}
	if vcNondetBool() {
		return _IndexEntry{}, errEntryInvalid
	}
	if vcNondetBool() {
		return _IndexEntry{}, io.EOF
	}
	if vcNondetBool() {
		vcRFailed = true
		return _IndexEntry{}, vcErr()
	}
	vcRState = 1
	return _IndexEntry{seq: q.seq, valueSize: vcNondetU32()}, nil
}

//verif:model (*github.com/unit-io/unitdb._BlockReader).readMessage only readitems
func vcRReadMessage(r *_BlockReader, e _IndexEntry) ([]byte, []byte, error) {
	vcEnsures("the message of the entry is read", vcRState == 1 && e.seq == vcRLast)
	if vcNondetBool() {
		vcRFailed = true
		return nil, nil, vcErr()
	}
	vcRID, vcRRaw = vcNondetBytes(9), vcNondetBytes(vcSize())
	vcRState = 2
	if vcRCur {
		vcRKept = message.ID(vcRID).EvalPrefix(vcRQ.Contract, vcRQ.internal.cutoff)
	}
	return vcRID, vcRRaw, nil
}

func vcSize() int {
	n := vcNondetInt()
	vcAssume(n >= 0 && n <= 1<<32)
	return n
}

func vcRSame(x, y []byte) bool { return len(x) == len(y) && (vcRB >= len(x) || x[vcRB] == y[vcRB]) }

//verif:model (*github.com/unit-io/unitdb/crypto.MAC).Decrypt only readitems
func vcRDecrypt(m *crypto.MAC, dst, src []byte) ([]byte, error) {
	vcEnsures("a message is decrypted if its flag says so", vcRState == 2 && vcRID[8] == 1 && vcRSame(src, vcRRaw))
	if vcNondetBool() {
		vcRFailed = true
		return nil, vcErr()
	}
	vcRPlain = vcNondetBytes(vcSize())
	vcRState = 3
	return vcRPlain, nil
}

//verif:model github.com/golang/snappy.Decode only readitems
func vcRDecode(dst, src []byte) ([]byte, error) {
	if vcRState == 3 {
		vcEnsures("what was decrypted is decoded", vcRSame(src, vcRPlain))
	} else {
		vcEnsures("what was read is decoded, unless it is encrypted", vcRState == 2 && vcRID[8] != 1 && vcRSame(src, vcRRaw))
	}
	vcEnsures("messages of the query only", message.ID(vcRID).EvalPrefix(vcRQ.Contract, vcRQ.internal.cutoff))
	vcRState = 4
	if vcNondetBool() {
		vcRFailed = true
		return nil, vcErr()
	}
	val := vcNondetBytes(vcSize())
	if vcRCount == vcRX {
		vcRXVal = val
	}
	if vcRCur {
		vcRAt = vcRCount
	}
	vcRCount++
	return val, nil
}

//verif:loop (*DB).readItems 0
func vcReadItemsInv(k, n int, q *Query, items [][]byte, lastSeq uint64) bool {
	es := q.internal.winEntries
	if n != k || k > len(es) || vcRFailed || len(items) != vcRCount || vcRCount < 0 || vcRCount > k || vcRCount > q.Limit {
		return false
	}
	if lastSeq != vcRLast && vcRReads > 0 || vcRReads == 0 && lastSeq != 0 || vcRReads < 0 || vcRReads > k {
		return false
	}
	if vcRTried != (vcRP < k) || vcRKept && !vcRTried || k > 0 && es[k-1].seq != 0 && lastSeq != es[k-1].seq || vcRTried && vcRKept && (vcRAt < 0 || vcRAt >= vcRCount) {
		return false
	}
	// the sequence numbers decrease
	if k > 0 && vcRReads > 0 && vcRP >= k && lastSeq <= vcRSeq {
		return false
	}
	return vcRX >= vcRCount || vcRSame(items[vcRX], vcRXVal)
}

// vcReadItems checks the reading of any query's entries.
func vcReadItems() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	n := vcRange("entries", 0, 1<<30)
	vcRQ = &Query{Contract: vcU32("contract"), Limit: vcRange("limit", 1, 1<<30)}
	vcRQ.internal.cutoff = vcI64("cutoff")
	es := make([]_Query, n)
	vcScramble(es)
	vcRQ.internal.winEntries = es
	vcRP, vcRX, vcRB = vcRange("entry", 0, 1<<30), vcRange("message", 0, 1<<30), vcRange("byte", 0, 1<<33)
	// the entries are in order of decreasing sequence, this one the first of its own
	vcAssume(vcRP < n && es[vcRP].seq != 0)
	vcRSeq = es[vcRP].seq
	vcAssume(vcForall(0, n, func(i int) bool {
		return (i >= vcRP || es[i].seq > vcRSeq) && (i <= vcRP || es[i].seq <= vcRSeq)
	}))
	vcAssume(vcForall(0, n-1, func(i int) bool { return es[i+1].seq <= es[i].seq }))
	db := &DB{internal: &_DB{meter: vcMeter(), reader: &_BlockReader{}, mac: &crypto.MAC{}}}
	items, used, err := db.readItems(vcRQ)
	vcEnsures("a failure is reported", (err != nil) == vcRFailed)
	if err != nil {
		return
	}
	vcEnsures("at most the limit", len(items) <= vcRQ.Limit)
	vcEnsures("entries are left out only when the limit is reached", used == n || used < n && len(items) == vcRQ.Limit)
	vcEnsures("every entry used has been read", (vcRP < used) == vcRTried)
	vcEnsures("the messages read of the query, in their order, and no other", len(items) == vcRCount &&
		(vcRX >= vcRCount || vcRSame(items[vcRX], vcRXVal)))
	vcEnsures("each message of the query is among them", !vcRTried || !vcRKept || vcRAt < len(items))
}
