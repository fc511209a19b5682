package memdb

import (
	"encoding/binary"

	"github.com/unit-io/bpool"
)

// A record of a block's buffer is its length in 4 bytes, the flag, the key in 8
// bytes and the data. The block invariant, of an arbitrary key: its record lies
// within the buffer, and apart from the record of any other key.
func vcBRecord(off int64) bool {
	if off < 0 || off > vcBufSize-13 {
		return false
	}
	n := int64(binary.LittleEndian.Uint32(vcBuf[off : off+4]))
	return n >= 13 && n <= vcBufSize-off
}

func vcBLen(off int64) int64 { return int64(binary.LittleEndian.Uint32(vcBuf[off : off+4])) }

// vcBHolds: the record at the offset is the key's.
func vcBHolds(off int64, k _Key) bool {
	return vcBuf[off+4] == k.delFlag && binary.LittleEndian.Uint64(vcBuf[off+5:off+13]) == k.key
}

var vcBX int // an arbitrary byte of a payload

func vcBSame(x, y []byte) bool {
	return len(x) == len(y) && (vcBX >= len(x) || x[vcBX] == y[vcBX])
}

// vcBBlock makes a block of any contents.
func vcBBlock() *_Block {
	vcBufSize = vcI64("size")
	vcAssume(vcBufSize >= 0 && vcBufSize < 1<<40)
	vcBuf = make([]byte, 1<<41)
	vcScramble(vcBuf)
	b := &_Block{data: &bpool.Buffer{}, records: map[_Key]int64{}, count: vcI64("count")}
	vcScramble(b.records)
	vcAssume(b.count >= 0 && b.count < 1<<40)
	vcBX = vcRange("x", 0, 1<<40)
	return b
}

func vcBKey(name string) _Key {
	k := _Key{delFlag: vcU8(name + " flag"), key: vcU64(name)}
	vcAssume(k.delFlag <= 1)
	return k
}

// vcBOther assumes the invariant of an arbitrary other record, and returns it.
func vcBOther(b *_Block, not _Key) (_Key, int64, bool) {
	k := vcBKey("other")
	vcAssume(k != not)
	off, ok := b.records[k]
	vcAssume(!ok || vcBRecord(off) && vcBHolds(off, k))
	return k, off, ok
}

// vcMemKeys: internal keys are the keys, and apart for records of deletions.
func vcMemKeys() {
	k := vcU64("key")
	d := vcBool("deleted")
	ik := iKey(d, k)
	vcEnsures("the key", ik.key == k && (ik.delFlag == 1) == d && ik.delFlag <= 1)
}

// vcMemPut: a record put, of any key, is read back with its data; the records
// of all other keys stay as they are, as do all when it fails; the count goes up
// by one if the key, not of a deletion, is new.
func vcMemPut() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	b := vcBBlock()
	k := vcBKey("key")
	old, had := b.records[k]
	k2, off2, has2 := vcBOther(b, k)
	at := vcI64("at") // an arbitrary byte of the buffer
	vcAssume(at >= 0 && at < vcBufSize)
	was := vcBuf[at]
	count, size := b.count, vcBufSize
	data := make([]byte, vcRange("n", 0, 1<<31))
	vcScramble(data)

	err := b.put(k, data)

	off, found := b.records[k]
	if err != nil {
		vcEnsures("a failure changes nothing", found == had && off == old && b.count == count && vcBufSize == size)
	} else {
		vcEnsures("the record is the key's", found && off == size && vcBRecord(off) && vcBHolds(off, k) && vcBufSize == off+vcBLen(off))
		got, err := b.get(off)
		vcEnsures("and has its data", err == nil && vcBSame(got, data))
		if !had && k.delFlag == 0 {
			vcEnsures("a new key counts", b.count == count+1)
		} else {
			vcEnsures("no other counts", b.count == count)
		}
	}
	now, has := b.records[k2]
	vcEnsures("no other key changes", has == has2 && now == off2)
	vcEnsures("nor any of the records before", vcBuf[at] == was)
	vcEnsures("which the buffer still holds", vcBufSize >= size)
	if has2 {
		vcCover("another record")
	}
}

// vcMemDel: a deletion removes the key alone, marks its record, and counts
// once; deleting a key that is not there changes nothing.
func vcMemDel() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	b := vcBBlock()
	key := vcU64("key")
	k := _Key{key: key}
	off, had := b.records[k]
	vcAssume(!had || vcBRecord(off) && vcBHolds(off, k) && b.count > 0)
	k2, off2, has2 := vcBOther(b, k)
	at, was := vcI64("at"), byte(0) // an arbitrary byte of the buffer, or of the other record's data
	vcAssume(at >= 0 && at < vcBufSize)
	was = vcBuf[at]
	if had && has2 {
		vcAssume(off2+vcBLen(off2) <= off || off+vcBLen(off) <= off2)
	}
	var mine []byte
	len2, inRec := int64(0), false
	if has2 {
		len2 = vcBLen(off2)
		inRec = at >= off2 && at < off2+len2
	}
	if had {
		mine, _ = b.get(off)
	}
	count, size := b.count, vcBufSize

	err := b.delete(key)

	_, found := b.records[k]
	vcEnsures("the key is gone", !found && vcBufSize == size)
	if had {
		vcEnsures("deleted", err == nil && b.count == count-1)
		vcEnsures("its record is one of a deletion", vcBRecord(off) && vcBHolds(off, _Key{delFlag: 1, key: key}))
		after, err := b.get(off)
		vcEnsures("of the same length and data", err == nil && vcBSame(after, mine))
		vcCover("deleted")
	} else {
		vcEnsures("there was no such key", err == errEntryDoesNotExist && b.count == count)
	}
	vcEnsures("nothing else is overwritten", vcBuf[at] == was || had && at >= off+4 && at < off+13)
	now, has := b.records[k2]
	vcEnsures("no other key changes", has == has2 && now == off2)
	if has2 {
		vcEnsures("nor any of its record", !inRec || vcBuf[at] == was)
	}
}
