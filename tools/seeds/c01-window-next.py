prop='C01'; pkg='.'
needs='a window file above 4 GB: the link to the previous block does not fit in 32 bits'
breaks='The next link of a window block is cut to 32 bits when written.'
edits=[('time_window.go','binary.LittleEndian.PutUint64(buf[16:24], uint64(b.next))','binary.LittleEndian.PutUint64(buf[16:24], uint64(uint32(b.next)))')]
demo='''
package unitdb

import "testing"

func TestSeedDemo(t *testing.T) {
	b := _WinBlock{next: 5 << 30, topicHash: 9, entryIdx: 3}
	var c _WinBlock
	c.unmarshalBinary(b.marshalBinary())
	if c.next != b.next {
		t.Fatal(c.next)
	}
}
'''
