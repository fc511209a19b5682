prop='C03'; pkg='.'
needs='one write of at least three separate runs of three or more neighbouring index blocks (gaps in the sequence, from IDs that were leased and not used)'
breaks='The third run of index blocks is written from the wrong place of the buffer: its entries are lost.'
edits=[('block_writer.go','		if _, err := w.indexFile.WriteAt(blockData, blockOff); err != nil {\n			return err\n		}\n		bufOff = w.buffer.Size()','		if _, err := w.indexFile.WriteAt(blockData, blockOff); err != nil {\n			return err\n		}\n		bufOff = int64(len(blockData))')]
demo='''
package unitdb

import (
	"fmt"
	"os"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	db, err := Open(os.Getenv("DEMO_DIR") + "/db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	n := 0
	for run := 0; run < 4; run++ {
		for i := 0; i < 255*4; i++ {
			if i%51 == 0 {
				if err := db.Put([]byte(fmt.Sprintf("run%d", run)), []byte(fmt.Sprintf("payload %d", n))); err != nil {
					t.Fatal(err)
				}
				n++
				continue
			}
			db.NewID()
		}
		for i := 0; i < 600; i++ {
			db.NewID()
		}
	}
	for i := 0; db.internal.mem.Size() > 0; i++ {
		if i > 100 {
			t.Fatal("not synced")
		}
		time.Sleep(100 * time.Millisecond)
		if err := db.Sync(); err != nil {
			t.Fatal(err)
		}
	}
	got := 0
	for run := 0; run < 4; run++ {
		items, err := db.Get(NewQuery([]byte(fmt.Sprintf("run%d", run))).WithLimit(1000))
		if err != nil {
			t.Fatal(err)
		}
		got += len(items)
	}
	if got != n {
		t.Fatalf("%d of %d messages", got, n)
	}
}
'''
