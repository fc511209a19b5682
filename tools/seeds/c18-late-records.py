prop='C18'; pkg='memdb'
needs='records put while the log of their time block is being written, and a crash before the block is synced'
breaks='Records put while a log is written are taken for logged and never reach the log.'
edits=[('memdb/db_internal.go','	block.lastOffset = blockSize\n','	block.lastOffset = block.data.Size()\n')]
demo='''
package memdb

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	d := os.Getenv("DEMO_DIR")
	db, err := Open(WithLogFilePath(d+"/db"), WithLogInterval(2*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	stop := time.Now().Add(3 * time.Second)
	n := uint64(0)
	for time.Now().Before(stop) {
		n++
		if _, err := db.Put(n, make([]byte, 200)); err != nil {
			t.Fatal(err)
		}
		if n%8 == 0 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	// everything is logged at the latest a while after it was put
	time.Sleep(2 * time.Second)
	if err := os.MkdirAll(d+"/copy/logs", 0777); err != nil {
		t.Fatal(err)
	}
	fs, _ := filepath.Glob(d + "/db/logs/*.log")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		os.WriteFile(d+"/copy/logs/"+filepath.Base(f), b, 0666)
	}
	db2, err := Open(WithLogFilePath(d + "/copy"))
	if err != nil {
		t.Fatal(err)
	}
	if s := db2.Size(); uint64(s) != n {
		t.Fatalf("%d of %d records recovered", s, n)
	}
	db2.Close()
	db.Close()
}
'''
