prop='C11'; pkg='.'
needs='more messages of one topic than fit a window block, all written and synced within one second, and a query whose cutoff is exactly that second'
breaks='The search stops at a full window block closed in the very second of the cutoff although older blocks hold messages of that second.'
edits=[('time_window.go','return b.cutoffTime != 0 && b.cutoffTime < cutoff','return b.cutoffTime != 0 && b.cutoffTime <= cutoff')]
demo='''
package unitdb

import (
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/unit-io/unitdb/message"
)

func TestSeedDemo(t *testing.T) {
	for try := 0; try < 5; try++ {
		db, err := Open(os.Getenv("DEMO_DIR")+fmt.Sprintf("/db%d", try), WithDefaultQueryLimit(5000), WithMaxQueryLimit(5000))
		if err != nil {
			t.Fatal(err)
		}
		for time.Now().Nanosecond() > 100000000 {
			time.Sleep(10 * time.Millisecond)
		}
		start := time.Now().Unix()
		n := 3 * entriesPerWindowBlock
		var seqs _WindowEntries
		for i := 0; i < n; i++ {
			id := message.ID(db.NewID())
			e := NewEntry([]byte("a.b"), []byte("x")).WithID(id)
			if err := db.PutEntry(e); err != nil {
				t.Fatal(err)
			}
			seqs = append(seqs, newWinEntry(id.Sequence(), 0))
		}
		w, err := newWindowWriter(db.fs, db.internal.bufPool.Get())
		if err != nil {
			t.Fatal(err)
		}
		off, err := w.append(77, 0, seqs)
		if err != nil {
			t.Fatal(err)
		}
		if err := w.write(); err != nil {
			t.Fatal(err)
		}
		same := time.Now().Unix() == start
		got := db.internal.timeWindow.lookup(db.fs, 77, off, start, n)
		db.Close()
		if !same {
			continue
		}
		if len(got) != n {
			t.Fatalf("%d of %d entries of the second of the cutoff", len(got), n)
		}
		return
	}
}
'''
