prop='C10'; pkg='.'
needs='an Entry with an ID that is put, given a new payload and put again'
breaks='The ID of an entry outlives its put, so the message put next with the same Entry takes the sequence of the first and replaces it.'
edits=[('entry.go','	e.entry.cache = nil\n	e.ID = nil\n','	e.entry.cache = nil\n')]
demo='''
package unitdb

import (
	"os"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	db, err := Open(os.Getenv("DEMO_DIR") + "/db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	e := NewEntry([]byte("a.b"), []byte("one")).WithID(db.NewID())
	if err := db.PutEntry(e); err != nil {
		t.Fatal(err)
	}
	if err := db.PutEntry(e.WithPayload([]byte("two"))); err != nil {
		t.Fatal(err)
	}
	items, err := db.Get(NewQuery([]byte("a.b")))
	if err != nil || len(items) != 2 {
		t.Fatalf("%q %v", items, err)
	}
}
'''
