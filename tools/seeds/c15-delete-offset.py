prop='C15'; pkg='.'
needs='a batch that deletes a message and puts another one after it'
breaks='The entries put after a delete in a batch are read from the wrong place of the batch buffer.'
edits=[('batch.go','''	b.index = append(b.index, _BatchIndex{delFlag: true, offset: b.size})
	b.size += int64(len(e.entry.cache) + 4)''','''	b.index = append(b.index, _BatchIndex{delFlag: true, offset: b.size})
	b.size += int64(len(e.entry.cache))''')]
demo='''
package unitdb

import (
	"os"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	db, err := Open(os.Getenv("DEMO_DIR")+"/db", WithMutable())
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	id := db.NewID()
	if err := db.PutEntry(NewEntry([]byte("a.b"), []byte("one")).WithID(id)); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	err = db.Batch(func(b *Batch, _ <-chan struct{}) error {
		if err := b.Delete(id, []byte("a.b")); err != nil {
			return err
		}
		return b.Put([]byte("a.b"), []byte("two"))
	})
	if err != nil {
		t.Fatal(err)
	}
	items, err := db.Get(NewQuery([]byte("a.b")))
	if err != nil || len(items) != 1 || string(items[0]) != "two" {
		t.Fatalf("%q %v", items, err)
	}
}
'''
