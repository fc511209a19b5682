prop='C07'; pkg='.'
needs='a stored wildcard topic whose wildcards are its last levels, queried by a static topic of exactly that depth'
breaks='A message stored under a topic that ends in wildcards is not found by a static topic it stands for.'
edits=[('trie.go','uint8(len(query)) >= part.wildchars+1:','uint8(len(query)) > part.wildchars+1:')]
demo='''
package unitdb

import (
	"os"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	db, err := Open(os.Getenv("DEMO_DIR")+"/db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	if err := db.Put([]byte("a.b.*.*"), []byte("x")); err != nil {
		t.Fatal(err)
	}
	items, err := db.Get(NewQuery([]byte("a.b.c.d")))
	if err != nil || len(items) != 1 {
		t.Fatal(items, err)
	}
}
'''
