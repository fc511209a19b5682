prop='C17'; pkg='wal'
needs='at least two logs left to recover'
breaks='The reader keeps its place from the log before, so the records of the second log are read from the wrong offset.'
edits=[('wal/reader.go','		r.offset = 0\n','')]
demo='''
package wal

import (
	"os"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	o := Options{Path: os.Getenv("DEMO_DIR") + "/wal", BufferSize: 1 << 20}
	w, err := New(o)
	if err != nil {
		t.Fatal(err)
	}
	for i := int64(1); i <= 3; i++ {
		lw, err := w.NewWriter()
		if err != nil {
			t.Fatal(err)
		}
		if err := <-lw.Append([]byte{byte(i), 2, 3}); err != nil {
			t.Fatal(err)
		}
		if err := <-lw.SignalInitWrite(i); err != nil {
			t.Fatal(err)
		}
	}
	w.Close()
	w, err = New(o)
	if err != nil {
		t.Fatal(err)
	}
	r, err := w.NewReader()
	if err != nil {
		t.Fatal(err)
	}
	err = r.Iterator(func(id int64) (bool, error) {
		d, ok, err := r.Next()
		if err != nil || !ok || len(d) != 3 || int64(d[0]) != id {
			t.Errorf("log %d: %v %v %v", id, d, ok, err)
		}
		return false, nil
	})
	if err != nil {
		t.Fatal(err)
	}
}
'''
