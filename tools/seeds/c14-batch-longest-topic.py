prop='C14'; pkg='.'
needs='a batch entry whose topic has 65537 to 65551 bytes'
breaks='A batch accepts topics a little above the documented maximum length.'
edits=[('batch.go','''	case len(e.Topic) > maxTopicLength:
		return errTopicTooLarge
	case len(e.Payload) == 0:''','''	case len(e.Topic)>>4 > maxTopicLength>>4:
		return errTopicTooLarge
	case len(e.Payload) == 0:''')]
demo='''
package unitdb

import (
	"os"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	db, err := Open(os.Getenv("DEMO_DIR") + "/db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	err = db.Batch(func(b *Batch, _ <-chan struct{}) error {
		return b.Put([]byte(strings.Repeat("a", maxTopicLength+1)), []byte("x"))
	})
	if err != errTopicTooLarge {
		t.Fatal(err)
	}
}
'''
