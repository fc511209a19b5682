prop='C12'; pkg='.'
needs='a query in the very second an entry expires'
breaks='An entry is still returned in the second of its expiry.'
edits=[('time_window.go','e.expiresAt <= uint32(time.Now().Unix())','e.expiresAt < uint32(time.Now().Unix())')]
demo='''
package unitdb

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	for try := 0; try < 10; try++ {
		now := uint32(time.Now().Unix())
		x := newWinEntry(1, now).isExpired()
		if uint32(time.Now().Unix()) == now && !x {
			t.Fatal("not expired at its expiry time")
		}
	}
}
'''
