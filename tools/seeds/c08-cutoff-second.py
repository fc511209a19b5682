prop='C08'; pkg='message'
needs='a cutoff equal to the creation second of the message'
breaks='A message created exactly at the cutoff second no longer matches.'
edits=[('message/id.go','uid.Time(id[0:4]) >= cutoff &&','uid.Time(id[0:4]) > cutoff &&')]
demo='''
package message

import (
	"testing"

	"github.com/unit-io/unitdb/uid"
)

func TestSeedDemo(t *testing.T) {
	id := NewID(5)
	id.SetContract(77)
	if !id.EvalPrefix(77, uid.Time(id[0:4])) {
		t.Fatal("message at the cutoff does not match")
	}
}
'''
