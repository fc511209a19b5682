package unitdb

import (
	"time"

	"github.com/unit-io/unitdb/message"
)

// Ghosts of the parts of a query's topic: what the 'last' option says (proved in
// the message package), and what of the topic has been read.
var (
	vcQFrom    int64
	vcQLast    int
	vcQGiven   bool
	vcQState   int
	vcQInvalid bool
	vcQWant    uint32
)

//verif:model (*github.com/unit-io/unitdb/message.Topic).ParseKey only C11_parse
func vcQParseKey(t *message.Topic, text []byte) {
	vcEnsures("the key is parsed first", vcQState == 0)
	vcQState = 1
}

//verif:model (*github.com/unit-io/unitdb/message.Topic).Parse only C11_parse
func vcQParse(t *message.Topic, contract uint32, wildcard bool) {
	vcEnsures("the topic is parsed under the query's contract", vcQState == 1 && contract == vcQWant && wildcard)
	vcQState = 2
	t.TopicType = uint8(vcNondetU32())
	vcQInvalid = t.TopicType == message.TopicInvalid
	t.Depth = uint8(vcNondetU32())
	t.Parts = make([]message.Part, 3)
	vcScramble(t.Parts)
}

//verif:model (*github.com/unit-io/unitdb/message.Topic).Last only C11_parse
func vcQTopicLast(t *message.Topic) (time.Time, int, bool) {
	vcEnsures("options are read from the parsed topic", vcQState == 2)
	return time.Unix(vcQFrom, 0), vcQLast, vcQGiven
}

// VC_C11_parse: the limit of a query is the one given, or the topic's when it is
// larger, or the default if neither is given, and never more than the maximum;
// its cutoff is the time given.
//
//verif:seqs
func VC_C11_parse() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	def, max := vcRange("default", 1, 1<<40), vcRange("maximum", 1, 1<<40)
	limit, contract := vcI64("limit"), vcU32("contract")
	vcQFrom, vcQLast, vcQGiven = vcI64("from"), int(vcI64("last")), vcBool("given")
	vcAssume(vcQFrom >= 0 && vcQFrom < 1<<40)
	q := &Query{Topic: []byte{1}, Contract: contract, Limit: int(limit)}
	q.internal.opts = &_QueryOptions{defaultQueryLimit: def, maxQueryLimit: max}
	cutoff := vcI64("cutoff")
	q.internal.cutoff = cutoff
	vcQWant = contract
	if contract == 0 {
		vcQWant = message.MasterContract
	}
	err := q.parse()
	vcAssert("an invalid topic is refused", (err != nil) == vcQInvalid)
	if err != nil {
		return
	}
	want := int(limit)
	if vcQGiven && vcQLast > want {
		want = vcQLast
	}
	if want <= 0 {
		want = def
	}
	if want > max {
		want = max
	}
	vcAssert("limit", q.Limit == want && q.Limit >= 1 && q.Limit <= max)
	if vcQGiven {
		vcAssert("cutoff of the option", q.internal.cutoff == vcQFrom)
	} else {
		vcAssert("cutoff kept", q.internal.cutoff == cutoff)
	}
	vcAssert("contract", q.Contract == vcQWant && len(q.internal.parts) == 4 && q.internal.parts[0].Hash == vcQWant)
}

// VC_C11_cutoff: a block is older than the cutoff when all its entries are.
func VC_C11_cutoff() {
	var b _WinBlock
	b.cutoffTime = vcI64("newest")
	c := vcI64("cutoff")
	vcAssert("older", b.cutoff(c) == (b.cutoffTime != 0 && b.cutoffTime < c))
}

// VC_C11_lookup: see VC_C04_lookup; the limit and the cutoff are part of it.
func VC_C11_lookup() { vcLookup() }

// VC_C11_readitems: see VC_C10_readitems; the limit and the order are part of it.
//
//verif:seqs
func VC_C11_readitems() { vcReadItems() }

// VC_C11_collect: the window entries of a query are those of its topics, newest
// first.
func VC_C11_collect() { vcCollect() }
