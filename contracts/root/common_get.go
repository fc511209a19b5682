package unitdb

import "sync"

// The contract of a query, over ghosts kept by the contracts of the functions it
// calls: the collection of entries and the reading of their messages, proved for
// C11 and C10, and the parsing of the query, proved for C11.
var (
	vcGQ      *Query
	vcGState  int // 1 parsed, 2 collected, 3 read
	vcGMore   bool
	vcGAsked  int // entries asked for of each topic
	vcGUsed   int
	vcGXVal   []byte // an arbitrary message read
	vcGCount  int
	vcGFailed bool
	vcGX      int
)

//verif:model (*github.com/unit-io/unitdb.Query).parse only getquery
func vcGParse(q *Query) error {
	vcEnsures("of an open database, with a topic", vcGState == 0 && q == vcGQ && len(q.Topic) >= 1 && len(q.Topic) <= 65536)
	vcEnsures("under the limits of the database", q.internal.opts.defaultQueryLimit == 7 && q.internal.opts.maxQueryLimit == 9)
	if vcNondetBool() {
		vcGFailed = true
		return errBadRequest
	}
	q.Limit = vcNondetInt()
	vcAssume(q.Limit >= 1 && q.Limit <= 1<<40)
	vcGState = 1
	return nil
}

//verif:model (*github.com/unit-io/unitdb._Mutex).getMutex only getquery
func vcGGetMutex(m *_Mutex, prefix uint64) *sync.RWMutex { return nil }

//verif:model (*github.com/unit-io/unitdb.DB).lookup only getquery
func vcGLookup(db *DB, q *Query, limit int) bool {
	vcEnsures("entries are collected again only if messages are missing", vcGState == 1 ||
		vcGState == 3 && vcGMore && (vcGCount < q.Limit || vcGUsed > vcGAsked))
	vcEnsures("at least the limit, and ever more", limit >= q.Limit && (vcGState == 1 || limit > vcGAsked))
	vcGAsked = limit
	vcGMore = vcNondetBool()
	vcAssume(!vcGMore || limit <= 1<<50) // no topic has more entries
	vcGState = 2
	return vcGMore
}

//verif:model (*github.com/unit-io/unitdb.DB).readItems only getquery
func vcGReadItems(db *DB, q *Query) ([][]byte, int, error) {
	vcEnsures("the entries collected are read", vcGState == 2 && q == vcGQ)
	vcGState = 3
	if vcNondetBool() {
		vcGFailed = true
		return nil, 0, vcErr()
	}
	vcGCount, vcGUsed = vcNondetInt(), vcNondetInt()
	vcAssume(vcGCount >= 0 && vcGCount <= q.Limit && vcGUsed >= vcGCount && vcGUsed <= 1<<50)
	items := make([][]byte, vcGCount)
	vcScramble(items)
	if vcGX < vcGCount {
		vcGXVal = items[vcGX]
	}
	return items, vcGUsed, nil
}

//verif:loop (*DB).Get 0
func vcGetInv(q *Query, limit int) bool {
	if vcGFailed || q.Limit < 1 || q.Limit > 1<<40 {
		return false
	}
	if vcGState == 1 {
		return limit == q.Limit
	}
	return vcGState == 3 && vcGMore && (vcGCount < q.Limit || vcGUsed > vcGAsked) && vcGAsked >= q.Limit && vcGAsked <= 1<<50 && limit == 2*vcGAsked
}

// vcGetQuery checks any query.
func vcGetQuery() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	db := vcPDB()
	db.opts.queryOptions.defaultQueryLimit, db.opts.queryOptions.maxQueryLimit = 7, 9
	n := vcRange("topic", 0, 1<<40)
	vcGQ = &Query{Topic: make([]byte, n), Limit: int(vcI64("limit")), Contract: vcU32("contract")}
	vcRB = vcRange("byte", 0, 1<<33)
	vcGX = vcRange("item", 0, 1<<41)
	seq, count := db.internal.dbInfo.sequence, db.internal.dbInfo.count
	items, err := db.Get(vcGQ)
	switch {
	case db.internal.closed != 0:
		vcEnsures("a closed database refuses", err != nil && vcGState == 0)
	case n == 0:
		vcEnsures("an empty topic is refused", err == errTopicEmpty && vcGState == 0)
	case n > 65536:
		vcEnsures("a topic too large is refused", err == errTopicTooLarge && vcGState == 0)
	default:
		vcEnsures("a failure is reported", (err != nil) == vcGFailed)
		if err == nil {
			vcEnsures("at most the limit", vcGState == 3 && len(items) == vcGCount && len(items) <= vcGQ.Limit)
			vcEnsures("all messages of the query, or the first of those asked for", !vcGMore || len(items) == vcGQ.Limit && vcGUsed <= vcGAsked)
			vcEnsures("in the order read", vcGX >= len(items) || vcRSame(items[vcGX], vcGXVal))
			vcCover("a query is answered")
		}
	}
	vcEnsures("nothing is changed", db.internal.dbInfo.sequence == seq && db.internal.dbInfo.count == count)
}
