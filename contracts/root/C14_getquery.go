package unitdb

// VC_C14_getquery: a query is refused on a closed database, without a topic and
// with one above 65536 bytes; else it returns the messages of its entries read in
// order, at most its limit, and looks for more entries until it has as many, or
// no topic has more.
//
//verif:seqs
//verif:assumes no topic has more than 2^50 entries
func VC_C14_getquery() { vcGetQuery() }
