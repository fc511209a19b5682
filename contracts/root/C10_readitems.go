package unitdb

// VC_C10_readitems: a query returns, of its window entries, exactly the messages
// that are stored, carry its contract and are not older than its cutoff, in the
// order of the entries, each decrypted if it was encrypted and decoded, until
// the limit is reached.
//
//verif:seqs
func VC_C10_readitems() { vcReadItems() }
