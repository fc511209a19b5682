package unitdb

// VC_C15_batchwrite: writing a batch puts each of its records to memory, byte for
// byte, and adds it to its topic's window, once, and its topic to the trie if it
// is new, except for the deletions, which are kept for the commit; then the batch
// is logged.
//
//verif:seqs
func VC_C15_batchwrite() { vcBatchWrite() }
