package unitdb

// VC_C14_putentry: Put and PutEntry refuse, before anything else, a closed
// database, an empty topic or one above 65536 bytes, and an empty payload; else
// the entry set is put into memory and added to its topic's window, and its
// topic to the trie if it is new, or an error is returned.
func VC_C14_putentry() { vcPutEntry() }
