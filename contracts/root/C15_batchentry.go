package unitdb

// VC_C15_batchentry: putting to or deleting from a batch appends one record, the
// length and the bytes of the entry set, to its buffer and one to its index, and
// changes no other; what is refused adds nothing.
func VC_C15_batchentry() { vcBatchEntry() }
