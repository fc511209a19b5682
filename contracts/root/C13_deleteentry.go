package unitdb

// VC_C13_deleteentry: a deletion deletes the message of the ID from memory and
// from the index; the count and the free space change only when the index had
// it, by one and by its space; an immutable database refuses.
func VC_C13_deleteentry() { vcDeleteEntry() }
