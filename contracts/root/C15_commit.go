package unitdb

// VC_C15_commit: a batch function that returns an error leaves nothing written or
// deleted and its error is returned; else the batch is written, committed and then
// each of its deletions takes place, or an error is returned. The window entries
// of what is not committed are released.
//
//verif:seqs
func VC_C15_commit() { vcCommit() }
