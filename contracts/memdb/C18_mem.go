package memdb

// VC_C18_tinyWrite: a log is what was put into its block since the log before, and
// committed under its ID; the next log begins where it ends, and the block keeps
// the ID, to release the log with. Nothing is lost when a step fails.
func VC_C18_tinyWrite() { vcTinyWrite() }

// VC_C18_releaseLog: a block is released after all its logs; it alone is no
// longer one of the store's, nor one any key could be in. A block that is not
// empty is not released when only an empty one is to be.
//
//verif:unroll 4
func VC_C18_releaseLog() { vcReleaseLog() }
