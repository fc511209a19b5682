package unitdb

// VC_C18_recoverblock: each message of a block of the log reaches the index, its
// topic's window entries and the filter before its log is released, and the
// sequence number is raised above it.
//
//verif:timeout 60
func VC_C18_recoverblock() { vcRecoverBlock() }

// VC_C18_recoverwindow: the entries of each known topic are appended to its window
// blocks, once.
func VC_C18_recoverwindow() { vcRecoverWindow() }
