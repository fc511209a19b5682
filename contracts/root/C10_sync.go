package unitdb

// VC_C10_syncfiles: a sync is complete exactly when index, window entries,
// messages and count have been written, in that order.
func VC_C10_syncfiles() { vcSyncFiles() }

// VC_C10_syncblock: each entry of a block of memory reaches the index, its topic's
// window entries and the filter before the block is freed.
//
//verif:timeout 60
func VC_C10_syncblock() { vcSyncBlock() }
