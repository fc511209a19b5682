package unitdb

// VC_C18_syncfiles: a sync is complete exactly when index, window entries,
// messages and count have been written, in that order.
func VC_C18_syncfiles() { vcSyncFiles() }

// VC_C18_syncblock: a block's log is released only after each of its entries is
// written.
//
//verif:timeout 60
func VC_C18_syncblock() { vcSyncBlock() }
