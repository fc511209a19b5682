package memdb

// VC_C16_storeget: a key is read from the most recent time block that has it.
func VC_C16_storeget() { vcStoreget() }

// VC_C16_storedelete: a key is deleted from the most recent time block that has it, and
// its deletion is recorded in the log, unless the block's own log is released with
// its last key.
func VC_C16_storedelete() { vcStoredelete() }

// VC_C16_storelookup: a key is looked up in the time block given.
func VC_C16_storelookup() { vcStorelookup() }

// VC_C16_storeput: a key is put into the current time block, which the key is
// then looked for in, and whose ID is answered.
func VC_C16_storeput() { vcStoreput() }

// VC_C16_tinyWrite: a log is what was put into its block since the log before, and
// committed under its ID; the next log begins where it ends, and the block keeps
// the ID, to release the log with. Nothing is lost when a step fails.
func VC_C16_tinyWrite() { vcTinyWrite() }

// VC_C16_releaseLog: a block is released after all its logs; it alone is no
// longer one of the store's, nor one any key could be in. A block that is not
// empty is not released when only an empty one is to be.
//
//verif:unroll 4
func VC_C16_releaseLog() { vcReleaseLog() }

// VC_C16_memBatchPut: a key is put into the batch's block, and can be in it from then
// on; nothing is put into a block that is released.
func VC_C16_memBatchPut() { vcMemBatchPut() }

// VC_C16_memBatchWrite: the batch's log is written, its block is one of the batch's
// to commit, and the batch goes on with a new one.
func VC_C16_memBatchWrite() { vcMemBatchWrite() }

// VC_C16_memBatchAbort: every block of the batch is released, with what was written
// of it; a batch that is complete has none.
func VC_C16_memBatchAbort() { vcMemBatchAbort() }

// VC_C16_memBatchCommit: a batch commits by writing its log; then each of its blocks
// is one to iterate, and none of them is released.
func VC_C16_memBatchCommit() { vcMemBatchCommit() }

// VC_C16_keys: internal keys are the keys, and apart for records of deletions.
func VC_C16_keys() { vcMemKeys() }

// VC_C16_put: a record put, of any key, is read back with its data; the records
// of all other keys stay as they are, as do all when it fails; the count goes up
// by one if the key, not of a deletion, is new.
func VC_C16_put() { vcMemPut() }

// VC_C16_del: a deletion removes the key alone, marks its record, and counts
// once; deleting a key that is not there changes nothing.
func VC_C16_del() { vcMemDel() }

// VC_C16_addTimeFilter: the block becomes one of those the key, whose records are
// those of its own block key, could be in; no other does or ceases to be.
func VC_C16_addTimeFilter() { vcMemAddTimeFilter() }

// VC_C16_timeRecords: the time blocks a key could be in, each of them, and no
// others, the most recent first.
func VC_C16_timeRecords() { vcMemTimeRecords() }

// VC_C16_addTimeBlock: a block is added once, empty, and no other is touched.
func VC_C16_addTimeBlock() { vcMemAddTimeBlock() }
