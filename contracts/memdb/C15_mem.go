package memdb

// VC_C15_memBatchPut: a key is put into the batch's block, and can be in it from then
// on; nothing is put into a block that is released.
func VC_C15_memBatchPut() { vcMemBatchPut() }

// VC_C15_memBatchWrite: the batch's log is written, its block is one of the batch's
// to commit, and the batch goes on with a new one.
func VC_C15_memBatchWrite() { vcMemBatchWrite() }

// VC_C15_memBatchAbort: every block of the batch is released, with what was written
// of it; a batch that is complete has none.
func VC_C15_memBatchAbort() { vcMemBatchAbort() }

// VC_C15_memBatchCommit: a batch commits by writing its log; then each of its blocks
// is one to iterate, and none of them is released.
func VC_C15_memBatchCommit() { vcMemBatchCommit() }
