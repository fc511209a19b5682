package memdb

// VC_C13_storedelete: a key is deleted from the most recent time block that has it, and
// its deletion is recorded in the log, unless the block's own log is released with
// its last key.
func VC_C13_storedelete() { vcStoredelete() }

// VC_C13_del: a deletion removes the key alone, marks its record, and counts
// once; deleting a key that is not there changes nothing.
func VC_C13_del() { vcMemDel() }
