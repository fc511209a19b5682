package memdb

// VC_C10_storeget: a key is read from the most recent time block that has it.
func VC_C10_storeget() { vcStoreget() }

// VC_C10_storeput: a key is put into the current time block, which the key is
// then looked for in, and whose ID is answered.
func VC_C10_storeput() { vcStoreput() }

// VC_C10_storelookup: a key is looked up in the time block given.
func VC_C10_storelookup() { vcStorelookup() }

// VC_C10_put: a record put, of any key, is read back with its data; the records
// of all other keys stay as they are, as do all when it fails; the count goes up
// by one if the key, not of a deletion, is new.
func VC_C10_put() { vcMemPut() }
