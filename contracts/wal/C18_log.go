package wal

// VC_C18_logPut: a log is in the directory, under its name, only once all of it has
// been written, its header and its data as given.
func VC_C18_logPut() { vcLogPut() }

// VC_C18_logDel: a log is removed, and no other.
func VC_C18_logDel() { vcLogDel() }

// VC_C18_logRead: a log is read as it is in its file if its header is the log's and its
// records, as many as the header says, fill the file; it is an error otherwise.
func VC_C18_logRead() { vcLogRead() }

// VC_C18_logNext: each record of a log is read in turn, byte for byte.
func VC_C18_logNext() { vcLogNext() }

// VC_C18_storeRead: a log that cannot be read has no records.
func VC_C18_storeRead() { vcStoreRead() }
