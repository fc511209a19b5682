package wal

// VC_C17_logPut: a log is in the directory, under its name, only once all of it has
// been written, its header and its data as given.
func VC_C17_logPut() { vcLogPut() }

// VC_C17_logDel: a log is removed, and no other.
func VC_C17_logDel() { vcLogDel() }

// VC_C17_logRead: a log is read as it is in its file if its header is the log's and its
// records, as many as the header says, fill the file; it is an error otherwise.
func VC_C17_logRead() { vcLogRead() }

// VC_C17_logNext: each record of a log is read in turn, byte for byte.
func VC_C17_logNext() { vcLogNext() }

// VC_C17_logAppend: a record appended follows those before, in its frame, and counts.
func VC_C17_logAppend() { vcLogAppend() }

// VC_C17_logCommit: a log of records is put once, and complete then; one of none is not.
func VC_C17_logCommit() { vcLogCommit() }

// VC_C17_storeRead: a log that cannot be read has no records.
func VC_C17_storeRead() { vcStoreRead() }

// VC_C17_logIterate: each log is read once, in order, until stopped.
func VC_C17_logIterate() { vcLogIterate() }

// VC_C17_logApplied: a log applied is removed, and no other.
func VC_C17_logApplied() { vcLogApplied() }
