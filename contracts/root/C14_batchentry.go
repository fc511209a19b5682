package unitdb

// VC_C14_batchentry: see VC_C15_batchentry; the refusals are part of it.
func VC_C14_batchentry() { vcBatchEntry() }
