package unitdb

// VC_C14_deleteentry: see VC_C13_deleteentry; the refusals are part of it.
func VC_C14_deleteentry() { vcDeleteEntry() }
