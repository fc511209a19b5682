package unitdb

// VC_C12_setentry: see VC_C10_setentry; that an entry's expiry is its own or else
// its topic's time to live is part of it.
func VC_C12_setentry() { vcSetEntry() }
