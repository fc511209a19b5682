package unitdb

// VC_C10_setentry: an entry is laid out as its header, the prefix of its ID with
// the encryption flag, its packed topic if the topic has not been synced, and its
// payload compressed, and encrypted if asked for.
func VC_C10_setentry() { vcSetEntry() }
