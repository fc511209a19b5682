package unitdb

// VC_C14_setentry: see VC_C10_setentry; that an invalid topic or ID is refused
// without assigning a sequence number is part of it.
func VC_C14_setentry() { vcSetEntry() }
