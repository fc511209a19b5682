package wal

// VC_C01_loginfo: the log header codec.
func VC_C01_loginfo() {
	var e, g _LogInfo
	e.version, e.timeID, e.count, e.size = vcU16("version"), vcI64("timeid"), vcU32("count"), vcU32("size")
	b, err := e.MarshalBinary()
	vcAssert("no-error", err == nil)
	vcAssert("size", len(b) == logHeaderSize)
	err = g.UnmarshalBinary(b)
	vcAssert("decode-ok", err == nil)
	vcAssert("fields", g.version == e.version && g.timeID == e.timeID && g.count == e.count && g.size == e.size)
}
