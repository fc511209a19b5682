package memdb

import "github.com/unit-io/bpool"

// The pooled buffer, as assumed: a growing sequence of bytes.
var vcBuf []byte
var vcBufSize int64

//verif:model (*github.com/unit-io/bpool.Buffer).Size
func vcBufferSize(b *bpool.Buffer) int64 { return vcBufSize }

//verif:model (*github.com/unit-io/bpool.Buffer).Reset
func vcBufferReset(b *bpool.Buffer) bool { vcBufSize = 0; return true }

//verif:model (*github.com/unit-io/bpool.Buffer).Extend
func vcBufferExtend(b *bpool.Buffer, size int64) (int64, error) {
	if vcNondetBool() {
		return 0, vcErr()
	}
	vcEnsures("a buffer is extended by at least one byte", uint32(size) != 0)
	off := vcBufSize
	vcBufSize += int64(uint32(size))
	return off, nil
}

//verif:model (*github.com/unit-io/bpool.Buffer).Write
func vcBufferWrite(b *bpool.Buffer, p []byte) (int, error) {
	if vcNondetBool() {
		return 0, vcErr()
	}
	vcEnsures("a buffer is extended by at least one byte", uint32(len(p)) != 0)
	copy(vcBuf[vcBufSize:vcBufSize+int64(len(p))], p)
	vcBufSize += int64(len(p))
	return len(p), nil
}

//verif:model (*github.com/unit-io/bpool.Buffer).WriteAt
func vcBufferWriteAt(b *bpool.Buffer, p []byte, off int64) (int, error) {
	vcEnsures("a write stays within the buffer", off >= 0 && off+int64(len(p)) <= vcBufSize)
	copy(vcBuf[off:off+int64(len(p))], p)
	return len(p), nil
}

//verif:model (*github.com/unit-io/bpool.Buffer).Bytes
func vcBufferBytes(b *bpool.Buffer) []byte {
	p := make([]byte, vcBufSize)
	copy(p, vcBuf[:vcBufSize])
	return p
}

//verif:model (*github.com/unit-io/bpool.Buffer).Slice
func vcBufferSlice(b *bpool.Buffer, start, end int64) ([]byte, error) {
	if start < 0 || end > vcBufSize || start > end {
		return nil, vcErr()
	}
	p := make([]byte, end-start)
	copy(p, vcBuf[start:end])
	return p, nil
}
