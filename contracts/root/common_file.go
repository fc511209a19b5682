package unitdb

import (
	"io"
	"os"
	"time"
)

// The operating system's files, as assumed: a file is a sequence of bytes with a
// size; it reads as zero beyond the bytes written. Errors other than the end of
// the file are not modelled (they are reported to the caller).
type vcGhostFile struct {
	f    *os.File
	data []byte
	size int64
}

var vcFileA, vcFileB vcGhostFile

// the offset and length of the last read and write
var vcReadOff, vcWriteOff int64
var vcReadLen, vcWriteLen, vcWrites int

const vcFileMax = 1 << 46

func vcGhost(f *os.File) *vcGhostFile {
	if f == vcFileA.f {
		return &vcFileA
	}
	return &vcFileB
}

//verif:model =(*os.File).ReadAt
func vcFileReadAt(f *os.File, b []byte, off int64) (int, error) {
	g := vcGhost(f)
	vcReadOff, vcReadLen = off, len(b)
	if off < 0 {
		return 0, vcErr()
	}
	if off >= g.size {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := int64(len(b))
	if n > g.size-off {
		n = g.size - off
	}
	copy(b[:n], g.data[off:off+n])
	if int(n) < len(b) {
		return int(n), io.EOF
	}
	return int(n), nil
}

//verif:model =(*os.File).WriteAt
func vcFileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	g := vcGhost(f)
	if off < 0 {
		return 0, vcErr()
	}
	vcWriteOff, vcWriteLen, vcWrites = off, len(b), vcWrites+1
	copy(g.data[off:off+int64(len(b))], b)
	if len(b) > 0 && off+int64(len(b)) > g.size {
		g.size = off + int64(len(b))
	}
	return len(b), nil
}

//verif:model =(*os.File).Truncate
func vcFileTruncate(f *os.File, size int64) error {
	g := vcGhost(f)
	if size < 0 {
		return vcErr()
	}
	if size < g.size {
		copy(g.data[size:g.size], make([]byte, g.size-size))
	}
	g.size = size
	return nil
}

//verif:model =(*os.File).Sync
func vcFileSync(f *os.File) error { return nil }

type vcFileInfo struct{ size int64 }

func (i vcFileInfo) Name() string       { return "" }
func (i vcFileInfo) Size() int64        { return i.size }
func (i vcFileInfo) Mode() os.FileMode  { return 0 }
func (i vcFileInfo) ModTime() time.Time { return time.Time{} }
func (i vcFileInfo) IsDir() bool        { return false }
func (i vcFileInfo) Sys() interface{}   { return nil }

//verif:model =(*os.File).Stat
func vcFileStat(f *os.File) (os.FileInfo, error) { return vcFileInfo{vcGhost(f).size}, nil }

// vcNewFile is a file of any contents and of the size given.
func vcNewFile(g *vcGhostFile, size int64) *_File {
	if vcSymbolic() {
		g.f = new(os.File)
		g.data = make([]byte, vcFileMax)
		vcScramble(g.data)
		g.size = size
		vcAssume(vcForall(0, vcFileMax, func(i int) bool { return int64(i) < size || g.data[i] == 0 }))
		return &_File{File: g.f, size: vcNondetI64()}
	}
	f, err := os.CreateTemp(".", "vc")
	if err != nil {
		panic(vcDiscard{})
	}
	os.Remove(f.Name())
	f.Truncate(size)
	b := make([]byte, 4096)
	for i := range b {
		b[i] = byte(vcR.next(8, "file"))
	}
	if size > 0 {
		if size < 4096 {
			b = b[:size]
		}
		f.WriteAt(b, 0)
	}
	return &_File{File: f, size: size}
}
