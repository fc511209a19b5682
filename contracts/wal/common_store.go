package wal

import (
	"io"
	"os"
	"time"

	"github.com/unit-io/bpool"
)

// The operating system's files, as assumed, by their names: one file is open at a
// time, a sequence of bytes with a size, which reads as far as it goes.
var (
	vcFID             int64
	vcFNum            string // the decimal of the time ID
	vcFData           []byte
	vcFSize           int64
	vcFFail           bool
	vcFOpen, vcFThere bool
	vcFState          int // 1 temporary file created, 2 closed, 3 renamed
	vcFX              int64
	vcFHead           _LogInfo
	vcFSrc            []byte // what was to be written
	vcFSrcLen         int64
	vcFRemoved        bool
	vcFBad            bool
)

//verif:model =strconv.FormatInt
func vcFormatInt(i int64, base int) string {
	vcEnsures("the decimal of the time ID", i == vcFID && base == 10)
	return vcFNum
}

//verif:model =path.Join
func vcPathJoin(elem ...string) string {
	vcEnsures("a file of a directory", len(elem) == 2)
	return elem[0] + "/" + elem[1]
}

const vcFDir = "d"

func vcFName(ext string) string { return vcFDir + "/" + vcFNum + ext }

func vcFOS() bool {
	if vcNondetBool() {
		vcFFail = true
		return true
	}
	return false
}

//verif:model =os.Create
func vcOSCreate(name string) (*os.File, error) {
	vcEnsures("a log is written to its temporary file", name == vcFName(tmpExt) && vcFState == 0)
	if vcFOS() {
		return nil, vcErr()
	}
	vcFState, vcFSize, vcFOpen = 1, 0, true
	return &os.File{}, nil
}

//verif:model =os.Open
func vcOSOpen(name string) (*os.File, error) {
	vcEnsures("a log is read from its file", name == vcFName(logExt) && vcFThere)
	if vcFOS() {
		return nil, vcErr()
	}
	vcFOpen = true
	return &os.File{}, nil
}

//verif:model =os.Stat
func vcOSStat(name string) (os.FileInfo, error) {
	vcEnsures("of the log's file", name == vcFName(logExt))
	if vcFThere {
		return nil, nil
	}
	return nil, os.ErrNotExist
}

//verif:model =os.IsNotExist
func vcOSIsNotExist(err error) bool { return err == os.ErrNotExist }

//verif:model =(*os.File).WriteAt
func vcFileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	vcEnsures("an open file is written", vcFOpen)
	if vcFOS() {
		return 0, vcErr()
	}
	copy(vcFData[off:off+int64(len(b))], b)
	if off+int64(len(b)) > vcFSize {
		vcFSize = off + int64(len(b))
	}
	return len(b), nil
}

//verif:model =(*os.File).ReadAt
func vcFileReadAt(f *os.File, b []byte, off int64) (int, error) {
	vcEnsures("an open file is read", vcFOpen && off >= 0)
	if vcFOS() {
		return 0, vcErr()
	}
	if off+int64(len(b)) > vcFSize {
		return 0, io.EOF
	}
	copy(b, vcFData[off:off+int64(len(b))])
	return len(b), nil
}

//verif:model =(*os.File).Close
func vcFileClose(f *os.File) error {
	vcFOpen = false
	if vcFState == 1 {
		if vcFOS() {
			return vcErr()
		}
		vcFState = 2
	}
	return nil
}

type vcFileInfo struct{ size int64 }

func (i vcFileInfo) Name() string       { return "" }
func (i vcFileInfo) Size() int64        { return i.size }
func (i vcFileInfo) Mode() os.FileMode  { return 0 }
func (i vcFileInfo) ModTime() time.Time { return time.Time{} }
func (i vcFileInfo) IsDir() bool        { return false }
func (i vcFileInfo) Sys() interface{}   { return nil }

//verif:model =(*os.File).Stat
func vcFileStat(f *os.File) (os.FileInfo, error) {
	if vcFOS() {
		return nil, vcErr()
	}
	return vcFileInfo{vcFSize}, nil
}

//verif:model =os.Rename
func vcOSRename(from, to string) error {
	if to == vcFName(corruptExt) {
		vcEnsures("a log that cannot be read is set aside", from == vcFName(logExt) && vcFBad)
		return nil
	}
	vcEnsures("a log gets its name once it is written", from == vcFName(tmpExt) && to == vcFName(logExt) && vcFState == 2 && !vcFFail)
	vcEnsures("entirely", vcFSize == int64(logHeaderSize)+vcFSrcLen)
	vcEnsures("its data as appended", vcFX >= vcFSrcLen || vcFData[int64(logHeaderSize)+vcFX] == vcFSrc[vcFX])
	var h _LogInfo
	h.UnmarshalBinary(vcFData[:logHeaderSize])
	vcEnsures("and its header", h.timeID == vcFHead.timeID && h.count == vcFHead.count && h.size == vcFHead.size && h.version == vcFHead.version)
	if vcFOS() {
		return vcErr()
	}
	vcFState, vcFThere = 3, true
	return nil
}

//verif:model =os.Remove
func vcOSRemove(name string) error {
	vcEnsures("the log's file is removed, once", name == vcFName(logExt) && !vcFRemoved)
	vcFRemoved, vcFThere = true, false
	return nil
}

func vcFStart() *_FileStore {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcFID = vcI64("id")
	vcFNum = vcStr("num", 1, 20)
	vcFData = make([]byte, 1<<41)
	vcScramble(vcFData)
	vcFThere = vcBool("there")
	vcBuf = make([]byte, 1<<41)
	vcScramble(vcBuf)
	vcFX = vcI64("x")
	vcAssume(vcFX >= 0 && vcFX < 1<<40)
	return &_FileStore{dirName: vcFDir, opened: vcBool("opened")}
}

// vcLogPut: a log is in the directory, under its name, only once all of it has
// been written, its header and its data as given.
func vcLogPut() {
	fs := vcFStart()
	vcFHead = _LogInfo{version: vcU16("version"), timeID: vcFID, count: vcU32("count"), size: vcU32("size")}
	vcBufSize = vcI64("n")
	vcAssume(vcBufSize >= 1 && vcBufSize < 1<<40)
	vcFSrc, vcFSrcLen = make([]byte, vcBufSize), vcBufSize
	copy(vcFSrc, vcBuf[:vcBufSize])
	vcFThere = false
	err := fs.put(vcFHead, &bpool.Buffer{})
	switch {
	case !fs.opened:
		vcEnsures("a closed store refuses", err != nil && vcFState == 0)
	case vcFFail:
		vcEnsures("a failure is reported", err != nil && vcFState != 3)
	default:
		vcEnsures("written", err == nil && vcFState == 3)
		vcCover("written")
	}
}

// vcLogDel: a log is removed, and no other.
func vcLogDel() {
	fs := vcFStart()
	was := vcFThere
	fs.del(vcFID)
	vcEnsures("removed if it was there", vcFRemoved == (was && fs.opened))
}

// The chain of the records of a log's data: record i of the data begins at
// vcPos[i], and the next one where it ends.
var vcPos []int64

func vcRecLen(src []byte, at int64) int64 {
	return int64(uint32(src[at]) | uint32(src[at+1])<<8 | uint32(src[at+2])<<16 | uint32(src[at+3])<<24)
}

var (
	vcCount, vcLogSize int
	vcRec              int // an arbitrary record
)

// vcRecOK: record i lies within the data.
func vcRecOK(src []byte, off int64, i int, size int64) bool {
	return vcPos[i] >= 0 && vcPos[i] <= size-4 && vcRecLen(src, off+vcPos[i]) >= 4 && vcRecLen(src, off+vcPos[i]) <= size-vcPos[i]
}

//verif:loop readLog 0
func vcReadLogInv(i uint32, raw []byte) bool {
	return int(i) <= vcCount && vcPos[i] >= 0 && vcPos[i] <= vcBufSize && int64(len(raw)) == vcBufSize-vcPos[i] &&
		vcAlias(raw, vcBuf[vcPos[i]:]) &&
		(vcRec >= int(i) || vcRecOK(vcFData, 18, vcRec, vcBufSize))
}

// vcLogRead: a log is read as it is in its file if its header is the log's and its
// records, as many as the header says, fill the file; it is an error otherwise.
func vcLogRead() {
	vcFStart()
	vcFSize = vcI64("file size")
	vcAssume(vcFSize >= 0 && vcFSize < 1<<40)
	vcBufSize = 0
	vcFOpen = true
	var h _LogInfo
	h.UnmarshalBinary(vcFData[:18])
	vcCount = int(h.count)
	size := int64(h.size)
	vcPos = make([]int64, 1<<33)
	vcScramble(vcPos)
	vcAssume(vcPos[0] == 0)
	vcAssume(vcForall(0, vcCount, func(i int) bool {
		return vcPos[i] < 0 || vcPos[i] > size-4 || vcPos[i+1] == vcPos[i]+vcRecLen(vcFData, 18+vcPos[i])
	}))
	good := vcBool("as written")
	if good {
		vcAssume(vcFSize == 18+size && h.timeID == vcFID && size > 0)
		vcAssume(vcForall(0, vcCount, func(i int) bool { return vcRecOK(vcFData, 18, i, size) }))
		vcAssume(vcPos[vcCount] == size)
	}
	vcRec = vcRange("record", 0, 1<<32)
	info := _LogInfo{}
	err := readLog(&os.File{}, vcFID, &info, &bpool.Buffer{})
	if err == nil {
		vcEnsures("its header", info.timeID == vcFID && info.count == h.count && info.size == h.size)
		vcEnsures("the log is all of the file", vcFSize == 18+size && vcBufSize == size)
		vcEnsures("its data", vcFX >= size || vcBuf[vcFX] == vcFData[18+vcFX])
		vcEnsures("records fill it", vcPos[vcCount] == size && (vcRec >= vcCount || vcRecOK(vcFData, 18, vcRec, size)))
		vcCover("read")
	} else {
		vcEnsures("a log as written is read unless reading fails", !good || vcFFail || vcBufErr)
	}
}

// vcLogNext: each record of a log is read in turn, byte for byte.
func vcLogNext() {
	vcFStart()
	vcBufSize = vcI64("size")
	vcAssume(vcBufSize >= 0 && vcBufSize < 1<<40)
	at := vcI64("at")
	vcPos = make([]int64, 2)
	vcPos[0] = at
	r := &Reader{buffer: &bpool.Buffer{}, offset: at, entryCount: vcU32("left")}
	left := r.entryCount
	vcAssume(left == 0 || vcRecOK(vcBuf, 0, 0, vcBufSize))
	data, ok, err := r.Next()
	if left == 0 {
		vcEnsures("no more records", !ok && err == nil && r.offset == at)
		return
	}
	n := vcRecLen(vcBuf, at)
	vcEnsures("a record", ok && err == nil && int64(len(data)) == n-4 && r.entryCount == left-1)
	vcEnsures("its bytes", vcFX >= n-4 || data[vcFX] == vcBuf[at+4+vcFX])
	vcEnsures("the next one follows", r.offset == at+n)
	vcCover("record")
}

// vcLogAppend: a record appended follows those before, in its frame, and counts.
func vcLogAppend() {
	vcFStart()
	vcBufSize = vcI64("size")
	vcAssume(vcBufSize >= 0 && vcBufSize < 1<<31)
	w := &Writer{buffer: &bpool.Buffer{}, count: vcU32("count"), logSize: uint32(vcBufSize)}
	vcAssume(w.count < 1<<30)
	size, count := vcBufSize, w.count
	data := make([]byte, vcRange("n", 0, 1<<31-5))
	vcScramble(data)
	y := vcI64("y")
	vcAssume(y >= 0 && y < size)
	was := vcBuf[y]
	err := w.append(data)
	vcEnsures("a failure is reported", (err != nil) == vcBufErr)
	if err != nil {
		return
	}
	if len(data) == 0 {
		vcEnsures("nothing to append", vcBufSize == size && w.count == count && int64(w.logSize) == size)
		return
	}
	vcEnsures("a record more", w.count == count+1 && vcBufSize == size+4+int64(len(data)) && int64(w.logSize) == vcBufSize)
	vcEnsures("its length", vcRecLen(vcBuf, size) == 4+int64(len(data)))
	vcEnsures("its bytes", vcFX >= int64(len(data)) || vcBuf[size+4+vcFX] == data[vcFX])
	vcEnsures("those before stay", vcBuf[y] == was)
	vcCover("appended")
}

var (
	vcGDone  bool
	vcGFail  bool
	vcGCount uint32
	vcGSize  uint32
	vcGBuf   *bpool.Buffer
)

//verif:model (*github.com/unit-io/unitdb/wal._FileStore).put only logCommit
func vcGPut(fs *_FileStore, info _LogInfo, data *bpool.Buffer) error {
	vcEnsures("the log is put, with its count and size", !vcGDone && info.timeID == vcFID && info.count == vcGCount && info.size == vcGSize &&
		info.version == version && data == vcGBuf)
	if vcNondetBool() {
		vcGFail = true
		return vcErr()
	}
	vcGDone = true
	return nil
}

//verif:model (*github.com/unit-io/bpool.BufferPool).Put only logCommit
func vcGBufPut(p *bpool.BufferPool, b *bpool.Buffer) {
	vcEnsures("the buffer is given back", b == vcGBuf)
}

// vcLogCommit: a log of records is put once, and complete then; one of none is not.
func vcLogCommit() {
	vcFStart()
	vcGBuf = &bpool.Buffer{}
	w := &Writer{buffer: vcGBuf, count: vcU32("count"), logSize: vcU32("size"), wal: &WAL{}, writeCompleted: make(chan struct{}, 1)}
	vcGCount, vcGSize = w.count, w.logSize
	err := w.writeLog(vcFID)
	switch {
	case vcGFail:
		vcEnsures("a failure is reported", err != nil && !w.writeComplete)
	case vcGSize == 0:
		vcEnsures("nothing to write", err == nil && !vcGDone && !w.writeComplete)
	default:
		vcEnsures("written", err == nil && vcGDone && w.writeComplete)
		vcCover("written")
	}
}

// The contract of readLog, proved above.
//
//verif:model readLog only storeRead
func vcHReadLog(f *os.File, id int64, info *_LogInfo, data *bpool.Buffer) error {
	vcEnsures("the log's file is read", vcFOpen && id == vcFID && vcBufSize == 0)
	info.timeID, info.count, info.size = id, vcNondetU32(), vcNondetU32()
	vcBufSize = int64(info.size)
	vcGCount = info.count
	if vcNondetBool() {
		vcFBad = true
		return vcErr()
	}
	return nil
}

// vcStoreRead: a log that cannot be read has no records.
func vcStoreRead() {
	fs := vcFStart()
	vcBufSize = 0
	was := vcFThere
	info := fs.read(vcFID, &bpool.Buffer{})
	if !fs.opened || !was || vcFFail || vcFBad {
		vcEnsures("no records", info.count == 0 && vcBufSize == 0)
	} else {
		vcEnsures("its records", info.count == vcGCount && vcBufSize == int64(info.size) && !vcFOpen)
		vcCover("read")
	}
}

var (
	vcJIDs   []int64
	vcJRead  int
	vcJAsked int
)

//verif:model (*github.com/unit-io/bpool.BufferPool).Get only logIterate
func vcJBufGet(p *bpool.BufferPool) *bpool.Buffer { return &bpool.Buffer{} }

//verif:model (*github.com/unit-io/bpool.BufferPool).Put only logIterate
func vcJBufPut(p *bpool.BufferPool, b *bpool.Buffer) {}

//verif:model (*github.com/unit-io/unitdb/wal._FileStore).read only logIterate
func vcJStoreRead(fs *_FileStore, id int64, data *bpool.Buffer) _LogInfo {
	vcEnsures("logs are read in the order given, into an empty buffer", vcJRead == vcJAsked && vcJRead < len(vcJIDs) && id == vcJIDs[vcJRead] && vcBufSize == 0)
	vcJRead++
	vcBufSize = 7
	vcGCount = vcNondetU32()
	return _LogInfo{timeID: id, count: vcGCount}
}

//verif:loop (*Reader).Iterator 0
func vcJInv(k int) bool { return k == vcJRead && k == vcJAsked && k <= len(vcJIDs) && !vcGDone && !vcGFail }

// vcLogIterate: each log is read once, in order, and its records from its first
// on are those of the iteration, until it is stopped; then there are none.
func vcLogIterate() {
	vcFStart()
	vcJIDs = make([]int64, vcRange("logs", 0, 1<<30))
	vcScramble(vcJIDs)
	r := &Reader{wal: &WAL{recoveredTimeIDs: vcJIDs}}
	err := r.Iterator(func(id int64) (bool, error) {
		vcEnsures("of the log read", !vcGDone && vcJRead == vcJAsked+1 && id == vcJIDs[vcJAsked])
		vcEnsures("its records, from the first", r.Count() == vcGCount && r.offset == 0)
		vcJAsked++
		r.offset = vcNondetI64() // records are read
		vcGDone = vcNondetBool()
		if vcNondetBool() {
			vcGDone, vcGFail = true, true
			return false, vcErr()
		}
		return vcGDone, nil
	})
	vcEnsures("a failure is reported", (err != nil) == vcGFail)
	vcEnsures("all read unless stopped", vcGDone || vcJAsked == len(vcJIDs))
	vcEnsures("none are read again", len(r.wal.recoveredTimeIDs) == 0)
}

// vcLogApplied: a log applied is removed, and no other.
func vcLogApplied() {
	fs := vcFStart()
	was := vcFThere
	err := (&WAL{logStore: fs}).SignalLogApplied(vcFID)
	vcEnsures("removed", err == nil && vcFRemoved == (was && fs.opened))
}
