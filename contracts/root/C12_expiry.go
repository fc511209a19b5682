package unitdb

import (
	"strconv"
	"time"
)

var (
	vcEClock int64 // the time in seconds
	vcEIs    bool  // a text is a number
	vcEVal   int64
	vcEDurOK bool // a text is a duration
	vcEDur   time.Duration
	vcEWant  string
	vcENanos int64
)

//verif:model =time.Now only C12_isExpired C12_withTTL
func vcENow() time.Time { return time.Unix(vcEClock, vcENanos) }

//verif:model =strconv.ParseInt only C12_isExpired C12_withTTL
func vcEParseInt(s string, base int, bitSize int) (int64, error) {
	vcEnsures("the text is read as a decimal number", s == vcEWant && base == 10 && bitSize == 64)
	if !vcEIs {
		return vcNondetI64(), strconv.ErrSyntax
	}
	return vcEVal, nil
}

//verif:model =time.ParseDuration only C12_isExpired C12_withTTL
func vcEParseDuration(s string) (time.Duration, error) {
	vcEnsures("the text is read as a duration", s == vcEWant)
	if !vcEDurOK {
		return 0, vcErr()
	}
	return vcEDur, nil
}

func vcEClocks() {
	vcEClock, vcENanos = vcI64("clock"), vcI64("nanoseconds")
	vcAssume(vcEClock >= 0 && vcEClock < 1<<32 && vcENanos >= 0 && vcENanos < 1000000000)
}

// VC_C12_isExpired: an entry is expired from its expiry time on, and never if it
// has none.
//
//verif:seqs
func VC_C12_isExpired() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcEClocks()
	e := _WinEntry{sequence: vcU64("seq"), expiresAt: vcU32("expires")}
	vcAssert("expired", e.isExpired() == (e.expiresAt != 0 && int64(e.expiresAt) <= vcEClock))
}

// VC_C12_withTTL: an entry's time to live is a number of seconds or a duration
// from now.
//
//verif:seqs
func VC_C12_withTTL() {
	if !vcSymbolic() {
		panic(vcDiscard{})
	}
	vcEClocks()
	vcEIs, vcEVal = vcBool("number"), vcI64("value")
	vcEDurOK, vcEDur = vcBool("duration"), time.Duration(vcI64("nanoseconds of it"))
	vcAssume(vcEIs != vcEDurOK)
	vcEWant = string(vcBytes("text", 0, 8))
	e := &Entry{}
	r := e.WithTTL(vcEWant)
	vcAssert("the same entry", r == e)
	if vcEIs {
		vcAssert("seconds", e.ExpiresAt == uint32(vcEClock+vcEVal))
	} else if vcEDur >= 0 {
		// the second of the time now and the duration
		s, r := int64(vcEDur)/1000000000, int32(int64(vcEDur)%1000000000)+int32(vcENanos)
		if r >= 1000000000 {
			s++
		}
		vcAssert("a duration", e.ExpiresAt == uint32(vcEClock+s))
	}
}

// VC_C12_lookup: see VC_C04_lookup; that unexpired entries are found, and no
// others, is part of it.
func VC_C12_lookup() { vcLookup() }
