package message

import (
	"errors"
	"strconv"
	"time"
)

// The contract of reading an option of a topic, over the contracts of the number
// and duration parsers of the standard library: what they make of a text is
// arbitrary, the same each time, and no text is both.
var (
	vcOIs    bool // the value is a number
	vcOVal   int64
	vcODurOK bool // the value is a duration
	vcODur   time.Duration
	vcOClock int64 // the time, seconds and nanoseconds
	vcONanos int64
	vcOWant  string // the value of the option
	vcOI     int    // an arbitrary option
)

//verif:model =strconv.ParseInt only ttl last
func vcOParseInt(s string, base int, bitSize int) (int64, error) {
	vcEnsures("the option's value is read as a decimal number", s == vcOWant && base == 10 && bitSize == 64)
	if !vcOIs {
		return vcNondetI64(), strconv.ErrSyntax
	}
	return vcOVal, nil
}

//verif:model =time.ParseDuration only ttl last
func vcOParseDuration(s string) (time.Duration, error) {
	vcEnsures("the option's value is read as a duration", s == vcOWant || s == "")
	if s == "" || !vcODurOK {
		return 0, errDuration
	}
	return vcODur, nil
}

var errDuration = errors.New("no duration")

//verif:model =time.Now only ttl last
func vcONow() time.Time { return time.Unix(vcOClock, vcONanos) }

//verif:loop (*Topic).getOption 0
func vcOptionInv(i int, t *Topic, name string) bool {
	return i >= 0 && i <= len(t.Options) && (vcOI >= i || t.Options[vcOI].Key != name)
}

// vcOptions: any options; the one named name, if there is one.
func vcOptions(name string) (t *Topic, at int) {
	t = &Topic{Options: make([]TopicOption, vcRange("options", 0, 1<<20))}
	vcScramble(t.Options)
	at = vcRange("first", 0, 1<<20)
	vcAssume(at <= len(t.Options))
	vcAssume(vcForall(0, at, func(i int) bool { return t.Options[i].Key != name }))
	vcAssume(at == len(t.Options) || t.Options[at].Key == name)
	if at < len(t.Options) {
		vcAssume(t.Options[at].Value != "") // the fields of a text are not empty
		vcOWant = t.Options[at].Value
	}
	vcOI = at
	vcOIs, vcOVal = vcBool("number"), vcI64("value")
	vcODurOK, vcODur = vcBool("duration"), time.Duration(vcI64("nanoseconds of it"))
	vcAssume(!vcOIs || !vcODurOK)
	vcOClock, vcONanos = vcI64("clock"), vcI64("nanoseconds")
	vcAssume(vcOClock >= 0 && vcOClock < 1<<32 && vcONanos >= 0 && vcONanos < 1000000000)
	return t, at
}

// vcFloor: the second of the time now and so many nanoseconds.
func vcFloor(ns int64) int64 {
	s, r := ns/1000000000, int32(ns%1000000000)+int32(vcONanos) // less than 2^31
	if r < 0 {
		s--
	} else if r >= 1000000000 {
		s++
	}
	return vcOClock + s
}
