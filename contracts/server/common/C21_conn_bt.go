package common

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"

	"github.com/golang/protobuf/proto"
	pbx "github.com/unit-io/unitdb/server/proto"
)

// vcPipe is a gRPC stream as far as a connection uses it: SendMsg encodes the
// message before it returns and RecvMsg decodes the next one.
type vcPipe struct {
	mu   sync.Mutex
	q    [][]byte
	busy bool
	race bool
	fail bool
}

func (s *vcPipe) Context() context.Context { return nil }

func (s *vcPipe) SendMsg(m interface{}) error {
	s.mu.Lock()
	s.race = s.race || s.busy
	s.busy = true
	s.mu.Unlock()
	raw, err := proto.Marshal(m.(proto.Message))
	s.mu.Lock()
	defer s.mu.Unlock()
	s.busy = false
	if err != nil {
		return err
	}
	if s.fail {
		return errors.New("stream is broken")
	}
	s.q = append(s.q, raw)
	return nil
}

func (s *vcPipe) RecvMsg(m interface{}) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.q) == 0 {
		return io.EOF
	}
	raw := s.q[0]
	s.q = s.q[1:]
	return proto.Unmarshal(raw, m.(proto.Message))
}

func vcPbx(m proto.Message) *[]byte { return &m.(*pbx.Packet).Data }

// BT_C21_stream: histories of writes and reads of every size over one stream of
// the packets the server uses.
func BT_C21_stream(v *vcT) {
	for !v.over() {
		s := &vcPipe{}
		chunk := 1 + v.rnd.Intn(1<<uint(v.rnd.Intn(12)))
		c := &Conn{Stream: s, InMsg: &pbx.Packet{}, OutMsg: &pbx.Packet{}, Encode: ChunkedEncoder(Encode(vcPbx), chunk), Decode: Decode(vcPbx), WriteLock: &sync.Mutex{}}
		if v.rnd.Intn(3) == 0 {
			c.Encode = Encode(vcPbx)
		}
		var sent, got []byte
		size := func() int { return v.rnd.Intn(1 << uint(v.rnd.Intn(14))) }
		steps := 1 + v.rnd.Intn(40)
		for i := 0; i < steps; i++ {
			if v.rnd.Intn(2) == 0 {
				p := make([]byte, size())
				v.rnd.Read(p)
				keep := append([]byte{}, p...)
				n, err := c.Write(p)
				v.check(err == nil && n == len(p), "write of %d bytes (chunks of %d) = %d, %v", len(p), chunk, n, err)
				v.check(bytes.Equal(p, keep), "write changed its bytes")
				sent = append(sent, keep...)
				for j := range p { // a writer reuses its buffer
					p[j] = 0xEE
				}
				continue
			}
			p := make([]byte, size())
			n, err := c.Read(p)
			if err == io.EOF {
				v.check(len(got) == len(sent), "end of stream after %d of %d bytes", len(got), len(sent))
				err = nil
			}
			v.check(err == nil && n >= 0 && n <= len(p), "read of %d bytes = %d, %v", len(p), n, err)
			got = append(got, p[:n]...)
			v.check(len(got) <= len(sent) && bytes.Equal(got, sent[:len(got)]), "the %d bytes read after %d steps (chunks of %d) are not the first written", len(got), i, chunk)
		}
		for k := 0; k < 1<<20; k++ {
			p := make([]byte, size())
			n, err := c.Read(p)
			got = append(got, p[:n]...)
			if err == io.EOF {
				break
			}
			v.check(err == nil, "read: %v", err)
		}
		v.check(bytes.Equal(got, sent), "read %d bytes, %d were written, or they differ (chunks of %d)", len(got), len(sent), chunk)
		v.eval(fmt.Sprintf("%d steps, %d bytes in chunks of %d", steps, len(sent), chunk))
	}
}

// BT_C21_concurrent: a writer and a reader at once, and two writers: every
// write arrives whole and no message is sent while another is.
func BT_C21_concurrent(v *vcT) {
	for !v.over() {
		s := &vcPipe{}
		chunk := 1 + v.rnd.Intn(20)
		c := &Conn{Stream: s, InMsg: &pbx.Packet{}, OutMsg: &pbx.Packet{}, Encode: ChunkedEncoder(Encode(vcPbx), chunk), Decode: Decode(vcPbx), WriteLock: &sync.Mutex{}}
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func(g byte) {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					c.Write(bytes.Repeat([]byte{g*100 + byte(i)}, 30))
				}
			}(byte(g))
		}
		var got []byte
		p := make([]byte, 1+v.rnd.Intn(50))
		for len(got) < 2*20*30 {
			n, err := c.Read(p)
			if err == io.EOF {
				continue
			}
			if err != nil {
				v.failf("read: %v", err)
			}
			got = append(got, p[:n]...)
		}
		wg.Wait()
		v.check(!s.race, "two messages were sent at once")
		next := [2]byte{}
		for i := 0; i < len(got); i += 30 {
			g := got[i] / 100
			v.check(bytes.Equal(got[i:i+30], bytes.Repeat(got[i:i+1], 30)) && g < 2 && got[i]%100 == next[g], "writes of two writers are mixed up at byte %d (chunks of %d)", i, chunk)
			next[g]++
		}
		v.eval(fmt.Sprintf("chunks of %d", chunk))
	}
}
