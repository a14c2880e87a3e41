// Package gz has the model of compress/gzip the symbolic runs use: a stream that starts with gzip's two magic
// bytes, keeps the data as blocks, with their lengths, of what was written between flushes, and ends in a zero byte.
package gz

import (
	"bytes"
	"compress/gzip"
	"errors"
	"io"
	"io/ioutil"
	"sync"

	"github.com/wujiu2020/strip/zz_verif/sym"
)

const Replace = `
compress/gzip.NewWriter = NewWriter
compress/gzip.NewWriterLevel = NewWriterLevel
(*compress/gzip.Writer).Write = Write
(*compress/gzip.Writer).Flush = Flush
(*compress/gzip.Writer).Close = Close
(*compress/gzip.Writer).Reset = Reset
`

type state struct {
	z       *gzip.Writer
	w       io.Writer
	started bool
	closed  bool
	err     error
	pending []byte
}

var (
	mu  sync.Mutex
	all []*state
)

func of(z *gzip.Writer) *state {
	mu.Lock()
	defer mu.Unlock()
	for _, s := range all {
		if s.z == z {
			return s
		}
	}
	s := &state{z: z}
	all = append(all, s)
	return s
}

func NewWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	Reset(z, w)
	return z
}

func NewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if level < -2 || level > 9 {
		return nil, errors.New("gzip: invalid compression level")
	}
	return NewWriter(w), nil
}

func Reset(z *gzip.Writer, w io.Writer) {
	s := of(z)
	s.w, s.started, s.closed, s.err, s.pending = w, false, false, nil, nil
}

func (s *state) put(b ...byte) {
	if s.err == nil {
		_, s.err = s.w.Write(b)
	}
}

func (s *state) start() {
	if !s.started {
		s.started = true
		s.put(0x1f, 0x8b)
	}
}

func Write(z *gzip.Writer, p []byte) (int, error) {
	s := of(z)
	if s.err != nil {
		return 0, s.err
	}
	if s.closed {
		return 0, errors.New("gzip: write to closed writer")
	}
	s.start()
	s.pending = append(s.pending, p...)
	return len(p), s.err
}

func (s *state) block() {
	if len(s.pending) > 0 {
		n := len(s.pending)
		s.put(append([]byte{1, byte(n >> 16), byte(n >> 8), byte(n)}, s.pending...)...)
		s.pending = nil
	}
}

func Flush(z *gzip.Writer) error {
	s := of(z)
	if s.err != nil || s.closed {
		return s.err
	}
	s.start()
	s.block()
	return s.err
}

func Close(z *gzip.Writer) error {
	s := of(z)
	if s.err != nil || s.closed {
		return s.err
	}
	s.start()
	s.closed = true
	s.block()
	s.put(0)
	return s.err
}

// Decode gives what a client makes of a body: the data, and whether the body is one complete stream.
func Decode(b []byte) (data []byte, complete bool) {
	if !sym.Symbolic() {
		r, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, false
		}
		data, err = ioutil.ReadAll(r)
		return data, err == nil
	}
	if len(b) < 2 || b[0] != 0x1f || b[1] != 0x8b {
		return nil, false
	}
	b = b[2:]
	for len(b) > 0 {
		if b[0] == 0 {
			return data, len(b) == 1
		}
		if len(b) < 4 {
			return data, false
		}
		n := int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		b = b[4:]
		if len(b) < n {
			return append(data, b...), false
		}
		data = append(data, b[:n]...)
		b = b[n:]
	}
	return data, false
}
