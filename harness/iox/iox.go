// Package iox has hostile but contract-abiding I/O shims.
package iox

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"syscall"

	"github.com/dargueta/disko"
)

// ErrInjected is the failure the shims inject.
var ErrInjected = errors.New("injected I/O failure")

// ChunkReader delivers data in chunks chosen by Next.
type ChunkReader struct {
	Data    []byte
	Pos     int
	Next    func(avail int) int // size of next chunk; 0 = a (0,nil) read
	EOFWith bool                // deliver EOF/error together with the last data
	FailAt  int                 // -1: never; fail once Pos reaches FailAt
	Err     error               // error at FailAt
	Once    bool                // report the failure once, end of file after that
	Resume  bool                // report the failure once, the rest of the data after that
	Failed  bool
	Reads   int
	zero    int
}

func (r *ChunkReader) Read(p []byte) (int, error) {
	r.Reads++
	end, fin := len(r.Data), error(io.EOF)
	if r.FailAt >= 0 && r.FailAt <= end && !(r.Resume && r.Failed) {
		end, fin = r.FailAt, r.Err
	}
	if r.Pos >= end {
		if r.Once && r.Failed && fin != io.EOF {
			return 0, io.EOF
		}
		r.Failed = r.Failed || fin != io.EOF
		return 0, fin
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := end - r.Pos
	if r.Next != nil {
		k := r.Next(n)
		if k == 0 {
			r.zero++
			if r.zero < 3 {
				return 0, nil
			}
			k = 1
		}
		r.zero = 0
		if k < n {
			n = k
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.Data[r.Pos:r.Pos+n])
	r.Pos += n
	if r.Pos >= end && r.EOFWith {
		r.Failed = r.Failed || fin != io.EOF
		return n, fin
	}
	return n, nil
}

// Modes returns chunk policies.
func Modes(r *rand.Rand) []func(int) int {
	return []func(int) int{
		nil,
		func(int) int { return 1 },
		func(int) int { return 1 + r.Intn(7) },
		func(a int) int { return r.Intn(300) },
		func(int) int { return 257 },
		func(int) int { return 512 },
	}
}

// NewReader makes a reader with policy m.
func NewReader(data []byte, m func(int) int, eofWith bool) *ChunkReader {
	return &ChunkReader{Data: data, Next: m, EOFWith: eofWith, FailAt: -1}
}

// Errors are failures of different kinds, some of them easily mistaken for
// something harmless.
var Errors = []error{
	ErrInjected,
	io.ErrUnexpectedEOF,
	&fs.PathError{Op: "read", Path: "image", Err: syscall.EIO},
	io.ErrClosedPipe,
	io.ErrNoProgress,
	fmt.Errorf("device: %w", ErrInjected),
	io.ErrShortWrite,
}

type variant struct{ base, kind error }

func (v *variant) Error() string   { return v.base.Error() }
func (v *variant) Unwrap() []error { return []error{v.base, v.kind} }

// kinds are what else a failure may be recognisable as. End of file is not
// among them: telling that apart with == or errors.Is is equally right.
var kinds = []error{nil, disko.ErrNotFound, disko.ErrExists, io.ErrUnexpectedEOF, disko.ErrNotSupported, nil, disko.ErrNotPermitted,
	disko.ErrReadOnlyFileSystem, disko.ErrNoSpaceOnDevice, disko.ErrArgumentOutOfRange, disko.ErrInvalidArgument, disko.ErrIOFailed,
	io.ErrShortWrite, disko.ErrFileSystemCorrupted, disko.ErrNotImplemented, io.ErrNoProgress, os.ErrClosed, disko.ErrNotADirectory}

// Variant gives base, recognisable as one of several other things as well.
func Variant(base error, i int) error {
	k := kinds[i%len(kinds)]
	if k == nil {
		return base
	}
	return &variant{base, k}
}

// Kinds is how many variants there are.
func Kinds() int { return len(kinds) }

// FailReader fails at byte k.
func FailReader(data []byte, k int, m func(int) int, with bool) *ChunkReader {
	return &ChunkReader{Data: data, Next: m, EOFWith: with, FailAt: k, Err: ErrInjected}
}

// After chooses what the reader does once it has failed: it stays that way, is
// at its end, or carries on.
func (r *ChunkReader) After(how int) *ChunkReader {
	r.Once, r.Resume = how%3 == 1, how%3 == 2
	return r
}

// Sink is a writer with limited room.
type Sink struct {
	B      []byte
	Room   int // -1 unlimited
	Err    error
	Writes int
	Failed bool
	Again  bool // fail once, take everything after that
	Whole  bool // the write that fails takes everything all the same
}

// NewSink makes an unlimited sink.
func NewSink() *Sink { return &Sink{Room: -1} }

func (s *Sink) Write(p []byte) (int, error) {
	s.Writes++
	if s.Whole && s.Err != nil && s.Room >= 0 && len(p) > 0 && len(s.B)+len(p) >= s.Room {
		s.B = append(s.B, p...)
		s.Failed = true
		s.Room = len(s.B)
		if s.Again {
			s.Room = -1
		}
		return len(p), s.Err
	}
	if s.Room >= 0 && len(s.B)+len(p) > s.Room {
		n := s.Room - len(s.B)
		if n < 0 {
			n = 0
		}
		s.B = append(s.B, p[:n]...)
		s.Failed = true
		if s.Again {
			s.Room = -1
		}
		return n, s.Err
	}
	s.B = append(s.B, p...)
	return len(p), nil
}
