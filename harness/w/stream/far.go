package stream

import (
	"bytes"
	"io"
	"math/rand"
	"runtime/debug"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"verifharness/h"
)

// farStream works on a stream of more than 4 GiB. The memory is reserved but
// hardly touched; the model holds only the blocks that were.
func farStream(cx *h.Ctx, r *rand.Rand) {
	const bpb, blocks = 1 << 16, 1<<16 + 9
	cx.Reserve(bpb * blocks)
	defer debug.FreeOSMemory()
	stored := map[uint64][]byte{}
	content := func(i uint64) []byte {
		if b := stored[i]; b != nil {
			return b
		}
		b := make([]byte, bpb)
		for k := range b {
			b[k] = byte(uint64(k)*7+i*13+i>>8) | 1
		}
		return b
	}
	fetched := 0
	cache := blockcache.New(bpb, blocks, func(i common.LogicalBlock, b []byte) error {
		fetched++
		copy(b, content(uint64(i)))
		return nil
	}, func(i common.LogicalBlock, b []byte) error {
		stored[uint64(i)] = append([]byte(nil), b...)
		return nil
	}, nil)
	size := int64(bpb*blocks) - 11
	s, err := basicstream.New(size, cache, disko.O_RDWR)
	if err != nil {
		cx.Fail("far-open", "opening a stream of %d bytes failed: %v", size, err)
	}
	model := map[uint64][]byte{} // pending content
	at := func(i uint64) []byte {
		if model[i] == nil {
			model[i] = append([]byte(nil), content(i)...)
		}
		return model[i]
	}
	each := func(off int64, n int, f func(b []byte)) {
		for n > 0 {
			b := at(uint64(off) / bpb)[off%bpb:]
			if len(b) > n {
				b = b[:n]
			}
			f(b)
			off, n = off+int64(len(b)), n-len(b)
		}
	}
	marks := []int64{0, 1<<31 - 5, 1 << 31, 1<<32 - 70000, 1<<32 - 3, 1 << 32, 1<<32 + 70000, size - 100, size - 1, size, size + 4}
	for k := 0; k < 400; k++ {
		off := marks[r.Intn(len(marks))] + int64(r.Intn(7)-3)
		if off < 0 {
			off = 0
		}
		n := []int{1, 5, 100, bpb, 2*bpb + 3}[r.Intn(5)]
		buf := make([]byte, n)
		seek := r.Intn(2) == 0
		if seek {
			whence, o := io.SeekStart, off
			switch r.Intn(3) {
			case 1:
				whence, o = io.SeekCurrent, off-s.Tell()
			case 2:
				whence, o = io.SeekEnd, off-s.Size()
			}
			if p, err := s.Seek(o, whence); err != nil || p != off || s.Tell() != off {
				cx.Fail("far-seek", "Seek(%d, %d) in a stream of %d bytes gave %d, %v; position %d, expected %d", o, whence, size, p, err, s.Tell(), off)
			}
		}
		if r.Intn(2) == 0 {
			var got int
			var err error
			if seek {
				got, err = s.Read(buf)
			} else {
				got, err = s.ReadAt(buf, off)
			}
			want := int(max(0, min(int64(n), size-off)))
			if got != want || (err != nil) != (want < n) || (err != nil && err != io.EOF) {
				cx.Fail("far-read", "reading %d bytes at %d of %d gave %d, %v", n, off, size, got, err)
			}
			rest := buf[:got]
			each(off, got, func(b []byte) {
				if !bytes.Equal(rest[:len(b)], b) {
					cx.Fail("far-read", "reading %d bytes at %d of %d gave wrong data", n, off, size)
				}
				rest = rest[len(b):]
			})
			if seek && s.Tell() != off+int64(got) {
				cx.Fail("far-position", "position after reading %d bytes at %d is %d", got, off, s.Tell())
			}
		} else {
			r.Read(buf)
			if room := int64(bpb*blocks) - off; int64(n) > room {
				buf = buf[:max(0, room)]
			}
			if len(buf) == 0 {
				continue
			}
			var got int
			var err error
			if seek {
				got, err = s.Write(buf)
			} else {
				got, err = s.WriteAt(buf, off)
			}
			if got != len(buf) || err != nil {
				cx.Fail("far-write", "writing %d bytes at %d of %d gave %d, %v", len(buf), off, size, got, err)
			}
			if off > size {
				each(size, int(off-size), func(b []byte) { clear(b) })
			}
			rest := buf
			each(off, len(buf), func(b []byte) { copy(b, rest); rest = rest[len(b):] })
			size = max(size, off+int64(len(buf)))
		}
		if s.Size() != size {
			cx.Fail("far-size", "size is %d, expected %d", s.Size(), size)
		}
		if r.Intn(20) == 0 {
			if err := s.Sync(); err != nil {
				cx.Fail("far-sync", "storing failed: %v", err)
			}
			for i, b := range model {
				if !bytes.Equal(content(i), b) {
					cx.Fail("far-stored", "block %d of %d is not as written after storing", i, blocks)
				}
			}
		}
		cx.Count("far_ops", 1)
	}
	cx.Count("far_fetches", int64(fetched))
}
