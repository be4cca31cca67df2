// Checks S01-S04: basicstream against a byte-slice file model.
package stream

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"strings"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"verifharness/h"
	"verifharness/iox"
)

var errFault = errors.New("injected storage fault")

// store is the backing storage and its monitor.
type store struct {
	bpb      uint
	data     []byte // allocated bytes, whole blocks
	limit    uint   // most blocks it can grow to
	calls    int
	failAt   map[int]bool
	dead     map[c.LogicalBlock]bool // blocks that can't be read
	fired    []string
	flushed  map[uint]int
	nflush   int
	nresize  int
	bad      string
	garbage  byte
	refusals int
	err      error // what failures are
}

func (s *store) total() uint { return uint(len(s.data)) / s.bpb }

func (s *store) chk(kind string, i c.LogicalBlock, b []byte) error {
	if uint64(i) >= uint64(s.total()) || uint(len(b)) != s.bpb {
		s.bad = fmt.Sprintf("%s callback for block %d (buffer %d bytes) with %d blocks of %d bytes", kind, i, len(b), s.total(), s.bpb)
		return errors.New("harness: " + s.bad)
	}
	return nil
}

func (s *store) fetch(i c.LogicalBlock, b []byte) error {
	s.calls++
	if err := s.chk("fetch", i, b); err != nil {
		return err
	}
	if s.failAt[s.calls] || s.dead[i] {
		for k := range b {
			b[k] = 0xBD
		}
		s.fired = append(s.fired, fmt.Sprintf("fetch %d", i))
		return s.err
	}
	copy(b, s.data[uint(i)*s.bpb:])
	return nil
}

func (s *store) flush(i c.LogicalBlock, b []byte) error {
	s.calls++
	if err := s.chk("flush", i, b); err != nil {
		return err
	}
	s.nflush++
	if s.failAt[s.calls] {
		copy(s.data[uint(i)*s.bpb:], bytes.Repeat([]byte{0xBD}, int(s.bpb/2)))
		s.fired = append(s.fired, fmt.Sprintf("flush %d", i))
		return s.err
	}
	s.flushed[uint(i)]++
	copy(s.data[uint(i)*s.bpb:uint(i+1)*s.bpb], b)
	return nil
}

func (s *store) resize(n c.LogicalBlock) error {
	s.calls++
	s.nresize++
	if s.failAt[s.calls] {
		s.fired = append(s.fired, fmt.Sprintf("resize %d", n))
		return s.err
	}
	if uint64(n) > uint64(s.limit) {
		s.refusals++
		return disko.ErrNoSpaceOnDevice
	}
	want := int(uint(n) * s.bpb)
	if want <= len(s.data) {
		s.data = append([]byte(nil), s.data[:want]...)
	} else {
		s.data = append(s.data, bytes.Repeat([]byte{s.garbage}, want-len(s.data))...)
	}
	return nil
}

type kind int

const (
	kCallbacks kind = iota // cache over callbacks, resizable
	kFixed                 // cache over callbacks that can't be resized
	kFile                  // cache wrapping a real file in a scratch directory
	kSlice                 // cache wrapping a slice
)

type mon struct{ data, sync, modes, bulk bool }

type sim struct {
	c     *h.Ctx
	m     mon
	k     kind
	st    *store
	slice []byte
	file  *os.File
	cache *blockcache.BlockCache
	s     *basicstream.BasicStream
	flags disko.IOFlags
	// model
	data []byte
	pos  int64
	// widest is the largest size the stream had or asked for.
	widest int64
	mirror *os.File // the OS file used to check the model itself
	hist   []string
	cur    string
	bpb    uint
	// lastFault: a storage fault hit the last operation that looked.
	lastFault bool
}

func (s *sim) fail(on bool, key, f string, a ...any) {
	if on {
		hs := s.hist
		if len(hs) > 40 {
			hs = hs[len(hs)-40:]
		}
		s.c.Fail(key, "%s: %s\n  block size %d, flags %#x, history: %s", s.cur, fmt.Sprintf(f, a...), s.bpb, int(s.flags), strings.Join(hs, "; "))
	}
}

func (s *sim) any() bool { return true }

func harness(f string, a ...any) { panic(fmt.Sprintf("harness: "+f, a...)) }

// newSim builds a stream of size bytes over storage of `blocks` blocks.
func newSim(cx *h.Ctx, m mon, k kind, r *rand.Rand, bpb, blocks uint, size int64, flags disko.IOFlags, limit uint) *sim {
	s := &sim{c: cx, m: m, k: k, bpb: bpb, flags: flags}
	init := make([]byte, bpb*blocks)
	for i := range init {
		init[i] = byte(r.Intn(255) + 1) // slack never zero
	}
	s.data = append([]byte(nil), init[:size]...)
	s.widest = size
	s.hist = append(s.hist, fmt.Sprintf("new(kind=%d blocks=%d size=%d)", k, blocks, size))
	switch k {
	case kCallbacks, kFixed:
		s.st = &store{bpb: bpb, data: init, limit: limit, failAt: map[int]bool{}, flushed: map[uint]int{}, garbage: 0xA5, err: iox.Variant(errFault, r.Intn(iox.Kinds()))}
		rc := blockcache.ResizeCallback(s.st.resize)
		if k == kFixed {
			rc = nil
		}
		s.cache = blockcache.New(bpb, blocks, s.st.fetch, s.st.flush, rc)
	case kFile:
		f, err := os.Create(h.TempName("st"))
		if err != nil {
			harness("%v", err)
		}
		f.Write(init)
		s.file = f
		s.cache = blockcache.WrapStream(f, bpb, blocks, true)
	case kSlice:
		s.slice = init
		s.cache = blockcache.WrapSlice(init, bpb)
	}
	return s
}

func (s *sim) done() {
	if s.file != nil {
		s.file.Close()
		os.Remove(s.file.Name())
	}
	if s.mirror != nil {
		s.mirror.Close()
		os.Remove(s.mirror.Name())
	}
}

// open makes the stream; the model applies O_TRUNC.
func (s *sim) open(size int64) bool {
	s.cur = "New"
	st, err := basicstream.New(size, s.cache, s.flags)
	if s.flags.Truncate() {
		if !s.flags.Write() {
			s.refused(err)
			s.unchanged()
			return false
		}
		if s.fixedSize() {
			if err != nil {
				return false
			}
		}
		s.data = nil
	}
	if err != nil {
		s.fail(s.any(), "new", "failed: %v", err)
		return false
	}
	s.s = st
	s.checkState()
	return true
}

// useMirror also runs the history on an ordinary file.
func (s *sim) useMirror(r *rand.Rand) {
	f, err := os.Create(h.TempName("mi"))
	if err != nil {
		harness("%v", err)
	}
	f.Write(s.data)
	f.Seek(0, io.SeekStart)
	s.mirror = f
}

func (s *sim) checkMirror() {
	if s.mirror == nil {
		return
	}
	b, err := os.ReadFile(s.mirror.Name())
	if err != nil || !bytes.Equal(b, s.data) {
		harness("model differs from the OS file after %v: %s %v", s.hist, h.FirstDiff(s.data, b), err)
	}
	p, _ := s.mirror.Seek(0, io.SeekCurrent)
	if p != s.pos {
		harness("model position %d, OS %d after %v", s.pos, p, s.hist)
	}
	s.c.Count("states_compared_with_os_file", 1)
}

func (s *sim) fixedSize() bool { return s.k == kFixed || s.k == kSlice }

func (s *sim) stored() []byte {
	switch s.k {
	case kFile:
		b, err := os.ReadFile(s.file.Name())
		if err != nil {
			harness("%v", err)
		}
		return b
	case kSlice:
		return s.slice
	}
	return s.st.data
}

func (s *sim) checkState() {
	if s.s.Size() != int64(len(s.data)) {
		s.fail(s.any(), "size", "stream reports size %d, expected %d", s.s.Size(), len(s.data))
	}
	if s.s.Tell() != s.pos {
		s.fail(s.any(), "position", "stream reports position %d, expected %d", s.s.Tell(), s.pos)
	}
	if s.st != nil && s.st.bad != "" {
		s.fail(s.any(), "callback", "%s", s.st.bad)
	}
	s.c.Count("states_checked", 1)
}

// checkStored compares the storage with the model after a successful sync.
func (s *sim) checkStored() {
	got := s.stored()
	s.c.Count("storage_snapshots", 1)
	if len(got) < len(s.data) {
		s.fail(s.any(), "stored-short", "storage has %d bytes after a successful sync, stream has %d", len(got), len(s.data))
		return
	}
	if !bytes.Equal(got[:len(s.data)], s.data) {
		s.fail(s.any(), "stored-data", "storage differs from the stream after a successful sync: %s (got vs expected)", h.FirstDiff(got[:len(s.data)], s.data))
	}
	if s.st != nil {
		last := (uint64(s.widest) + uint64(s.bpb) - 1) / uint64(s.bpb)
		for i := range s.st.flushed {
			if uint64(i) >= last {
				s.fail(s.any(), "stored-outside", "block %d was written; the stream never exceeded %d bytes", i, s.widest)
			}
		}
	}
}

func (s *sim) refused(err error) {
	s.c.Count("refusals", 1)
	if err == nil {
		s.fail(s.any(), "not-refused", "succeeded, must be refused as not permitted")
	}
	if !errors.Is(err, disko.ErrNotPermitted) {
		s.fail(s.any(), "refusal-error", "failed with %q, expected the not-permitted error", err)
	}
}

func (s *sim) unchanged() {
	if s.st != nil && (s.st.nflush > 0 || s.st.nresize > 0) && !s.flags.Write() {
		s.fail(s.any(), "readonly-write", "storage was written (%d flushes, %d resizes) on a stream without write access", s.st.nflush, s.st.nresize)
	}
}

// fired reports whether a storage fault hit this operation; it then checks the
// error.
func (s *sim) fired(err error) bool {
	s.lastFault = false
	if s.st == nil || len(s.st.fired) == 0 {
		return false
	}
	s.lastFault = true
	s.c.Count("faults_fired", 1)
	if err == nil {
		s.fail(s.any(), "fault-lost", "%v failed but the call reported success", s.st.fired)
	} else if !errors.Is(err, errFault) {
		s.fail(s.any(), "fault-identity", "%v failed with %q but the call reported %q", s.st.fired, errFault, err)
	}
	return true
}

// adopt reads the state after a failed mutation of [off,off+n): everything
// outside must be as before, the size between the old and the new one.
func (s *sim) adopt(off, n int64, buf []byte, truncTo int64) {
	s.st.fired = nil
	saved := s.st.failAt
	s.st.failAt = map[int]bool{}
	sz := s.s.Size()
	old := int64(len(s.data))
	okSize := sz == old
	if truncTo >= 0 {
		okSize = okSize || sz == truncTo
	} else {
		okSize = okSize || (sz > old && sz <= off+n)
	}
	if !okSize {
		s.fail(s.any(), "size-after-fault", "stream reports size %d after a failed call; was %d", sz, old)
	}
	nd := make([]byte, sz)
	copy(nd, s.data)
	if s.flags.Read() {
		got := make([]byte, sz)
		if sz > 0 {
			k, err := s.s.ReadAt(got, 0)
			if int64(k) != sz || (err != nil && err != io.EOF) {
				s.fail(s.any(), "read-after-fault", "reading everything returned %d, %v; size %d", k, err, sz)
			}
		}
		for i := range got {
			p := int64(i)
			ok := got[i] == nd[i]
			if !ok && buf != nil && p >= off && p < off+n {
				ok = got[i] == buf[p-off]
			}
			if !ok {
				s.fail(s.any(), "data-after-fault", "byte %d is %#x after a failed call, was %#x", i, got[i], nd[i])
			}
		}
		nd = got
		s.data = nd
	} else {
		// Not readable: overwrite what is unknown.
		s.data = nd
		if buf != nil && off < sz {
			e := min(off+n, sz)
			fix := bytes.Repeat([]byte{0x5C}, int(e-off))
			if !s.flags.Append() {
				if k, err := s.s.WriteAt(fix, off); k != len(fix) || err != nil {
					s.fail(s.any(), "write-after-fault", "WriteAt returned %d, %v", k, err)
				}
				copy(s.data[off:], fix)
			} else {
				s.st.failAt = saved
				panic(giveUp{})
			}
		}
	}
	s.st.failAt = saved
	s.pos = s.s.Tell()
}

type giveUp struct{}

// op is one stream operation.
type op struct {
	kind string
	off  int64
	n    int
	wh   int
	seed byte
}

func (o op) String() string {
	switch o.kind {
	case "read", "write", "writestring":
		return fmt.Sprintf("%s(%d)", o.kind, o.n)
	case "seek":
		return fmt.Sprintf("seek(%d,%d)", o.off, o.wh)
	case "truncate":
		return fmt.Sprintf("truncate(%d)", o.off)
	case "sync", "close":
		return o.kind
	}
	return fmt.Sprintf("%s(%d,off=%d)", o.kind, o.n, o.off)
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24) | 1
	}
	return b
}

// canGrow says whether a mutation up to end fits the storage.
func (s *sim) canGrow(end int64) bool {
	cur := int64(s.cache.Size())
	switch s.k {
	case kCallbacks:
		return end <= cur || end <= int64(s.st.limit)*int64(s.bpb)
	case kFile:
		return true
	}
	return end <= cur
}

func (s *sim) step(o op) {
	s.hist = append(s.hist, o.String())
	s.cur = o.String()
	s.c.Logf("%v pos=%d size=%d", o, s.pos, len(s.data))
	s.c.Count("ops", 1)
	s.c.Distinct(o.kind, bucket(o.off), bucket(int64(o.n)), s.pos%int64(s.bpb), int64(len(s.data))%int64(s.bpb), s.k, s.flags)
	size := int64(len(s.data))
	switch o.kind {
	case "read", "readat":
		at := s.pos
		if o.kind == "readat" {
			at = o.off
		}
		full := bytes.Repeat([]byte{0xEE}, o.n+16)
		buf := full[8 : 8+o.n]
		var n int
		var err error
		if o.kind == "read" {
			n, err = s.s.Read(buf)
		} else {
			n, err = s.s.ReadAt(buf, at)
		}
		if !s.flags.Read() {
			if o.n > 0 && at >= 0 {
				s.refused(err)
			}
			if n != 0 {
				s.fail(s.any(), "read-count", "refused but returned %d", n)
			}
			break
		}
		if s.fired(err) {
			if n < 0 || n > o.n || at+int64(n) > max(size, at) {
				s.fail(s.any(), "read-count", "failed read returned %d", n)
			}
			if n > 0 && !bytes.Equal(buf[:n], s.data[at:at+int64(n)]) {
				s.fail(s.any(), "failed-read-data", "failed read claims %d bytes: %s (got vs expected)", n, h.FirstDiff(buf[:n], s.data[at:at+int64(n)]))
			}
			s.st.fired = nil
			if o.kind == "read" {
				if s.s.Tell() != s.pos+int64(n) {
					s.fail(s.any(), "position", "failed read returned %d but moved from %d to %d", n, s.pos, s.s.Tell())
				}
				s.pos = s.s.Tell()
			}
			break
		}
		if at < 0 {
			if err == nil {
				s.fail(s.any(), "negative", "negative offset accepted")
			}
			break
		}
		want := int64(0)
		if at < size {
			want = min(int64(o.n), size-at)
		}
		if s.mirror != nil {
			mb := make([]byte, o.n)
			var mn int
			if o.kind == "read" {
				mn, _ = s.mirror.Read(mb)
			} else {
				mn, _ = s.mirror.ReadAt(mb, at)
			}
			if int64(mn) != want {
				harness("model read count %d, OS %d", want, mn)
			}
		}
		if int64(n) != want {
			s.fail(s.any(), "read-count", "returned %d (%v), expected %d", n, err, want)
		}
		if !bytes.Equal(buf[:n], s.data[min(at, size):min(at, size)+want]) {
			s.fail(s.any(), "read-data", "%s (got vs expected)", h.FirstDiff(buf[:n], s.data[min(at, size):min(at, size)+want]))
		}
		switch {
		case err != nil && err != io.EOF:
			s.fail(s.any(), "read-error", "failed: %v", err)
		case o.n > 0 && want == 0 && err != io.EOF:
			s.fail(s.any(), "eof-missing", "nothing left but no end-of-file")
		case o.kind == "readat" && int(want) < o.n && err != io.EOF:
			s.fail(s.any(), "eof-missing", "short positioned read without end-of-file")
		case err == io.EOF && (at+want < size || o.n == 0):
			s.fail(s.any(), "eof-early", "end-of-file reported %d bytes before the end", size-at-want)
		}
		for i := range full {
			if (i < 8 || i >= 8+n) && full[i] != 0xEE {
				s.fail(s.any(), "read-overrun", "wrote outside the %d bytes it returned (index %d)", n, i-8)
			}
		}
		if o.kind == "read" {
			s.pos += int64(n)
		}
		for i := range buf { // the caller's buffer is not the cache
			buf[i] = 0x66
		}
	case "write", "writestring", "writeat":
		at := s.pos
		if o.kind == "writeat" {
			at = o.off
		} else if s.flags.Append() {
			at = size
		}
		buf := fill(o.n, o.seed)
		keep := append([]byte(nil), buf...)
		var n int
		var err error
		switch o.kind {
		case "write":
			n, err = s.s.Write(buf)
		case "writestring":
			n, err = s.s.WriteString(string(buf))
		default:
			n, err = s.s.WriteAt(buf, at)
		}
		if !bytes.Equal(buf, keep) {
			s.fail(s.any(), "write-buffer", "modified the caller's buffer")
		}
		for i := range buf {
			buf[i] = 0x66
		}
		if !s.flags.Write() || (o.kind == "writeat" && s.flags.Append()) {
			if o.n > 0 && at >= 0 {
				s.refused(err)
			}
			if n != 0 {
				s.fail(s.any(), "write-count", "refused but returned %d", n)
			}
			break
		}
		if s.fired(err) {
			s.widest = max(s.widest, at+int64(o.n))
			if n < 0 || n > o.n {
				s.fail(s.any(), "write-count", "failed write returned %d", n)
			}
			s.adopt(at, int64(o.n), keep, -1)
			break
		}
		if at < 0 {
			if err == nil {
				s.fail(s.any(), "negative", "negative offset accepted")
			}
			break
		}
		if o.n == 0 {
			if n != 0 {
				s.fail(s.any(), "write-count", "returned %d", n)
			}
			if s.flags.Append() { // either is fine
				if p := s.s.Tell(); p == size {
					s.pos = size
				}
			}
			break
		}
		if at > math.MaxInt64-int64(o.n) || !s.canGrow(at+int64(o.n)) {
			s.c.Count("growth_refused", 1)
			s.widest = max(s.widest, int64(s.cache.Size()))
			if err == nil || n != 0 {
				s.fail(s.any(), "growth", "returned %d, %v although the storage cannot grow", n, err)
			}
			if s.flags.Append() && s.s.Tell() == size {
				s.pos = size
			}
			break
		}
		if s.mirror != nil {
			if o.kind == "writeat" {
				s.mirror.WriteAt(keep, at)
			} else {
				s.mirror.Write(keep)
			}
		}
		if err != nil || n != o.n {
			s.fail(s.any(), "write-result", "returned %d, %v", n, err)
		}
		if end := at + int64(n); end > size {
			s.data = append(s.data, make([]byte, end-size)...)
			s.widest = max(s.widest, end)
			if at > size {
				s.c.Count("gap_writes", 1)
			}
		}
		copy(s.data[at:], keep)
		if o.kind != "writeat" {
			s.pos = at + int64(n)
		}
		if s.flags.Synchronous() {
			s.checkStored()
		}
	case "seek":
		base := map[int]int64{0: 0, 1: s.pos, 2: size}
		b, known := base[o.wh]
		p, err := s.s.Seek(o.off, o.wh)
		to := b + o.off
		if !known || to < 0 {
			if err == nil {
				s.fail(s.any(), "seek-accepted", "accepted, position %d", p)
			}
			break
		}
		if s.mirror != nil {
			s.mirror.Seek(o.off, o.wh)
		}
		if err != nil || p != to {
			s.fail(s.any(), "seek", "returned %d, %v; expected %d", p, err, to)
		}
		s.pos = to
	case "truncate":
		err := s.s.Truncate(o.off)
		if !s.flags.Write() {
			if o.off >= 0 {
				s.refused(err)
			}
			break
		}
		if s.fired(err) {
			s.widest = max(s.widest, o.off)
			s.adopt(0, 0, nil, o.off)
			break
		}
		if o.off < 0 {
			if err == nil {
				s.fail(s.any(), "negative", "negative size accepted")
			}
			break
		}
		if !s.canGrow(o.off) || (s.fixedSize() && o.off < size) {
			s.c.Count("growth_refused", 1)
			s.widest = max(s.widest, int64(s.cache.Size()))
			if err == nil {
				if o.off < size { // shrinking without giving up storage is fine
					s.data = s.data[:o.off]
					break
				}
				s.fail(s.any(), "growth", "succeeded although the storage cannot grow")
			}
			break
		}
		if err != nil {
			s.fail(s.any(), "truncate", "failed: %v", err)
		}
		if s.mirror != nil {
			s.mirror.Truncate(o.off)
		}
		if o.off <= size {
			s.data = append([]byte(nil), s.data[:o.off]...)
		} else {
			s.data = append(s.data, make([]byte, o.off-size)...)
		}
		s.widest = max(s.widest, o.off)
		if s.flags.Synchronous() {
			s.checkStored()
		}
	case "sync", "close":
		var err error
		if o.kind == "sync" {
			err = s.s.Sync()
		} else {
			err = s.s.Close()
		}
		if s.fired(err) {
			s.st.fired = nil
			break
		}
		if err != nil {
			s.fail(s.any(), "sync", "failed: %v", err)
		}
		s.checkStored()
	case "bulkread", "bulkwrite":
		harness("bulk op in step")
	}
	s.checkState()
	s.checkMirror()
	s.unchanged()
}

func bucket(n int64) int {
	switch {
	case n < 0:
		return -1
	case n < 4:
		return int(n)
	case n < 64:
		return 10
	case n < 600:
		return 11
	case n < 1<<20:
		return 12
	}
	return 13
}

func (s *sim) randOp(r *rand.Rand) op {
	size := int64(len(s.data))
	bpb := int64(s.bpb)
	pick := func() int64 { // an interesting offset
		switch r.Intn(6) {
		case 0:
			return size
		case 1:
			return max(0, size+int64(r.Intn(7))-3)
		case 2:
			return bpb*int64(r.Intn(int(size/bpb)+3)) + int64(r.Intn(3)) - 1
		case 3:
			return size + int64(r.Intn(int(3*bpb)))
		}
		return int64(r.Intn(int(size) + 1))
	}
	length := func() int {
		switch r.Intn(6) {
		case 0:
			return int(bpb)
		case 1:
			return int(bpb)*(1+r.Intn(3)) + r.Intn(3) - 1
		case 2:
			return r.Intn(3)
		case 3:
			return 1 + r.Intn(int(4*bpb))
		}
		return 1 + r.Intn(int(bpb)+1)
	}
	o := op{seed: byte(r.Intn(256))}
	switch x := r.Intn(100); {
	case x < 16:
		o.kind, o.n = "read", length()
	case x < 30:
		o.kind, o.n, o.off = "readat", length(), pick()
	case x < 48:
		o.kind, o.n = "write", length()
	case x < 52:
		o.kind, o.n = "writestring", length()
	case x < 66:
		o.kind, o.n, o.off = "writeat", length(), pick()
	case x < 80:
		o.kind, o.wh = "seek", r.Intn(3)
		o.off = pick()
		if o.wh == 1 {
			o.off -= s.pos
		} else if o.wh == 2 {
			o.off -= size
		}
	case x < 90:
		o.kind, o.off = "truncate", pick()
		if r.Intn(3) == 0 {
			o.off = int64(r.Intn(int(size) + 1))
		}
	case x < 96:
		o.kind = "sync"
	default:
		switch r.Intn(5) {
		case 0:
			o.kind, o.off, o.n = "readat", -1-int64(r.Intn(1000)), 1+r.Intn(9)
		case 1:
			o.kind, o.off, o.n = "writeat", -1-int64(r.Intn(1000)), 1+r.Intn(9)
		case 2:
			o.kind, o.wh, o.off = "seek", []int{0, 1, 2, 3, -1}[r.Intn(5)], -1-size-s.pos-int64(r.Intn(10))
		case 3:
			o.kind, o.off = "truncate", -1-int64(r.Intn(1000))
		case 4:
			o.kind, o.off, o.n = "readat", []int64{1 << 33, 1 << 62, math.MaxInt64, math.MaxInt64 - 5}[r.Intn(4)], 1+r.Intn(9)
		}
	}
	// Files do not grow without bound in a history.
	lim := int64(40 * bpb)
	at := s.pos
	if o.kind == "writeat" {
		at = o.off
	}
	if (strings.HasPrefix(o.kind, "write") && at < 1<<40 && at > lim) || (o.kind == "truncate" && o.off > lim) {
		return op{kind: "seek"}
	}
	return o
}

var sizes = []uint{1, 2, 3, 5, 7, 8, 16, 17, 64, 100, 128, 512}

func geometry(r *rand.Rand) (bpb, blocks uint, size int64) {
	bpb = sizes[r.Intn(len(sizes))]
	blocks = uint(r.Intn(7))
	size = int64(0)
	if blocks > 0 {
		switch r.Intn(3) {
		case 0:
			size = int64(bpb * blocks)
		case 1:
			size = int64(r.Intn(int(bpb*blocks) + 1))
		case 2:
			size = int64(bpb*blocks) - int64(r.Intn(int(bpb)))
		}
	}
	return
}

// runHistory runs n random operations.
func runHistory(cx *h.Ctx, r *rand.Rand, m mon, k kind, flags disko.IOFlags, n int, faults int, mirror bool) {
	bpb, blocks, size := geometry(r)
	limit := uint(200)
	if r.Intn(4) == 0 {
		limit = blocks + uint(r.Intn(4))
	}
	s := newSim(cx, m, k, r, bpb, blocks, size, flags, limit)
	defer s.done()
	if !s.open(size) {
		return
	}
	if mirror && !s.fixedSize() && limit == 200 && !flags.Append() && flags&disko.O_ACCMODE == disko.O_RDWR {
		s.useMirror(r)
	}
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(giveUp); ok {
				return
			}
			panic(v)
		}
	}()
	for i := 0; i < n; i++ {
		if faults > 0 && r.Intn(4) == 0 {
			for j := 0; j < faults; j++ {
				s.st.failAt[s.st.calls+1+r.Intn(6)] = true
			}
		}
		o := s.randOp(r)
		s.step(o)
	}
	if s.st != nil {
		s.st.failAt = map[int]bool{}
		s.st.fired = nil
	}
	if flags.Read() {
		s.readBack()
	}
	if flags.Write() {
		s.step(op{kind: []string{"sync", "close"}[r.Intn(2)]})
		if flags.Read() {
			s.readBack()
		}
		// Reopened over the same storage, the data is the same.
		if s.st != nil && !flags.Truncate() {
			s.reopen()
		}
	}
}

func (s *sim) readBack() {
	s.step(op{kind: "seek"})
	s.step(op{kind: "read", n: len(s.data) + 3})
	s.step(op{kind: "read", n: 1})
}

func (s *sim) reopen() {
	s.hist = append(s.hist, "reopen")
	s.cur = "reopened stream"
	cache := blockcache.New(s.bpb, s.st.total(), s.st.fetch, s.st.flush, s.st.resize)
	n, err := basicstream.New(int64(len(s.data)), cache, disko.O_RDONLY)
	if err != nil {
		s.fail(s.any(), "reopen", "failed: %v", err)
	}
	got, err := io.ReadAll(n)
	if err != nil || !bytes.Equal(got, s.data) {
		s.fail(s.any(), "reopen-data", "%v: %s (got vs expected)", err, h.FirstDiff(got, s.data))
	}
}

func s01(cx *h.Ctx) {
	m := mon{data: true}
	cx.Require("gap_writes", 50)
	cx.Require("states_compared_with_os_file", 200)
	for i := 0; i < cx.M(1500, 60000); i++ {
		cx.Case(fmt.Sprintf("history/%d", i), func(r *rand.Rand) {
			k := []kind{kCallbacks, kCallbacks, kCallbacks, kFixed, kFile, kSlice}[r.Intn(6)]
			fl := disko.O_RDWR
			if r.Intn(5) == 0 {
				fl |= disko.O_SYNC
			}
			runHistory(cx, r, m, k, fl, 5+r.Intn(60), 0, i%3 == 0)
		})
	}
	for i := 0; i < cx.M(40, 1000); i++ {
		cx.Case(fmt.Sprintf("impossible size/%d", i), func(r *rand.Rand) {
			bpb, blocks, _ := geometry(r)
			max := int64(bpb) * int64(blocks)
			for _, size := range []int64{-1, -int64(bpb), -max - 1, -1 << 63, max + 1, max + int64(bpb), 1<<63 - 1} {
				for fl := disko.IOFlags(0); fl < 3; fl++ {
					s := newSim(cx, m, kCallbacks, r, bpb, blocks, 0, fl, 100)
					before := append([]byte(nil), s.stored()...)
					st, err := basicstream.New(size, s.cache, fl)
					if err == nil {
						s.fail(true, "impossible-size", "a stream of %d bytes was made on storage of %d (%v)", size, max, st)
					}
					if !bytes.Equal(before, s.stored()) {
						s.fail(true, "impossible-size", "refusing a stream of %d bytes changed the storage", size)
					}
					s.done()
					cx.Count("impossible_sizes", 1)
				}
			}
		})
	}
	// Exhaustive small histories: two mutations then a full read.
	for _, bpb := range []uint{1, 3, 4} {
		for size := int64(0); size <= int64(2*bpb); size++ {
			cx.Case(fmt.Sprintf("small/%d/%d", bpb, size), func(r *rand.Rand) {
				var ops []op
				for off := int64(0); off <= int64(3*bpb)+1; off++ {
					ops = append(ops, op{kind: "truncate", off: off})
					for _, n := range []int{1, int(bpb), int(bpb) + 1} {
						ops = append(ops, op{kind: "writeat", off: off, n: n, seed: 9})
					}
				}
				for _, a := range ops {
					for _, b := range ops {
						s := newSim(cx, m, kCallbacks, r, bpb, 2, size, disko.O_RDWR, 100)
						if !s.open(size) {
							return
						}
						s.step(a)
						s.step(b)
						s.readBack()
						s.step(op{kind: "sync"})
						cx.Eval(1)
					}
				}
			})
		}
	}
	for i := 0; i < cx.M(300, 8000); i++ {
		cx.Case(fmt.Sprintf("dead-blocks/%d", i), func(r *rand.Rand) {
			// Blocks that can't be read are no obstacle to reading others.
			bpb := []uint{1, 2, 3, 8, 16}[r.Intn(5)]
			blocks := uint(2 + r.Intn(8))
			size := int64(bpb*blocks) - int64(r.Intn(int(bpb)))
			s := newSim(cx, m, kCallbacks, r, bpb, blocks, size, disko.O_RDWR, blocks)
			if !s.open(size) {
				return
			}
			s.st.dead = map[c.LogicalBlock]bool{}
			for k := 0; k < 1+r.Intn(2); k++ {
				s.st.dead[c.LogicalBlock(r.Intn(int(blocks)))] = true
			}
			for k := 0; k < 10; k++ {
				at := int64(r.Intn(int(blocks)) * int(bpb))
				n := int(bpb) * (1 + r.Intn(3))
				if r.Intn(3) == 0 {
					at, n = int64(r.Intn(int(size)+2)), r.Intn(int(size))
				}
				needed := false
				for b := range s.st.dead {
					lo, hi := int64(uint(b)*bpb), int64(uint(b+1)*bpb)
					needed = needed || n > 0 && at < hi && min(at+int64(n), size) > lo && at < size
				}
				kind := "readat"
				if r.Intn(2) == 0 {
					kind = "read"
					s.step(op{kind: "seek", off: at})
				}
				s.step(op{kind: kind, off: at, n: n})
				if !needed && s.lastFault {
					s.fail(true, "unneeded-block", "failed because of blocks it does not need (unreadable: %v)", s.st.dead)
				}
				cx.Count("reads_beside_dead_blocks", 1)
			}
		})
	}
	cx.Require("reads_beside_dead_blocks", 1000)
	cx.Case("far-offsets", func(r *rand.Rand) {
		for _, off := range []int64{1 << 33, 1 << 62, math.MaxInt64 - 10, math.MaxInt64 - 1, math.MaxInt64} {
			s := newSim(cx, m, kCallbacks, r, 8, 2, 10, disko.O_RDWR, 10)
			if !s.open(10) {
				return
			}
			s.step(op{kind: "writeat", off: off, n: 5})
			s.step(op{kind: "seek", off: off})
			if off > 1<<61 { // beyond the largest offset there is
				s.step(op{kind: "seek", wh: io.SeekCurrent, off: math.MaxInt64 - int64(r.Intn(20))})
				s.step(op{kind: "seek", wh: io.SeekCurrent, off: 1 << 62})
				s.step(op{kind: "seek", wh: io.SeekEnd, off: math.MaxInt64 - int64(r.Intn(5))})
				s.step(op{kind: "read", n: 5})
				s.step(op{kind: "seek", off: off})
			}
			s.step(op{kind: "read", n: 5})
			s.step(op{kind: "write", n: 5})
			s.step(op{kind: "truncate", off: off})
			s.readBack()
			s.step(op{kind: "sync"})
		}
	})
	huge(cx, m, false)
	cx.Case("beyond 4 GiB", func(r *rand.Rand) { farStream(cx, r) })
	cx.Case("large", func(r *rand.Rand) {
		for i := 0; i < cx.M(4, 60); i++ {
			bpb := []uint{512, 1024, 4096, 333}[i%4]
			s := newSim(cx, m, kCallbacks, r, bpb, 300, int64(bpb*300)-int64(r.Intn(100)), disko.O_RDWR, 2000)
			if !s.open(int64(len(s.data))) {
				return
			}
			for j := 0; j < 30; j++ {
				off := int64(r.Intn(len(s.data) + 5000))
				switch r.Intn(4) {
				case 0:
					s.step(op{kind: "writeat", off: off, n: 1 + r.Intn(100000), seed: byte(j)})
				case 1:
					s.step(op{kind: "readat", off: off, n: 1 + r.Intn(300000)})
				case 2:
					s.step(op{kind: "truncate", off: off})
				case 3:
					s.step(op{kind: "seek", off: off})
					s.step(op{kind: "write", n: 1 + r.Intn(20000), seed: byte(j)})
				}
			}
			s.readBack()
			s.step(op{kind: "sync"})
		}
	})
}

// huge runs histories whose lengths lie beyond every sixteen-bit count and
// every buffer an implementation might work through, on storage that has far
// more (stale) room than the stream uses.
func huge(cx *h.Ctx, m mon, sync bool) {
	for i := 0; i < cx.N(18, 120); i++ {
		cx.Case(fmt.Sprintf("huge/%d", i), func(r *rand.Rand) {
			bpb := []uint{4096, 16, 512, 65536, 1, 1000}[i%6]
			blocks := uint(70000)
			if bpb > 16 {
				blocks = 24<<20/bpb + uint(r.Intn(9))
			}
			room := int64(bpb * blocks)
			size := []int64{0, 1, int64(bpb) - 1, int64(bpb)*3 + 1}[r.Intn(4)]
			fl := disko.IOFlags(disko.O_RDWR)
			if sync {
				fl |= []disko.IOFlags{0, disko.O_SYNC, disko.O_APPEND}[r.Intn(3)]
			}
			s := newSim(cx, m, []kind{kCallbacks, kFixed, kFile}[r.Intn(3)], r, bpb, blocks, size, fl, blocks*2)
			defer s.done()
			if !s.open(size) {
				return
			}
			far := room - 1 - int64(r.Intn(int(room/3)))
			if fl.Append() || r.Intn(2) == 0 {
				s.step(op{kind: "truncate", off: far})
			} else {
				s.step(op{kind: "writeat", off: far, n: 1, seed: 3})
			}
			s.step(op{kind: "readat", off: 0, n: int(room)})
			s.step(op{kind: "sync"})
			for j := 0; j < 6; j++ {
				n := int(room/3) + r.Intn(int(room/3))
				off := int64(r.Intn(int(room) - n))
				switch r.Intn(3) {
				case 0:
					if fl.Append() {
						n = r.Intn(int(bpb) * 2)
					}
					s.step(op{kind: "seek", off: off})
					s.step(op{kind: "write", n: n, seed: byte(j)})
				case 1:
					s.step(op{kind: "seek", off: off})
					s.step(op{kind: "read", n: n})
				case 2:
					s.step(op{kind: "readat", off: off, n: n})
				}
			}
			s.readBack()
			s.step(op{kind: "sync"})
			if !s.fixedSize() {
				s.step(op{kind: "truncate", off: room/2 + int64(r.Intn(5))})
				s.step(op{kind: "truncate", off: room + int64(r.Intn(5))})
				s.readBack()
				s.step(op{kind: "truncate", off: int64(bpb) + 1})
				s.step(op{kind: "sync"})
				s.readBack()
			}
			cx.Count("huge_streams", 1)
		})
	}
	cx.Require("huge_streams", 4)
}

func s02(cx *h.Ctx) {
	m := mon{sync: true}
	huge(cx, m, true)
	cx.Require("storage_snapshots", 1000)
	cx.Require("faults_fired", 200)
	for i := 0; i < cx.M(1200, 40000); i++ {
		cx.Case(fmt.Sprintf("history/%d", i), func(r *rand.Rand) {
			k := []kind{kCallbacks, kCallbacks, kFixed, kFile, kSlice}[r.Intn(5)]
			fl := []disko.IOFlags{disko.O_RDWR, disko.O_RDWR | disko.O_SYNC, disko.O_WRONLY, disko.O_WRONLY | disko.O_SYNC,
				disko.O_RDWR | disko.O_APPEND, disko.O_RDWR | disko.O_APPEND | disko.O_SYNC, disko.O_RDWR | disko.O_TRUNC | disko.O_SYNC}[r.Intn(7)]
			runHistory(cx, r, m, k, fl, 5+r.Intn(40), 0, false)
		})
	}
	for i := 0; i < cx.M(1200, 60000); i++ {
		cx.Case(fmt.Sprintf("faults/%d", i), func(r *rand.Rand) {
			fl := []disko.IOFlags{disko.O_RDWR, disko.O_RDWR | disko.O_SYNC, disko.O_WRONLY, disko.O_RDWR | disko.O_APPEND}[r.Intn(4)]
			runHistory(cx, r, m, kCallbacks, fl, 5+r.Intn(40), 1+r.Intn(3), false)
		})
	}
	// Every fault position of fixed short histories.
	for i := 0; i < cx.M(60, 1500); i++ {
		cx.Case(fmt.Sprintf("fault-sweep/%d", i), func(r *rand.Rand) {
			bpb, blocks, size := geometry(r)
			seed := r.Int63()
			fl := []disko.IOFlags{disko.O_RDWR, disko.O_RDWR | disko.O_SYNC}[r.Intn(2)]
			n := 3 + r.Intn(8)
			run := func(at int) int {
				rr := rand.New(rand.NewSource(seed))
				s := newSim(cx, m, kCallbacks, rr, bpb, blocks, size, fl, 200)
				if !s.open(size) {
					return 0
				}
				if at > 0 {
					s.st.failAt[at] = true
				}
				for j := 0; j < n; j++ {
					s.step(s.randOp(rr))
				}
				s.st.failAt = map[int]bool{}
				s.step(op{kind: "sync"})
				s.readBack()
				s.reopen()
				cx.Eval(1)
				return s.st.calls
			}
			calls := run(0)
			for at := 1; at <= calls && at < 80; at++ {
				run(at)
			}
		})
	}
}

func s03(cx *h.Ctx) {
	m := mon{modes: true}
	cx.Require("refusals", 500)
	mods := []disko.IOFlags{disko.O_APPEND, disko.O_TRUNC, disko.O_SYNC, disko.O_CREATE, disko.O_EXCL}
	for acc := disko.IOFlags(0); acc < 3; acc++ {
		for mask := 0; mask < 1<<len(mods); mask++ {
			fl := acc
			for b, mf := range mods {
				if mask>>b&1 == 1 {
					fl |= mf
				}
			}
			for i := 0; i < cx.M(12, 600); i++ {
				cx.Case(fmt.Sprintf("flags/%#x/%d", int(fl), i), func(r *rand.Rand) {
					k := []kind{kCallbacks, kCallbacks, kFile, kFixed}[r.Intn(4)]
					bpb, blocks, size := geometry(r)
					s := newSim(cx, m, k, r, bpb, blocks, size, fl, 200)
					defer s.done()
					before := append([]byte(nil), s.stored()...)
					if !s.open(size) {
						if !fl.Write() && !bytes.Equal(before, s.stored()) {
							s.fail(true, "readonly-modified", "storage changed")
						}
						return
					}
					for j := 0; j < 30; j++ {
						if r.Intn(8) == 0 {
							s.bulkModes(r)
						} else {
							s.step(s.randOp(r))
						}
					}
					if fl.Write() {
						s.step(op{kind: "close"})
					} else {
						s.step(op{kind: "sync"})
						if !bytes.Equal(before, s.stored()) {
							s.fail(true, "readonly-modified", "storage changed: %s", h.FirstDiff(s.stored(), before))
						}
					}
				})
			}
		}
	}
}

// bulkModes exercises the copy operations under access modes.
func (s *sim) bulkModes(r *rand.Rand) {
	if r.Intn(2) == 0 {
		data := fill(1+r.Intn(40), byte(r.Intn(256)))
		s.cur = fmt.Sprintf("ReadFrom(%d)", len(data))
		s.hist = append(s.hist, s.cur)
		at := s.pos
		if s.flags.Append() {
			at = int64(len(s.data))
		}
		if s.flags.Write() && (!s.canGrow(at+int64(len(data))) || at > 1<<30) {
			return
		}
		n, err := s.s.ReadFrom(iox.NewReader(data, nil, r.Intn(2) == 0))
		if !s.flags.Write() {
			s.refused(err)
			if n != 0 {
				s.fail(true, "count", "refused but returned %d", n)
			}
		} else {
			if err != nil || n != int64(len(data)) {
				s.fail(true, "copy-in", "returned %d, %v", n, err)
			}
			s.put(at, data)
			s.pos = at + int64(len(data))
		}
	} else {
		s.cur = "WriteTo"
		s.hist = append(s.hist, s.cur)
		sink := iox.NewSink()
		n, err := s.s.WriteTo(sink)
		if !s.flags.Read() {
			s.refused(err)
			if n != 0 || len(sink.B) != 0 {
				s.fail(true, "count", "refused but returned %d, wrote %d", n, len(sink.B))
			}
		} else {
			want := s.data[min(s.pos, int64(len(s.data))):]
			if err != nil || n != int64(len(want)) || !bytes.Equal(sink.B, want) {
				s.fail(true, "copy-out", "returned %d, %v: %s", n, err, h.FirstDiff(sink.B, want))
			}
			s.pos += n
		}
	}
	s.checkState()
	s.unchanged()
}

func (s *sim) put(at int64, data []byte) {
	if len(data) == 0 {
		return
	}
	end := at + int64(len(data))
	if end > int64(len(s.data)) {
		s.data = append(s.data, make([]byte, end-int64(len(s.data)))...)
		s.widest = max(s.widest, end)
	}
	copy(s.data[at:], data)
}

func s04(cx *h.Ctx) {
	m := mon{bulk: true}
	cx.Require("copies_in", 300)
	cx.Require("copies_out", 300)
	cx.Require("peer_failures", 200)
	cx.Require("faults_fired", 50)
	for i := 0; i < cx.M(2500, 80000); i++ {
		cx.Case(fmt.Sprintf("copy/%d", i), func(r *rand.Rand) {
			bpb, blocks, size := geometry(r)
			fl := []disko.IOFlags{disko.O_RDWR, disko.O_RDWR, disko.O_RDWR | disko.O_SYNC, disko.O_RDWR | disko.O_APPEND}[r.Intn(4)]
			s := newSim(cx, m, kCallbacks, r, bpb, blocks, size, fl, 100000)
			defer s.done()
			if !s.open(size) {
				return
			}
			for j := 0; j < 1+r.Intn(4); j++ {
				s.step(op{kind: "seek", off: int64(r.Intn(int(len(s.data)) + int(bpb)*2))})
				s.bulk(r)
			}
			s.st.failAt, s.st.fired = map[int]bool{}, nil
			s.readBack()
			s.step(op{kind: "sync"})
		})
	}
	hugeCopies(cx, m)
	// Every reader failure position and every writer room.
	for _, bpb := range []uint{1, 7, 64, 512} {
		for mode := 0; mode < 6; mode++ {
			cx.Case(fmt.Sprintf("sweep/%d/%d", bpb, mode), func(r *rand.Rand) {
				total := 600
				if bpb == 512 {
					total = 1100
				}
				step := 1
				if !cx.Thorough() {
					step = 3
				}
				for k := 0; k <= total; k += step {
					s := newSim(cx, m, kCallbacks, r, bpb, 2, int64(bpb), disko.O_RDWR, 100000)
					if !s.open(int64(bpb)) {
						return
					}
					s.step(op{kind: "seek", wh: 2})
					s.copyIn(failing(fill(total, 3), k, iox.Modes(r)[mode], k%2 == 0, k/step), nil)
					for _, room := range []int{k, total} {
						s.step(op{kind: "seek"})
						e := iox.Errors[(k+mode)%len(iox.Errors)]
						if k%4 == 0 {
							e = nil
						}
						s.copyOut(&iox.Sink{Room: room, Err: e, Again: k/step%2 == 0, Whole: k%3 == 0})
						s.pos = s.s.Tell()
					}
					s.readBack()
					cx.Eval(1)
				}
			})
		}
	}
	for i := 0; i < cx.M(300, 8000); i++ {
		cx.Case(fmt.Sprintf("stream-to-stream/%d", i), func(r *rand.Rand) {
			b1, n1, z1 := geometry(r)
			b2, n2, z2 := geometry(r)
			src := newSim(cx, m, kCallbacks, r, b1, n1, z1, disko.O_RDWR, 100000)
			dst := newSim(cx, m, kCallbacks, r, b2, n2, z2, disko.O_RDWR, 100000)
			if !src.open(z1) || !dst.open(z2) {
				return
			}
			src.step(op{kind: "seek", off: int64(r.Intn(int(z1) + 3))})
			dst.step(op{kind: "seek", off: int64(r.Intn(int(z2) + 3))})
			want := append([]byte(nil), src.data[min(src.pos, z1):]...)
			var n int64
			var err error
			switch r.Intn(3) {
			case 0:
				n, err = dst.s.ReadFrom(src.s)
				dst.cur = "ReadFrom(stream)"
			case 1:
				n, err = src.s.WriteTo(dst.s)
				dst.cur = "WriteTo(stream)"
			default:
				n, err = io.Copy(dst.s, src.s)
				dst.cur = "io.Copy"
			}
			if err != nil || n != int64(len(want)) {
				dst.fail(true, "copy-count", "copied %d, %v; expected %d", n, err, len(want))
			}
			dst.put(dst.pos, want)
			dst.pos += n
			src.pos += n
			src.checkState()
			dst.checkState()
			src.readBack()
			dst.readBack()
			dst.step(op{kind: "sync"})
			cx.Count("stream_copies", 1)
		})
	}
}

// hugeCopies moves megabytes in both directions.
func hugeCopies(cx *h.Ctx, m mon) {
	for i := 0; i < cx.N(18, 120); i++ {
		cx.Case(fmt.Sprintf("huge copy/%d", i), func(r *rand.Rand) {
			bpb := []uint{65536, 4096, 512, 16, 100000, 700}[i%6]
			total := 3<<20 + r.Intn(1<<20)
			blocks := (uint(total) + 5000) / bpb
			if i%2 == 0 && bpb > 4096 {
				blocks = 1
			}
			size := int64(bpb*blocks) - int64(r.Intn(int(bpb)))
			s := newSim(cx, m, kCallbacks, r, bpb, blocks, size, disko.O_RDWR, 1<<20)
			if !s.open(size) {
				return
			}
			at := int64(r.Intn(5000))
			s.step(op{kind: "seek", off: at})
			s.copyIn(iox.NewReader(fill(total, byte(i)), iox.Modes(r)[[]int{0, 4, 5}[r.Intn(3)]], r.Intn(2) == 0), r)
			s.step(op{kind: "seek", off: at})
			s.copyOut(iox.NewSink())
			s.step(op{kind: "seek", off: at})
			s.copyOut(&iox.Sink{Room: total - 1 - r.Intn(total/2), Err: iox.Errors[r.Intn(len(iox.Errors))], Again: i%4 == 0, Whole: i%3 == 0})
			s.pos = s.s.Tell()
			s.step(op{kind: "seek", off: at})
			s.copyIn(failing(fill(total, byte(i+1)), total-r.Intn(total/2), nil, false, r.Intn(100)), r)
			s.readBack()
			s.step(op{kind: "sync"})
			cx.Count("huge_copies", 1)
		})
	}
	cx.Require("huge_copies", 4)
}

// failing is a reader that fails at byte k, with one of several errors.
func failing(data []byte, k int, m func(int) int, with bool, which int) *iox.ChunkReader {
	rd := iox.FailReader(data, k, m, with)
	rd.Err = iox.Errors[which%len(iox.Errors)]
	return rd.After(which / len(iox.Errors))
}

func (s *sim) bulk(r *rand.Rand) {
	modes := iox.Modes(r)
	mode := modes[r.Intn(len(modes))]
	if r.Intn(3) == 0 {
		s.st.failAt[s.st.calls+1+r.Intn(8)] = true
	}
	if r.Intn(2) == 0 {
		data := fill(r.Intn(2000), byte(r.Intn(256)))
		rd := iox.NewReader(data, mode, r.Intn(2) == 0)
		if r.Intn(2) == 0 {
			rd = failing(data, r.Intn(len(data)+1), mode, r.Intn(2) == 0, r.Intn(100))
		}
		s.copyIn(rd, r)
	} else {
		sink := iox.NewSink()
		if r.Intn(2) == 0 {
			sink = &iox.Sink{Room: r.Intn(len(s.data) + 1), Again: r.Intn(2) == 0}
			if r.Intn(2) == 0 {
				sink.Err = iox.Errors[r.Intn(len(iox.Errors))]
				sink.Whole = r.Intn(2) == 0
			}
		}
		s.copyOut(sink)
		s.pos = s.s.Tell()
	}
	s.st.failAt = map[int]bool{}
}

func (s *sim) copyIn(rd *iox.ChunkReader, r *rand.Rand) {
	s.cur = fmt.Sprintf("ReadFrom(%d bytes, fails at %d)", len(rd.Data), rd.FailAt)
	s.hist = append(s.hist, s.cur)
	s.c.Logf("%s", s.cur)
	at := s.pos
	if s.flags.Append() {
		at = int64(len(s.data))
	}
	n, err := s.s.ReadFrom(rd)
	s.c.Count("copies_in", 1)
	s.c.Distinct("in", bucket(int64(len(rd.Data))), rd.FailAt >= 0, rd.EOFWith, at%int64(s.bpb), s.bpb)
	delivered := rd.Data[:rd.Pos]
	if s.fired(err) {
		if n < 0 || n > int64(len(delivered)) {
			s.fail(true, "copy-count", "returned %d, the reader delivered %d", n, len(delivered))
		}
		s.widest = max(s.widest, at+int64(len(delivered)))
		s.adopt(at, int64(len(delivered)), delivered, -1)
		s.checkState()
		return
	}
	if rd.FailAt >= 0 {
		s.c.Count("peer_failures", 1)
		if !errors.Is(err, rd.Err) {
			s.fail(true, "reader-failure", "the reader failed but the copy returned %d, %v", n, err)
		}
	} else {
		if err != nil {
			s.fail(true, "copy-in", "failed: %v", err)
		}
		if rd.Pos != len(rd.Data) {
			s.fail(true, "copy-in", "stopped after %d of %d bytes", rd.Pos, len(rd.Data))
		}
	}
	if n != int64(len(delivered)) {
		s.fail(true, "copy-count", "returned %d, the reader delivered %d", n, len(delivered))
	}
	s.put(at, delivered)
	if len(delivered) > 0 || !s.flags.Append() {
		s.pos = at + int64(len(delivered))
	} else {
		s.pos = s.s.Tell()
	}
	s.checkState()
	if s.flags.Synchronous() && len(delivered) > 0 {
		s.checkStored()
	}
	if s.flags.Read() {
		s.st.failAt = map[int]bool{}
		got := make([]byte, len(s.data))
		if k, err := s.s.ReadAt(got, 0); k != len(got) || (err != nil && err != io.EOF) || !bytes.Equal(got, s.data) {
			s.fail(true, "copy-in-data", "contents after the copy: read %d, %v: %s", k, err, h.FirstDiff(got, s.data))
		}
	}
}

func (s *sim) copyOut(sink *iox.Sink) {
	s.cur = fmt.Sprintf("WriteTo(room %d, err %v, all taken %v)", sink.Room, sink.Err, sink.Whole)
	s.hist = append(s.hist, s.cur)
	s.c.Logf("%s", s.cur)
	want := s.data[min(s.pos, int64(len(s.data))):]
	start := s.pos
	n, err := s.s.WriteTo(sink)
	s.c.Count("copies_out", 1)
	s.c.Distinct("out", bucket(int64(len(want))), sink.Failed, start%int64(s.bpb), s.bpb)
	if n != int64(len(sink.B)) {
		s.fail(true, "copy-count", "returned %d, the writer accepted %d", n, len(sink.B))
	}
	if len(sink.B) > len(want) || !bytes.Equal(sink.B, want[:len(sink.B)]) {
		s.fail(true, "copy-out-data", "delivered data differs: %s", h.FirstDiff(sink.B, want))
	}
	if s.st != nil && len(s.st.fired) > 0 && !sink.Failed {
		s.fired(err)
		s.st.fired = nil
		return
	}
	if s.st != nil {
		s.st.fired = nil
	}
	if sink.Failed {
		s.c.Count("peer_failures", 1)
		if err == nil {
			s.fail(true, "writer-failure", "the writer failed after %d of %d bytes but the copy reported success", len(sink.B), len(want))
		}
		if sink.Err != nil && !errors.Is(err, sink.Err) && !errors.Is(err, errFault) {
			s.fail(true, "writer-failure", "the writer failed with %v, the copy with %v", sink.Err, err)
		}
		return
	}
	if err != nil || len(sink.B) != len(want) {
		s.fail(true, "copy-out", "returned %d, %v; expected %d bytes", n, err, len(want))
	}
	s.pos = start + n
	s.checkState()
}

// Props lists the checks of this area.
func Props() []*h.Prop {
	return []*h.Prop{
		&h.Prop{ID: "S01", Level: "exploration", Run: s01, Rule: "a stream operation counts once per (operation, offset class, length class, position and size modulo block size, storage kind, flags)",
			Assumptions: []string{"End of file may be reported together with the last bytes or by the next read.", "The byte-slice model is compared with an ordinary file on a third of the histories."}},
		&h.Prop{ID: "S02", Level: "fault_enumeration", Run: s02, Rule: "as S01, plus every fault position of short histories",
			Assumptions: []string{"Storage keeps what a successful flush callback was given; failing callbacks may tear the block."}},
		&h.Prop{ID: "S03", Level: "exploration", Run: s03, Rule: "as S01, for every combination of access mode and modifiers"},
		&h.Prop{ID: "S04", Level: "fault_enumeration", Run: s04, Rule: "a copy counts once per (direction, length class, failure, alignment, block size)"},
	}
}
