package blockcache

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime/debug"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"verifharness/h"
	"verifharness/iox"
)

var errFault = errors.New("injected storage fault")

const garbage = 0xA5

// mon selects which monitors report.
type mon struct{ content, traffic, bounds, fault, resize bool }

// store is the backing storage with its callback trace.
type store struct {
	c           *h.Ctx
	bpb         uint
	blocks      map[uint][]byte // present blocks; absent = pattern
	size        uint            // blocks allocated
	fetched     []uint
	flushed     []uint
	calls       int
	failAt      map[int]bool // callback ordinals that fail
	failErr     error
	failed      []string // failures in the current op
	failedFlush []uint
	m           *mon
	bad         string
	fixed       bool // resize not supported by harness (nil callback)
	resizes     int
}

func pattern(i uint, bpb uint) []byte {
	b := make([]byte, bpb)
	x := uint64(i+1) * 0x9E3779B97F4A7C15
	for k := range b {
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		b[k] = byte(x>>56) | 1 // never zero, so zero-fill is distinguishable
	}
	return b
}

func (s *store) get(i uint) []byte {
	if b, ok := s.blocks[i]; ok {
		return b
	}
	return pattern(i, s.bpb)
}

func (s *store) check(kind string, idx c.LogicalBlock, buf []byte) {
	if uint64(idx) >= uint64(s.size) {
		s.bad = fmt.Sprintf("%s callback for block %d of %d", kind, idx, s.size)
	} else if uint(len(buf)) != s.bpb {
		s.bad = fmt.Sprintf("%s callback for block %d with a buffer of %d bytes, block size %d", kind, idx, len(buf), s.bpb)
	}
}

func (s *store) fetch(idx c.LogicalBlock, buf []byte) error {
	s.calls++
	s.check("fetch", idx, buf)
	if s.bad != "" {
		return errors.New("harness: " + s.bad)
	}
	if s.failAt[s.calls] {
		for k := range buf { // a torn read
			buf[k] = garbage
		}
		s.failed = append(s.failed, fmt.Sprintf("fetch %d", idx))
		return s.failErr
	}
	s.fetched = append(s.fetched, uint(idx))
	copy(buf, s.get(uint(idx)))
	return nil
}

func (s *store) flush(idx c.LogicalBlock, buf []byte) error {
	s.calls++
	s.check("flush", idx, buf)
	if s.bad != "" {
		return errors.New("harness: " + s.bad)
	}
	if s.failAt[s.calls] {
		b := append([]byte(nil), s.get(uint(idx))...)
		for k := 0; k < len(b)/2; k++ { // a torn write
			b[k] = garbage
		}
		s.blocks[uint(idx)] = b
		s.failed = append(s.failed, fmt.Sprintf("flush %d", idx))
		s.failedFlush = append(s.failedFlush, uint(idx))
		return s.failErr
	}
	s.flushed = append(s.flushed, uint(idx))
	s.blocks[uint(idx)] = append([]byte(nil), buf...)
	return nil
}

func (s *store) resize(n c.LogicalBlock) error {
	s.calls++
	s.resizes++
	if s.failAt[s.calls] {
		s.failed = append(s.failed, fmt.Sprintf("resize %d", n))
		return s.failErr
	}
	for i := uint(n); i < s.size; i++ {
		delete(s.blocks, i)
	}
	for i := s.size; i < uint(n); i++ { // new blocks hold old garbage
		b := make([]byte, s.bpb)
		for k := range b {
			b[k] = garbage
		}
		s.blocks[i] = b
	}
	s.size = uint(n)
	return nil
}

type op struct {
	kind  string
	start uint64
	n     uint
	seed  byte
}

func (o op) String() string { return fmt.Sprintf("%s(start=%d n=%d)", o.kind, o.start, o.n) }

// sim is the model next to the real cache.
type sim struct {
	c         *h.Ctx
	m         mon
	st        *store
	cache     *blockcache.BlockCache
	bpb       uint
	total     uint
	data      []byte
	loaded    map[uint]bool
	must      map[uint]bool // must be flushed
	may       map[uint]bool // may be flushed
	fixed     bool
	wide      bool // many blocks
	hist      []string
	dirtyMade int
}

func newSim(cx *h.Ctx, m mon, bpb, total uint, fixed bool) *sim {
	s := &sim{c: cx, m: m, bpb: bpb, total: total, loaded: map[uint]bool{}, must: map[uint]bool{}, may: map[uint]bool{}, fixed: fixed}
	s.st = &store{c: cx, bpb: bpb, size: total, blocks: map[uint][]byte{}, failAt: map[int]bool{}, failErr: errFault, m: &s.m}
	for i := uint(0); i < total; i++ {
		s.data = append(s.data, pattern(i, bpb)...)
	}
	var rc blockcache.ResizeCallback
	if !fixed {
		rc = s.st.resize
	}
	s.cache = blockcache.New(bpb, total, s.st.fetch, s.st.flush, rc)
	return s
}

func (s *sim) fail(on bool, key, f string, a ...any) {
	if on {
		s.c.Fail(key, "%s\n  geometry: block size %d, history: %v", fmt.Sprintf(f, a...), s.bpb, s.hist)
	}
}

func guarded(n uint, fill byte) (full, buf []byte) {
	full = bytes.Repeat([]byte{fill}, int(n)+32)
	return full, full[16 : 16+n]
}

func (s *sim) blk(i uint) []byte { return s.data[i*s.bpb : (i+1)*s.bpb] }

// ceil is the number of blocks n bytes need.
func (s *sim) ceil(n uint) uint { return uint((uint64(n) + uint64(s.bpb) - 1) / uint64(s.bpb)) }

func (s *sim) noteWrite(first, count uint, changed func(i uint) bool) {
	for i := first; i < first+count; i++ {
		s.loaded[i] = true
		if changed(i) {
			if !s.must[i] {
				s.dirtyMade++
			}
			s.must[i] = true
		} else if !s.must[i] {
			s.may[i] = true
		}
	}
}

// afterRange checks the traffic of an operation on [first,first+count).
func (s *sim) traffic(o op, first, count uint, isFlush bool) {
	seen := map[uint]bool{}
	for _, i := range s.st.fetched {
		if s.m.traffic {
			if seen[i] || s.loaded[i] {
				s.fail(true, "refetch", "%v fetched block %d again", o, i)
			}
			if i < first || i >= first+count {
				s.fail(true, "fetch-unneeded", "%v fetched block %d outside the requested range [%d,%d)", o, i, first, first+count)
			}
		}
		seen[i] = true
		s.loaded[i] = true
	}
	if !isFlush && len(s.st.flushed) > 0 {
		s.fail(s.m.traffic, "unexpected-flush", "%v wrote blocks %v to storage", o, s.st.flushed)
	}
	s.c.Count("fetches", int64(len(s.st.fetched)))
	s.c.Count("flushes", int64(len(s.st.flushed)))
}

func (s *sim) begin() {
	s.st.fetched, s.st.flushed, s.st.failed, s.st.failedFlush, s.st.bad = nil, nil, nil, nil, ""
}

func (s *sim) end(o op) {
	if s.st.bad != "" {
		s.fail(s.m.bounds || s.m.content, "callback-args", "%v: %s", o, s.st.bad)
	}
	if s.cache.TotalBlocks() != s.total || s.cache.BytesPerBlock() != s.bpb || s.cache.Size() != int64(s.total)*int64(s.bpb) {
		s.fail(s.m.resize || s.m.content || s.m.fault, "size", "%v: cache reports %d blocks x %d = %d bytes, expected %d blocks", o, s.cache.TotalBlocks(), s.cache.BytesPerBlock(), s.cache.Size(), s.total)
	}
}

// opErr handles an operation error; returns true if the op is over.
func (s *sim) opErr(o op, err error) bool {
	if len(s.st.failed) > 0 {
		s.c.Count("faults_fired", 1)
		if err == nil {
			s.fail(s.m.fault, "fault-lost", "%v: %v failed but the operation reported success", o, s.st.failed)
			return true
		}
		if !errors.Is(err, s.st.failErr) {
			s.fail(s.m.fault, "fault-identity", "%v: %v failed with %q but the operation reported %q", o, s.st.failed, s.st.failErr, err)
		}
		return true
	}
	if err != nil {
		s.fail(s.m.content || s.m.resize || s.m.fault || s.m.bounds || s.m.traffic, "spurious-error", "%v failed: %v", o, err)
		return true
	}
	return false
}

func (s *sim) inRange(start uint64, nblocks uint64) bool {
	return start < uint64(s.total) && nblocks <= uint64(s.total)-start
}

// step runs one operation on the real cache and the model.
func (s *sim) step(o op) {
	s.hist = append(s.hist, o.String())
	s.c.Logf("%v", o)
	s.c.Count("ops", 1)
	s.begin()
	start := uint(o.start)
	switch o.kind {
	case "read":
		nb := s.ceil(o.n)
		if !s.inRange(o.start, uint64(nb)) {
			s.outOfRange(o)
			return
		}
		full, buf := guarded(o.n, 0xEE)
		n, err := s.cache.ReadAt(buf, c.LogicalBlock(start))
		s.end(o)
		if s.opErr(o, err) {
			s.absorbFetches()
			if n < 0 || n > int(o.n) || !bytes.Equal(buf[:n], s.data[start*s.bpb:start*s.bpb+uint(n)]) {
				s.fail(s.m.fault || s.m.content, "failed-read-count", "%v failed and claims %d bytes, which are not the content", o, n)
			}
			return
		}
		s.traffic(o, start, nb, false)
		if n != int(o.n) {
			s.fail(s.m.content, "read-count", "%v returned %d", o, n)
		}
		want := s.data[start*s.bpb : start*s.bpb+o.n]
		if !bytes.Equal(buf, want) {
			s.fail(s.m.content || s.m.resize || s.m.fault, "read-data", "%v: %s (got vs expected)", o, h.FirstDiff(buf, want))
		}
		s.guards(o, full)
		for k := range buf { // the caller's buffer is not the cache
			buf[k] = 0x77
		}
	case "write":
		nb := s.ceil(o.n)
		if !s.inRange(o.start, uint64(nb)) {
			s.outOfRange(o)
			return
		}
		full, buf := guarded(o.n, 0xEE)
		for k := range buf {
			buf[k] = byte(k*7) ^ o.seed
		}
		cp := append([]byte(nil), buf...)
		n, err := s.cache.WriteAt(buf, c.LogicalBlock(start))
		s.end(o)
		if !bytes.Equal(buf, cp) {
			s.fail(s.m.content, "write-buffer", "%v modified the caller's buffer", o)
		}
		s.guards(o, full)
		for k := range buf {
			buf[k] = 0x77
		}
		if s.opErr(o, err) {
			s.absorbFetches()
			if len(s.st.failed) > 0 {
				s.recheckAfterFailedWrite(o, start, cp)
			}
			return
		}
		s.traffic(o, start, nb, false)
		if n != int(o.n) {
			s.fail(s.m.content, "write-count", "%v returned %d", o, n)
		}
		s.applyWrite(start, cp)
	case "slice", "data":
		if o.kind == "data" {
			o.start, o.n, start = 0, s.total, 0
		}
		if o.kind == "slice" && !s.inRange(o.start, uint64(o.n)) {
			s.outOfRange(o)
			return
		}
		var sl []byte
		var err error
		if o.kind == "data" {
			sl, err = s.cache.Data()
		} else {
			sl, err = s.cache.GetSlice(c.LogicalBlock(start), o.n)
		}
		s.end(o)
		if s.opErr(o, err) {
			s.absorbFetches()
			return
		}
		s.traffic(o, start, o.n, false)
		want := s.data[start*s.bpb : (start+o.n)*s.bpb]
		if !bytes.Equal(sl, want) {
			s.fail(s.m.content || s.m.resize || s.m.fault, "slice-data", "%v: %s (got vs expected)", o, h.FirstDiff(sl, want))
		}
		if o.seed%2 == 0 && o.n > 0 { // modify through the slice, then mark dirty
			s.begin()
			saveFail := s.st.failAt
			s.st.failAt = map[int]bool{}
			old := append([]byte(nil), sl...)
			for k := range sl {
				if byte(k)%3 == o.seed%3 {
					sl[k] ^= o.seed | 1
				}
			}
			err := s.cache.MarkBlockRangeDirty(c.LogicalBlock(start), o.n)
			s.st.failAt = saveFail
			s.end(o)
			if err != nil {
				s.fail(s.m.content, "mark-error", "%v: marking the modified slice dirty failed: %v", o, err)
				return
			}
			s.traffic(o, start, o.n, false)
			copy(s.data[start*s.bpb:], sl)
			_ = old
			s.noteWrite(start, o.n, func(uint) bool { return true })
		}
	case "mark":
		if !s.inRange(o.start, uint64(o.n)) {
			s.outOfRange(o)
			return
		}
		err := s.cache.MarkBlockRangeDirty(c.LogicalBlock(start), o.n)
		s.end(o)
		if s.opErr(o, err) {
			s.absorbFetches()
			for i := start; i < start+o.n; i++ {
				if !s.must[i] {
					s.may[i] = true
				}
			}
			return
		}
		s.traffic(o, start, o.n, false)
		s.noteWrite(start, o.n, func(uint) bool { return true })
	case "load":
		err := s.cache.LoadAll()
		s.end(o)
		if s.opErr(o, err) {
			s.absorbFetches()
			return
		}
		s.traffic(o, 0, s.total, false)
		if s.m.traffic {
			for i := uint(0); i < s.total; i++ {
				if !s.loaded[i] {
					s.fail(true, "loadall", "block %d is not loaded after loading everything", i)
				}
			}
		}
	case "flush":
		err := s.cache.Flush()
		s.end(o)
		s.flushed(o)
		if s.opErr(o, err) {
			return
		}
		s.afterFlush(o)
	case "resize":
		s.doResize(o)
	case "sizes":
		s.end(o)
		if got := s.cache.GetMinBlocksForSize(o.n); got != s.ceil(o.n) {
			s.fail(s.m.resize || s.m.bounds, "min-blocks", "minimum blocks for %d bytes: got %d, expected %d", o.n, got, s.ceil(o.n))
		}
	}
}

// flushed accounts for blocks written by a flush.
func (s *sim) flushed(o op) {
	seen := map[uint]bool{}
	for _, i := range s.st.flushed {
		if seen[i] {
			s.fail(s.m.traffic, "flush-twice", "%v wrote block %d twice", o, i)
		}
		seen[i] = true
		if !s.must[i] && !s.may[i] {
			s.fail(s.m.traffic, "flush-clean", "%v wrote block %d, which is not dirty (dirty: %v)", o, i, keys(s.must))
		}
		if i < s.total && !bytes.Equal(s.st.get(i), s.blk(i)) {
			s.fail(s.m.content || s.m.resize || s.m.fault, "flush-data", "%v wrote wrong data to block %d: %s (got vs expected)", o, i, h.FirstDiff(s.st.get(i), s.blk(i)))
		}
		delete(s.must, i)
		delete(s.may, i)
	}
	for _, i := range s.st.failedFlush {
		s.must[i] = true
	}
	if len(s.st.fetched) > 0 {
		s.fail(s.m.traffic, "flush-fetches", "%v fetched blocks %v", o, s.st.fetched)
		for _, i := range s.st.fetched {
			s.loaded[i] = true
		}
	}
	s.c.Count("flushes", int64(len(s.st.flushed)))
}

func (s *sim) afterFlush(o op) {
	if len(s.must) > 0 {
		s.fail(s.m.traffic || s.m.content || s.m.fault || s.m.resize, "flush-missing", "%v succeeded without writing dirty blocks %v", o, keys(s.must))
	}
	s.must, s.may = map[uint]bool{}, map[uint]bool{}
	for i := uint(0); i < s.total; i++ {
		if !bytes.Equal(s.st.get(i), s.blk(i)) {
			s.fail(s.m.content || s.m.fault || s.m.resize, "storage-after-flush", "after a successful flush block %d in storage differs: %s (storage vs expected)", i, h.FirstDiff(s.st.get(i), s.blk(i)))
		}
	}
	s.c.Count("storage_comparisons", int64(s.total))
}

func (s *sim) doResize(o op) {
	nt := o.n
	err := s.cache.Resize(nt)
	if s.fixed {
		if !errors.Is(err, disko.ErrNotSupported) {
			s.fail(s.m.resize, "fixed-resize", "resizing a fixed-size cache returned %v", err)
		}
		s.end(o)
		return
	}
	if len(s.st.failed) > 0 {
		s.opErr(o, err)
		s.end(o)
		return
	}
	if s.opErr(o, err) {
		return
	}
	old := s.total
	for i := nt; i < old; i++ {
		delete(s.loaded, i)
		delete(s.must, i)
		delete(s.may, i)
	}
	nd := make([]byte, nt*s.bpb)
	copy(nd, s.data)
	s.data = nd
	s.total = nt
	for i := old; i < nt; i++ {
		s.loaded[i] = true
		s.must[i] = true
	}
	s.end(o)
	if s.m.resize && s.st.size < nt {
		s.fail(true, "resize-storage", "%v: storage was resized to %d blocks", o, s.st.size)
	}
	s.traffic(o, 0, 0, false)
	s.c.Count("resizes", 1)
}

func keys(m map[uint]bool) (o []uint) {
	for i := uint(0); i < 1<<20 && len(o) < len(m); i++ {
		if m[i] {
			o = append(o, i)
		}
	}
	return
}

// absorbFetches keeps the model's loaded set in step after a failed op.
func (s *sim) absorbFetches() {
	for _, i := range s.st.fetched {
		s.loaded[i] = true
	}
}

func (s *sim) recheckAfterFailedWrite(o op, start uint, data []byte) {
	save := s.st.failAt
	s.st.failAt = map[int]bool{}
	defer func() { s.st.failAt = save }()
	nb := s.ceil(uint(len(data)))
	buf := make([]byte, nb*s.bpb)
	s.begin()
	_, err := s.cache.ReadAt(buf, c.LogicalBlock(start))
	if err != nil {
		s.fail(s.m.fault, "read-after-fault", "%v: read after the fault stopped failed: %v", o, err)
		return
	}
	s.absorbFetches()
	cur := s.data[start*s.bpb : (start+nb)*s.bpb]
	for k := range buf {
		if buf[k] != cur[k] && !(k < len(data) && buf[k] == data[k]) {
			s.fail(s.m.fault, "torn", "%v: after the failed write byte %d holds %#x, neither old %#x nor new data", o, k, buf[k], cur[k])
		}
	}
	changed := func(i uint) bool { // a partially applied write has to be flushed
		a, b := (i-start)*s.bpb, (i-start+1)*s.bpb
		return !bytes.Equal(buf[a:b], cur[a:b])
	}
	for i := start; i < start+nb; i++ {
		if changed(i) {
			s.must[i] = true
		} else if !s.must[i] {
			s.may[i] = true
		}
	}
	copy(cur, buf)
}

func (s *sim) applyWrite(start uint, d []byte) {
	nb := s.ceil(uint(len(d)))
	old := append([]byte(nil), s.data[start*s.bpb:(start+nb)*s.bpb]...)
	copy(s.data[start*s.bpb:], d)
	s.noteWrite(start, nb, func(i uint) bool {
		a := (i - start) * s.bpb
		return !bytes.Equal(old[a:a+s.bpb], s.blk(i))
	})
}

func (s *sim) guards(o op, full []byte) {
	for k := 0; k < 16; k++ {
		if full[k] != 0xEE || full[len(full)-1-k] != 0xEE {
			s.fail(s.m.content || s.m.bounds, "buffer-overrun", "%v wrote outside the caller's buffer", o)
		}
	}
}

// outOfRange performs an access that must be rejected.
func (s *sim) outOfRange(o op) {
	if !s.m.bounds {
		return
	}
	s.c.Count("out_of_range", 1)
	snap := s.st.snapshot()
	var err error
	pv, stack := s.c.Protect(func() {
		switch o.kind {
		case "read", "write":
			full, buf := guarded(o.n, 0xEE)
			var n int
			if o.kind == "read" {
				n, err = s.cache.ReadAt(buf, c.LogicalBlock(o.start))
			} else {
				n, err = s.cache.WriteAt(buf, c.LogicalBlock(o.start))
			}
			if err != nil && n != 0 {
				s.fail(true, "oor-count", "%v was rejected but reports %d bytes", o, n)
			}
			for k := range full {
				if full[k] != 0xEE {
					s.fail(true, "oor-buffer", "%v was rejected but the caller's buffer changed", o)
				}
			}
		case "slice":
			_, err = s.cache.GetSlice(c.LogicalBlock(o.start), o.n)
		case "mark":
			err = s.cache.MarkBlockRangeDirty(c.LogicalBlock(o.start), o.n)
		case "check":
			err = s.cache.CheckBounds(c.LogicalBlock(o.start), o.n)
		}
	})
	if pv != nil {
		s.fail(true, "oor-panic", "%v on a cache of %d blocks panicked: %v\n%s", o, s.total, pv, stack)
	}
	if err == nil {
		s.fail(true, "oor-accepted", "%v on a cache of %d blocks of %d bytes was accepted", o, s.total, s.bpb)
	}
	if !errors.Is(err, disko.ErrArgumentOutOfRange) {
		s.fail(true, "oor-error", "%v on a cache of %d blocks failed with %v instead of the out-of-range error", o, s.total, err)
	}
	s.end(o)
	if s.st.bad != "" {
		s.fail(true, "callback-args", "%v: %s", o, s.st.bad)
	}
	if snap != s.st.snapshot() {
		s.fail(true, "oor-storage", "%v was rejected but storage changed", o)
	}
	s.absorbFetches()
}

func (st *store) snapshot() string {
	x := fmt.Sprintf("%d/", st.size)
	for i := uint(0); i < st.size && i < 4096; i++ {
		if b, ok := st.blocks[i]; ok {
			x += fmt.Sprintf("%d:%x,", i, b)
		}
	}
	return x
}

// finish stops faults, flushes, and compares everything.
func (s *sim) finish() {
	s.st.failAt = map[int]bool{}
	s.step(op{kind: "flush"})
	s.step(op{kind: "flush"}) // nothing left to write
	if s.total > 0 {
		s.step(op{kind: "read", start: 0, n: s.total * s.bpb})
	}
	s.step(op{kind: "data", seed: 1})
}

// ---------------------------------------------------------------- histories

func randOp(r *rand.Rand, s *sim, w map[string]int) op {
	tot := 0
	for _, k := range kinds {
		tot += w[k]
	}
	x := r.Intn(tot)
	var k string
	for _, k = range kinds {
		if x -= w[k]; x < 0 {
			break
		}
	}
	o := op{kind: k, seed: byte(1 + r.Intn(255))}
	switch k {
	case "read", "write":
		if s.total == 0 {
			return op{kind: "load"}
		}
		o.start = uint64(r.Intn(int(s.total)))
		room := (s.total - uint(o.start)) * s.bpb
		switch r.Intn(5) {
		case 0:
			o.n = room
		case 1:
			o.n = uint(r.Intn(int(room) + 1))
		case 2:
			o.n = s.bpb
		default:
			o.n = s.bpb * uint(1+r.Intn(3))
			if r.Intn(3) == 0 && o.n > 1 {
				o.n -= uint(r.Intn(int(s.bpb)))
			}
		}
		if o.n > room {
			o.n = room
		}
	case "slice", "mark":
		if s.total == 0 {
			return op{kind: "flush"}
		}
		o.start = uint64(r.Intn(int(s.total)))
		o.n = uint(1 + r.Intn(int(s.total)-int(o.start)))
		if r.Intn(2) == 0 && o.n > 2 {
			o.n = uint(1 + r.Intn(2))
		}
	case "resize":
		o.n = uint(r.Intn(int(s.total)*2 + 4))
		if r.Intn(3) == 0 {
			o.n = s.total + uint(r.Intn(3))
		}
		if r.Intn(3) == 0 && s.total > 0 {
			o.n = s.total - 1
		}
		if s.total > 60000 || s.wide {
			s.wide = true
			o.n = []uint{65535, 65536, 65537, 65536 + 256, 65600, 131080, 3}[r.Intn(7)]
		} else if o.n > 70 {
			o.n = uint(r.Intn(20))
		}
	case "sizes":
		o.n = uint(r.Intn(5000))
	}
	return o
}

var kinds = []string{"read", "write", "slice", "data", "mark", "load", "flush", "resize", "sizes"}

func mix(read, write, slice, data, mark, load, flush, resize, sizes int) map[string]int {
	return map[string]int{"read": read, "write": write, "slice": slice, "data": data, "mark": mark, "load": load, "flush": flush, "resize": resize, "sizes": sizes}
}

var bpbs = []uint{1, 2, 3, 7, 16, 128, 512, 1000, 1024, 4096}
var totals = []uint{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 130}

func geometry(r *rand.Rand) (uint, uint) {
	b := bpbs[r.Intn(len(bpbs))]
	t := totals[r.Intn(len(totals))]
	if b > 100 && t > 20 {
		t = uint(1 + r.Intn(12))
	}
	return b, t
}

func randomHistories(cx *h.Ctx, m mon, n int, w map[string]int, faults bool) {
	for i := 0; i < n; i++ {
		cx.Case(fmt.Sprintf("history-%d", i), func(r *rand.Rand) {
			b, t := geometry(r)
			steps := 5 + r.Intn(40)
			if i%(n/12+1) == 7 { // more blocks than 16 bits count
				b, t = []uint{1, 2, 3, 16}[r.Intn(4)], 65530+uint(r.Intn(100))
				steps = 12
			}
			s := newSim(cx, m, b, t, w["resize"] == 0 && r.Intn(2) == 0)
			if faults {
				s.st.failErr = []error{iox.Variant(errFault, r.Intn(iox.Kinds())), disko.ErrNoSpaceOnDevice, disko.ErrIOFailed.WithMessage("sector 7"), io.ErrClosedPipe}[r.Intn(4)]
				for k := 0; k < 1+r.Intn(6); k++ {
					s.st.failAt[1+r.Intn(60)] = true
				}
			}
			for k := 0; k < steps; k++ {
				s.step(randOp(r, s, w))
			}
			s.finish()
			if s.dirtyMade > 0 {
				cx.Distinct(i, b, t, fmt.Sprint(s.hist))
			}
			cx.Sample("block size %d, %d blocks: %v", b, t, s.hist)
		})
	}
}

// exhaustive runs every history of length depth over a small op set.
func exhaustive(cx *h.Ctx, m mon, name string, bpb, total uint, ops []op, depth int, fixed bool) {
	cx.Case("exhaustive-"+name, func(r *rand.Rand) {
		idx := make([]int, depth)
		for {
			s := newSim(cx, m, bpb, total, fixed)
			cx.Eval(1)
			for _, k := range idx {
				s.step(ops[k])
			}
			s.finish()
			cx.Distinct(name, fmt.Sprint(idx))
			cx.Count("exhaustive_histories", 1)
			k := 0
			for k < depth {
				idx[k]++
				if idx[k] < len(ops) {
					break
				}
				idx[k] = 0
				k++
			}
			if k == depth {
				return
			}
		}
	})
}

func b01(cx *h.Ctx) {
	m := mon{content: true}
	cx.Case("large-geometry", func(r *rand.Rand) { large(cx, m) })
	exhaustive(cx, m, "3x2", 2, 3, []op{
		{"read", 0, 6, 0}, {"read", 1, 3, 0}, {"write", 0, 1, 11}, {"write", 1, 3, 22}, {"write", 2, 2, 33}, {"write", 0, 6, 44},
		{"slice", 0, 2, 2}, {"slice", 1, 2, 3}, {"mark", 1, 2, 0}, {"flush", 0, 0, 0}, {"load", 0, 0, 0}, {"resize", 0, 2, 0}, {"resize", 0, 4, 0},
	}, cx.N(4, 5), false)
	randomHistories(cx, m, cx.M(10000, 150000), mix(6, 6, 4, 1, 1, 1, 2, 1, 0), false)
	cx.Require("ops", 10000)
	cx.Require("storage_comparisons", 1000)
}

// large exercises byte offsets beyond 4 GiB; memory is reserved, not touched.
func large(cx *h.Ctx, m mon) {
	const bpb, total = 1 << 16, 1<<16 + 40
	cx.Reserve(bpb * total)
	st := &store{c: cx, bpb: bpb, size: total, blocks: map[uint][]byte{}, failAt: map[int]bool{}}
	cache := blockcache.New(bpb, total, st.fetch, st.flush, nil)
	defer debug.FreeOSMemory()
	if cache.Size() != int64(bpb)*int64(total) {
		cx.Fail("large-size", "size of a %d x %d cache reported as %d", bpb, total, cache.Size())
	}
	for _, i := range []uint{0, 1, 1<<15 - 1, 1 << 15, 1 << 16, 1<<16 + 39} {
		buf := make([]byte, bpb)
		if n, err := cache.ReadAt(buf, c.LogicalBlock(i)); err != nil || n != bpb || !bytes.Equal(buf, st.get(i)) {
			cx.Fail("large-read", "read of block %d at byte offset %d: n=%d err=%v %s", i, uint64(i)*bpb, n, err, h.FirstDiff(buf, st.get(i)))
		}
		w := bytes.Repeat([]byte{byte(i) | 3}, 100)
		if n, err := cache.WriteAt(w, c.LogicalBlock(i)); err != nil || n != 100 {
			cx.Fail("large-write", "write to block %d: n=%d err=%v", i, n, err)
		}
		want := append([]byte(nil), st.get(i)...)
		copy(want, w)
		if err := cache.Flush(); err != nil || !bytes.Equal(st.get(i), want) {
			cx.Fail("large-flush", "flush of block %d: err=%v %s", i, err, h.FirstDiff(st.get(i), want))
		}
	}
	if len(st.flushed) != 6 || st.bad != "" {
		cx.Fail("large-traffic", "flushed %v %s", st.flushed, st.bad)
	}
	cx.Count("large_blocks", 6)
}

func b02(cx *h.Ctx) {
	m := mon{traffic: true}
	exhaustive(cx, m, "3x2", 2, 3, []op{
		{"read", 0, 6, 0}, {"read", 1, 2, 0}, {"write", 0, 1, 11}, {"write", 1, 4, 22}, {"slice", 0, 2, 2}, {"slice", 1, 1, 3},
		{"mark", 1, 2, 0}, {"flush", 0, 0, 0}, {"load", 0, 0, 0}, {"resize", 0, 2, 0}, {"resize", 0, 5, 0}, {"data", 0, 0, 1},
	}, cx.N(4, 5), false)
	randomHistories(cx, m, cx.M(10000, 150000), mix(5, 5, 3, 1, 2, 1, 4, 1, 0), false)
	cx.Require("fetches", 1000)
	cx.Require("flushes", 1000)
}

func b03(cx *h.Ctx) {
	m := mon{bounds: true}
	for _, bpb := range []uint{1, 2, 3, 16, 512, 4096} {
		for _, total := range []uint{0, 1, 2, 8, 9} {
			cx.Case(fmt.Sprintf("bounds-%dx%d", bpb, total), func(r *rand.Rand) {
				s := newSim(cx, m, bpb, total, false)
				phase := func() {
					t := uint64(s.total)
					starts := []uint64{0, 1, t - 1, t, t + 1, t * 2, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
					for _, b := range []uint64{uint64(bpb)} { // starts whose byte offset wraps to something small
						starts = append(starts, math.MaxUint64/b, math.MaxUint64/b+1, (1<<63)/b, (1<<32)/b)
					}
					cnts := []uint{1, 2, uint(t), uint(t) + 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint - 1, math.MaxUint}
					cnts = append(cnts, uint(math.MaxUint64/uint64(bpb)), uint(math.MaxUint64/uint64(bpb)+1), uint((1<<63)/uint64(bpb)), math.MaxUint/bpb+2)
					for _, st := range starts {
						for _, n := range cnts {
							if n == 0 || s.inRange(st, uint64(n)) {
								if s.inRange(st, uint64(n)) && n > 0 && n < 100 {
									for _, k := range []string{"slice", "mark"} {
										s.step(op{kind: k, start: st, n: n, seed: 1})
									}
									s.accept(st, n)
								}
								continue
							}
							for _, k := range []string{"slice", "mark"} {
								s.step(op{kind: k, start: st, n: n})
								cx.Eval(1)
							}
							cx.Distinct(bpb, total, st, n)
						}
						for _, n := range []uint{1, bpb - 1, bpb, bpb + 1, uint(t) * bpb, uint(t)*bpb + 1, (uint(t) + 1) * bpb} {
							if n == 0 {
								continue
							}
							for _, k := range []string{"read", "write"} {
								s.step(op{kind: k, start: st, n: n, seed: byte(n)})
								cx.Eval(1)
							}
						}
						for _, n := range []uint{bpb, uint(t)*bpb + 1, 1 << 63, math.MaxUint, math.MaxUint - bpb + 1, math.MaxUint - bpb + 2, math.MaxUint - 2*bpb} {
							if n == 0 {
								continue
							}
							nb := uint64(n)/uint64(bpb) + b2u(n%bpb != 0)
							if !s.inRange(st, nb) {
								s.begin()
								s.hist = append(s.hist, fmt.Sprintf("check(%d,%d)", st, n))
								s.outOfRange(op{kind: "check", start: st, n: n})
							} else if err := s.cache.CheckBounds(c.LogicalBlock(st), n); err != nil {
								cx.Fail("in-range-rejected", "bounds check of %d bytes at block %d of %d rejected: %v", n, st, s.total, err)
							}
							if got := s.cache.GetMinBlocksForSize(n); uint64(got) != nb {
								cx.Fail("min-blocks", "minimum number of %d-byte blocks for %d bytes: got %d, expected %d", bpb, n, got, nb)
							}
						}
						s.hist = nil
					}
				}
				phase()
				s.step(op{kind: "resize", n: total + 3})
				phase()
				s.step(op{kind: "resize", n: 1})
				phase()
				m2 := s.m
				s.m.content = true
				s.finish()
				s.m = m2
			})
		}
	}
	for i := 0; i < cx.M(6000, 80000); i++ {
		cx.Case(fmt.Sprintf("history-%d", i), func(r *rand.Rand) {
			b, t := geometry(r)
			if i%1000 == 7 {
				b, t = []uint{1, 2, 3, 16}[r.Intn(4)], 65530+uint(r.Intn(100))
			}
			s := newSim(cx, m, b, t, false)
			w := mix(5, 5, 3, 0, 2, 1, 2, 2, 0)
			for k := 0; k < 25; k++ {
				o := randOp(r, s, w)
				if o.kind == "read" || o.kind == "write" || o.kind == "slice" || o.kind == "mark" {
					switch r.Intn(4) {
					case 0:
						o.start += uint64(r.Intn(3))
					case 1:
						o.n += uint(r.Intn(int(b) + 2))
					}
					if o.n == 0 {
						o.n = 1
					}
				}
				s.step(o)
			}
			// after all the rejected accesses the content is still right
			s.m.content = true
			s.finish()
			cx.Distinct(i, fmt.Sprint(s.hist))
			cx.Sample("block size %d, %d blocks: %v", b, t, s.hist)
		})
	}
	cx.Require("out_of_range", 5000)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// accept: an access entirely inside the cache must not be rejected.
func (s *sim) accept(st uint64, n uint) {
	if err := s.cache.CheckBounds(c.LogicalBlock(st), n*s.bpb); err != nil {
		s.fail(true, "in-range-rejected", "bounds check of %d blocks at %d of %d rejected: %v", n, st, s.total, err)
	}
	s.step(op{kind: "read", start: st, n: n * s.bpb})
	s.step(op{kind: "write", start: st, n: n * s.bpb, seed: 5})
	s.step(op{kind: "write", start: st, n: n*s.bpb - s.bpb + 1, seed: 9})
	s.c.Count("in_range", 1)
}

func b04(cx *h.Ctx) {
	m := mon{fault: true}
	// every single fault position in short histories
	for i := 0; i < cx.M(500, 6000); i++ {
		cx.Case(fmt.Sprintf("each-fault-%d", i), func(r *rand.Rand) {
			b, t := geometry(r)
			if t > 9 {
				t = 1 + t%9
			}
			gen := r.Int63()
			w := mix(4, 6, 3, 1, 1, 1, 4, 2, 0)
			run := func(fail int) *sim {
				rr := rand.New(rand.NewSource(gen))
				s := newSim(cx, m, b, t, false)
				s.st.failErr = []error{iox.Variant(errFault, i/3), disko.ErrNoSpaceOnDevice, io.ErrClosedPipe}[i%3]
				if fail > 0 {
					s.st.failAt[fail] = true
				}
				for k := 0; k < 8; k++ {
					s.step(randOp(rr, s, w))
				}
				s.finish()
				return s
			}
			calls := run(0).st.calls
			for k := 1; k <= calls; k++ {
				cx.Eval(1)
				s := run(k)
				cx.Distinct(i, k)
				if k == 1 {
					cx.Sample("block size %d, %d blocks, failing callback 1..%d of %v", b, t, calls, s.hist)
				}
			}
		})
	}
	randomHistories(cx, m, cx.M(12000, 150000), mix(4, 6, 3, 1, 1, 1, 4, 2, 0), true)
	cx.Require("faults_fired", 2000)
}

func b05(cx *h.Ctx) {
	m := mon{resize: true}
	ops := []op{{"resize", 0, 0, 0}, {"resize", 0, 1, 0}, {"resize", 0, 2, 0}, {"resize", 0, 3, 0}, {"resize", 0, 9, 0},
		{"write", 0, 1, 11}, {"write", 1, 2, 22}, {"flush", 0, 0, 0}, {"read", 0, 2, 0}, {"slice", 0, 1, 2}, {"load", 0, 0, 0}}
	exhaustive(cx, m, "2x2", 2, 2, ops, cx.N(4, 6), false)
	exhaustive(cx, m, "8x1", 1, 8, ops, cx.N(3, 5), false)
	randomHistories(cx, m, cx.M(10000, 150000), mix(3, 5, 3, 1, 1, 1, 3, 7, 1), false)
	cx.Case("fixed", func(r *rand.Rand) {
		for _, n := range []uint{0, 1, 2, 3, 100} {
			s := newSim(cx, mon{resize: true, content: true}, 4, 3, true)
			s.step(op{"write", 1, 5, 3})
			s.step(op{kind: "resize", n: n})
			s.finish()
		}
	})
	cx.Case("min-blocks", func(r *rand.Rand) {
		for _, b := range []uint{1, 2, 3, 128, 512, 1000} {
			ca := blockcache.New(b, 1, nil, nil, nil)
			for n := uint(0); n < 3*b+3; n++ {
				want := n / b
				if want*b < n {
					want++
				}
				if got := ca.GetMinBlocksForSize(n); got != want {
					cx.Fail("min-blocks", "minimum blocks of %d bytes for %d bytes: %d, expected %d", b, n, got, want)
				}
			}
		}
	})
	cx.Require("resizes", 3000)
}

// ---------------------------------------------------------------- B06: adapters

// memFile is a ReadWriteSeeker over memory with hostile short reads.
type memFile struct {
	b        []byte
	pos      int64
	r        *rand.Rand
	short    bool
	fail     error
	trip     int // fail once after this many more bytes (0: never)
	tripped  int64
	seekTrip bool // fail the next seek
	reads    int
	writeAts []int64
}

func (f *memFile) Read(p []byte) (int, error) {
	f.reads++
	if f.fail != nil {
		return 0, f.fail
	}
	if f.pos >= int64(len(f.b)) {
		return 0, io.EOF
	}
	n := len(p)
	if f.short && n > 1 {
		n = 1 + f.r.Intn(n)
	}
	n = copy(p[:n], f.b[f.pos:])
	if m, bad := f.trips(n); bad {
		f.pos += int64(m)
		return m, f.fault(true)
	}
	f.pos += int64(n)
	if f.short && f.pos == int64(len(f.b)) && f.r.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// fault gives a failure. One of a read is not recognisable as the end of the
// stream.
func (f *memFile) fault(read bool) error {
	e := error(iox.Variant(errFault, f.r.Intn(iox.Kinds())))
	if read && errors.Is(e, io.ErrUnexpectedEOF) {
		return errFault
	}
	return e
}

// trips counts down to the next transient failure, which happens after part of
// a transfer of n bytes.
func (f *memFile) trips(n int) (int, bool) {
	if f.trip == 0 {
		return n, false
	}
	if n < f.trip {
		f.trip -= n
		return n, false
	}
	m := f.trip - 1
	f.trip = 0
	f.tripped++
	return m, true
}

func (f *memFile) Write(p []byte) (int, error) {
	if f.fail != nil {
		return 0, f.fail
	}
	f.writeAts = append(f.writeAts, f.pos)
	if m, bad := f.trips(len(p)); bad {
		f.pos += int64(copy(f.b[min(f.pos, int64(len(f.b))):], p[:m]))
		return m, f.fault(false)
	}
	end := f.pos + int64(len(p))
	for int64(len(f.b)) < end {
		f.b = append(f.b, 0)
	}
	copy(f.b[f.pos:], p)
	f.pos = end
	return len(p), nil
}
func (f *memFile) Seek(o int64, w int) (int64, error) {
	if f.seekTrip {
		f.seekTrip = false
		f.tripped++
		return f.pos, f.fault(true)
	}
	switch w {
	case io.SeekCurrent:
		o += f.pos
	case io.SeekEnd:
		o += int64(len(f.b))
	}
	if o < 0 {
		return 0, errors.New("negative seek")
	}
	f.pos = o
	return o, nil
}

type truncFile struct {
	memFile
	failTrunc error
	truncs    int
}

func (f *truncFile) Truncate(n int64) error {
	if f.failTrunc != nil {
		return f.failTrunc
	}
	f.truncs++
	for int64(len(f.b)) < n {
		f.b = append(f.b, garbage)
	}
	f.b = f.b[:n]
	return nil
}

func b06(cx *h.Ctx) {
	cx.Case("large-offset", func(r *rand.Rand) {
		cx.Reserve(5 << 30)
		f := &sparse{m: map[int64][]byte{}, size: (1<<16 + 8) << 16}
		ca := blockcache.WrapStreamWithInferredSize(f, 1<<16, false)
		defer debug.FreeOSMemory()
		if ca.TotalBlocks() != 1<<16+8 {
			cx.Fail("large", "inferred %d blocks", ca.TotalBlocks())
		}
		ca.WriteAt([]byte("hello"), 1<<16+3)
		if err := ca.Flush(); err != nil {
			cx.Fail("large", "flush: %v", err)
		}
		if len(f.m) != 1 || f.m[(1<<16+3)<<16] == nil {
			cx.Fail("large", "block %d was written to the wrong offset", 1<<16+3)
		}
	})
	cx.Case("large-resize", func(r *rand.Rand) {
		cx.Reserve(5 << 30)
		defer debug.FreeOSMemory()
		f := &sparseTrunc{sparse: sparse{m: map[int64][]byte{}, size: 3 << 16}}
		ca := blockcache.WrapStream(f, 1<<16, 3, true)
		const total = 1<<16 + 9
		if err := ca.Resize(total); err != nil || ca.TotalBlocks() != total || f.size != total<<16 {
			cx.Fail("large", "resizing from 3 to %d blocks of 64 KiB: %v, %d blocks, storage has %d bytes", total, err, ca.TotalBlocks(), f.size)
		}
		if ca.Size() != total<<16 {
			cx.Fail("large", "size of %d blocks of 64 KiB is given as %d", total, ca.Size())
		}
	})
	for i := 0; i < cx.N(12, 60); i++ {
		cx.Case(fmt.Sprintf("big-blocks-%d", i), func(r *rand.Rand) {
			b := []uint{65535, 65536, 65537, 100000, 1 << 18, 1<<20 + 1}[i%6]
			t := uint(2 + r.Intn(4))
			img := make([]byte, t*b)
			r.Read(img)
			f := &truncFile{memFile: memFile{b: append([]byte(nil), img...), r: r, short: r.Intn(2) == 0}}
			ca := blockcache.WrapStream(f, b, t, true)
			got := make([]byte, t*b)
			if n, err := ca.ReadAt(got, 0); n != len(got) || err != nil || !bytes.Equal(got, img) {
				cx.Fail("big-blocks", "reading %d blocks of %d bytes gave %d, %v: %s (got vs expected)", t, b, n, err, h.FirstDiff(got, img))
			}
			at := uint(r.Intn(int(t)))
			d := make([]byte, b-uint(r.Intn(2)))
			r.Read(d)
			if n, err := ca.WriteAt(d, c.LogicalBlock(at)); n != len(d) || err != nil {
				cx.Fail("big-blocks", "writing %d bytes gave %d, %v", len(d), n, err)
			}
			copy(img[at*b:], d)
			if err := ca.Flush(); err != nil || !bytes.Equal(f.b, img) {
				cx.Fail("big-blocks", "storing block %d of %d bytes: %v: %s (stored vs expected)", at, b, err, h.FirstDiff(f.b, img))
			}
			cx.Distinct("big", b, t)
			cx.Count("big_blocks", int64(t))
		})
	}
	for i := 0; i < cx.M(15000, 200000); i++ {
		cx.Case(fmt.Sprintf("stream-%d", i), func(r *rand.Rand) {
			b, t := geometry(r)
			extra := uint(0)
			mode := r.Intn(5) // 0 slice, 1 stream, 2 inferred, 3 no-truncate+allow, 4 forbidden
			if (mode == 0 || mode == 2) && r.Intn(2) == 0 {
				extra = uint(r.Intn(int(b)))
			}
			img := make([]byte, t*b+extra)
			for k := range img {
				img[k] = byte(1 + r.Intn(255))
			}
			init := append([]byte(nil), img...)
			short := r.Intn(2) == 0
			tf := &truncFile{memFile: memFile{b: img, r: r, short: short}}
			tf.pos = int64(r.Intn(len(img) + 3)) // wherever the caller left it
			nf := &memFile{b: img, r: r, short: short}
			var ca *blockcache.BlockCache
			storage := func() []byte { return tf.b }
			resizable, wantErr := false, error(nil)
			switch mode {
			case 0:
				ca = blockcache.WrapSlice(img, b)
				storage = func() []byte { return img }
				wantErr = disko.ErrNotPermitted
			case 1:
				ca = blockcache.WrapStream(tf, b, t, true)
				resizable = true
			case 2:
				ca = blockcache.WrapStreamWithInferredSize(tf, b, true)
				resizable = true
			case 3:
				ca = blockcache.WrapStream(nf, b, t, true)
				storage = func() []byte { return nf.b }
				wantErr = disko.ErrNotSupported
			case 4:
				ca = blockcache.WrapStream(tf, b, t, false)
				wantErr = disko.ErrNotPermitted
			}
			var hist []string
			fail := func(key, f string, a ...any) {
				cx.Fail(key, "%s\n  mode %d, block size %d, stream of %d bytes, short reads %v, history %v", fmt.Sprintf(f, a...), mode, b, len(init), short, hist)
			}
			if ca.TotalBlocks() != t || ca.BytesPerBlock() != b {
				fail("blocks", "stream of %d bytes has %d blocks of %d, expected %d", len(init), ca.TotalBlocks(), ca.BytesPerBlock(), t)
			}
			model := append([]byte(nil), init[:t*b]...)
			total := t
			tail := append([]byte(nil), init[t*b:]...)
			cur := &tf.memFile
			if mode == 3 {
				cur = nf
			}
			flaky := mode != 0 && r.Intn(3) == 0
			// again runs an operation, and once more if the stream failed in
			// the middle of it; it must then find its way on its own.
			again := func(what string, f func() error) error {
				if r.Intn(3) == 0 {
					cur.pos = int64(r.Intn(len(cur.b) + 3))
				}
				if flaky && r.Intn(2) == 0 {
					cur.trip = 1 + r.Intn(3*int(b))
					cur.seekTrip = r.Intn(4) == 0
				}
				t0 := cur.tripped
				err := f()
				if cur.tripped != t0 {
					if !errors.Is(err, errFault) {
						fail("stream-fault", "%s: the stream failed but the result was %v", what, err)
					}
					hist = append(hist, "(stream failed, retried)")
					cx.Count("transient_stream_failures", 1)
					cur.trip, cur.seekTrip = 0, false
					err = f()
				}
				cur.trip, cur.seekTrip = 0, false
				return err
			}
			verify := func() {
				if err := again("flush", ca.Flush); err != nil {
					fail("flush", "flush failed: %v", err)
				}
				want := append(append([]byte(nil), model...), tail...)
				if !bytes.Equal(storage(), want) {
					fail("storage", "stream after flush: %s (stream vs expected)", h.FirstDiff(storage(), want))
				}
				cx.Count("flush_comparisons", 1)
			}
			for k := 0; k < 12; k++ {
				cx.Count("ops", 1)
				switch x := r.Intn(10); {
				case x < 4 && total > 0:
					st := uint(r.Intn(int(total)))
					n := uint(r.Intn(int((total-st)*b) + 1))
					hist = append(hist, fmt.Sprintf("read(%d,%d)", st, n))
					buf := make([]byte, n)
					var g int
					err := again("read", func() (err error) { g, err = ca.ReadAt(buf, c.LogicalBlock(st)); return })
					if err != nil || g != int(n) || !bytes.Equal(buf, model[st*b:st*b+n]) {
						fail("read", "read of %d bytes at block %d: n=%d err=%v %s", n, st, g, err, h.FirstDiff(buf, model[st*b:st*b+n]))
					}
				case x < 7 && total > 0:
					st := uint(r.Intn(int(total)))
					n := uint(r.Intn(int((total-st)*b) + 1))
					hist = append(hist, fmt.Sprintf("write(%d,%d)", st, n))
					buf := make([]byte, n)
					r.Read(buf)
					var g int
					err := again("write", func() (err error) { g, err = ca.WriteAt(buf, c.LogicalBlock(st)); return })
					if err != nil || g != int(n) {
						fail("write", "write of %d bytes at block %d: n=%d err=%v", n, st, g, err)
					}
					copy(model[st*b:], buf)
				case x == 7:
					hist = append(hist, "flush")
					verify()
				default:
					nt := uint(r.Intn(int(total) + 4))
					hist = append(hist, fmt.Sprintf("resize(%d)", nt))
					failTrunc := resizable && r.Intn(5) == 0
					if failTrunc {
						tf.failTrunc = tf.fault(false)
					}
					before := append([]byte(nil), storage()...)
					err := ca.Resize(nt)
					tf.failTrunc = nil
					if !resizable || failTrunc {
						we := wantErr
						if failTrunc {
							we = errFault
						}
						if !errors.Is(err, we) {
							fail("resize-error", "resize to %d returned %v, expected %v", nt, err, we)
						}
						if ca.TotalBlocks() != total || !bytes.Equal(before, storage()) {
							fail("resize-refused", "refused resize changed something: %d blocks, was %d", ca.TotalBlocks(), total)
						}
						cx.Count("resizes_refused", 1)
						continue
					}
					if err != nil {
						fail("resize", "resize to %d failed: %v", nt, err)
					}
					if len(storage()) != int(nt*b) {
						fail("resize-stream", "after resizing to %d blocks of %d the stream has %d bytes", nt, b, len(storage()))
					}
					nm := make([]byte, nt*b)
					copy(nm, model)
					model, total, tail = nm, nt, nil
					if ca.TotalBlocks() != nt {
						fail("resize-blocks", "resize to %d gave %d blocks", nt, ca.TotalBlocks())
					}
					cx.Count("resizes", 1)
				}
			}
			verify()
			if d, err := ca.Data(); err != nil || !bytes.Equal(d, model) {
				fail("data", "final contents: err=%v %s", err, h.FirstDiff(d, model))
			}
			// stream failures surface
			if mode == 1 && total > 0 {
				ca2 := blockcache.WrapStream(tf, b, total, true)
				tf.fail = tf.fault(true)
				_, err := ca2.ReadAt(make([]byte, b), 0)
				if !errors.Is(err, errFault) {
					fail("stream-fault", "failing stream read reported as %v", err)
				}
				tf.fail = nil
				ca2.WriteAt([]byte{1}, 0)
				tf.fail = tf.fault(false)
				if err := ca2.Flush(); !errors.Is(err, errFault) {
					fail("stream-fault", "failing stream write reported as %v", err)
				}
				tf.fail = nil
			}
			if total > 0 {
				cx.Distinct(mode, b, t, extra, short, fmt.Sprint(hist))
			}
			cx.Sample("mode %d block size %d stream of %d bytes: %v", mode, b, len(init), hist)
		})
	}
	for i := 0; i < cx.M(4000, 60000); i++ {
		cx.Case(fmt.Sprintf("partial-%d", i), func(r *rand.Rand) { partial(cx, r) })
	}
	cx.Require("flush_comparisons", 1000)
	cx.Require("partial_reads", 1000)
	cx.Require("full_streams", 100)
	cx.Require("resizes", 300)
	cx.Require("resizes_refused", 300)
	cx.Require("transient_stream_failures", 300)
}

// partial wraps a stream that ends before the last block does, or goes on after
// it. What the cache makes of the bytes there are not is left open; the others
// must be right, unless it refuses to handle the blocks that are not all there.
func partial(cx *h.Ctx, r *rand.Rand) {
	b, t := geometry(r)
	t += 1
	size := uint(r.Intn(int((t+1)*b) + 1))
	if r.Intn(2) == 0 {
		size = (t-1)*b + uint(r.Intn(int(b)))
	}
	f := &truncFile{memFile: memFile{b: make([]byte, size), r: r, short: r.Intn(2) == 0}}
	for k := range f.b {
		f.b[k] = byte(1 + r.Intn(255))
	}
	model := append([]byte(nil), f.b...)
	known := make([]bool, max(size, t*b))
	for k := range model {
		known[k] = true
	}
	model = append(model, make([]byte, len(known)-len(model))...)
	// Some streams cannot grow: a write at their end is refused with an
	// end-of-file error, and one that reaches over it is cut short.
	fixed := r.Intn(2) == 0
	var rws io.ReadWriteSeeker = f
	ff := &fixedFile{truncFile: f, cap: int(size)}
	if fixed {
		rws = ff
	}
	ca := blockcache.WrapStream(rws, b, t, r.Intn(2) == 0)
	var hist []string
	same := func(what string, got []byte, from uint) {
		for k := range got {
			if at := from + uint(k); known[at] && got[k] != model[at] {
				cx.Fail("partial", "%s: byte %d is %d, expected %d\n  block size %d, %d blocks, stream of %d bytes, history %v", what, at, got[k], model[at], b, t, size, hist)
			}
		}
	}
	whole := func(st, n uint) bool {
		for at := st * b; at < (st*b+n+b-1)/b*b; at++ {
			if !known[at] {
				return false
			}
		}
		return true
	}
	fail := func(what string, err error) {
		cx.Fail("partial-error", "%s failed: %v\n  block size %d, %d blocks, stream of %d bytes, history %v", what, err, b, t, size, hist)
	}
	all := size >= t*b
	for range 10 {
		st := uint(r.Intn(int(t)))
		n := uint(r.Intn(int((t-st)*b) + 1))
		buf := make([]byte, n)
		switch r.Intn(5) {
		case 0, 1, 2:
			hist = append(hist, fmt.Sprintf("read(%d,%d)", st, n))
			_, err := ca.ReadAt(buf, c.LogicalBlock(st))
			if err == nil {
				same("read", buf, st*b)
				cx.Count("partial_reads", 1)
			} else if whole(st, n) {
				fail("read", err)
			}
		case 3:
			r.Read(buf)
			hist = append(hist, fmt.Sprintf("write(%d,%d)", st, n))
			_, err := ca.WriteAt(buf, c.LogicalBlock(st))
			if err != nil {
				if whole(st, n) {
					fail("write", err)
				}
				return // how much of it was taken is not said here
			}
			copy(model[st*b:], buf)
			for k := range buf {
				known[st*b+uint(k)] = true
			}
		default:
			hist = append(hist, "flush")
			if err := ca.Flush(); err != nil {
				if all {
					fail("flush", err)
				}
				if !fixed {
					return
				}
				// What did not fit is still there to be stored when it fits.
				cx.Count("full_streams", 1)
				if ca.Flush() == nil {
					cx.Fail("full", "flushing to a full stream failed (%v), and then succeeded without there being room\n  block size %d, %d blocks, stream of %d bytes, history %v", err, b, t, size, hist)
				}
				ff.cap = int(t * b)
				if err := ca.Flush(); err != nil {
					return
				}
			}
			if len(f.b) < int(size) {
				cx.Fail("partial", "flushing shortened the stream from %d to %d bytes", size, len(f.b))
			}
			for k := range known {
				if k >= len(f.b) && known[k] {
					cx.Fail("partial", "after flush the stream has %d bytes; byte %d had been written\n  block size %d, %d blocks, stream of %d bytes, history %v", len(f.b), k, b, t, size, hist)
				}
			}
			same("flush", f.b[:min(len(f.b), len(known))], 0)
		}
	}
	cx.Distinct("partial", b, t, size, fmt.Sprint(hist))
}

// fixedFile is a file on a medium with room for cap bytes.
type fixedFile struct {
	*truncFile
	cap int
}

func (f *fixedFile) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	room := f.cap - int(f.pos)
	if room <= 0 {
		return 0, io.EOF
	}
	if room >= len(p) {
		return f.truncFile.Write(p)
	}
	n, err := f.truncFile.Write(p[:room])
	if err == nil {
		err = io.ErrShortWrite
	}
	return n, err
}

type sparse struct {
	m    map[int64][]byte
	pos  int64
	size int64
}

func (f *sparse) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	f.pos += int64(len(p))
	return len(p), nil
}
func (f *sparse) Write(p []byte) (int, error) {
	f.m[f.pos] = append([]byte(nil), p...)
	f.pos += int64(len(p))
	return len(p), nil
}
func (f *sparse) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += f.pos
	case io.SeekEnd:
		o += f.size
	}
	f.pos = o
	return o, nil
}

type sparseTrunc struct{ sparse }

func (f *sparseTrunc) Truncate(n int64) error {
	f.size = n
	return nil
}

// Props lists the checks of this area.
func Props() []*h.Prop {
	rule := "histories over reads, writes, slices, dirty marks, loads, flushes and resizes on block sizes {1,2,3,7,16,128,512,1000} x block counts around byte/word boundaries of the bitmaps, plus every history of bounded length over a small op set; non-trivial = at least one block became dirty; distinct by operation sequence"
	return []*h.Prop{
		&h.Prop{ID: "B01", Level: "exploration", Rule: rule, Run: b01},
		&h.Prop{ID: "B02", Level: "exploration", Rule: rule, Run: b02},
		&h.Prop{ID: "B03", Level: "exploration", Rule: "boundary values of start x count (including wrap-around) on fresh, grown and shrunk caches plus random histories with out-of-range accesses; distinct by geometry, start and count", Run: b03},
		&h.Prop{ID: "B04", Level: "fault_enumeration", Rule: "every callback position of short histories plus multi-fault random histories; torn fetches and torn flushes; distinct by history and fault position", Run: b04},
		&h.Prop{ID: "B05", Level: "exploration", Rule: rule, Run: b05},
		&h.Prop{ID: "B06", Level: "exploration", Rule: "random streams x block sizes x five wrapping modes x short reads x operation histories; distinct by mode, geometry and history", Run: b06},
	}
}
