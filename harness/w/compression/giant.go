package compressionx

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand"

	"github.com/dargueta/disko/utilities/compression"

	"verifharness/h"
)

// Data too large to hold twice is described as segments (a pattern and how
// often it is repeated), generated while it is read and compared while it is
// written.

type seg struct {
	pat []byte
	n   int64
}

type segReader struct {
	segs []seg
	buf  []byte // repetitions of the pattern of segs[0]
	left int64  // bytes of segs[0] not delivered
	open bool
}

func newSegs(s []seg) *segReader { return &segReader{segs: s} }

func (s *segReader) Read(p []byte) (int, error) {
	for {
		if !s.open {
			if len(s.segs) == 0 {
				return 0, io.EOF
			}
			g := s.segs[0]
			s.left = g.n * int64(len(g.pat))
			k := int64(1 + 65536/len(g.pat))
			if k > g.n {
				k = g.n
			}
			s.buf = bytes.Repeat(g.pat, int(k))
			s.open = true
		}
		if s.left == 0 {
			s.segs, s.open = s.segs[1:], false
			continue
		}
		l := int64(len(s.segs[0].pat))
		total := s.segs[0].n * l
		n := copy(p, s.buf[(total-s.left)%l:])
		if int64(n) > s.left {
			n = int(s.left)
		}
		s.left -= int64(n)
		return n, nil
	}
}

// cmpSink compares what is written to it with the expected stream.
type cmpSink struct {
	want io.Reader
	pos  int64
	diff string
	buf  []byte
}

func (s *cmpSink) Write(p []byte) (int, error) {
	if len(s.buf) < len(p) {
		s.buf = make([]byte, len(p))
	}
	n, _ := io.ReadFull(s.want, s.buf[:len(p)])
	if s.diff == "" && !bytes.Equal(p, s.buf[:n]) {
		s.diff = fmt.Sprintf("at offset %d: %s (written vs expected)", s.pos, h.FirstDiff(p, s.buf[:n]))
	}
	s.pos += int64(len(p))
	return len(p), nil
}

// finish says what is wrong with what was written, if anything.
func (s *cmpSink) finish() string {
	if s.diff == "" {
		if n, _ := s.want.Read(make([]byte, 1)); n > 0 {
			s.diff = fmt.Sprintf("ends after %d bytes", s.pos)
		}
	}
	return s.diff
}

// run is one maximal run of the data.
type bigRun struct {
	b byte
	n int64
}

func dataSegs(rs []bigRun) (o []seg) {
	for _, r := range rs {
		o = append(o, seg{[]byte{r.b}, r.n})
	}
	return
}

func rle8Segs(rs []bigRun) (o []seg) {
	for _, r := range rs {
		if k := r.n / 257; k > 0 {
			o = append(o, seg{[]byte{r.b, r.b, 255}, k})
		}
		switch m := r.n % 257; {
		case m == 1:
			o = append(o, seg{[]byte{r.b}, 1})
		case m > 1:
			o = append(o, seg{[]byte{r.b, r.b, byte(m - 2)}, 1})
		}
	}
	return
}

// recRuns is the recursive encoding of runs, as runs.
func recRuns(rs []bigRun) (o []bigRun) {
	add := func(b byte, n int64) {
		if n == 0 {
			return
		}
		if k := len(o) - 1; k >= 0 && o[k].b == b {
			o[k].n += n
		} else {
			o = append(o, bigRun{b, n})
		}
	}
	for _, r := range rs {
		if r.n == 1 {
			add(r.b, 1)
			continue
		}
		add(r.b, 2)
		add(255, (r.n-2)/255)
		add(byte((r.n-2)%255), 1)
	}
	return
}

func total(s []seg) (n int64) {
	for _, g := range s {
		n += g.n * int64(len(g.pat))
	}
	return
}

// giants are run sequences whose lengths pass the widths of counters.
func giants(c *h.Ctx) (o [][]bigRun) {
	for _, n := range []int64{1 << 23, 255 * 65536, 1 << 24, 257 * 65536} {
		for _, k := range []int64{-1, 0, 1, 2, 3} {
			if c.Thorough() || k == 0 || k == 2 {
				o = append(o, []bigRun{{5, 1}, {0, n + k}, {255, 300}, {1, 1}})
			}
		}
	}
	o = append(o, []bigRun{{255, 40 << 20}, {3, 2}}, []bigRun{{0, 17 << 20}, {9, 1}, {0, 19<<20 + 7}})
	if c.Thorough() {
		for _, n := range []int64{1 << 25, 255 << 17, 257 << 17, 1 << 31, 1 << 32} {
			for _, k := range []int64{-1, 1, 300} {
				o = append(o, []bigRun{{0, n + k}, {255, 3}, {1, 1}})
			}
		}
	}
	return
}

func codec(c *h.Ctx, key, what string, f func(io.Reader, io.Writer) (int64, error), in, want []seg) {
	c.Eval(1)
	out := &cmpSink{want: newSegs(want)}
	n, err := f(newSegs(in), out)
	if err != nil {
		c.Fail(key, "%s: error %v", what, err)
	}
	if d := out.finish(); d != "" {
		c.Fail(key, "%s: %s", what, d)
	}
	if n != total(want) {
		c.Fail(key+"-count", "%s: reported %d bytes, wrote %d", what, n, total(want))
	}
	c.Count("giant_bytes", total(in))
}

func giantRLE8(c *h.Ctx) {
	for i, rs := range giants(c) {
		c.Case(fmt.Sprintf("giant-%d", i), func(r *rand.Rand) {
			codec(c, "encoder", fmt.Sprintf("encoding runs %v", rs), compression.CompressRLE8, dataSegs(rs), rle8Segs(rs))
			codec(c, "decoder", fmt.Sprintf("decoding the encoding of runs %v", rs), compression.DecompressRLE8, rle8Segs(rs), dataSegs(rs))
			c.Distinct("giant", fmt.Sprint(rs))
		})
	}
}

func giantRec(c *h.Ctx) {
	for i, rs := range giants(c) {
		c.Case(fmt.Sprintf("giant-%d", i), func(r *rand.Rand) {
			cur := rs
			for k := 0; k < 3; k++ {
				next := recRuns(cur)
				codec(c, "rec-encoder", fmt.Sprintf("recursive encoding of runs %v", cur), compression.CompressRLERecursive, dataSegs(cur), dataSegs(next))
				codec(c, "rec-roundtrip", fmt.Sprintf("undoing the recursive encoding of runs %v", cur), compression.DecompressRLERecursive, dataSegs(next), dataSegs(cur))
				cur = next
			}
			c.Distinct("giant", fmt.Sprint(rs))
		})
	}
}

func giantImages(c *h.Ctx) {
	one := func(segs []seg) {
		what := fmt.Sprintf("image of %d bytes", total(segs))
		var arch bytes.Buffer
		n, err := compression.CompressImage(newSegs(segs), &arch)
		c.Eval(1)
		if err != nil || n != int64(arch.Len()) {
			c.Fail("compress-error", "%s: CompressImage reported %d bytes, wrote %d, error %v", what, n, arch.Len(), err)
		}
		gz, err := gzip.NewReader(bytes.NewReader(arch.Bytes()))
		if err != nil {
			c.Fail("not-gzip", "%s: %v", what, err)
		}
		// The expansion of what gunzip gives, by the reference decoder, in
		// pieces.
		out := &cmpSink{want: newSegs(segs)}
		if err := streamUnRLE8(gz, out); err != nil {
			c.Fail("archive-content", "%s: archive does not expand: %v", what, err)
		}
		if d := out.finish(); d != "" {
			c.Fail("archive-content", "%s: archive does not hold the image: %s", what, d)
		}
		out = &cmpSink{want: newSegs(segs)}
		n, err = compression.DecompressImage(bytes.NewReader(arch.Bytes()), out)
		if err != nil {
			c.Fail("decompress-error", "%s: %v", what, err)
		}
		if d := out.finish(); d != "" {
			c.Fail("roundtrip", "%s: %s", what, d)
		}
		if n != total(segs) {
			c.Fail("decompress-count", "%s: reported %d bytes", what, n)
		}
		if total(segs) < 100<<20 {
			bs, err := compression.DecompressImageToBytes(bytes.NewReader(arch.Bytes()))
			out = &cmpSink{want: newSegs(segs)}
			out.Write(bs)
			if d := out.finish(); err != nil || d != "" {
				c.Fail("roundtrip-bytes", "%s: %v %s", what, err, d)
			}
		}
		c.Count("giant_bytes", total(segs))
		c.Distinct("giant", total(segs))
	}
	c.Case("giant-runs", func(r *rand.Rand) {
		for _, n := range []int64{16<<20 - 1, 16 << 20, 16<<20 + 1, 33<<20 + 11} {
			one([]seg{{[]byte{0}, n}, {[]byte("tail of the image"), 1}})
		}
	})
	c.Case("giant-incompressible", func(r *rand.Rand) {
		x := make([]byte, 65521)
		r.Read(x)
		one([]seg{{[]byte{0xE5}, 100}, {x, 260 + r.Int63n(60)}, {[]byte{1, 2}, 1}})
	})
	if c.Thorough() {
		for i, n := range []int64{1<<31 - 1, 1<<31 + 5, 1<<32 + 5} {
			c.Case(fmt.Sprintf("giant-%d", i), func(r *rand.Rand) {
				one([]seg{{[]byte{0}, n}, {[]byte("tail"), 1}})
			})
		}
	}
}

// streamUnRLE8 expands a run-length stream without holding it.
func streamUnRLE8(in io.Reader, out io.Writer) error {
	br := make([]byte, 1<<16)
	var o []byte
	last, count := -1, false
	for {
		n, err := in.Read(br)
		for _, b := range br[:n] {
			switch {
			case count:
				for k := 0; k < int(b); k++ {
					o = append(o, byte(last))
				}
				last, count = -1, false
			default:
				o = append(o, b)
				if int(b) == last {
					count = true
				} else {
					last = int(b)
				}
			}
		}
		out.Write(o)
		o = o[:0]
		if err == io.EOF {
			if count {
				return io.ErrUnexpectedEOF
			}
			return nil
		}
		if err != nil {
			return err
		}
	}
}
