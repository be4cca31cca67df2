// Package fixtures checks T01: what /repo/testing gives to tests.
package fixtures

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	diskotest "github.com/dargueta/disko/testing"
	"github.com/dargueta/disko/utilities/compression"

	"verifharness/h"
)

// Props lists the checks of this area.
func Props() []*h.Prop {
	return []*h.Prop{{ID: "T01", Level: "exploration", Rule: "image contents and sizes x damage x fixture kind, random access histories; distinct by kind, block size, count and outcome", Run: t01,
		Assumptions: []string{"Fixtures are run inside subtests of a real testing.T; a fixture fails a test if the subtest it ran in failed."}}}
}

type runner struct {
	c    *h.Ctx
	root *testing.T
	n    int
}

// run gives f a test of its own and reports whether that passed.
func (x *runner) run(f func(t *testing.T)) bool {
	x.n++
	var pv any
	ok := x.root.Run(fmt.Sprint(x.n), func(t *testing.T) {
		defer func() {
			// Tests end by Goexit, on which this is nil.
			if pv = recover(); pv != nil {
				t.Fail()
			}
		}()
		f(t)
	})
	if pv != nil {
		panic(pv)
	}
	return ok
}

// start makes the process a test process.
func start(c *h.Ctx) (*runner, func()) {
	ready, stop := make(chan *testing.T), make(chan struct{})
	os.Args = os.Args[:1]
	go func() {
		testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "fixtures", F: func(t *testing.T) {
			ready <- t
			<-stop
		}}}, nil, nil)
	}()
	// The test is never ended: that would end the process.
	return &runner{c: c, root: <-ready}, func() {}
}

func packed(c *h.Ctx, img []byte) []byte {
	var b bytes.Buffer
	if _, err := compression.CompressImage(bytes.NewReader(img), &b); err != nil {
		c.Fail("compress", "%v", err)
	}
	return b.Bytes()
}

func content(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(i / 300)
		}
	case 2:
		for i := range b {
			b[i] = byte(r.Intn(2))
		}
	}
	return b
}

func t01(c *h.Ctx) {
	x, done := start(c)
	defer done()
	for k := 0; k < c.M(3000, 60000); k++ {
		c.Case(fmt.Sprintf("image %d", k), func(r *rand.Rand) { x.image(r) })
	}
	for k := 0; k < c.M(5000, 100000); k++ {
		c.Case(fmt.Sprintf("cache %d", k), func(r *rand.Rand) { x.cache(r) })
	}
	for k := 0; k < c.M(300, 5000); k++ {
		c.Case(fmt.Sprintf("random image %d", k), func(r *rand.Rand) {
			bs, n := uint(1+r.Intn(600)), uint(r.Intn(40))
			var a, b []byte
			if !x.run(func(t *testing.T) {
				a, b = diskotest.CreateRandomImage(bs, n, t), diskotest.CreateRandomImage(bs, n, t)
			}) {
				c.Fail("random", "a random image of %d blocks of %d bytes failed the test", n, bs)
			}
			if uint(len(a)) != bs*n || uint(len(b)) != bs*n {
				c.Fail("random", "a random image of %d blocks of %d bytes has %d and %d bytes", n, bs, len(a), len(b))
			}
			// A chance of less than 2^-250.
			if len(a) >= 32 && (bytes.Equal(a, b) || bytes.Equal(a[len(a)-32:], make([]byte, 32))) {
				c.Fail("random", "a random image is not random")
			}
			c.Keep("a random image", a)
			c.Keep("a random image", b)
			c.Count("random_images", 1)
			c.Distinct("random", bs, n)
		})
	}
	c.Require("images", 100)
	c.Require("refused", 50)
	c.Require("caches", 200)
	c.Require("read_only", 50)
	c.Require("random_images", 20)
}

func (x *runner) image(r *rand.Rand) {
	c := x.c
	ss, n := []int{1, 128, 256, 512, 1024, 2048, 1 + r.Intn(700)}[r.Intn(7)], r.Intn(60)
	img := content(r, ss*n)
	z := packed(c, img)
	orig := bytes.Clone(z)
	var s io.ReadWriteSeeker
	load := func(z []byte, ss, n int) bool {
		s = nil
		reached := false
		ok := x.run(func(t *testing.T) { s = diskotest.LoadDiskImage(t, z, uint(ss), uint(n)); reached = true })
		if ok && (!reached || s == nil) {
			c.Fail("image", "loading gave no stream but did not fail the test")
		}
		return ok
	}
	if r.Intn(3) == 0 {
		// Something is wrong with it.
		what, bad, bss, bn := "", z, ss, n
		switch r.Intn(8) {
		case 6:
			if ss == 1 {
				return
			}
			what = "an incomplete sector more"
			bad = packed(c, append(bytes.Clone(img), content(r, 1+r.Intn(ss-1))...))
		case 7:
			if ss == 1 || n == 0 {
				return
			}
			what = "an incomplete last sector"
			bad = packed(c, img[:len(img)-1-r.Intn(ss-1)])
		case 0:
			what, bn = "one sector more", n+1
		case 1:
			if n == 0 {
				return
			}
			what, bn = "one sector less", n-1
		case 2:
			if n == 0 {
				return
			}
			what, bss = "another sector size", ss+1
		case 3:
			what, bad = "empty", nil
		case 4:
			what, bad = "truncated", z[:r.Intn(len(z))]
		case 5:
			// The checksum or the length.
			what, bad = "damaged", bytes.Clone(z)
			bad[len(bad)-1-r.Intn(8)] ^= 1 << r.Intn(8)
		}
		if load(bad, bss, bn) {
			c.Fail("accepted", "an image of %d sectors of %d bytes, %s, did not fail the test", n, ss, what)
		}
		c.Count("refused", 1)
		c.Distinct("refused", what, ss)
		return
	}
	if !load(z, ss, n) {
		c.Fail("image", "an image of %d sectors of %d bytes failed the test", n, ss)
	}
	model := bytes.Clone(img)
	c.Count("images", 1)
	c.Distinct("image", ss, n == 0)
	for range 30 {
		off := r.Intn(len(model) + 1)
		want, whence := int64(off), io.SeekStart
		if r.Intn(3) == 0 {
			whence, want = io.SeekEnd, int64(off-len(model))
		}
		pos, err := s.Seek(want, whence)
		if err != nil || pos != int64(off) {
			c.Fail("seek", "seeking to %d of %d gave %d, %v", off, len(model), pos, err)
		}
		b := make([]byte, r.Intn(3*ss))
		if r.Intn(2) == 0 {
			n, err := io.ReadFull(s, b)
			if m := min(len(b), len(model)-off); n != m || !bytes.Equal(b[:n], model[off:off+n]) || (n == len(b)) != (err == nil) {
				c.Fail("read", "reading %d bytes at %d of %d gave %d, %v, or other bytes", len(b), off, len(model), n, err)
			}
			continue
		}
		r.Read(b)
		n, err := s.Write(b)
		room := len(model) - off
		if len(b) == 0 {
			continue
		}
		if len(b) <= room {
			if n != len(b) || err != nil {
				c.Fail("write", "writing %d bytes at %d of %d: %d, %v", len(b), off, len(model), n, err)
			}
		} else if err == nil || n > room {
			c.Fail("grown", "writing %d bytes at %d of %d: %d, %v", len(b), off, len(model), n, err)
		}
		copy(model[off:], b[:max(0, min(n, room))])
	}
	if end, err := s.Seek(0, io.SeekEnd); err != nil || end != int64(len(model)) {
		c.Fail("grown", "the stream has %d bytes afterwards instead of %d", end, len(model))
	}
	s.Seek(0, io.SeekStart)
	all, err := io.ReadAll(s)
	if err != nil || !bytes.Equal(all, model) {
		c.Fail("read", "the contents afterwards are wrong (%d bytes of %d, %v)", len(all), len(model), err)
	}
	if !bytes.Equal(z, orig) {
		c.Fail("compressed", "writing to the stream changed the compressed image")
	}
	if !load(z, ss, n) {
		c.Fail("image", "loading the image again failed the test")
	}
	if all, _ := io.ReadAll(s); !bytes.Equal(all, img) {
		c.Fail("compressed", "the image is another one when loaded again")
	}
}

func (x *runner) cache(r *rand.Rand) {
	c := x.c
	bs, n := []uint{1, 2, 16, 128, 512, 1024, 4096, uint(1 + r.Intn(300))}[r.Intn(8)], uint(1+r.Intn(70))
	if r.Intn(16) == 0 {
		bs, n = []uint{4097, 8192, 16384, 65536}[r.Intn(4)], uint(1+r.Intn(5))
	}
	size := int(bs * n)
	writable, given := r.Intn(2) == 0, r.Intn(3) > 0
	var backing []byte
	extra := 0
	if given {
		extra = r.Intn(3) * r.Intn(20)
		backing = content(r, size+extra)
	}
	disk := bytes.Clone(backing)
	modified := false // what a failing flush means for the test depends on it
	ok := x.run(func(t *testing.T) {
		cache := diskotest.CreateDefaultCache(bs, n, writable, backing, t)
		fail := func(kind, f string, a ...any) { c.Fail(kind, f, a...) }
		if cache.BytesPerBlock() != bs || cache.TotalBlocks() != n {
			fail("cache", "the cache has %d blocks of %d bytes, expected %d of %d", cache.TotalBlocks(), cache.BytesPerBlock(), n, bs)
		}
		if !bytes.Equal(backing, disk) {
			fail("cache", "making the cache changed its storage")
		}
		model := bytes.Clone(disk)
		if !given {
			d, err := cache.Data()
			if err != nil || len(d) != size {
				fail("cache", "a cache of random data has %d bytes instead of %d, %v", len(d), size, err)
			}
			if size >= 32 && bytes.Equal(d[size-32:], make([]byte, 32)) {
				fail("random", "the cache is not filled with random data")
			}
			model = bytes.Clone(d)
		}
		model = model[:size]
		for range 20 {
			start := r.Intn(int(n) + 1)
			b := make([]byte, 1+r.Intn(int(bs)*4))
			off := start * int(bs)
			inside := start < int(n) && start+(len(b)+int(bs)-1)/int(bs) <= int(n)
			switch r.Intn(6) {
			case 0, 1:
				cnt, err := cache.ReadAt(b, common.LogicalBlock(start))
				if inside != (err == nil) || inside && (cnt != len(b) || !bytes.Equal(b, model[off:off+len(b)])) {
					fail("read", "reading %d bytes at block %d of %d: %d, %v, or other bytes", len(b), start, n, cnt, err)
				}
			case 2, 3:
				r.Read(b)
				cnt, err := cache.WriteAt(b, common.LogicalBlock(start))
				if inside != (err == nil) || inside && cnt != len(b) {
					fail("write", "writing %d bytes at block %d of %d: %d, %v", len(b), start, n, cnt, err)
				}
				if inside {
					copy(model[off:], b)
					modified = true
				}
			case 4:
				if !writable {
					continue
				}
				if err := cache.Flush(); err != nil {
					fail("flush", "flushing failed: %v", err)
				}
				if given && (!bytes.Equal(backing[:size], model) || !bytes.Equal(backing[size:], disk[size:])) {
					fail("flush", "the storage is not what was written")
				}
				modified = false
			case 5:
				m := r.Intn(2 * int(n))
				if m == int(n) {
					continue
				}
				if err := cache.Resize(uint(m)); err == nil || cache.TotalBlocks() != n {
					fail("resize", "resizing from %d to %d blocks: %v, now %d", n, m, err, cache.TotalBlocks())
				}
			}
		}
		if given && !writable && !bytes.Equal(backing, disk) {
			fail("readonly", "a read-only cache changed its storage")
		}
		if t.Failed() {
			fail("cache", "proper use of the cache failed the test")
		}
		err := cache.Flush()
		if writable {
			modified = false
		}
		if (err != nil) != modified {
			fail("flush", "flushing a cache (writable %v, modified %v): %v", writable, modified, err)
		}
		if err != nil && !errors.Is(err, disko.ErrReadOnlyFileSystem) {
			fail("flush", "flushing a modified read-only cache fails with %v", err)
		}
		if given && !writable && !bytes.Equal(backing, disk) {
			fail("readonly", "flushing a read-only cache changed its storage")
		}
		if given && writable && !bytes.Equal(backing[:size], model) {
			fail("flush", "the storage is not what was written")
		}
	})
	if ok == modified {
		c.Fail("verdict", "a cache (writable %v) flushed with pending changes %v: the test passed: %v", writable, modified, ok)
	}
	c.Count("caches", 1)
	if !writable {
		c.Count("read_only", 1)
	}
	c.Distinct("cache", bs, n, writable, given, extra > 0)
}
