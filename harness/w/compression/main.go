package compressionx

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"github.com/dargueta/disko/utilities/compression"

	"verifharness/h"
	"verifharness/iox"
)

// ---------------------------------------------------------------- reference codecs

func refRLE8(d []byte) []byte {
	var out []byte
	for i := 0; i < len(d); {
		j := i
		for j < len(d) && d[j] == d[i] {
			j++
		}
		n := j - i
		for n >= 2 {
			k := n
			if k > 257 {
				k = 257
			}
			out = append(out, d[i], d[i], byte(k-2))
			n -= k
		}
		if n == 1 {
			out = append(out, d[i])
		}
		i = j
	}
	return out
}

// refUnRLE8 returns the expansion and whether the stream is complete.
func refUnRLE8(s []byte) (out []byte, ok bool) {
	for i := 0; i < len(s); {
		if i+1 < len(s) && s[i+1] == s[i] {
			if i+2 >= len(s) {
				return append(out, s[i], s[i]), false
			}
			out = append(out, bytes.Repeat([]byte{s[i]}, int(s[i+2])+2)...)
			i += 3
		} else {
			out = append(out, s[i])
			i++
		}
	}
	return out, true
}

func refRec(d []byte) []byte {
	var out []byte
	for i := 0; i < len(d); {
		j := i
		for j < len(d) && d[j] == d[i] {
			j++
		}
		n := j - i
		if n == 1 {
			out = append(out, d[i])
		} else {
			out = append(out, d[i], d[i])
			n -= 2
			for n >= 255 {
				out = append(out, 255)
				n -= 255
			}
			out = append(out, byte(n))
		}
		i = j
	}
	return out
}

// recOpen reports whether the recursive stream s ends inside a repeat count.
func recOpen(s []byte) bool {
	for i := 0; i < len(s); {
		if i+1 < len(s) && s[i+1] == s[i] {
			i += 2
			for {
				if i >= len(s) {
					return true
				}
				c := s[i]
				i++
				if c != 255 {
					break
				}
			}
		} else {
			i++
		}
	}
	return false
}

// ---------------------------------------------------------------- inputs

var runLens = []int{1, 1, 1, 2, 2, 3, 4, 5, 13, 16, 253, 254, 255, 256, 257, 258, 259, 260, 509, 510, 511, 512, 513, 514, 515, 516, 767, 768, 769, 771, 772, 1023, 1024, 1025, 1028}
var alphabet = []byte{0, 1, 2, 254, 255, 253, 'A', 11, 12}

func genData(r *rand.Rand, max int) []byte {
	var d []byte
	switch r.Intn(8) {
	case 0: // random bytes
		d = make([]byte, r.Intn(max+1))
		r.Read(d)
		return d
	case 1: // random over two symbols
		d = make([]byte, r.Intn(max+1))
		for i := range d {
			d[i] = byte(r.Intn(2)) * 255
		}
		return d
	case 2: // one run
		return bytes.Repeat([]byte{alphabet[r.Intn(len(alphabet))]}, r.Intn(max+1))
	}
	n := 1 + r.Intn(12)
	for i := 0; i < n && len(d) < max; i++ {
		b := alphabet[r.Intn(len(alphabet))]
		if r.Intn(6) == 0 {
			b = byte(r.Intn(256))
		}
		l := runLens[r.Intn(len(runLens))]
		if r.Intn(8) == 0 {
			l = 1 + r.Intn(3000)
		}
		d = append(d, bytes.Repeat([]byte{b}, l)...)
	}
	if len(d) > max {
		d = d[:max]
	}
	return d
}

// offsets calls f with images in which runs of all kinds begin, break and end
// around places where positions need one bit more.
func offsets(c *h.Ctx, f func(d []byte)) {
	base := make([]byte, 1<<c.N(17, 20)+64)
	for i := range base {
		base[i] = byte(i % 253)
	}
	for k := 7; k <= c.N(17, 20); k++ {
		for at := 1<<k - 5; at <= 1<<k+4; at++ {
			n := []int{2, 3, 257, 258, 259, 514, 600, 1}[(at+k)%8]
			for _, n := range []int{n, 300} {
				d := append(append(make([]byte, 0, at+n+4), base[:at]...), bytes.Repeat([]byte{254}, n)...)
				f(append(d, 3, 3, 4))
			}
		}
	}
}

// longRuns are run lengths around sizes at which counters and buffers of
// various widths fill up.
func longRuns(c *h.Ctx) (o []int) {
	for _, b := range []int{2048, 4096, 8192, 16384, 32768, 257 * 128, 257 * 255, 257 * 256, 255 * 255, 65536, 131072, 1 << 18} {
		for k := -2; k <= 3; k++ {
			o = append(o, b+k)
		}
	}
	if c.Thorough() {
		for k := -2; k <= 3; k++ {
			o = append(o, 1<<20+k, 1<<24+k, 257*65536+k)
		}
	}
	return
}

func enumerate(alpha []byte, maxLen int, f func([]byte)) {
	var rec func(p []byte)
	rec = func(p []byte) {
		f(p)
		if len(p) == maxLen {
			return
		}
		for _, b := range alpha {
			rec(append(p[:len(p):len(p)], b))
		}
	}
	rec(nil)
}

func nontrivial(d []byte) bool {
	for i := 1; i < len(d); i++ {
		if d[i] == d[i-1] {
			return true
		}
	}
	return false
}

func sig(d []byte) string {
	if len(d) > 64 {
		return fmt.Sprintf("%x/%d/%x", d[:32], len(d), d[len(d)-32:])
	}
	return fmt.Sprintf("%x", d)
}

// disturb makes a few calls that fail or stop half way, of which nothing may
// show in what follows.
func disturb(c *h.Ctx, r *rand.Rand) {
	for k := 1 + r.Intn(3); k > 0; k-- {
		e := entries[r.Intn(len(entries))]
		in := e.in(genData(r, []int{20, 300, 9000}[r.Intn(3)]))
		ms := iox.Modes(r)
		rd := iox.NewReader(in, ms[r.Intn(len(ms))], r.Intn(2) == 0)
		out := iox.NewSink()
		switch r.Intn(4) {
		case 0:
			rd.FailAt, rd.Err = r.Intn(len(in)+1), iox.Errors[r.Intn(len(iox.Errors))]
			rd.After(r.Intn(3))
		case 1:
			out = &iox.Sink{Room: r.Intn(40), Err: iox.Errors[r.Intn(len(iox.Errors))], Again: r.Intn(2) == 0}
		case 2:
			rd.Data = in[:r.Intn(len(in)+1)]
		default:
			if len(in) > 0 {
				rd.Data = append([]byte(nil), in...)
				rd.Data[r.Intn(len(in))] ^= 1 << r.Intn(8)
			}
		}
		e.run(rd, out)
		c.Count("disturbances", 1)
	}
}

// ---------------------------------------------------------------- C01

func c01(c *h.Ctx) {
	one := func(d []byte, m func(int) int, ew bool) {
		c.Eval(1)
		rd := iox.NewReader(d, m, ew)
		arch := iox.NewSink()
		n, err := compression.CompressImage(rd, arch)
		if err != nil {
			c.Fail("compress-error", "CompressImage failed on %d bytes %s: %v", len(d), h.Hex(d), err)
		}
		if n != int64(len(arch.B)) {
			c.Fail("compress-count", "CompressImage reported %d bytes, wrote %d (input %s)", n, len(arch.B), h.Hex(d))
		}
		// independent decode: standard gzip + reference RLE8
		br := bytes.NewReader(arch.B)
		gz, err := gzip.NewReader(br)
		if err != nil {
			c.Fail("not-gzip", "archive is not gzip: %v", err)
		}
		gz.Multistream(false)
		rle, err := io.ReadAll(gz)
		if err != nil {
			c.Fail("not-gzip", "archive does not gunzip: %v", err)
		}
		if br.Len() != 0 {
			c.Fail("not-gzip", "archive has %d bytes after the gzip stream", br.Len())
		}
		back, ok := refUnRLE8(rle)
		if !ok || !bytes.Equal(back, d) {
			c.Fail("archive-content", "archive does not hold the image: ok=%v %s (image vs archive content); input %s", ok, h.FirstDiff(d, back), h.Hex(d))
		}
		out := iox.NewSink()
		n, err = compression.DecompressImage(iox.NewReader(arch.B, m, ew), out)
		if err != nil {
			c.Fail("decompress-error", "DecompressImage failed on its own archive of %d bytes %s: %v", len(d), h.Hex(d), err)
		}
		if !bytes.Equal(out.B, d) {
			c.Fail("roundtrip", "round trip differs: %s; input %s", h.FirstDiff(d, out.B), h.Hex(d))
		}
		if n != int64(len(d)) {
			c.Fail("decompress-count", "DecompressImage reported %d bytes for %d", n, len(d))
		}
		bs, err := compression.DecompressImageToBytes(iox.NewReader(arch.B, m, ew))
		if err != nil || !bytes.Equal(bs, d) {
			c.Fail("roundtrip-bytes", "DecompressImageToBytes: err=%v %s; input %s", err, h.FirstDiff(d, bs), h.Hex(d))
		}
		c.Keep("DecompressImageToBytes", bs)
		// archives of other gzip writers
		c.Count("archives", 1)
		c.Count("image_bytes", int64(len(d)))
		if nontrivial(d) {
			c.Distinct(sig(d), ew)
		}
		c.Sample("image of %d bytes %s -> archive of %d bytes", len(d), h.Hex(d), len(arch.B))
	}
	c.Case("run-lengths", func(r *rand.Rand) {
		for n := 0; n <= c.N(530, 2200); n++ {
			d := bytes.Repeat([]byte{byte(n)}, n)
			if n%2 == 0 {
				d = append(d, byte(n+1))
			}
			one(d, iox.Modes(r)[n%6], n%3 == 0)
		}
	})
	for i := 0; i < c.M(1500, 20000); i++ {
		c.Case(fmt.Sprintf("gen-%d", i), func(r *rand.Rand) {
			max := 6000
			if i%50 == 0 {
				max = 300000
			}
			d := genData(r, max)
			ms := iox.Modes(r)
			if i%2 == 0 {
				disturb(c, r)
			}
			one(d, ms[r.Intn(len(ms))], r.Intn(2) == 0)
		})
	}
	c.Case("long-runs", func(r *rand.Rand) {
		for i, n := range longRuns(c) {
			d := append(bytes.Repeat([]byte{alphabet[i%len(alphabet)]}, n), 3, 3, 4)
			one(d[:n+i%4], nil, i%3 == 0)
		}
	})
	c.Case("wide offsets", func(r *rand.Rand) {
		i := 0
		offsets(c, func(d []byte) { i++; one(d, nil, i%2 == 0) })
	})
	c.Case("large", func(r *rand.Rand) {
		d := make([]byte, c.N(2<<20, 40<<20))
		for i := 0; i < 200; i++ {
			d[r.Intn(len(d))] = byte(r.Intn(256))
		}
		r.Read(d[len(d)/2 : len(d)/2+4096])
		one(d, nil, false)
		one(d[:262145], iox.Modes(r)[3], true)
		x := make([]byte, 300000)
		r.Read(x)
		one(x, nil, false)
	})
	giantImages(c)
	c.Require("archives", 500)
}

// ---------------------------------------------------------------- C02

func c02(c *h.Ctx) {
	enc := func(d []byte, m func(int) int, ew bool) {
		c.Eval(1)
		out := iox.NewSink()
		n, err := compression.CompressRLE8(iox.NewReader(d, m, ew), out)
		want := refRLE8(d)
		if err != nil || !bytes.Equal(out.B, want) {
			c.Fail("encoder", "encoding of %s (%d bytes): got %s want %s err=%v", h.Hex(d), len(d), h.Hex(out.B), h.Hex(want), err)
		}
		if n != int64(len(want)) {
			c.Fail("encoder-count", "encoder reported %d bytes, wrote %d", n, len(want))
		}
		c.Count("encoded", 1)
		if nontrivial(d) {
			c.Distinct("e", sig(d))
		}
	}
	dec := func(s []byte, m func(int) int, ew bool) {
		want, ok := refUnRLE8(s)
		if !ok {
			return
		}
		c.Eval(1)
		out := iox.NewSink()
		n, err := compression.DecompressRLE8(iox.NewReader(s, m, ew), out)
		if err != nil || !bytes.Equal(out.B, want) {
			c.Fail("decoder", "decoding of code stream %s (%d bytes): %s (got vs want) err=%v", h.Hex(s), len(s), h.FirstDiff(out.B, want), err)
		}
		if n != int64(len(want)) {
			c.Fail("decoder-count", "decoder reported %d bytes, wrote %d", n, len(want))
		}
		c.Count("decoded", 1)
		if nontrivial(s) {
			c.Distinct("d", sig(s))
			if !bytes.Equal(refRLE8(want), s) {
				c.Count("decoded_noncanonical", 1)
			}
		}
	}
	c.Case("exhaustive", func(r *rand.Rand) {
		k := c.N(7, 9)
		enumerate([]byte{0, 1, 255}, k, func(d []byte) { enc(d, nil, false); dec(d, nil, false) })
		enumerate([]byte{0, 2}, k+2, func(d []byte) { enc(d, nil, false); dec(d, nil, true) })
	})
	c.Case("wide offsets", func(r *rand.Rand) {
		offsets(c, func(d []byte) { enc(d, nil, false); dec(refRLE8(d), nil, false) })
	})
	c.Case("run-lengths", func(r *rand.Rand) {
		for n := 1; n <= c.N(1300, 5000); n++ {
			d := bytes.Repeat([]byte{alphabet[n%len(alphabet)]}, n)
			enc(d, nil, false)
			enc(append(append([]byte{9}, d...), 7), nil, true)
		}
		for i, n := range longRuns(c) {
			d := append(bytes.Repeat([]byte{alphabet[i%len(alphabet)]}, n), 9)
			enc(d, nil, false)
			dec(refRLE8(d), nil, false)
		}
		for k := 0; k < 256; k++ {
			for b := 0; b < 256; b += c.N(17, 1) {
				dec([]byte{byte(b), byte(b), byte(k)}, nil, false)
				dec([]byte{byte(b), byte(b), byte(k), byte(b)}, nil, false)
				dec([]byte{byte(b), byte(b), byte(k), byte(b), byte(b), byte(k)}, nil, false)
				dec([]byte{byte(b), byte(b), byte(k), byte(k)}, nil, false)
			}
		}
	})
	for i := 0; i < c.M(5000, 100000); i++ {
		c.Case(fmt.Sprintf("gen-%d", i), func(r *rand.Rand) {
			ms := iox.Modes(r)
			if i%2 == 0 {
				disturb(c, r)
			}
			enc(genData(r, 5000), ms[r.Intn(len(ms))], r.Intn(2) == 0)
			// random well-formed code stream made of literals and groups
			var s []byte
			last := -1
			for k := r.Intn(60); k > 0; k-- {
				b := alphabet[r.Intn(len(alphabet))]
				if r.Intn(2) == 0 {
					if int(b) == last { // would start a group
						continue
					}
					s = append(s, b)
					last = int(b)
				} else {
					if int(b) == last {
						continue
					}
					s = append(s, b, b, []byte{0, 1, b, 254, 255, byte(r.Intn(256))}[r.Intn(6)])
					last = -1
				}
			}
			dec(s, ms[r.Intn(len(ms))], r.Intn(2) == 0)
			c.Sample("code stream %s", h.Hex(s))
			g := make([]byte, r.Intn(200))
			for j := range g {
				g[j] = alphabet[r.Intn(3)]
			}
			dec(g, ms[r.Intn(len(ms))], r.Intn(2) == 0)
		})
	}
	giantRLE8(c)
	c.Require("encoded", 1000)
	c.Require("decoded_noncanonical", 500)
}

// ---------------------------------------------------------------- C03

func c03(c *h.Ctx) {
	one := func(d []byte, depth int, m func(int) int, ew bool) {
		c.Eval(1)
		stages := [][]byte{d}
		cur := d
		for i := 0; i < depth; i++ {
			out := iox.NewSink()
			n, err := compression.CompressRLERecursive(iox.NewReader(cur, m, ew), out)
			want := refRec(cur)
			if err != nil || !bytes.Equal(out.B, want) {
				c.Fail("rec-encoder", "recursive encoding of %s (%d bytes): got %s want %s err=%v", h.Hex(cur), len(cur), h.Hex(out.B), h.Hex(want), err)
			}
			if n != int64(len(want)) {
				c.Fail("rec-encoder-count", "reported %d bytes, wrote %d", n, len(want))
			}
			cur = want
			stages = append(stages, cur)
		}
		for i := depth; i > 0; i-- {
			out := iox.NewSink()
			n, err := compression.DecompressRLERecursive(iox.NewReader(stages[i], m, ew), out)
			if err != nil || !bytes.Equal(out.B, stages[i-1]) {
				c.Fail("rec-roundtrip", "undoing level %d of %d of %s: %s (got vs original) err=%v", i, depth, h.Hex(d), h.FirstDiff(out.B, stages[i-1]), err)
			}
			if n != int64(len(stages[i-1])) {
				c.Fail("rec-decoder-count", "decoder reported %d bytes for %d", n, len(stages[i-1]))
			}
		}
		c.Count("roundtrips", int64(depth))
		if nontrivial(d) {
			c.Distinct(sig(d), depth)
		}
	}
	trunc := func(d []byte) {
		s := refRec(d)
		for k := 0; k < len(s); k++ {
			if !recOpen(s[:k]) {
				continue
			}
			out := iox.NewSink()
			_, err := compression.DecompressRLERecursive(bytes.NewReader(s[:k]), out)
			c.Eval(1)
			if err == nil {
				c.Fail("rec-truncated", "stream %s cut at %d inside a repeat count was accepted", h.Hex(s), k)
			}
			c.Count("truncations_rejected", 1)
		}
	}
	c.Case("exhaustive", func(r *rand.Rand) {
		enumerate([]byte{0, 1, 255}, c.N(7, 9), func(d []byte) { one(d, 2, nil, false); trunc(d) })
	})
	c.Case("run-lengths", func(r *rand.Rand) {
		for n := 1; n <= c.N(2100, 6000); n++ {
			d := bytes.Repeat([]byte{alphabet[n%len(alphabet)]}, n)
			one(d, 3, nil, false)
			one(append(append([]byte{9, 9}, d...), 7), 2, nil, true)
			if n%10 == 0 || n%255 < 4 {
				trunc(d)
			}
		}
	})
	c.Case("wide offsets", func(r *rand.Rand) { offsets(c, func(d []byte) { one(d, 2, nil, false) }) })
	c.Case("huge", func(r *rand.Rand) {
		for i, n := range longRuns(c) {
			one(append(bytes.Repeat([]byte{alphabet[i%len(alphabet)]}, n), 9), 2, nil, false)
		}
		for _, n := range []int{131072, 131074, 65025, 65027, 65026 + 255, 1 << 20} {
			for _, b := range []byte{0, 255, 1} {
				one(bytes.Repeat([]byte{b}, n), 4, nil, false)
			}
		}
	})
	for i := 0; i < c.M(5000, 100000); i++ {
		c.Case(fmt.Sprintf("gen-%d", i), func(r *rand.Rand) {
			ms := iox.Modes(r)
			d := genData(r, 5000)
			if i%2 == 0 {
				disturb(c, r)
			}
			one(d, 1+r.Intn(4), ms[r.Intn(len(ms))], r.Intn(2) == 0)
			if len(d) < 400 {
				trunc(d)
			}
			c.Sample("data %s (%d bytes)", h.Hex(d), len(d))
		})
	}
	giantRec(c)
	c.Case("open-streams", func(r *rand.Rand) {
		// every short stream that ends within a repeat count
		open := func(s []byte) {
			if !recOpen(s) {
				return
			}
			c.Eval(1)
			_, err := compression.DecompressRLERecursive(bytes.NewReader(s), io.Discard)
			if err == nil {
				c.Fail("rec-truncated", "stream %s ending inside a repeat count was accepted", h.Hex(s))
			}
			c.Count("truncations_rejected", 1)
		}
		enumerate([]byte{0, 1, 255}, c.N(8, 10), open)
		for b := 0; b < 256; b++ {
			for k := 0; k < 20; k++ {
				open(append([]byte{9, byte(b), byte(b)}, bytes.Repeat([]byte{255}, k)...))
			}
			for _, n := range []int{257, 512, 767, 5000} {
				s := refRec(bytes.Repeat([]byte{byte(b)}, n))
				open(s[:len(s)-1])
			}
		}
	})
	c.Require("roundtrips", 2000)
	c.Require("truncations_rejected", 500)
}

// ---------------------------------------------------------------- C04

func c04(c *h.Ctx) {
	decode := func(a []byte) ([]byte, error) {
		out := iox.NewSink()
		_, err := compression.DecompressImage(bytes.NewReader(a), out)
		bs, err2 := compression.DecompressImageToBytes(bytes.NewReader(a))
		if (err == nil) != (err2 == nil) {
			c.Fail("entry-mismatch", "DecompressImage err=%v but DecompressImageToBytes err=%v on %s", err, err2, h.Hex(a))
		}
		if err == nil && !bytes.Equal(bs, out.B) {
			c.Fail("entry-mismatch", "the two decompression entry points disagree on %s", h.Hex(a))
		}
		c.Eval(1)
		return out.B, err
	}
	check := func(d, a []byte, what string) {
		got, err := decode(a)
		if err == nil && !bytes.Equal(got, d) {
			c.Fail("silent-corruption", "%s: decompression succeeded with wrong data: %s (got vs original %d bytes)", what, h.FirstDiff(got, d), len(d))
		}
		if err != nil {
			c.Count("rejected", 1)
		} else {
			c.Count("harmless", 1)
		}
	}
	mk := func(d []byte, level int) []byte {
		var b bytes.Buffer
		if level == -99 {
			if _, err := compression.CompressImage(bytes.NewReader(d), &b); err != nil {
				c.Fail("compress", "CompressImage: %v", err)
			}
			return b.Bytes()
		}
		w, _ := gzip.NewWriterLevel(&b, level)
		w.Write(refRLE8(d))
		w.Close()
		return b.Bytes()
	}
	levels := []int{-99, -99, -99, gzip.NoCompression, gzip.HuffmanOnly, gzip.BestSpeed}
	for i := 0; i < c.M(250, 2500); i++ {
		c.Case(fmt.Sprintf("archive-%d", i), func(r *rand.Rand) {
			max := 40
			if i%5 == 0 {
				max = 3000
			}
			d := genData(r, max)
			if i == 0 {
				d = nil
			}
			level := levels[r.Intn(len(levels))]
			a := mk(d, level)
			if got, err := decode(a); err != nil || !bytes.Equal(got, d) {
				c.Fail("intact", "intact archive rejected: %v", err)
			}
			for k := 0; k < 3; k++ {
				disturb(c, r)
				if got, err := decode(a); err != nil || !bytes.Equal(got, d) {
					c.Fail("intact", "intact archive rejected after calls that failed: %v", err)
				}
			}
			step := 1
			if len(a) > 400 && !c.Thorough() {
				step = len(a)/400 + 1
			}
			for k := 0; k < len(a); k += step {
				if _, err := decode(a[:k]); err == nil {
					c.Fail("truncation", "archive of %d bytes cut to %d was accepted (image %s)", len(a), k, h.Hex(d))
				}
				c.Count("truncations", 1)
				for _, x := range []byte{1 << uint(r.Intn(8)), 0xff, byte(1 + r.Intn(255))} {
					m := append([]byte(nil), a...)
					m[k] ^= x
					check(d, m, fmt.Sprintf("byte %d ^= %#x of %s", k, x, h.Hex(a)))
				}
			}
			for k := len(a) - 8; k < len(a); k++ { // trailer: every single bit
				if k < 0 {
					continue
				}
				for b := 0; b < 8; b++ {
					m := append([]byte(nil), a...)
					m[k] ^= 1 << b
					if _, err := decode(m); err == nil {
						c.Fail("trailer", "archive with bit %d of trailer byte %d flipped was accepted", b, k-len(a)+8)
					}
				}
			}
			for _, suf := range [][]byte{{0}, {0x1f}, {0x1f, 0x8b}, []byte("garbage after the archive"), make([]byte, 512), a[:len(a)-1], a[:11]} {
				check(d, append(append([]byte(nil), a...), suf...), fmt.Sprintf("suffix %x", suf))
			}
			c.Distinct(sig(a))
			c.Sample("archive of %d bytes for image %s (gzip level %d)", len(a), h.Hex(d), level)
		})
	}
	for i := 0; i < c.M(60, 1000); i++ {
		c.Case(fmt.Sprintf("archive-rle-cut-%d", i), func(r *rand.Rand) {
			// the gzip layer is intact, the run-length stream inside is cut
			d := genData(r, 700)
			s := refRLE8(d)
			for k := 0; k < len(s); k++ {
				if _, ok := refUnRLE8(s[:k]); ok {
					continue
				}
				var b bytes.Buffer
				w := gzip.NewWriter(&b)
				w.Write(s[:k])
				w.Close()
				if _, err := decode(b.Bytes()); err == nil {
					c.Fail("inner-truncation", "run-length stream cut at %d inside the archive was accepted", k)
				}
				_, err := compression.DecompressRLE8(bytes.NewReader(s[:k]), io.Discard)
				if !errors.Is(err, io.ErrUnexpectedEOF) {
					c.Fail("rle-truncation", "run-length stream %s cut before its repeat count: error %v is not unexpected EOF", h.Hex(s[:k]), err)
				}
				c.Count("truncations", 1)
			}
		})
	}
	for i := 0; i < c.M(3000, 200000); i++ {
		c.Case(fmt.Sprintf("garbage-%d", i), func(r *rand.Rand) {
			g := make([]byte, r.Intn(64))
			r.Read(g)
			if r.Intn(2) == 0 {
				hd := []byte{0x1f, 0x8b, 8, byte(r.Intn(32)), 0, 0, 0, 0, 0, 255}
				g = append(hd, g...)
			}
			out, err := decode(g)
			if err == nil {
				c.Count("garbage_accepted", 1)
				// must then be what an independent decoder says
				gz, e := gzip.NewReader(bytes.NewReader(g))
				if e != nil {
					c.Fail("garbage", "garbage %x accepted", g)
				}
				s, e := io.ReadAll(gz)
				want, ok := refUnRLE8(s)
				if e != nil || !ok || !bytes.Equal(want, out) {
					c.Fail("garbage", "garbage %x accepted with wrong data", g)
				}
			}
			compression.DecompressRLE8(bytes.NewReader(g), io.Discard)
			compression.DecompressRLERecursive(bytes.NewReader(g), io.Discard)
			c.Count("garbage", 1)
		})
	}
	c.Require("truncations", 1000)
	c.Require("rejected", 1000)
}

// ---------------------------------------------------------------- C05

type entry struct {
	name string
	run  func(io.Reader, io.Writer) (int64, error)
	ref  func([]byte) []byte // input -> full output, nil if not byte-determined
	in   func(d []byte) []byte
}

func same(d []byte) []byte { return d }

func gzipped(d []byte) []byte {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write(refRLE8(d))
	w.Close()
	return b.Bytes()
}

var entries = []entry{
	{"CompressRLE8", compression.CompressRLE8, refRLE8, same},
	{"DecompressRLE8", compression.DecompressRLE8, func(s []byte) []byte { o, _ := refUnRLE8(s); return o }, refRLE8},
	{"CompressRLERecursive", compression.CompressRLERecursive, refRec, same},
	{"DecompressRLERecursive", compression.DecompressRLERecursive, nil, refRec},
	{"CompressImage", compression.CompressImage, nil, same},
	{"DecompressImage", compression.DecompressImage, nil, gzipped},
	{"DecompressImageToBytes", func(r io.Reader, w io.Writer) (int64, error) {
		b, err := compression.DecompressImageToBytes(r)
		w.Write(b)
		return int64(len(b)), err
	}, nil, gzipped},
}

func c05(c *h.Ctx) {
	es := entries

	for i := 0; i < c.M(120, 1500); i++ {
		for ei, e := range es {
			c.Case(fmt.Sprintf("%s-%d", e.name, i), func(r *rand.Rand) {
				max := 60
				if i%4 == 0 {
					max = 1200
				}
				d := genData(r, max)
				in := e.in(d)
				ms := iox.Modes(r)
				m := ms[r.Intn(len(ms))]
				// fault-free, data delivered with and without EOF
				var full []byte
				for _, ew := range []bool{false, true} {
					out := iox.NewSink()
					n, err := e.run(iox.NewReader(in, m, ew), out)
					if err != nil {
						c.Fail("faultfree", "%s failed without a fault (eofWith=%v): %v; input %s", e.name, ew, err, h.Hex(in))
					}
					if n != int64(len(out.B)) {
						c.Fail("count", "%s reported %d bytes, wrote %d", e.name, n, len(out.B))
					}
					if full != nil && !bytes.Equal(full, out.B) {
						c.Fail("eof-with-data", "%s: output depends on how end-of-file is delivered", e.name)
					}
					full = out.B
				}
				switch ei {
				case 1, 3, 5, 6:
					if !bytes.Equal(full, d) {
						c.Fail("faultfree-data", "%s: wrong output %s", e.name, h.FirstDiff(full, d))
					}
				}
				// read faults
				step := len(in)/120 + 1
				if c.Thorough() {
					step = 1
				}
				for k := 0; k <= len(in); k += step {
					out := iox.NewSink()
					src := iox.FailReader(in, k, m, r.Intn(2) == 0)
					src.Err = iox.Errors[r.Intn(len(iox.Errors))]
					src.After(r.Intn(3))
					_, err := e.run(src, out)
					c.Eval(1)
					if err == nil {
						c.Fail("read-fault-lost", "%s: read failure at byte %d of %d reported as success; input %s", e.name, k, len(in), h.Hex(in))
					}
					if !errors.Is(err, src.Err) {
						c.Fail("read-fault-identity", "%s: read failure %v at byte %d of %d surfaced as unrelated error %v; input %s", e.name, src.Err, k, len(in), err, h.Hex(in))
					}
					got, want := out.B, full
					if e.name == "CompressImage" { // compare what the archive represents
						got, want = gunzipSome(out.B), refRLE8(d)
					}
					if ok := bytes.HasPrefix(want, got); !ok && refOf(e.name, got, d) {
						c.Count("partial_runs_written", 1)
					} else if !ok {
						c.Fail("read-fault-prefix", "%s: output after read failure at %d is not a prefix of the right output: %s", e.name, k, h.FirstDiff(got, want))
					}
					c.Count("read_faults", 1)
				}
				// write faults
				if e.name == "DecompressImageToBytes" {
					return
				}
				step = len(full)/120 + 1
				if c.Thorough() {
					step = 1
				}
				for k := 0; k < len(full); k += step {
					out := &iox.Sink{Room: k, Err: iox.Errors[r.Intn(len(iox.Errors))], Again: r.Intn(2) == 0, Whole: r.Intn(3) == 0}
					_, err := e.run(iox.NewReader(in, m, r.Intn(2) == 0), out)
					c.Eval(1)
					if err == nil {
						c.Fail("write-fault-lost", "%s: write failure after %d of %d bytes reported as success; input %s", e.name, k, len(full), h.Hex(in))
					}
					if !errors.Is(err, out.Err) {
						c.Fail("write-fault-identity", "%s: write failure after %d of %d bytes surfaced as unrelated error %v", e.name, k, len(full), err)
					}
					if !bytes.HasPrefix(full, out.B[:k]) {
						c.Fail("write-fault-prefix", "%s: output before write failure at %d is not a prefix: %s", e.name, k, h.FirstDiff(out.B, full))
					}
					c.Count("write_faults", 1)
				}
				c.Distinct(e.name, sig(d))
				c.Sample("%s on %s (%d bytes), all fault positions", e.name, h.Hex(in), len(in))
			})
		}
	}
	c.Case("late-faults", func(r *rand.Rand) {
		// past every internal buffer (4 KiB bufio, 32 KiB deflate window)
		d := make([]byte, 150000)
		r.Read(d)
		for _, e := range es {
			in := e.in(d)
			out := iox.NewSink()
			e.run(bytes.NewReader(in), out)
			full := out.B
			for _, k := range []int{4095, 4096, 4097, 32768, 65535, 65536, 100000, len(in) - 1, len(in)} {
				o := iox.NewSink()
				_, err := e.run(iox.FailReader(in, k, nil, k%2 == 0), o)
				if !errors.Is(err, iox.ErrInjected) {
					c.Fail("read-fault-late", "%s: read failure at %d gave %v", e.name, k, err)
				}
				c.Count("read_faults", 1)
			}
			if e.name == "DecompressImageToBytes" {
				continue
			}
			for _, k := range []int{0, 4095, 4096, 65536, len(full) - 9, len(full) - 5, len(full) - 1} {
				o := &iox.Sink{Room: k, Err: iox.ErrInjected}
				_, err := e.run(bytes.NewReader(in), o)
				if !errors.Is(err, iox.ErrInjected) || !bytes.HasPrefix(full, o.B) {
					c.Fail("write-fault-late", "%s: write failure at %d gave %v", e.name, k, err)
				}
				c.Count("write_faults", 1)
			}
		}
	})
	c.Require("read_faults", 3000)
	c.Require("write_faults", 3000)
}

// refOf reports whether what the compressor wrote before a failure stands for
// the beginning of the data although it is not the beginning of the full output
// (a run that was cut short).
func refOf(name string, got, d []byte) bool {
	switch name {
	case "CompressRLE8", "CompressImage":
		o, _ := refUnRLE8(got)
		return bytes.HasPrefix(d, o)
	case "CompressRLERecursive":
		for n := 0; n <= len(d); n++ {
			if bytes.Equal(refRec(d[:n]), got) {
				return true
			}
		}
	}
	return false
}

func gunzipSome(b []byte) []byte {
	gz, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	o, _ := io.ReadAll(gz)
	return o
}

// ---------------------------------------------------------------- C06

type scanner struct {
	d      []byte
	pos    int
	failAt int
	err    error
	after  int // 1: at its end once it failed; 2: carries on
	failed bool
	canUn  bool
	bad    string
}

func (s *scanner) ReadByte() (byte, error) {
	if s.failAt >= 0 && s.pos >= s.failAt && !(s.failed && s.after == 2) {
		if s.after == 1 && s.failed {
			return 0, io.EOF
		}
		s.failed = true
		return 0, s.err
	}
	if s.pos >= len(s.d) {
		s.canUn = false
		return 0xEE, io.EOF
	}
	s.pos++
	s.canUn = true
	return s.d[s.pos-1], nil
}
func (s *scanner) UnreadByte() error {
	if !s.canUn || s.pos == 0 {
		s.bad = "UnreadByte without a preceding successful ReadByte"
		return errors.New("bad unread")
	}
	s.pos--
	s.canUn = false
	return nil
}

func c06(c *h.Ctx) {
	injected := iox.ErrInjected
	run := func(d []byte, g compression.RLEGrouper, failAt int, what string) {
		c.Eval(1)
		end := len(d)
		if failAt >= 0 {
			end = failAt
		}
		pos, last := 0, -1
		for steps := 0; ; steps++ {
			if steps > len(d)+2 {
				c.Fail("steps", "%s: more runs than bytes", what)
			}
			run, err := g.GetNextRun()
			c.Count("runs", 1)
			if run.RunLength < 0 {
				c.Fail("negative", "%s: negative run length %d", what, run.RunLength)
			}
			if run.RunLength == 0 {
				if failAt >= 0 {
					if !errors.Is(err, injected) {
						c.Fail("fault", "%s: source failure %v at %d reported as %v", what, injected, failAt, err)
					}
					return
				}
				if err != io.EOF {
					c.Fail("eof", "%s: empty run with error %v instead of EOF", what, err)
				}
				break
			}
			if err != nil && err != io.EOF {
				c.Fail("err-with-run", "%s: run of %d together with error %v", what, run.RunLength, err)
			}
			if int(run.Byte) == last {
				c.Fail("maximal", "%s: two consecutive runs of byte %#x at offset %d", what, run.Byte, pos)
			}
			if run.RunLength > end-pos {
				c.Fail("lossless", "%s: run of %d x %#x at offset %d exceeds the %d bytes delivered", what, run.RunLength, run.Byte, pos, end)
			}
			for i := 0; i < run.RunLength; i++ {
				if d[pos+i] != run.Byte {
					c.Fail("lossless", "%s: run %d x %#x at offset %d but input there is %#x", what, run.RunLength, run.Byte, pos, d[pos+i])
				}
			}
			pos += run.RunLength
			last = int(run.Byte)
			if err == io.EOF {
				if failAt >= 0 {
					c.Fail("fault", "%s: source failure at %d reported as end of input", what, failAt)
				}
				break
			}
		}
		if pos != len(d) {
			c.Fail("lossless", "%s: runs cover %d of %d bytes", what, pos, len(d))
		}
		for k := 0; k < 2; k++ {
			run, err := g.GetNextRun()
			if run.RunLength != 0 || err != io.EOF {
				c.Fail("exhausted", "%s: after the end got run %v err %v", what, run, err)
			}
		}
		if nontrivial(d) {
			c.Distinct(sig(d), failAt)
		}
	}
	c.Case("exhaustive", func(r *rand.Rand) {
		enumerate([]byte{0, 1, 0xEE}, c.N(7, 9), func(d []byte) {
			run(d, compression.NewRLEGrouperFromReader(bytes.NewReader(d)), -1, fmt.Sprintf("%x", d))
			s := &scanner{d: d, failAt: -1}
			run(d, compression.NewRLEGrouperFromByteScanner(s), -1, fmt.Sprintf("scanner %x", d))
			for k := 0; k <= len(d); k++ {
				injected = iox.Errors[(k+len(d))%len(iox.Errors)]
				run(d, compression.NewRLEGrouperFromByteScanner(&scanner{d: d, failAt: k, err: injected, after: k % 3}), k, fmt.Sprintf("scanner %x failing at %d", d, k))
			}
			if s.bad != "" {
				c.Fail("unread", "%s on %x", s.bad, d)
			}
		})
	})
	for i := 0; i < c.M(8000, 150000); i++ {
		c.Case(fmt.Sprintf("gen-%d", i), func(r *rand.Rand) {
			ms := iox.Modes(r)
			m := ms[r.Intn(len(ms))]
			d := genData(r, 9000)
			run(d, compression.NewRLEGrouperFromReader(iox.NewReader(d, m, r.Intn(2) == 0)), -1, "reader "+h.Hex(d))
			k := r.Intn(len(d) + 1)
			src := iox.FailReader(d, k, m, r.Intn(2) == 0)
			injected = iox.Errors[r.Intn(len(iox.Errors))]
			src.Err = injected
			src.After(r.Intn(3))
			run(d, compression.NewRLEGrouperFromReader(src), k, fmt.Sprintf("reader %s failing at %d", h.Hex(d), k))
			run(d, compression.NewRLEGrouperFromByteScanner(&scanner{d: d, failAt: -1}), -1, "scanner "+h.Hex(d))
			c.Sample("%d bytes %s", len(d), h.Hex(d))
		})
	}
	c.Case("long-run", func(r *rand.Rand) {
		d := bytes.Repeat([]byte{7}, c.N(1<<20, 1<<26))
		run(d, compression.NewRLEGrouperFromReader(bytes.NewReader(d)), -1, "long run")
		for i, n := range longRuns(c) {
			d := append(bytes.Repeat([]byte{byte(i)}, n), 255, 255)
			run(d, compression.NewRLEGrouperFromReader(bytes.NewReader(d)), -1, fmt.Sprintf("run of %d", n))
		}
	})
	c.Require("runs", 10000)
}

// Props lists the checks of this area.
func Props() []*h.Prop {
	gen := "byte strings built from runs with boundary lengths (1,2,255..260,510..516,...) over an alphabet colliding with count bytes, plus exhaustive short strings; readers chunked 1/random/257/512 bytes with and without EOF attached; non-trivial = contains at least one repeated byte; distinct by content and mode"
	return []*h.Prop{
		&h.Prop{ID: "C01", Level: "exploration", Rule: gen, Run: c01},
		&h.Prop{ID: "C02", Level: "exploration", Rule: gen, Run: c02},
		&h.Prop{ID: "C03", Level: "exploration", Rule: gen, Run: c03},
		&h.Prop{ID: "C04", Level: "fault_enumeration", Rule: "generated archives; every truncation point, three alterations of every byte, every trailer bit, appended suffixes, inner stream cuts; distinct by archive", Run: c04},
		&h.Prop{ID: "C05", Level: "fault_enumeration", Rule: "entry point x generated input x every (sampled when long) read and write failure position; distinct by entry point and input", Run: c05},
		&h.Prop{ID: "C06", Level: "exploration", Rule: gen, Run: c06},
	}
}
