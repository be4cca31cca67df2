// Checks G01-G05: the FAT8 driver on image files.
package fat8x

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"slices"
	"strings"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"

	"verifharness/h"
)

// layout is an independent description of the format.
type layout struct {
	blocks, spt, tracks, dir int // dir: first sector of the directory track
	spc, clusters, fatSecs   int
	info, fats               int
}

func layoutOf(blocks int) (l layout, ok bool) {
	switch blocks {
	case 640:
		l = layout{blocks: 640, spt: 16, tracks: 40, dir: 17 * 16}
	case 1898, 2002:
		l = layout{blocks: blocks, spt: 26, tracks: 73, dir: 34 * 26}
	default:
		return
	}
	l.spc = l.spt / 2
	l.clusters = l.tracks * 2
	l.fatSecs = 1
	if l.clusters > 128 {
		l.fatSecs = 2
	}
	l.fats = l.dir + l.spt - 3*l.fatSecs
	l.info = l.fats - 1
	return l, true
}

var sizes = []int{640, 1898, 2002}

func (l layout) fat(img []byte, copy int) []byte {
	a := (l.fats + copy*l.fatSecs) * 128
	return img[a : a+l.fatSecs*128]
}

// wrong describes how a freshly formatted image differs from the format.
func (l layout) wrong(img []byte) string {
	if len(img) != l.blocks*128 {
		return fmt.Sprintf("image has %d bytes, expected %d", len(img), l.blocks*128)
	}
	for i, b := range img {
		s := i / 128
		want := byte(0)
		switch {
		case s >= l.dir && s < l.info:
			want = 0xFF
		case s >= l.fats && s < l.fats+3*l.fatSecs:
			e := i - l.fats*128
			e %= l.fatSecs * 128
			switch {
			case e >= l.clusters: // padding
				continue
			case e == l.dir/l.spc || e == l.dir/l.spc+1:
				want = 0xFE
			default:
				want = 0xFF
			}
		}
		if b != want {
			return fmt.Sprintf("byte %d (sector %d) is %#x, expected %#x (directory sectors %d-%d, tables from %d)", i, s, b, want, l.dir, l.info-1, l.fats)
		}
	}
	for k := 1; k < 3; k++ {
		if !bytes.Equal(l.fat(img, 0), l.fat(img, k)) {
			return fmt.Sprintf("table copy %d differs from the first", k+1)
		}
	}
	return ""
}

type opts struct{ n int64 }

func (o opts) Metadata() any         { return nil }
func (o opts) TotalSizeBytes() int64 { return o.n }

type image struct {
	c    *h.Ctx
	path string
	f    *os.File
}

func newImage(c *h.Ctx, content []byte) *image {
	im := &image{c: c, path: h.TempName("img")}
	if err := os.WriteFile(im.path, content, 0o600); err != nil {
		panic(err)
	}
	im.open(os.O_RDWR)
	return im
}

func (im *image) open(flag int) {
	f, err := os.OpenFile(im.path, flag, 0)
	if err != nil {
		panic(err)
	}
	if im.f != nil {
		im.f.Close()
	}
	im.f = f
}

func (im *image) bytes() []byte {
	b, err := os.ReadFile(im.path)
	if err != nil {
		panic(err)
	}
	return b
}

// set puts other contents into the file, for those who have it open as well.
func (im *image) set(b []byte) {
	if err := os.WriteFile(im.path, b, 0o600); err != nil {
		panic(err)
	}
}

func (im *image) close() { im.f.Close(); os.Remove(im.path) }

func random(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// prior makes some previous content for an image of n bytes.
func prior(r *rand.Rand, kind, n int) []byte {
	switch kind {
	case 0:
		return nil
	case 1:
		return make([]byte, n)
	case 2:
		return random(r, n)
	case 3:
		return random(r, n+1+r.Intn(5000))
	case 4:
		return random(r, r.Intn(n))
	case 5:
		return bytes.Repeat([]byte{0xFF}, n)
	}
	return bytes.Repeat([]byte{byte(r.Intn(256))}, n)
}

// ---------------------------------------------------------------- G01

func g01(c *h.Ctx) {
	for _, blocks := range sizes {
		l, _ := layoutOf(blocks)
		for k := 0; k < c.M(40, 1500); k++ {
			c.Case(fmt.Sprintf("format %d prior %d %d", blocks, k%7, k), func(r *rand.Rand) {
				im := newImage(c, prior(r, k%7, blocks*128))
				defer im.close()
				d := fat8.NewDriverFromFile(im.f)
				var err error
				if k%2 == 0 {
					err = d.FormatImage(disko.FSStat{BlockSize: 128, TotalBlocks: uint64(blocks)})
				} else {
					err = d.FormatImage(opts{int64(blocks) * 128})
				}
				if err != nil {
					c.Fail("format", "formatting for %d sectors failed: %v", blocks, err)
				}
				if w := l.wrong(im.bytes()); w != "" {
					c.Fail("layout", "formatting for %d sectors over previous content %d: %s", blocks, k%7, w)
				}
				c.Count("formats", 1)
				m := fat8.NewDriverFromFile(im.f)
				if err := m.Mount(disko.MountFlagsAllowAll); err != nil {
					c.Fail("mount", "mounting the formatted image failed: %v", err)
				}
				// A formatted volume has room for its directory and no files.
				if st := d.FSStat(); st.Files != 0 || st.FilesFree != uint64(l.info-l.dir)*8 || st.MaxNameLength != 10 {
					c.Fail("stat", "statistics after formatting: %d files, %d more possible, names of up to %d characters", st.Files, st.FilesFree, st.MaxNameLength)
				}
				for _, name := range []string{"", "A", "/A", "FILE.TXT", "/", "nope.x"} {
					if st, err := m.Stat(name); !errors.Is(err, disko.ErrNotFound) {
						c.Fail("empty", "an empty volume has a file %q: %+v (error %v)", name, st, err)
					}
				}
				free := uint64((l.clusters - 2) * l.spc)
				for i, st := range []disko.FSStat{d.FSStat(), m.FSStat()} {
					if st.BlockSize != 128 || st.TotalBlocks != uint64(blocks) || st.BlocksFree != free || st.BlocksAvailable != free {
						c.Fail("stat", "statistics after %s: block size %d, %d blocks, %d free, %d available, expected %d blocks, %d free", []string{"formatting", "mounting"}[i], st.BlockSize, st.TotalBlocks, st.BlocksFree, st.BlocksAvailable, blocks, free)
					}
				}
				// Formatting a mounted image is refused.
				im2 := im.bytes()
				if err := m.FormatImage(opts{int64(sizes[r.Intn(3)]) * 128}); err == nil {
					c.Fail("busy", "formatting a mounted image succeeded")
				}
				if !bytes.Equal(im2, im.bytes()) {
					c.Fail("busy", "refused formatting changed the image")
				}
				// Formatting again, possibly for another size.
				m.Unmount()
				nb := sizes[r.Intn(3)]
				if err := m.FormatImage(opts{int64(nb) * 128}); err != nil {
					c.Fail("format", "formatting again for %d sectors failed: %v", nb, err)
				}
				l2, _ := layoutOf(nb)
				if w := l2.wrong(im.bytes()); w != "" {
					c.Fail("layout", "formatting again for %d after %d sectors: %s", nb, blocks, w)
				}
				c.Distinct(blocks, k%7, nb)
			})
		}
	}
	c.Case("refused sizes", func(r *rand.Rand) {
		var ns []int64
		for b := int64(0); b < int64(c.N(2100, 5000)); b++ {
			if _, ok := layoutOf(int(b)); !ok && (b%9 == 0 || b > 1890 || b < 5 || (b > 630 && b < 650) || c.Thorough()) {
				ns = append(ns, b*128)
			}
		}
		for _, b := range sizes {
			ns = append(ns, int64(b)*128+1, int64(b)*128-1, int64(b)*128+64, -int64(b)*128, int64(b)*128+1<<32, int64(b)*256)
		}
		ns = append(ns, -1, -128, math.MaxInt64, math.MinInt64, math.MaxInt64-127)
		old := random(r, 1000)
		im := newImage(c, old)
		defer im.close()
		d := fat8.NewDriverFromFile(im.f)
		for _, n := range ns {
			var err error
			if n >= 0 && n%128 == 0 && n%256 == 0 {
				err = d.FormatImage(disko.FSStat{BlockSize: 128, TotalBlocks: uint64(n / 128)})
			} else {
				err = d.FormatImage(opts{n})
			}
			if err == nil {
				c.Fail("accepted", "formatting for %d bytes succeeded", n)
			}
			if !bytes.Equal(im.bytes(), old) {
				c.Fail("refused-changed", "refusing to format for %d bytes changed the image", n)
			}
			c.Count("refused", 1)
			c.Distinct("refused", n)
		}
	})
	for _, blocks := range sizes {
		c.Case(fmt.Sprintf("faults %d", blocks), func(r *rand.Rand) {
			for _, kind := range []string{"read-only", "closed", "pipe"} {
				old := random(r, 500)
				im := newImage(c, old)
				d := fat8.FAT8Driver{}
				switch kind {
				case "read-only":
					im.open(os.O_RDONLY)
					d = fat8.NewDriverFromFile(im.f)
				case "closed":
					im.f.Close()
					d = fat8.NewDriverFromFile(im.f)
				case "pipe":
					pr, pw, _ := os.Pipe()
					defer pr.Close()
					defer pw.Close()
					d = fat8.NewDriverFromFile(pw)
				}
				if err := d.FormatImage(opts{int64(blocks) * 128}); err == nil {
					c.Fail("fault-lost", "formatting a %s file reported success", kind)
				}
				if !bytes.Equal(im.bytes(), old) {
					c.Fail("fault-changed", "formatting a %s file changed it", kind)
				}
				im.close()
				c.Count("faults", 1)
			}
		})
	}
	for _, blocks := range sizes {
		l, _ := layoutOf(blocks)
		for part := 0; part < 4; part++ {
			c.Case(fmt.Sprintf("bad sector %d %d", blocks, part), func(r *rand.Rand) { formatBadSectors(c, l, part, r) })
		}
		c.Case(fmt.Sprintf("bad medium %d", blocks), func(r *rand.Rand) { formatBadMedium(c, l, r) })
	}
	c.Require("formats", 100)
	c.Require("refused", 200)
	c.Require("faults", 9)
}

// formatBadSectors formats media on which one sector can't be written: either
// the caller is told, or nothing is missing.
func formatBadSectors(c *h.Ctx, l layout, part int, r *rand.Rand) {
	for s := part; s < l.blocks; s += 4 {
		inTrack := s >= l.dir-2 && s < l.dir+l.spt+2
		if !inTrack && r.Intn(40) != 0 {
			continue
		}
		im := newImage(c, prior(r, r.Intn(7), l.blocks*128))
		d := fat8.NewDriverFromFile(im.f)
		var err error
		ran, pv, st := c.WithBadRange(h.BadRange{Lo: uint32(s * 128), Hi: uint32(s*128 + 1 + r.Intn(128)), Writes: true}, func() {
			err = d.FormatImage(opts{int64(l.blocks) * 128})
		})
		what := fmt.Sprintf("formatting %d blocks where sector %d can't be written", l.blocks, s)
		c.NoPanic(pv, st, what)
		if ran && err == nil {
			if w := l.wrong(im.bytes()); w != "" {
				c.Fail("fault-lost", "%s reported success, but %s", what, w)
			}
		}
		if err != nil {
			c.Count("format_write_errors", 1)
		}
		// The same driver does it properly once the medium works.
		if err := d.FormatImage(opts{int64(l.blocks) * 128}); err != nil {
			c.Fail("retry", "%s, and then again where it can: %v", what, err)
		}
		if w := l.wrong(im.bytes()); w != "" {
			c.Fail("retry", "%s, and then again where it can: %s", what, w)
		}
		im.close()
		c.Count("bad_sectors", 1)
		c.Distinct("bad sector", l.blocks, s)
	}
}

// formatBadMedium formats media which can't be written, or not resized.
func formatBadMedium(c *h.Ctx, l layout, r *rand.Rand) {
	judge := func(what string, err error, now []byte) {
		if w := l.wrong(now); err == nil && w != "" {
			c.Fail("fault-lost", "formatting %d blocks on a medium that %s reported success, but %s", l.blocks, what, w)
		}
		c.Count("bad_media", 1)
	}
	for kind := 0; kind < 7; kind++ {
		old := prior(r, kind, l.blocks*128)
		for _, extend := range []bool{false, true} {
			im := newImage(c, old)
			d := fat8.NewDriverFromFile(im.f)
			var err error
			ran, pv, st := c.WithBadRange(h.BadRange{Truncate: !extend, Extend: extend}, func() { err = d.FormatImage(opts{int64(l.blocks) * 128}) })
			c.NoPanic(pv, st, "formatting where resizing fails")
			if ran {
				judge(fmt.Sprintf("can't be resized (only extended: %v)", extend), err, im.bytes())
			}
			im.close()
		}
		for _, seals := range []int{h.SealWrite, h.SealGrow, h.SealShrink, h.SealGrow | h.SealShrink} {
			fd, err := h.SealedFile(old, seals)
			if err != nil {
				c.Count("seals_unavailable", 1)
				continue
			}
			f := os.NewFile(uintptr(fd), "medium")
			d := fat8.NewDriverFromFile(f)
			err = d.FormatImage(opts{int64(l.blocks) * 128})
			now := make([]byte, 600000)
			n, _ := f.ReadAt(now, 0)
			judge(fmt.Sprintf("has seals %d", seals), err, now[:n])
			f.Close()
		}
		c.Distinct("bad medium", l.blocks, kind)
	}
}

// ---------------------------------------------------------------- G02

// volume makes a mountable image with random contents.
func (l layout) volume(r *rand.Rand) []byte {
	img := make([]byte, l.blocks*128)
	if r.Intn(2) == 0 {
		r.Read(img)
	}
	f := l.fat(img, 0)
	style := r.Intn(4)
	for i := range f {
		switch style {
		case 0:
			f[i] = 0xFF
		case 1:
			f[i] = byte(r.Intn(256))
		case 2:
			f[i] = []byte{0xFF, 0xFE, 0xC1, byte(r.Intn(l.clusters))}[r.Intn(4)]
		default:
			f[i] = byte(r.Intn(l.clusters))
			if r.Intn(3) == 0 {
				f[i] = 0xFF
			}
		}
	}
	d := l.dir / l.spc
	f[d], f[d+1] = 0xFE, 0xFE
	copy(l.fat(img, 1), f)
	copy(l.fat(img, 2), f)
	return img
}

// free lists the free clusters of an image.
func (l layout) free(img []byte) (out []uint8) {
	for i, b := range l.fat(img, 0)[:l.clusters] {
		if b == 0xFF {
			out = append(out, uint8(i+1))
		}
	}
	return
}

func checkMounted(c *h.Ctx, d *fat8.FAT8Driver, l layout, img []byte, when string) {
	want := l.free(img)
	st := d.FSStat()
	nfree := uint64(len(want) * l.spc)
	if st.BlockSize != 128 || st.TotalBlocks != uint64(l.blocks) || st.BlocksFree != nfree || st.BlocksAvailable != nfree {
		c.Fail("stat", "%s: statistics say block size %d, %d blocks, %d free, %d available; the volume has %d blocks, %d free", when, st.BlockSize, st.TotalBlocks, st.BlocksFree, st.BlocksAvailable, l.blocks, nfree)
	}
	if got, ok := freeList(d); ok && !sameSet(got, want) {
		c.Fail("free-list", "%s: list of free clusters is %v, the table says %v", when, got, want)
	}
	c.Count("stat_checks", 1)
}

func sameSet(a, b []uint8) bool {
	a, b = append([]uint8(nil), a...), append([]uint8(nil), b...)
	slices.Sort(a)
	slices.Sort(b)
	return bytes.Equal(a, b)
}

func g02(c *h.Ctx) {
	for _, blocks := range sizes {
		l, _ := layoutOf(blocks)
		for k := 0; k < c.M(150, 5000); k++ {
			c.Case(fmt.Sprintf("history %d %d", blocks, k), func(r *rand.Rand) {
				img := l.volume(r)
				im := newImage(c, img)
				defer im.close()
				if r.Intn(4) == 0 {
					im.open(os.O_RDONLY)
				}
				d := fat8.NewDriverFromFile(im.f)
				mounted := false
				same := func(what string) {
					if now := im.bytes(); !bytes.Equal(now, img) {
						c.Fail("changed", "%s changed the image: %s", what, h.FirstDiff(now, img))
					}
				}
				for i := 0; i < 12; i++ {
					switch r.Intn(5) {
					case 0, 1:
						err := d.Mount(disko.MountFlags(r.Intn(64)))
						c.Logf("mount: %v", err)
						if mounted && err == nil {
							c.Fail("double-mount", "mounting a mounted image succeeded")
						}
						if !mounted && err != nil {
							c.Fail("mount", "mounting a sound image failed (step %d): %v", i, err)
						}
						mounted = true
						same("mounting")
						c.Count("mounts", 1)
					case 2:
						if mounted {
							d.FSStat()
							d.Stat("/NOSUCH.FIL")
							d.GetFAT()
							same("querying")
						}
					case 3:
						if mounted {
							err := d.Flush()
							c.Logf("flush: %v", err)
							same("flushing")
						}
					case 4:
						if mounted {
							if err := d.Unmount(); err != nil {
								c.Fail("unmount", "unmounting failed: %v", err)
							}
							mounted = false
							c.Logf("unmount")
							same("unmounting")
							if r.Intn(2) == 0 { // the volume changes while unmounted
								img = l.volume(r)
								im.f.Close()
								os.WriteFile(im.path, img, 0o600)
								im.f = nil
								im.open(os.O_RDWR)
								d = fat8.NewDriverFromFile(im.f)
							} else if r.Intn(2) == 0 {
								img = l.volume(r)
								w, _ := os.OpenFile(im.path, os.O_RDWR, 0)
								w.WriteAt(img, 0)
								w.Close()
							}
						}
					}
					if mounted {
						checkMounted(c, &d, l, img, fmt.Sprintf("step %d", i))
					}
				}
				c.Distinct(blocks, len(l.free(img)))
			})
		}
		// Every table entry with every value.
		c.Case(fmt.Sprintf("every entry %d", blocks), func(r *rand.Rand) {
			img := l.volume(r)
			for v := range 256 {
				for k := range 3 {
					f := l.fat(img, k)
					for e := range f {
						f[e] = byte(v + e)
					}
				}
				im := newImage(c, img)
				d := fat8.NewDriverFromFile(im.f)
				if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
					c.Fail("mount", "mounting %d blocks with three equal tables failed: %v", blocks, err)
				}
				checkMounted(c, &d, l, img, fmt.Sprintf("table entry e is e+%d", v))
				im.close()
			}
			c.Eval(256)
		})
		// Every byte of every table copy.
		c.Case(fmt.Sprintf("copies differ %d", blocks), func(r *rand.Rand) {
			img := l.volume(r)
			for copyN := 0; copyN < 3; copyN++ {
				for e := 0; e < l.fatSecs*128; e++ {
					bad := append([]byte(nil), img...)
					l.fat(bad, copyN)[e] ^= byte(1 << r.Intn(8))
					if r.Intn(4) == 0 { // all three different
						l.fat(bad, (copyN+1)%3)[e] ^= 0xFF
						if bytes.Equal(l.fat(bad, 0), l.fat(bad, 1)) && bytes.Equal(l.fat(bad, 0), l.fat(bad, 2)) {
							continue
						}
					}
					im := newImage(c, bad)
					d := fat8.NewDriverFromFile(im.f)
					err := d.Mount(disko.MountFlagsAllowAll)
					if err == nil {
						c.Fail("corrupt-accepted", "table copy %d differs in entry %d but mounting succeeded", copyN+1, e)
					}
					if !errors.Is(err, disko.ErrFileSystemCorrupted) {
						c.Fail("corrupt-error", "table copy %d differs in entry %d; mounting failed with %q, not as corrupted", copyN+1, e, err)
					}
					if !bytes.Equal(im.bytes(), bad) {
						c.Fail("changed", "failing to mount changed the image")
					}
					im.close()
					c.Count("corrupted_images", 1)
				}
			}
		})
	}
	// One driver, volumes of different sizes one after another.
	for k := 0; k < c.M(150, 3000); k++ {
		c.Case(fmt.Sprintf("exchanged %d", k), func(r *rand.Rand) {
			at := r.Intn(len(sizes))
			l, _ := layoutOf(sizes[at])
			img := l.volume(r)
			im := newImage(c, img)
			defer im.close()
			d := fat8.NewDriverFromFile(im.f)
			for step := 0; step < 5; step++ {
				if r.Intn(5) == 0 { // the wrong disk, first
					bad := append([]byte(nil), img...)
					l.fat(bad, 1)[0] ^= 1
					im.set(bad)
					if err := d.Mount(disko.MountFlagsAllowAll); err == nil {
						c.Fail("corrupt-accepted", "a volume whose table copies differ was mounted (step %d)", step)
					}
					im.set(img)
				}
				if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
					c.Fail("mount", "mounting a sound image of %d blocks failed (step %d): %v", sizes[at], step, err)
				}
				checkMounted(c, &d, l, img, fmt.Sprintf("volume %d, of %d blocks", step, sizes[at]))
				if err := d.Unmount(); err != nil {
					c.Fail("unmount", "unmounting failed: %v", err)
				}
				if now := im.bytes(); !bytes.Equal(now, img) {
					c.Fail("changed", "using volume %d changed it: %s", step, h.FirstDiff(now, img))
				}
				c.Distinct("exchanged", at, step)
				at = (at + 1 + r.Intn(2)) % len(sizes)
				l, _ = layoutOf(sizes[at])
				img = l.volume(r)
				im.set(img)
				c.Count("exchanges", 1)
			}
		})
	}
	c.Case("sizes", func(r *rand.Rand) {
		for i := 0; i < c.M(400, 5000); i++ {
			n := r.Intn(2100 * 128)
			switch r.Intn(4) {
			case 0:
				n = r.Intn(2100) * 128
			case 1:
				n = sizes[r.Intn(3)]*128 + r.Intn(400) - 200
			case 2:
				n = r.Intn(300)
			}
			img := make([]byte, n)
			if r.Intn(2) == 0 {
				r.Read(img)
			}
			im := newImage(c, img)
			d := fat8.NewDriverFromFile(im.f)
			err := d.Mount(disko.MountFlagsAllowAll)
			if _, ok := layoutOf(n / 128); !ok && err == nil {
				c.Fail("size-accepted", "mounting an image of %d bytes succeeded", n)
			}
			if !bytes.Equal(im.bytes(), img) {
				c.Fail("changed", "mounting an image of %d bytes changed it", n)
			}
			im.close()
			c.Count("odd_sizes", 1)
			c.Distinct("size", n)
		}
	})
	// Sizes that only look like a geometry's in fewer bits.
	c.Case("giant sizes", func(r *rand.Rand) {
		for _, blocks := range sizes {
			l, _ := layoutOf(blocks)
			im := newImage(c, l.volume(r))
			for _, more := range []int64{1 << 23, 1 << 31, 1 << 32, 3 << 32, 1 << 38, 1 << 39, 1 << 42} {
				n := more + int64(blocks)*128
				if im.f.Truncate(n) != nil {
					continue // too large for this file system
				}
				d := fat8.NewDriverFromFile(im.f)
				if err := d.Mount(disko.MountFlagsAllowAll); err == nil {
					c.Fail("size-accepted", "mounting an image of %d bytes succeeded", n)
				}
				c.Count("odd_sizes", 1)
				c.Distinct("size", n)
			}
			im.close()
		}
	})
	c.Case("faults", func(r *rand.Rand) {
		for _, blocks := range sizes {
			l, _ := layoutOf(blocks)
			im := newImage(c, l.volume(r))
			im.f.Close()
			d := fat8.NewDriverFromFile(im.f)
			if err := d.Mount(disko.MountFlagsAllowAll); err == nil {
				c.Fail("fault-lost", "mounting a closed file succeeded")
			}
			os.Remove(im.path)
			im = newImage(c, l.volume(r))
			im.f.Close()
			im.f, _ = os.OpenFile(im.path, os.O_WRONLY, 0)
			d = fat8.NewDriverFromFile(im.f)
			if err := d.Mount(disko.MountFlagsAllowAll); err == nil {
				c.Fail("fault-lost", "mounting a write-only file succeeded")
			}
			// A failed mount must not make the volume look mounted.
			im.open(os.O_RDONLY)
			d = fat8.NewDriverFromFile(im.f)
			if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
				c.Fail("mount", "mounting a read-only file failed: %v", err)
			}
			if err := d.Flush(); err == nil {
				c.Fail("fault-lost", "flushing to a read-only file reported success")
			}
			im.close()
			// Repairing a corrupted volume makes it mountable by the same driver.
			img := l.volume(r)
			good := append([]byte(nil), img...)
			l.fat(img, 1)[3] ^= 1
			im = newImage(c, img)
			d = fat8.NewDriverFromFile(im.f)
			if err := d.Mount(disko.MountFlagsAllowAll); err == nil {
				c.Fail("corrupt-accepted", "mounted with differing tables")
			}
			im.f.WriteAt(good, 0)
			if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
				c.Fail("mount", "mounting the repaired image failed: %v", err)
			}
			checkMounted(c, &d, l, good, "after repair")
			im.close()
			c.Count("faults", 4)
		}
	})
	for _, blocks := range sizes {
		l, _ := layoutOf(blocks)
		c.Case(fmt.Sprintf("bad sector %d", blocks), func(r *rand.Rand) { mountBadSectors(c, l, r) })
	}
	c.Require("mounts", 500)
	c.Require("stat_checks", 1000)
	c.Require("corrupted_images", 600)
}

// mountBadSectors mounts and flushes images with one sector that can't be read
// or written.
func mountBadSectors(c *h.Ctx, l layout, r *rand.Rand) {
	inFATs := func(s int) bool { return s >= l.fats && s < l.fats+3*l.fatSecs }
	for s := 0; s < l.blocks; s++ {
		inTrack := s >= l.dir-2 && s < l.dir+l.spt+2
		if !inTrack && r.Intn(60) != 0 {
			continue
		}
		img := l.volume(r)
		im := newImage(c, img)
		d := fat8.NewDriverFromFile(im.f)
		bad := h.BadRange{Lo: uint32(s * 128), Hi: uint32(s*128 + 1 + r.Intn(128)), Reads: true}
		var err error
		ran, pv, st := c.WithBadRange(bad, func() { err = d.Mount(disko.MountFlagsAllowAll) })
		what := fmt.Sprintf("mounting %d blocks where sector %d can't be read", l.blocks, s)
		c.NoPanic(pv, st, what)
		if ran && err == nil {
			if (inFATs(s) || s == l.info) && unreadable(c, im, bad) {
				c.Fail("fault-lost", "%s, which holds an allocation table or the volume's information, reported success", what)
			}
			checkMounted(c, &d, l, img, what)
			d.Unmount()
		}
		if err != nil {
			c.Count("mount_read_errors", 1)
		}
		if !bytes.Equal(im.bytes(), img) {
			c.Fail("changed", "%s changed the image", what)
		}
		// The sector can be read again.
		if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
			c.Fail("retry", "%s, and then again where it can: %v", what, err)
		}
		checkMounted(c, &d, l, img, what+", and then again where it can")
		bad.Reads, bad.Writes = false, true
		ran, pv, st = c.WithBadRange(bad, func() { err = d.Flush() })
		what = fmt.Sprintf("flushing %d blocks where sector %d can't be written", l.blocks, s)
		c.NoPanic(pv, st, what)
		if !bytes.Equal(im.bytes(), img) {
			c.Fail("changed", "%s (error: %v) changed the image", what, err)
		}
		if ran && err == nil && inFATs(s) && unwritable(c, im, bad, img) {
			c.Fail("fault-lost", "%s, which holds an allocation table, reported success", what)
		}
		if ran && err != nil {
			c.Count("flush_write_errors", 1)
		}
		checkMounted(c, &d, l, img, what)
		if err := d.Flush(); err != nil {
			c.Fail("retry", "%s, and then again where it can: %v", what, err)
		}
		if !bytes.Equal(im.bytes(), img) {
			c.Fail("changed", "%s, and then again where it can, changed the image", what)
		}
		if err := d.Unmount(); err != nil {
			c.Fail("unmount", "%s, and then unmounting: %v", what, err)
		}
		im.close()
		c.Count("bad_sectors", 1)
		c.Distinct("bad sector", l.blocks, s)
	}
}

// unwritable is the same for writing.
func unwritable(c *h.Ctx, im *image, bad h.BadRange, img []byte) bool {
	var err error
	c.WithBadRange(bad, func() { _, err = im.f.WriteAt(img[bad.Lo:bad.Lo+1], int64(bad.Lo)) })
	return err != nil
}

// unreadable tells if the fault does make a positioned read fail here.
func unreadable(c *h.Ctx, im *image, bad h.BadRange) bool {
	var err error
	c.WithBadRange(bad, func() { _, err = im.f.ReadAt(make([]byte, 1), int64(bad.Lo)) })
	return err != nil
}

// ---------------------------------------------------------------- G03

func g03(c *h.Ctx) {
	for _, blocks := range sizes {
		l, _ := layoutOf(blocks)
		mounted := func(r *rand.Rand) (*image, *fat8.FAT8Driver, []byte) {
			img := l.volume(r)
			im := newImage(c, img)
			d := fat8.NewDriverFromFile(im.f)
			if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
				c.Fail("mount", "mounting failed: %v", err)
			}
			return im, &d, img
		}
		verify := func(im *image, img []byte, what string) {
			if now := im.bytes(); !bytes.Equal(now, img) {
				c.Fail("image", "%s: the image is not as expected: %s", what, h.FirstDiff(now, img))
			}
			c.Count("image_diffs", 1)
		}
		// Every block and every cluster, written once and read back.
		c.Case(fmt.Sprintf("every block %d", blocks), func(r *rand.Rand) {
			im, d, img := mounted(r)
			defer im.close()
			for b := 0; b < blocks; b++ {
				got, err := d.ReadDiskBlocks(fat8.PhysicalBlock(b), 1)
				if err != nil || !bytes.Equal(got, img[b*128:(b+1)*128]) {
					c.Fail("read-block", "reading block %d of %d: error %v, or wrong data", b, blocks, err)
				}
				data := random(r, 128)
				if err := d.WriteDiskBlocks(fat8.PhysicalBlock(b), data); err != nil {
					c.Fail("write-block", "writing block %d of %d failed: %v", b, blocks, err)
				}
				copy(img[b*128:], data)
				got, err = d.ReadDiskBlocks(fat8.PhysicalBlock(b), 1)
				if err != nil || !bytes.Equal(got, data) {
					c.Fail("read-block", "reading back block %d: error %v, or wrong data", b, err)
				}
				c.Count("blocks", 1)
				if b%16 == 0 || b > blocks-3 {
					verify(im, img, fmt.Sprintf("writing block %d", b))
				}
			}
			verify(im, img, "writing every block")
			c.Distinct("blocks", blocks)
		})
		c.Case(fmt.Sprintf("every cluster %d", blocks), func(r *rand.Rand) {
			im, d, img := mounted(r)
			defer im.close()
			cb := l.spc * 128
			all := make([]fat8.PhysicalCluster, l.clusters)
			for i := range all {
				all[i] = fat8.PhysicalCluster(i + 1)
			}
			r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			de := chainOf(all)
			for i, cl := range all {
				at := int(cl-1) * cb
				data := random(r, cb)
				var got []byte
				var err error
				if i%2 == 0 {
					err = d.WriteAbsoluteCluster(cl, data)
				} else {
					err = writeChain(d, de, fat8.LogicalCluster(i), data)
				}
				if err != nil {
					c.Fail("write-cluster", "writing cluster %d failed: %v", cl, err)
				}
				copy(img[at:], data)
				verify(im, img, fmt.Sprintf("writing cluster %d (sectors %d-%d)", cl, at/128, at/128+l.spc-1))
				got, err = d.ReadAbsoluteCluster(cl)
				if err != nil || !bytes.Equal(got, data) {
					c.Fail("read-cluster", "reading cluster %d: error %v, or wrong data", cl, err)
				}
				got[0] ^= 0xFF // the result belongs to the caller
				got, err = readChain(d, de, fat8.LogicalCluster(i))
				if err != nil || !bytes.Equal(got, data) {
					c.Fail("read-file-cluster", "reading file cluster %d, which is cluster %d: error %v, or wrong data", i, cl, err)
				}
				c.Count("clusters", 1)
			}
			c.Distinct("clusters", blocks)
		})
		for k := 0; k < c.M(20, 1000); k++ {
			c.Case(fmt.Sprintf("history %d %d", blocks, k), func(r *rand.Rand) {
				im, d, img := mounted(r)
				defer im.close()
				cb := l.spc * 128
				n := 1 + r.Intn(8)
				cs := make([]fat8.PhysicalCluster, n)
				for i := range cs {
					cs[i] = fat8.PhysicalCluster(1 + r.Intn(l.clusters))
				}
				de := chainOf(cs)
				for i := 0; i < 60; i++ {
					b, cnt := r.Intn(blocks), 1+r.Intn(40)
					if r.Intn(3) == 0 {
						b = blocks - cnt + r.Intn(3) - 1
						if b < 0 {
							b = 0
						}
					}
					ok := b+cnt <= blocks
					switch r.Intn(6) {
					case 0:
						got, err := d.ReadDiskBlocks(fat8.PhysicalBlock(b), uint(cnt))
						if (err == nil) != ok || (ok && !bytes.Equal(got, img[b*128:(b+cnt)*128])) {
							c.Fail("read-blocks", "reading %d blocks at %d of %d: error %v, or wrong data", cnt, b, blocks, err)
						}
						c.Keep("reading blocks", got)
					case 1:
						data := random(r, cnt*128)
						keep := append([]byte(nil), data...)
						err := d.WriteDiskBlocks(fat8.PhysicalBlock(b), data)
						if (err == nil) != ok {
							c.Fail("write-blocks", "writing %d blocks at %d of %d: error %v", cnt, b, blocks, err)
						}
						if !bytes.Equal(data, keep) {
							c.Fail("caller-data", "writing changed the caller's data")
						}
						if ok {
							copy(img[b*128:], data)
						}
					case 2:
						cl := r.Intn(l.clusters) + 1
						got, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(cl))
						if err != nil || !bytes.Equal(got, img[(cl-1)*cb:cl*cb]) {
							c.Fail("read-cluster", "reading cluster %d: error %v, or wrong data", cl, err)
						}
						c.Keep("reading a cluster", got)
					case 3:
						cl := r.Intn(l.clusters) + 1
						data := random(r, cb)
						if err := d.WriteAbsoluteCluster(fat8.PhysicalCluster(cl), data); err != nil {
							c.Fail("write-cluster", "writing cluster %d failed: %v", cl, err)
						}
						copy(img[(cl-1)*cb:], data)
					case 4:
						i := r.Intn(n)
						cl := int(cs[i])
						got, err := readChain(d, de, fat8.LogicalCluster(i))
						if err != nil || !bytes.Equal(got, img[(cl-1)*cb:cl*cb]) {
							c.Fail("read-file-cluster", "reading file cluster %d (cluster %d): error %v, or wrong data", i, cl, err)
						}
					case 5:
						i := r.Intn(n)
						data := random(r, cb)
						if err := writeChain(d, de, fat8.LogicalCluster(i), data); err != nil {
							c.Fail("write-file-cluster", "writing file cluster %d failed: %v", i, err)
						}
						copy(img[(int(cs[i])-1)*cb:], data)
					}
					c.Count("ops", 1)
					if i%4 == 3 {
						verify(im, img, fmt.Sprintf("step %d", i))
					}
				}
				verify(im, img, "history")
				c.Distinct("history", blocks, k)
			})
		}
		c.Case(fmt.Sprintf("bad sector %d", blocks), func(r *rand.Rand) {
			im, d, img := mounted(r)
			defer im.close()
			for k := 0; k < 60; k++ {
				lo := r.Intn(blocks)
				hi := lo + 1 + r.Intn(3)
				bad := h.BadRange{Lo: uint32(lo * 128), Hi: uint32(hi * 128), Reads: true, Writes: true}
				ran, pv, st := c.WithBadRange(bad, func() {
					for i := 0; i < 12; i++ {
						b, cnt := lo-3+r.Intn(6), 1+r.Intn(6)
						if b < 0 || b+cnt > blocks {
							continue
						}
						cl := min(b/l.spc, l.clusters-1) + 1
						op := r.Intn(4)
						if op >= 2 {
							b, cnt = (cl-1)*l.spc, l.spc
						}
						data := random(r, cnt*128)
						hit := b < hi && lo < b+cnt
						var got []byte
						var err error
						switch op {
						case 0:
							got, err = d.ReadDiskBlocks(fat8.PhysicalBlock(b), uint(cnt))
						case 1:
							err = d.WriteDiskBlocks(fat8.PhysicalBlock(b), data)
						case 2:
							got, err = d.ReadAbsoluteCluster(fat8.PhysicalCluster(cl))
						case 3:
							err = d.WriteAbsoluteCluster(fat8.PhysicalCluster(cl), data)
						}
						what := fmt.Sprintf("operation %d on sectors %d-%d where %d-%d are bad (error: %v)", op, b, b+cnt-1, lo, hi-1, err)
						now := im.bytes()
						if len(now) != len(img) {
							c.Fail("fault-size", "%s changed the image's size to %d", what, len(now))
						}
						own := now[b*128 : (b+cnt)*128]
						if err == nil && op%2 == 0 && !bytes.Equal(got, own) {
							c.Fail("fault-lost", "%s returned wrong data", what)
						}
						if op%2 == 1 {
							if err == nil && !bytes.Equal(own, data) {
								c.Fail("fault-lost", "%s did not store the data", what)
							}
							copy(img[b*128:], own)
						}
						if !bytes.Equal(now, img) {
							c.Fail("image", "%s changed other sectors: %s", what, h.FirstDiff(now, img))
						}
						if hit && err != nil {
							c.Count("io_errors", 1)
						}
					}
				})
				c.NoPanic(pv, st, "I/O near a bad sector")
				if ran {
					c.Distinct("bad sector", blocks, lo, hi)
				}
			}
			for b := 0; b < blocks; b++ {
				got, err := d.ReadDiskBlocks(fat8.PhysicalBlock(b), 1)
				if err != nil || !bytes.Equal(got, img[b*128:(b+1)*128]) {
					c.Fail("read-block", "reading block %d after faults: error %v, or wrong data", b, err)
				}
			}
		})
		// The end of the medium goes away while it's mounted.
		c.Case(fmt.Sprintf("shrunk %d", blocks), func(r *rand.Rand) {
			im, d, img := mounted(r)
			defer im.close()
			for range 60 {
				left := 128*r.Intn(blocks) + []int{0, 0, 1, 127, r.Intn(128)}[r.Intn(5)]
				im.set(img[:left])
				for range 12 {
					b := max(0, left/128-6+r.Intn(12))
					if b >= blocks {
						continue
					}
					n := 1 + r.Intn(min(blocks-b, 14))
					got, err := d.ReadDiskBlocks(fat8.PhysicalBlock(b), uint(n))
					if end := (b + n) * 128; end > left {
						if err == nil {
							c.Fail("read-lost", "%d blocks at %d were read although only %d bytes are left", n, b, left)
						}
					} else if err != nil || !bytes.Equal(got, img[b*128:end]) {
						c.Fail("read", "reading %d blocks at %d with %d bytes left: %v", n, b, left, err)
					}
					cl := 1 + b/l.spc
					if cl <= l.clusters && (cl*l.spc)*128 > left {
						if _, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(cl)); err == nil {
							c.Fail("read-lost", "cluster %d was read although only %d bytes are left", cl, left)
						}
					}
					c.Count("shrunk_reads", 1)
					c.Distinct("shrunk", left%128 == 0, b*128 < left, (b+n)*128 <= left)
				}
				im.set(img)
			}
		})
		c.Case(fmt.Sprintf("out of range %d", blocks), func(r *rand.Rand) {
			im, d, img := mounted(r)
			defer im.close()
			de := chainOf([]fat8.PhysicalCluster{1, 2, 0, fat8.PhysicalCluster(l.clusters + 1), math.MaxUint64})
			cb := l.spc * 128
			refuse := func(what string, f func() error) {
				pv, st := c.Protect(func() {
					if err := f(); err == nil {
						c.Fail("accepted", "%s succeeded", what)
					}
				})
				if pv != nil {
					c.Fail("panic", "%s panicked: %v\n%s", what, pv, st)
				}
				verify(im, img, what)
				c.Count("refused", 1)
			}
			rd := func(b, n uint) {
				refuse(fmt.Sprintf("reading %d blocks at %d of %d", n, b, blocks), func() error { _, err := d.ReadDiskBlocks(fat8.PhysicalBlock(b), n); return err })
			}
			wr := func(b uint, n int) {
				refuse(fmt.Sprintf("writing %d bytes at block %d of %d", n, b, blocks), func() error { return d.WriteDiskBlocks(fat8.PhysicalBlock(b), random(r, n)) })
			}
			B := uint(blocks)
			for _, p := range [][2]uint{{B, 1}, {B - 1, 2}, {0, B + 1}, {B + 1, 1}, {math.MaxUint64, 1}, {math.MaxUint64, 2}, {1, math.MaxUint64}, {2, math.MaxUint64 - 1}, {0, math.MaxUint64}, {0, 1 << 57}, {1 << 57, 1}, {1 << 63, 1}, {math.MaxUint64 - 5, 7}} {
				rd(p[0], p[1])
			}
			for _, p := range [][2]uint{{B, 128}, {B - 1, 256}, {B + 7, 128}, {math.MaxUint64, 128}, {math.MaxUint64, 256}, {math.MaxUint64 - 1, 384}, {1 << 57, 128}, {1 << 63, 128}, {0, 100}, {0, 129}, {3, 1}, {0, (B + 1) * 128}} {
				wr(p[0], int(p[1]))
			}
			for _, cl := range []uint{0, uint(l.clusters) + 1, uint(l.clusters) + 2, 255, 256, 257, 1 << 16, 1<<16 + 1, 1 << 32, 1<<32 + 1, math.MaxUint64, 1 << 63, 1<<63 + 1} {
				if cl >= 1 && cl <= uint(l.clusters) {
					continue
				}
				if d.IsValidCluster(fat8.PhysicalCluster(cl)) {
					c.Fail("valid", "cluster %d of %d is called valid", cl, l.clusters)
				}
				refuse(fmt.Sprintf("reading cluster %d", cl), func() error { _, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(cl)); return err })
				refuse(fmt.Sprintf("writing cluster %d", cl), func() error { return d.WriteAbsoluteCluster(fat8.PhysicalCluster(cl), random(r, cb)) })
			}
			for _, n := range []int{0, 1, cb - 1, cb + 1, cb - 128, cb + 128, 2 * cb} {
				for cl := 1; cl <= l.clusters; cl++ {
					refuse(fmt.Sprintf("writing %d bytes to cluster %d", n, cl), func() error { return d.WriteAbsoluteCluster(fat8.PhysicalCluster(cl), random(r, n)) })
				}
				refuse(fmt.Sprintf("writing %d bytes to a file cluster", n), func() error { return writeChain(d, de, 1, random(r, n)) })
			}
			for _, i := range []uint{2, 3, 4, 5, 6, 1 << 32, 1 << 63, math.MaxUint64} {
				refuse(fmt.Sprintf("reading file cluster %d", i), func() error { _, err := readChain(d, de, fat8.LogicalCluster(i)); return err })
				refuse(fmt.Sprintf("writing file cluster %d", i), func() error { return writeChain(d, de, fat8.LogicalCluster(i), random(r, cb)) })
			}
			c.Distinct("out of range", blocks)
		})
	}
	c.Require("blocks", 4000)
	c.Require("clusters", 300)
	c.Require("refused", 100)
}

// ---------------------------------------------------------------- G04

func legalPart(s string) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z', b >= '0' && b <= '9', b == '_', b == '-', b == '$':
		case b == ' ' && i > 0 && i < len(s)-1:
		default:
			return false
		}
	}
	return len(s) > 0
}

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// encodeRef is the encoding of a legal name.
func encodeRef(name string) (string, bool) {
	stem, ext, has := strings.Cut(name, ".")
	if !legalPart(stem) || len(stem) > 6 || (has && (!legalPart(ext) || len(ext) > 3)) {
		return "", false
	}
	b := []byte("         ")
	copy(b, upper(stem))
	copy(b[6:], upper(ext))
	return string(b), true
}

// nameInfo is a file of which only the name is known.
type nameInfo struct {
	os.FileInfo
	name string
}

func (n nameInfo) Name() string { return n.name }

func g04(c *h.Ctx) {
	seen := map[string]string{} // encoding -> name
	check := func(name string) {
		enc, err := fat8.FilenameToBytes(name)
		want, legal := encodeRef(name)
		c.Count("names", 1)
		if err != nil {
			if legal {
				c.Fail("rejected", "the legal name %q was rejected: %v", name, err)
			}
			c.Count("rejected", 1)
			return
		}
		if len(enc) != 9 {
			c.Fail("length", "%q encodes to %d bytes: %q", name, len(enc), enc)
		}
		c.Keep("encoding a name", enc[:])
		if legal && string(enc) != want {
			c.Fail("encoding", "%q encodes to %q, expected %q", name, enc, want)
		}
		dec, err := fat8.BytesToFilename(enc)
		if err != nil || dec != upper(name) {
			c.Fail("decoding", "%q encodes to %q, which decodes to %q (error %v)", name, enc, dec, err)
		}
		if old, ok := seen[string(enc)]; ok && old != upper(name) {
			c.Fail("collision", "%q and %q share the encoding %q", name, old, enc)
		}
		seen[string(enc)] = upper(name)
		c.Count("accepted", 1)
	}
	c.Case("exhaustive", func(r *rand.Rand) {
		alpha := []string{"a", "B", "7", " ", ".", "\x00", "é", "\xff", "/"}
		var rec func(p string, left int)
		rec = func(p string, left int) {
			check(p)
			if left > 0 {
				for _, a := range alpha {
					rec(p+a, left-1)
				}
			}
		}
		rec("", c.N(5, 7))
		c.Distinct("exhaustive")
	})
	c.Case("lengths", func(r *rand.Rand) {
		for s := 0; s <= 12; s++ {
			check(strings.Repeat("A", s))
			for e := 0; e <= 8; e++ {
				for k := 0; k < 20; k++ {
					b := make([]byte, s+1+e)
					for i := range b {
						b[i] = "abcXYZ019_-$ "[r.Intn(13)]
					}
					b[s] = '.'
					check(string(b))
					if e > 0 && k%4 == 0 {
						check(string(b) + "." + string(b))
					}
					c.Distinct("len", s, e, k%4)
				}
			}
		}
	})
	for k := 0; k < c.M(100, 5000); k++ {
		c.Case(fmt.Sprintf("random %d", k), func(r *rand.Rand) {
			for i := 0; i < 200; i++ {
				b := make([]byte, r.Intn(12))
				for j := range b {
					switch r.Intn(6) {
					case 0:
						b[j] = byte(r.Intn(256))
					case 1:
						b[j] = '.'
					default:
						b[j] = "abcdefXYZ019_-$ "[r.Intn(16)]
					}
				}
				check(string(b))
				if r.Intn(5) == 0 {
					check([]string{"ß.x", "ﬁle.txt", "ŉ", "ABCDEı", "ſ.k", "K.k", "abcdé", "日本.txt", "\u0130.i"}[r.Intn(9)])
				}
				// Decoding of arbitrary bytes.
				raw := random(r, 9)
				if r.Intn(2) == 0 {
					for j := range raw {
						raw[j] = "ABC Z09.\x00\xffé"[r.Intn(12)]
					}
				}
				keep := string(raw)
				dec, err := fat8.BytesToFilename(raw)
				c.Count("decodes", 1)
				if string(raw) != keep {
					c.Fail("caller-data", "decoding changed the caller's bytes")
				}
				if want, legal := encodeRef(dec); err == nil && legal && !strings.Contains(keep, ".") {
					if up := upper(keep); want != up {
						c.Fail("decode-wrong", "%q decodes to %q, whose encoding is %q", keep, dec, want)
					}
				}
				c.Distinct("dec", strings.Count(keep, " "), strings.HasPrefix(keep[6:], " "), err == nil)
			}
		})
	}
	for k := 0; k < c.M(50, 2000); k++ {
		c.Case(fmt.Sprintf("same file %d", k), func(r *rand.Rand) {
			d := fat8.NewDriverFromFile(nil)
			part := func(n int) string {
				b := make([]byte, n)
				for i := range b {
					b[i] = "abcABCkKsSiI09_-$"[r.Intn(17)]
				}
				return string(b)
			}
			for i := 0; i < 200; i++ {
				a := part(1 + r.Intn(6))
				if e := r.Intn(4); e > 0 {
					a += "." + part(e)
				}
				b := []byte(a)
				switch r.Intn(5) {
				case 0: // another name
					b[r.Intn(len(b))] = "xyz7_"[r.Intn(5)]
				case 1:
					b = b[:len(b)-1]
				default:
					for j := range b {
						if r.Intn(2) == 0 {
							b[j] = upper(string(b[j : j+1]))[0]
						}
					}
				}
				x, ok1 := encodeRef(a)
				y, ok2 := encodeRef(string(b))
				if !ok1 || !ok2 {
					continue
				}
				c.Count("same_file", 1)
				if got := d.SameFile(nameInfo{name: a}, nameInfo{name: string(b)}); got != (x == y) {
					c.Fail("same-file", "SameFile(%q, %q) is %v", a, b, got)
				}
				c.Distinct("same", len(a), x == y)
			}
		})
	}
	c.Require("accepted", 3000)
	c.Require("rejected", 3000)
	c.Require("same_file", 1000)
	c.Require("decodes", 10000)
}

// ---------------------------------------------------------------- G05

var knownExtensions = []string{"SYS", "BAS", "TXT", "BIN", "COM", "EXE", "DAT", "BAK", "TMP", "ASM", "PRG", "DIR", "A", "1", "000"}

func someName(r *rand.Rand) string {
	const chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := make([]byte, 1+r.Intn(6))
	for i := range b {
		b[i] = chars[r.Intn(len(chars))]
	}
	s := string(b)
	if r.Intn(3) > 0 {
		e := make([]byte, 1+r.Intn(3))
		for i := range e {
			e[i] = chars[r.Intn(len(chars))]
		}
		s += "." + string(e)
	} else if r.Intn(2) == 0 {
		s += "." + knownExtensions[r.Intn(len(knownExtensions))]
	}
	return s
}

// spelled gives another spelling of a path in the root directory.
func spelled(r *rand.Rand, name string) string {
	b := []byte(name)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' && r.Intn(2) == 0 {
			b[i] += 32
		}
	}
	if r.Intn(2) == 0 {
		return "/" + string(b)
	}
	return string(b)
}

type file8 struct {
	clusters []fat8.PhysicalCluster
	binary   bool
	unused   int
	index    uint
}

func g05(c *h.Ctx) {
	for k := range c.M(600, 20000) {
		c.Case(fmt.Sprintf("volume %d", k), func(r *rand.Rand) {
			l, _ := layoutOf(sizes[k%len(sizes)])
			img := l.volume(r)
			im := newImage(c, img)
			defer im.close()
			d := fat8.NewDriverFromFile(im.f)
			files := map[string]file8{}
			missing := func(when string) {
				name := someName(r)
				if _, ok := files[name]; ok {
					return
				}
				if st, err := d.Stat(spelled(r, name)); !errors.Is(err, disko.ErrNotFound) {
					c.Fail("missing", "%s: status of missing %q is %+v, error %v", when, name, st, err)
				}
				c.Count("missing", 1)
			}
			missing("before mounting")
			if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
				c.Fail("mount", "mounting a good volume: %v", err)
			}
			missing("empty volume")
			before := d.FSStat()
			var names []string
			perm := r.Perm(l.clusters)
			for range 1 + r.Intn(40) {
				name := someName(r)
				if _, dup := files[name]; dup {
					continue
				}
				n := 0
				switch r.Intn(4) {
				case 0:
					n = r.Intn(2)
				case 1:
					n = r.Intn(len(perm) + 1)
				default:
					n = r.Intn(min(6, len(perm)+1))
				}
				n = min(n, len(perm))
				f := file8{binary: r.Intn(4) > 0, index: uint(len(names))}
				for _, x := range perm[:n] {
					f.clusters = append(f.clusters, fat8.PhysicalCluster(x+1))
				}
				perm = perm[n:]
				if n > 0 {
					f.unused = r.Intn(l.spc)
				}
				if !addFile(&d, name, f.index, f.clusters, f.binary, uint(f.unused)) {
					return // the hook does not fit this tree
				}
				files[name] = f
				names = append(names, name)
			}
			inodes := map[uint64]string{}
			for range 4 * len(names) {
				name := names[r.Intn(len(names))]
				f := files[name]
				path := spelled(r, name)
				st, err := d.Stat(path)
				c.Count("stats", 1)
				if !f.binary {
					if !errors.Is(err, disko.ErrNotImplemented) {
						c.Fail("text", "status of the text file %q: %+v, error %v", path, st, err)
					}
					c.Count("text", 1)
					continue
				}
				sectors := int64(len(f.clusters)*l.spc - f.unused)
				if err != nil {
					c.Fail("refused", "status of %q: %v", path, err)
				}
				if st.Size != sectors*128 || st.NumBlocks != sectors || st.BlockSize != 128 {
					c.Fail("size", "%q has %d clusters of %d sectors, the last %d of them unused; its size is reported as %d bytes in %d blocks of %d", path, len(f.clusters), l.spc, f.unused, st.Size, st.NumBlocks, st.BlockSize)
				}
				if !st.IsFile() || st.IsDir() || st.Nlinks != 1 {
					c.Fail("type", "%q is reported with mode %v and %d links", path, st.ModeFlags, st.Nlinks)
				}
				if other, ok := inodes[st.InodeNumber]; ok && other != name {
					c.Fail("identity", "%q and %q have the same number %d", name, other, st.InodeNumber)
				}
				inodes[st.InodeNumber] = name
				if r.Intn(4) == 0 {
					missing("volume with files")
				}
				c.Distinct(l.blocks, len(f.clusters), f.unused)
			}
			if st := d.FSStat(); st != before {
				c.Fail("fsstat", "the volume's statistics changed from %+v to %+v", before, st)
			}
			if !bytes.Equal(im.bytes(), img) {
				c.Fail("image", "asking for the status of files changed the image")
			}
		})
	}
	c.Require("missing", 500)
	if hooked {
		c.Require("stats", 5000)
		c.Require("text", 500)
	}
}

// Props lists the checks of this area.
func Props() []*h.Prop {
	return []*h.Prop{
		&h.Prop{ID: "G01", Level: "exploration", Run: g01, Rule: "a formatting counts once per (size, previous content, next size), a refusal once per size",
			Assumptions: []string{"Table entries beyond the last cluster are padding and only need to agree between the copies."}},
		&h.Prop{ID: "G02", Level: "exploration", Run: g02, Rule: "a mount counts once per (size, number of free clusters)",
			Assumptions: []string{"Free and available blocks are counted in 128-byte blocks: free clusters times sectors per cluster."}},
		&h.Prop{ID: "G03", Level: "exploration", Run: g03, Rule: "one per geometry for the exhaustive sweeps, one per random history"},
		&h.Prop{ID: "G04", Level: "exploration", Run: g04, Rule: "a name counts once per (stem length, extension length), a decoding once per space pattern",
			Assumptions: []string{"Names are case-insensitive. Which names outside letters, digits, _-$ and inner spaces are legal is left open; they must be rejected or round-trip."}},
		&h.Prop{ID: "G05", Level: "exploration", Run: g05, Rule: "one per (geometry, number of clusters, unused sectors)",
			Assumptions: []string{"The driver does not read the directory track yet, so files are made known to it through a hook."}},
	}
}
