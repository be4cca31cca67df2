package driver

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"runtime/debug"

	"github.com/dargueta/disko"

	"verifharness/h"
)

// farFile works on a file of more than 4 GiB through the driver. The memory is
// reserved but hardly touched; the volume holds only the blocks that were
// written, the others are zero.
func farFile(c *h.Ctx, r *rand.Rand) {
	const bs, blocks = int64(1 << 16), int64(1<<16 + 9)
	c.Reserve(10 << 30)
	defer debug.FreeOSMemory()
	e := newEnv(c, mon{}, conf{bs: bs, flags: all}, r)
	e.plant("/f", 0o644, nil)
	n := e.fs.root.ch["f"]
	n.far, n.farBlks, n.size = map[int64][]byte{}, blocks, bs*blocks-11
	size := n.size
	ref := map[int64]byte{} // bytes that aren't zero
	for _, off := range []int64{0, 1<<31 - 1, 1<<32 - 1, 1 << 32, size - 1} {
		v := byte(1 + r.Intn(255))
		if n.far[off/bs] == nil {
			n.far[off/bs] = make([]byte, bs)
		}
		n.far[off/bs][off%bs] = v
		ref[off] = v
	}
	must := func(what string, err error) {
		if err != nil {
			c.Fail("far", "%s failed: %v", what, err)
		}
	}
	verify := func(what string, read func(b []byte, off int64) (int, error)) {
		for off, v := range ref {
			at := max(0, off-int64(r.Intn(5)))
			k := min(int64(10), size-at)
			b, want := make([]byte, 10), make([]byte, k)
			for j := range want {
				want[j] = ref[at+int64(j)]
			}
			got, err := read(b, at)
			if int64(got) != k || err != nil && err != io.EOF || !bytes.Equal(b[:k], want) {
				c.Fail("far", "%s: reading at %d of %d gave %d, %v, %x; expected %x (byte %#x at %d)", what, at, size, got, err, b[:k], want, v, off)
			}
			c.Count("far_reads", 1)
		}
	}
	stored := func(what string) {
		st, err := e.drv.Stat("/f")
		if err != nil || st.Size != size {
			c.Fail("far", "%s: status gives size %d, %v; expected %d", what, st.Size, err, size)
		}
		verify(what+", stored", func(b []byte, off int64) (int, error) {
			for j := range b {
				blk := n.far[(off+int64(j))/bs]
				if off+int64(j) >= size {
					return j, nil
				}
				b[j] = 0
				if blk != nil {
					b[j] = blk[(off+int64(j))%bs]
				}
			}
			return len(b), nil
		})
	}
	f, err := e.drv.OpenFile("/f", disko.O_RDWR, 0)
	must("opening a file of more than 4 GiB", err)
	fi, err := f.Stat()
	must("status", err)
	if fi.Size() != size || f.Size() != size {
		c.Fail("far", "sizes %d and %d, expected %d", fi.Size(), f.Size(), size)
	}
	verify("file", f.ReadAt)
	for _, off := range []int64{3, 1<<32 - 3, 1<<32 + 70001, size - 7} {
		b := []byte(fmt.Sprintf("%05d", r.Intn(100000)))
		if r.Intn(2) == 0 {
			_, err = f.WriteAt(b, off)
		} else {
			if _, err = f.Seek(off, io.SeekStart); err == nil {
				_, err = f.Write(b)
			}
		}
		must(fmt.Sprintf("writing at %d", off), err)
		for j, v := range b {
			ref[off+int64(j)] = v
		}
	}
	verify("file", f.ReadAt)
	must("Sync", f.Sync())
	stored("after Sync")
	// One size more and one less, both beyond 4 GiB.
	for _, to := range []int64{size + 5, 1<<32 + 77} {
		must(fmt.Sprintf("resizing to %d", to), f.Truncate(to))
		size = to
		for off := range ref {
			if off >= size {
				delete(ref, off)
			}
		}
		verify(fmt.Sprintf("file resized to %d", to), f.ReadAt)
	}
	must("Close", f.Close())
	stored("after Close")
	c.Distinct("far", size)
}

// manyBlocks works on files of more blocks than sixteen bits count and on
// contents of megabytes.
func manyBlocks(c *h.Ctx, k int, r *rand.Rand) {
	bs := []int64{1, 3, 16, 512, 8}[k%5]
	e := newEnv(c, mon{model: true}, conf{bs: bs, flags: all, model: true}, r)
	e.fs.extraCalls = 400000
	size := int(min(70000*bs, 3<<20)) + r.Intn(100)
	e.plant("/a", 0o644, fill(r, size))
	e.plant("/b", 0o644, fill(r, r.Intn(3)))
	guard(func() {
		e.step(op{kind: "readfile", p: "/a"})
		e.step(op{kind: "stat", p: "/a"})
		e.step(op{kind: "open", p: "/a", flags: disko.O_RDWR})
		e.step(op{kind: "f.readat", fi: 0, off: int64(size - 40), n: 50})
		e.step(op{kind: "f.writeat", fi: 0, off: int64(size - 20), data: fill(r, 50)})
		e.step(op{kind: "f.writeat", fi: 0, off: int64(r.Intn(100)), data: fill(r, size/2)})
		e.step(op{kind: "f.sync", fi: 0})
		e.step(op{kind: "readfile", p: "/a"})
		e.step(op{kind: "f.truncate", fi: 0, off: int64(size/2 + 3)})
		e.step(op{kind: "f.close", fi: 0})
		e.step(op{kind: "readfile", p: "/a"})
		e.step(op{kind: "writefile", p: "/b", perm: 0o600, data: fill(r, size)})
		e.step(op{kind: "readfile", p: "/b"})
		e.step(op{kind: "truncate", p: "/b", off: 5})
		e.step(op{kind: "readfile", p: "/b"})
		e.finish()
	})
	c.Count("files_of_many_blocks", 2)
	c.Distinct("many", bs, size)
}
