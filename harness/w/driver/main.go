// Checks D01-D12: the generic driver over an instrumented in-memory file system.
package driver

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	posixpath "path"
	"reflect"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"

	"verifharness/h"
)

var all = disko.MountFlagsAllowAll

var blockSizes = []int64{1, 3, 8, 16, 64, 128, 512}

func bsOf(r *rand.Rand) int64 { return blockSizes[r.Intn(len(blockSizes))] }

// history runs n generated operations.
func history(e *env, g *gen, n int) {
	guard(func() {
		for i := 0; i < n; i++ {
			e.step(g.op(e))
		}
		e.finish()
	})
}

func minCount(c *h.Ctx, name string, n int64) { c.Require(name, n) }

// ---------------------------------------------------------------- D01

func d01(c *h.Ctx) {
	comps := []string{"", ".", "..", "...", "a", "b", "a b", ".a", "a.", "..a", "é", "\\", "A", "a\x00b", "~", strings.Repeat("x", 300)}
	check := func(d *driver.BaseDriver, cwd, p string) {
		got, w := d.NormalizePath(p), norm(cwd, p)
		c.Count("paths", 1)
		if got != w {
			c.Fail("normalize", "NormalizePath(%q) with working directory %q is %q, expected %q", p, cwd, got, w)
		}
		if again := d.NormalizePath(got); again != got {
			c.Fail("idempotent", "NormalizePath(%q) is %q, normalised again %q", p, got, again)
		}
	}
	cwds := []string{"/", "/a", "/a/b", "/...", "/a b/é", "/.a/b/a./..a", "/b/b/b/b/b/b"}
	mkdrv := func(cwd string) *driver.BaseDriver {
		e := newEnv(c, mon{model: true}, conf{bs: 16, flags: all}, c.Rng("d01"))
		if err := e.drv.MkdirAll(cwd, 0o755); err != nil {
			c.Fail("setup", "MkdirAll(%q) failed: %v", cwd, err)
		}
		if err := e.drv.Chdir(cwd); err != nil {
			c.Fail("setup", "Chdir(%q) failed: %v", cwd, err)
		}
		if wd, _ := e.drv.Getwd(); wd != cwd {
			c.Fail("cwd", "working directory %q after changing to %q", wd, cwd)
		}
		return e.drv
	}
	for _, cwd := range cwds {
		c.Case("exhaustive "+cwd, func(r *rand.Rand) {
			d := mkdrv(cwd)
			max := c.N(7, 10)
			var rec func(p []byte)
			rec = func(p []byte) {
				check(d, cwd, string(p))
				if len(p) == max {
					return
				}
				for _, b := range []byte("/.a") {
					rec(append(p, b))
				}
			}
			rec(nil)
			c.Distinct("exhaustive", cwd)
		})
		for k := 0; k < c.M(4, 60); k++ {
			c.Case(fmt.Sprintf("random %s %d", cwd, k), func(r *rand.Rand) {
				d := mkdrv(cwd)
				for i := 0; i < 800; i++ {
					n := r.Intn(9)
					cs := make([]string, n)
					for j := range cs {
						cs[j] = comps[r.Intn(len(comps))]
					}
					p := strings.Join(cs, "/")
					if r.Intn(3) == 0 {
						p = "/" + p
					}
					if r.Intn(10) == 0 {
						b := make([]byte, r.Intn(20))
						for j := range b {
							b[j] = "/..ab\xff "[r.Intn(7)]
						}
						p = string(b)
					}
					check(d, cwd, p)
					c.Distinct(len(p), strings.Count(p, ".."), strings.Count(p, "//"), strings.HasPrefix(p, "/"), cwd)
				}
			})
		}
	}
	for k := 0; k < c.N(20, 200); k++ {
		c.Case(fmt.Sprintf("long %d", k), func(r *rand.Rand) {
			cwd := ""
			for range 1 + r.Intn(80) {
				cwd += "/" + comps[5+r.Intn(len(comps)-5)]
			}
			d := mkdrv(norm("/", cwd))
			for range 60 {
				cs := make([]string, 10+r.Intn([]int{50, 300, 3000}[r.Intn(3)]))
				up := r.Intn(3) // how often ".." follows a name
				for j := range cs {
					cs[j] = comps[r.Intn(len(comps)-1)]
					if r.Intn(3) < up && j > 0 {
						cs[j] = ".."
					}
				}
				p := strings.Join(cs, "/")
				if r.Intn(2) == 0 {
					p = "/" + p
				}
				check(d, norm("/", cwd), p)
				c.Distinct("long", len(cs), up)
			}
			c.Count("long_paths", 60)
		})
	}
	for k := 0; k < c.M(1200, 8000); k++ {
		c.Case(fmt.Sprintf("history %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, hardlinks: r.Intn(3) == 0, model: true}, r)
			plantTree(e, r, 8, 3)
			g := &gen{r: r, names: e.names[:3], depth: 3,
				kinds: []string{"chdir", "chdir", "chdir", "chdir", "getwd", "getwd", "mkdir", "mkdirall", "remove", "removeall", "open", "f.chdir", "f.chdir", "f.close", "writefile", "stat", "readdir"}}
			history(e, g, 30)
		})
	}
	minCount(c, "paths", 10000)
	minCount(c, "ops", 3000)
}

// anyPerm gives permissions, now and then with the bits os.FileMode keeps apart.
func anyPerm(r *rand.Rand) os.FileMode {
	m := os.FileMode(r.Intn(0o1000))
	for _, b := range []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky} {
		if r.Intn(8) == 0 {
			m |= b
		}
	}
	return m
}

// plantTree fills the volume with directories, files and links.
func plantTree(e *env, r *rand.Rand, objs, links int) {
	names := e.names
	dirs := []string{""}
	paths := []string{"/"}
	for i := 0; i < objs; i++ {
		p := dirs[r.Intn(len(dirs))] + "/" + names[r.Intn(len(names))]
		if r.Intn(2) == 0 {
			e.plant(p, os.ModeDir|anyPerm(r), nil)
			dirs = append(dirs, p)
		} else {
			e.plant(p, anyPerm(r), fill(r, r.Intn(int(3*e.fs.bs))))
			for e.fs.feat.HasHardLinks && r.Intn(3) == 0 {
				e.plantHard(p, dirs[r.Intn(len(dirs))]+"/"+names[r.Intn(len(names))])
			}
		}
		paths = append(paths, p)
	}
	for i := 0; i < links; i++ {
		d := dirs[r.Intn(len(dirs))]
		p := d + "/" + []string{"l", "m", names[0], "n"}[r.Intn(4)]
		e.link(p, linkText(r, d, paths))
		paths = append(paths, p)
	}
}

// plantSpecial adds objects that are neither files, directories nor links.
func plantSpecial(e *env, r *rand.Rand) {
	if r.Intn(3) != 0 {
		return
	}
	ty := []os.FileMode{os.ModeDevice, os.ModeDevice | os.ModeCharDevice, os.ModeNamedPipe, os.ModeSocket}[r.Intn(4)]
	e.plant("/"+e.names[r.Intn(4)], ty|0o600, nil)
	for _, p := range e.fs.root.order {
		if e.fs.root.ch[p].isDir() {
			e.plant("/"+p+"/"+e.names[r.Intn(4)], ty|0o600, fill(r, r.Intn(20)))
			return
		}
	}
}

// linkText makes a link text pointing at one of paths (or nowhere).
func linkText(r *rand.Rand, dir string, paths []string) string {
	t := paths[r.Intn(len(paths))]
	if r.Intn(12) == 0 { // spelled differently
		t = []string{"/" + t, t + "/.", t + "/../" + posixpath.Base(t), "/" + "../" + t, t + "/", t + "/.."}[r.Intn(6)]
		if r.Intn(2) == 0 {
			return t
		}
	}
	if r.Intn(4) == 0 {
		t = strings.TrimSuffix(t, "/") + "/" + []string{"a", "l", "m", "b/c", "q"}[r.Intn(5)]
	}
	if r.Intn(2) == 0 {
		return t
	}
	if dir != "" && strings.HasPrefix(t, dir+"/") && r.Intn(3) != 0 {
		return t[len(dir)+1:]
	}
	up := strings.Count(dir, "/")
	s := strings.Repeat("../", up) + strings.TrimPrefix(t, "/")
	s = strings.TrimSuffix(s, "/")
	if s == "" {
		s = "."
	}
	if r.Intn(4) == 0 {
		s = "./" + s
	}
	return s
}

// ---------------------------------------------------------------- D02

func d02(c *h.Ctx) {
	kinds := append(append([]string{}, nsOps...), "chmod", "f.readdir", "f.readdirnames", "f.close", "f.close", "f.close", "f.stat", "readlink", "lstat")
	for k := 0; k < c.M(2500, 60000); k++ {
		c.Case(fmt.Sprintf("history %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, hardlinks: r.Intn(3) != 0, model: true}, r)
			if r.Intn(2) == 0 {
				plantTree(e, r, r.Intn(10), r.Intn(4))
			} else if r.Intn(4) == 0 {
				e.fs.feat.HasSymbolicLinks = false
			}
			g := &gen{r: r, names: e.names[:2+r.Intn(3)], depth: 1 + r.Intn(4), kinds: kinds}
			history(e, g, 40)
		})
	}
	// Every short history over a small vocabulary.
	var voc []op
	for _, kind := range []string{"mkdir", "mkdirall", "writefile", "create", "remove", "removeall", "link", "open"} {
		for _, p := range []string{"/a", "/b", "/a/b", "/a/a"} {
			o := op{kind: kind, p: p, perm: 0o644, data: []byte("x")}
			switch kind {
			case "link":
				o.q = map[string]string{"/a": "/b", "/b": "/a/b", "/a/b": "/b", "/a/a": "/a/b"}[p]
			case "open":
				o.flags = disko.O_RDWR | disko.O_CREATE
			}
			voc = append(voc, o)
		}
	}
	depth := c.N(3, 4)
	if c.Thorough() {
		c.Logf("vocabulary %d", len(voc))
	}
	for i := range voc {
		c.Case(fmt.Sprintf("exhaustive %d", i), func(r *rand.Rand) {
			idx := make([]int, depth)
			idx[0] = i
			for {
				e := newEnv(c, mon{model: true}, conf{bs: 16, flags: all, hardlinks: true, model: true}, rand.New(rand.NewSource(1)))
				guard(func() {
					for _, j := range idx {
						o := voc[j]
						e.step(o)
						for n, f := range e.files {
							if !f.closed {
								e.step(op{kind: "f.close", fi: n})
							}
						}
					}
					e.step(op{kind: "readdir", p: "/"})
				})
				c.Count("exhaustive_histories", 1)
				d := depth - 1
				for d > 0 {
					idx[d]++
					if idx[d] < len(voc) {
						break
					}
					idx[d] = 0
					d--
				}
				if d == 0 {
					return
				}
			}
		})
	}
	// Listing and removing wide and deep directories.
	for k := 0; k < c.M(6, 40); k++ {
		c.Case(fmt.Sprintf("big %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, model: true}, r)
			guard(func() {
				p := ""
				for i := 0; i < 12; i++ {
					p += fmt.Sprintf("/deep%d", i)
				}
				e.step(op{kind: "mkdirall", p: p, perm: 0o755})
				for i := 0; i < 60; i++ {
					q := []string{p, "/deep0", "/deep0/deep1", "/"}[r.Intn(4)]
					e.step(op{kind: []string{"writefile", "mkdir"}[r.Intn(2)], p: fmt.Sprintf("%s/n%d", strings.TrimSuffix(q, "/"), i), perm: 0o700, data: fill(r, r.Intn(40))})
				}
				e.step(op{kind: "readdir", p: p})
				e.step(op{kind: "readdir", p: "/"})
				e.step(op{kind: "remove", p: "/deep0"})
				e.step(op{kind: "removeall", p: "/deep0/deep1/deep2"})
				e.step(op{kind: "readdir", p: "/deep0/deep1"})
				e.step(op{kind: "removeall", p: "/deep0"})
				e.step(op{kind: "readdir", p: "/"})
				e.step(op{kind: "removeall", p: "/"})
				e.step(op{kind: "remove", p: "/"})
				e.step(op{kind: "remove", p: "/x/.."})
				e.step(op{kind: "readdir", p: "/"})
			})
		})
	}
	// Directories far beyond the sizes a history of single operations builds.
	for k := 0; k < c.N(12, 60); k++ {
		c.Case(fmt.Sprintf("wide %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, model: true}, r)
			n := []int{130, 260, 520, 1100, 2100, 4200}[k%6] + r.Intn(30)
			e.plant("/w", os.ModeDir|0o755, nil)
			e.plant("/keep", os.ModeDir|0o755, nil)
			e.plant("/keep/x", 0o600, []byte("kept"))
			for i := 0; i < n; i++ {
				p := fmt.Sprintf("/w/%x-%d", r.Intn(4096), i)
				switch {
				case i%97 == 5:
					e.plant(p, os.ModeDir|0o700, nil)
					e.plant(p+"/in", 0o600, fill(r, 3))
				case i%89 == 7:
					e.link(p, "../keep")
				default:
					e.plant(p, 0o600, fill(r, r.Intn(2)))
				}
			}
			last := e.names[r.Intn(len(e.names))] + "-last"
			guard(func() {
				e.step(op{kind: "writefile", p: "/w/" + last, perm: 0o600, data: fill(r, 9)})
				e.step(op{kind: "readfile", p: "/w/" + last})
				e.step(op{kind: "remove", p: "/w"})
				e.step(op{kind: "readdir", p: "/w"})
				e.step(op{kind: "removeall", p: "/w"})
				e.step(op{kind: "stat", p: "/w"})
				e.step(op{kind: "readdir", p: "/"})
				e.step(op{kind: "readfile", p: "/keep/x"})
			})
			c.Distinct("wide", n)
		})
	}
	// Chains of directories deeper than any history builds.
	for k := 0; k < c.N(8, 40); k++ {
		c.Case(fmt.Sprintf("chain %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, model: true}, r)
			depth := []int{20, 40, 70, 140}[k%4] + r.Intn(6)
			p := ""
			for i := 0; i < depth; i++ {
				p += "/" + []string{"p", "q", "a.b", "..."}[r.Intn(4)]
			}
			cut := func(n int) string { return strings.Join(strings.Split(p, "/")[:n+1], "/") }
			guard(func() {
				e.step(op{kind: "mkdirall", p: p, perm: 0o755})
				e.step(op{kind: "writefile", p: p + "/f", perm: 0o600, data: fill(r, 20)})
				e.step(op{kind: "readfile", p: p + "/f"})
				e.step(op{kind: "readfile", p: p + strings.Repeat("/..", depth/2) + p[len(cut(depth-depth/2)):] + "/f"})
				e.step(op{kind: "readdir", p: p})
				e.step(op{kind: "chdir", p: p})
				e.step(op{kind: "getwd"})
				e.step(op{kind: "readfile", p: "f"})
				e.step(op{kind: "chdir", p: "/"})
				e.step(op{kind: "mkdirall", p: p + "/more/and/more", perm: 0o755})
				e.step(op{kind: "removeall", p: cut(depth / 2)})
				e.step(op{kind: "stat", p: p})
				e.step(op{kind: "stat", p: cut(depth/2 - 1)})
				e.step(op{kind: "removeall", p: cut(1)})
				e.step(op{kind: "readdir", p: "/"})
			})
			c.Distinct("chain", depth)
		})
	}
	minCount(c, "ops", 20000)
	minCount(c, "tree_snapshots", 20000)
}

// ---------------------------------------------------------------- D03

// failedSync has the storage fail now and then while a file is synced. Nothing
// is lost by that: the file reads the same, and a later sync stores everything.
func failedSync(c *h.Ctx, r *rand.Rand) {
	e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, model: true}, r)
	bs := int(e.fs.bs)
	e.plant("/f", 0o644, fill(r, r.Intn(4*bs)))
	guard(func() {
		e.step(op{kind: "open", p: "/f", flags: disko.O_RDWR | disko.IOFlags(r.Intn(2))*disko.O_APPEND})
		for range 2 + r.Intn(4) {
			for range 1 + r.Intn(3) {
				size := int64(len(e.files[0].n.data))
				switch r.Intn(6) {
				case 0:
					e.step(op{kind: "f.truncate", off: int64(r.Intn(int(size) + bs + 1))})
				case 1:
					e.step(op{kind: "f.truncate", off: max(0, size-1-int64(r.Intn(bs)))})
				case 2:
					e.step(op{kind: "f.write", data: fill(r, 1+r.Intn(2*bs))})
				case 3:
					e.step(op{kind: "f.writestring", data: fill(r, 1+r.Intn(bs))})
				case 4:
					e.step(op{kind: "f.seek", off: int64(r.Intn(int(size) + bs)), wh: 0})
				default:
					e.step(op{kind: "f.writeat", data: fill(r, 1+r.Intn(2*bs)), off: int64(r.Intn(int(size) + 1))})
				}
			}
			for range r.Intn(3) {
				e.fs.failAt = map[int]bool{e.fs.calls + 1 + r.Intn(3): true}
				o := op{kind: "f.sync"}
				e.cur = o.String() + " (storage failing)"
				e.hist = append(e.hist, e.cur)
				e.fs.op++
				e.fs.opCalls, e.fs.fired, e.fs.trace, e.fs.mutations = 0, nil, nil, nil
				res := e.exec(&o)
				e.fs.failAt = map[int]bool{}
				if len(e.fs.fired) > 0 {
					c.Count("failed_syncs", 1)
					if res.err == nil {
						e.fail(true, "fault-lost", "%v failed but the operation reported success", e.fs.fired)
					}
				}
				switch r.Intn(4) {
				case 0:
					e.step(op{kind: "f.stat"})
				case 1:
					e.step(op{kind: "f.readat", n: 5 * bs})
				}
			}
			if r.Intn(3) != 0 {
				e.step(op{kind: "f.sync"})
				e.step(op{kind: "readfile", p: "/f"})
				e.step(op{kind: "stat", p: "/f"})
			}
		}
		e.step(op{kind: "f.readat", n: 9 * bs})
		e.finish()
		e.step(op{kind: "readfile", p: "/f"})
		e.step(op{kind: "stat", p: "/f"})
	})
	c.Distinct("failed sync", bs, strings.Join(e.hist, ";"))
}

func d03(c *h.Ctx) {
	c.Case("beyond 4 GiB", func(r *rand.Rand) { farFile(c, r) })
	for k := 0; k < c.N(10, 60); k++ {
		c.Case(fmt.Sprintf("many blocks %d", k), func(r *rand.Rand) { manyBlocks(c, k, r) })
	}
	c.Require("files_of_many_blocks", 10)
	kinds := append(append([]string{}, fileOps...), "open", "open", "open", "writefile", "readfile", "readfile", "stat", "truncate", "create", "remove")
	for k := 0; k < c.M(2500, 60000); k++ {
		c.Case(fmt.Sprintf("history %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, model: true}, r)
			for _, n := range []string{"a", "b"} {
				if r.Intn(2) == 0 {
					e.plant("/"+n, 0o644, fill(r, r.Intn(int(4*e.fs.bs))))
				}
			}
			g := &gen{r: r, names: e.names[:1+r.Intn(3)], depth: 0, kinds: kinds, noJunk: true}
			guard(func() {
				for i := 0; i < 50; i++ {
					o := g.op(e)
					if o.kind == "open" && r.Intn(2) == 0 {
						o.flags = disko.O_RDWR | disko.O_CREATE | o.flags&disko.O_SYNC
						o.perm = 0o600
					}
					e.step(o)
				}
				e.finish()
				// What is stored is what a later reader gets.
				for _, n := range e.mod.root.order {
					e.step(op{kind: "readfile", p: "/" + n})
					e.step(op{kind: "stat", p: "/" + n})
				}
			})
			c.Distinct(e.fs.bs, len(e.files), len(e.mod.root.order))
		})
	}
	for k := 0; k < c.M(1500, 30000); k++ {
		c.Case(fmt.Sprintf("failed sync %d", k), func(r *rand.Rand) { failedSync(c, r) })
	}
	c.Require("failed_syncs", 1000)
	// Sizes around multiples of the block size, every way of writing.
	for _, bs := range blockSizes {
		c.Case(fmt.Sprintf("sizes %d", bs), func(r *rand.Rand) {
			for n := int64(0); n <= 3*bs+1 && n < 1600; n += 1 + max(0, bs/16-1) {
				for how := 0; how < 7; how++ {
					e := newEnv(c, mon{model: true}, conf{bs: bs, flags: all, model: true}, r)
					guard(func() {
						b := fill(r, int(n))
						fl := disko.O_RDWR | disko.O_CREATE
						switch how {
						case 0:
							e.step(op{kind: "writefile", p: "/f", data: b, perm: 0o644})
						case 1, 2:
							if how == 2 {
								fl |= disko.O_SYNC
							}
							e.step(op{kind: "open", p: "/f", flags: fl, perm: 0o644})
							for i := 0; i < len(b); {
								k := min(len(b)-i, 1+r.Intn(int(bs)+2))
								e.step(op{kind: "f.write", data: b[i : i+k]})
								i += k
							}
						case 3:
							e.step(op{kind: "open", p: "/f", flags: fl, perm: 0o644})
							e.step(op{kind: "f.readfrom", data: b})
						case 4:
							e.step(op{kind: "open", p: "/f", flags: fl, perm: 0o644})
							e.step(op{kind: "f.truncate", off: n})
						case 5: // backwards
							e.step(op{kind: "open", p: "/f", flags: fl, perm: 0o644})
							for i := len(b) - 1; i >= 0; i -= int(bs/2 + 1) {
								e.step(op{kind: "f.writeat", data: b[i : i+1], off: int64(i)})
							}
						case 6: // append in pieces over several opens
							for i := 0; i < 3; i++ {
								e.step(op{kind: "open", p: "/f", flags: disko.O_WRONLY | disko.O_CREATE | disko.O_APPEND, perm: 0o644})
								e.step(op{kind: "f.write", fi: i, data: b[int(n)*i/3 : int(n)*(i+1)/3]})
								e.step(op{kind: "f.close", fi: i})
							}
						}
						e.finish()
						e.step(op{kind: "readfile", p: "/f"})
						e.step(op{kind: "open", p: "/f"})
						e.step(op{kind: "f.stat", fi: len(e.files) - 1})
						e.step(op{kind: "f.writeto", fi: len(e.files) - 1})
						e.finish()
					})
				}
			}
		})
	}
	// Files of many blocks.
	for k := 0; k < c.M(60, 2500); k++ {
		c.Case(fmt.Sprintf("large %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: []int64{64, 128, 512, 1024, 4096}[r.Intn(5)], flags: all, model: true}, r)
			guard(func() {
				p := "/" + e.names[0]
				size := 1 + r.Intn(150000)
				step := func(k string, off int64, b []byte) { e.step(op{kind: k, fi: len(e.files) - 1, off: off, data: b}) }
				if r.Intn(2) == 0 {
					e.plant(p, 0o644, fill(r, size))
				} else {
					e.step(op{kind: "writefile", p: p, perm: 0o644, data: fill(r, size)})
				}
				for round := 0; round < 2; round++ {
					fl := disko.O_RDWR | disko.O_CREATE
					if r.Intn(4) == 0 {
						fl |= disko.O_SYNC
					}
					e.step(op{kind: "open", p: p, flags: fl, perm: 0o600})
					for i := 0; i < 8; i++ {
						at := int64(r.Intn(size + 1))
						if r.Intn(2) == 0 {
							at -= at % e.fs.bs
						}
						switch r.Intn(9) {
						case 0, 1:
							step("f.writeat", min(at, 60000), fill(r, 1+r.Intn(40000)))
						case 2:
							e.step(op{kind: "f.seek", fi: len(e.files) - 1, off: min(at, 60000)})
							step([]string{"f.write", "f.readfrom", "f.writestring"}[r.Intn(3)], 0, fill(r, 1+r.Intn(40000)))
						case 3:
							step("f.truncate", at, nil)
						case 4:
							step("f.sync", 0, nil)
						case 5:
							e.step(op{kind: "f.readat", fi: len(e.files) - 1, off: at, n: 1 + r.Intn(70000)})
						case 6:
							e.step(op{kind: "f.seek", fi: len(e.files) - 1, off: at})
							e.step(op{kind: "f.read", fi: len(e.files) - 1, n: 1 + r.Intn(70000)})
						case 7:
							step("f.writeto", 0, nil)
						case 8:
							step("f.stat", 0, nil)
						}
					}
					e.finish()
					e.step(op{kind: "readfile", p: p})
					e.step(op{kind: "stat", p: p})
				}
			})
			c.Count("large_files", 1)
		})
	}
	minCount(c, "commits", 2000)
	minCount(c, "ops", 20000)
}

// ---------------------------------------------------------------- D04, D05

// conflicts says whether an operation would touch an object that is open, in a
// way that is outside the contract of either party (no sharing semantics).
func (e *env) conflicts(o *op) bool {
	open := map[uint64]bool{}
	for _, f := range e.files {
		if !f.closed {
			open[f.id] = true
		}
	}
	if len(open) == 0 {
		return false
	}
	ps := []string{o.p}
	var below func(n *node) bool
	below = func(n *node) bool {
		if open[n.id] {
			return true
		}
		for _, ch := range n.ch {
			if below(ch) {
				return true
			}
		}
		return false
	}
	switch o.kind {
	case "open", "create", "writefile", "truncate", "remove", "removeall":
	default:
		return false
	}
	for _, p := range ps {
		for _, follow := range []bool{true, false} {
			fd := e.fs.resolve(norm(e.cwd, p), follow)
			if fd.err == nil && below(fd.n) {
				if o.kind == "open" && !fd.n.isDir() && !o.flags.RequiresWritePerm() && !e.isOpenWrite(fd.n.id) {
					continue
				}
				if o.kind != "removeall" && o.kind != "remove" && fd.n.isDir() {
					continue
				}
				return true
			}
		}
	}
	return false
}

// raw runs one operation without a model.
func (e *env) raw(o op) *result {
	n := len(e.files)
	r, _ := e.step(o)
	if len(e.files) > n {
		f := e.files[n]
		for _, hd := range e.fs.handles {
			if hd.op == e.fs.op && !hd.closed {
				f.id, f.dir = hd.n.id, hd.n.isDir()
			}
		}
	}
	e.cwd, _ = e.drv.Getwd()
	return r
}

func hostile(r *rand.Rand, o *op) {
	switch r.Intn(40) {
	case 0:
		o.p = []string{"", ".", "..", "/", "//", "/..", "a/", "/a/../../b", "/.", "./a", "a//b"}[r.Intn(11)]
	case 1:
		o.q = []string{"", ".", "..", "/", "//", "/..", "a/", "/a/.."}[r.Intn(8)]
	case 2:
		o.off = -o.off - 1
	case 3:
		if o.kind == "f.readat" || o.kind == "f.seek" {
			o.off = 1<<62 + int64(r.Intn(100))
		}
	case 4:
		o.perm = os.FileMode(r.Uint32())
	case 5:
		if o.kind == "open" {
			o.flags = disko.IOFlags(r.Intn(1 << 13))
		}
	case 6:
		o.wh = r.Intn(5) - 1
	case 7:
		o.data = nil
	case 8:
		o.n = 0
	}
}

var everything = append(append(append(append(append([]string{}, nsOps...), fileOps...), attrOps...), dirOps...), "open", "open", "readlink", "lstat")

func d04(c *h.Ctx) {
	for k := 0; k < c.M(3500, 100000); k++ {
		c.Case(fmt.Sprintf("history %d", k), func(r *rand.Rand) {
			fl := all
			if r.Intn(6) == 0 {
				fl = disko.MountFlags(r.Intn(64)) | disko.MountFlagsAllowRead
			}
			e := newEnv(c, mon{contract: true}, conf{bs: bsOf(r), flags: fl, hardlinks: r.Intn(3) != 0}, r)
			if r.Intn(5) == 0 {
				e.fs.feat.HasUnixPermissions = false
			}
			if r.Intn(2) == 0 {
				plantTree(e, r, r.Intn(10), r.Intn(5))
				plantSpecial(e, r)
			}
			g := &gen{r: r, names: append(e.names[:3:3], "l")[:2+r.Intn(3)], depth: 1 + r.Intn(3), kinds: everything}
			faulty := r.Intn(4) == 0
			guard(func() {
				for i := 0; i < 40; i++ {
					o := g.op(e)
					hostile(r, &o)
					if !e.conflicts(&o) {
						if faulty && r.Intn(4) == 0 {
							e.fs.failAt = map[int]bool{e.fs.calls + 1 + r.Intn(8): true}
						}
						e.raw(o)
						c.Count("faults_fired", int64(len(e.fs.fired)))
						e.fs.failAt = nil
						c.Count("impl_calls", int64(len(e.fs.trace)))
					}
				}
				for i, f := range e.files {
					if !f.closed {
						e.raw(op{kind: "f.close", fi: i})
					}
				}
			})
		})
	}
	minCount(c, "ops", 50000)
	minCount(c, "impl_calls", 50000)
}

func d05(c *h.Ctx) {
	for k := 0; k < c.M(3500, 100000); k++ {
		c.Case(fmt.Sprintf("history %d", k), func(r *rand.Rand) {
			fl := all
			if r.Intn(6) == 0 {
				fl = disko.MountFlags(r.Intn(64)) | disko.MountFlagsAllowRead
			}
			e := newEnv(c, mon{handles: true}, conf{bs: bsOf(r), flags: fl, hardlinks: r.Intn(3) != 0}, r)
			plantTree(e, r, r.Intn(10), r.Intn(5))
			plantSpecial(e, r)
			e.fs.failClose = r.Intn(3) == 0
			every := []int{0, 0, 3, 10, 40}[r.Intn(5)]
			g := &gen{r: r, names: append(e.names[:3:3], "l")[:2+r.Intn(3)], depth: 1 + r.Intn(3), kinds: everything}
			guard(func() {
				for i := 0; i < 40; i++ {
					o := g.op(e)
					hostile(r, &o)
					if e.conflicts(&o) {
						continue
					}
					if every > 0 && r.Intn(every) == 0 {
						e.fs.failAt = map[int]bool{e.fs.calls + 1 + r.Intn(7): true}
					}
					e.raw(o)
					c.Count("faults_fired", int64(len(e.fs.fired)))
					e.fs.failAt = map[int]bool{}
				}
				for i, f := range e.files {
					if !f.closed {
						e.raw(op{kind: "f.close", fi: i})
					}
				}
				e.useClosed(g)
				e.finish()
			})
		})
	}
	enumerate(c, c.M(150, 4000), mon{handles: true}, false)
	enumerate(c, c.M(50, 2000), mon{handles: true}, true)
	minCount(c, "leak_checks", 50000)
	minCount(c, "faults_fired", 1000)
	minCount(c, "uses_of_closed_files", 10000)
}

// ---------------------------------------------------------------- D06

func d06(c *h.Ctx) {
	m := mon{model: true}
	look := []string{"stat", "lstat", "readlink", "readfile", "readdir", "open", "chdir", "samefile", "stat", "readfile", "f.close", "lchown", "chown", "chmod", "remove", "mkdir", "writefile", "create", "truncate", "link", "removeall", "mkdirall"}
	for k := 0; k < c.M(1500, 60000); k++ {
		c.Case(fmt.Sprintf("graph %d", k), func(r *rand.Rand) {
			e := newEnv(c, m, conf{bs: bsOf(r), flags: all, hardlinks: true, model: true}, r)
			plantTree(e, r, 3+r.Intn(8), 2+r.Intn(10))
			g := &gen{r: r, names: append(e.names[:2:2], "l", "m"), depth: 3, kinds: look}
			history(e, g, 40)
		})
	}
	// Chains of every length up to the limit, absolute, relative and through
	// directories.
	for n := 1; n <= linkLimit; n++ {
		c.Case(fmt.Sprintf("chain %d", n), func(r *rand.Rand) {
			for style := 0; style < 4; style++ {
				e := newEnv(c, m, conf{bs: bsOf(r), flags: all, model: true}, r)
				e.plant("/d", os.ModeDir|0o755, nil)
				e.plant("/d/e", os.ModeDir|0o755, nil)
				e.plant("/d/f", 0o644, []byte("target"))
				switch style {
				case 0, 1, 2:
					prev := "/d/f"
					for i := 0; i < n; i++ {
						p := fmt.Sprintf("/d/e/l%d", i)
						t := prev
						if style == 1 || (style == 2 && i%2 == 0) {
							t = "../e/" + prev[strings.LastIndex(prev, "/")+1:]
							if i == 0 {
								t = "../f"
							}
						}
						e.link(p, t)
						prev = p
					}
					guard(func() {
						e.step(op{kind: "readfile", p: prev})
						e.step(op{kind: "stat", p: prev})
						e.step(op{kind: "lstat", p: prev})
						e.step(op{kind: "readlink", p: prev})
					})
				case 3: // n directory links in one path
					e.link("/s", "/d")
					e.link("/d/s", ".")
					p := "/s" + strings.Repeat("/s", n-1) + "/f"
					guard(func() {
						e.step(op{kind: "readfile", p: p})
						e.step(op{kind: "stat", p: p[:len(p)-2]})
						e.step(op{kind: "chdir", p: p[:len(p)-2]})
						e.step(op{kind: "readfile", p: "s/f"})
					})
				}
			}
		})
	}
	// Links whose text is longer than a block, a path limit or a 16-bit count.
	for k, size := range []int{127, 128, 254, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 4097, 9000, 65535, 65536, 70001} {
		c.Case(fmt.Sprintf("long text %d", k), func(r *rand.Rand) {
			for style := 0; style < 3; style++ {
				e := newEnv(c, m, conf{bs: bsOf(r), flags: all, model: true}, r)
				e.plant("/d", os.ModeDir|0o755, nil)
				e.fs.extraCalls = 400000
				e.plant("/d/f", 0o644, []byte("target"))
				text := []string{"/d/f", "d/f", "../../d/f"}[style]
				pad := []string{"./", "d/../", "d/x/../../"}[r.Intn(3)]
				lead := ""
				if style == 0 {
					lead, text = "/", text[1:]
				} else if style == 2 {
					lead, text = "../../", "d/f"
				}
				n := (size - len(lead) - len(text)) / len(pad)
				fillup := size - len(lead) - len(text) - n*len(pad)
				long := lead + strings.Repeat(pad, n) + "d" + strings.Repeat("/", fillup+1) + "f"
				e.link("/l", long)
				e.link("/m", lead+strings.Repeat(pad, n)+"d"+strings.Repeat("/", fillup)+"/g")
				guard(func() {
					e.step(op{kind: "readlink", p: "/l"})
					e.step(op{kind: "readfile", p: "/l"})
					e.step(op{kind: "stat", p: "/l"})
					e.step(op{kind: "lstat", p: "/l"})
					e.step(op{kind: "stat", p: "/m"})
					e.step(op{kind: "open", p: "/l", flags: disko.O_RDONLY})
					e.step(op{kind: "chmod", p: "/l", perm: 0o600})
					e.step(op{kind: "stat", p: "/d/f"})
					e.step(op{kind: "remove", p: "/l"})
					e.finish()
				})
				c.Distinct("long text", len(long), style)
				c.Count("long_texts", 1)
			}
		})
	}
	c.Require("long_texts", 48)
	// Cycles of every length, and shapes that blow up naive resolvers.
	for n := 1; n <= 12; n++ {
		c.Case(fmt.Sprintf("cycle %d", n), func(r *rand.Rand) {
			for style := 0; style < 5; style++ {
				e := newEnv(c, m, conf{bs: bsOf(r), flags: all, model: true}, r)
				e.plant("/d", os.ModeDir|0o755, nil)
				for i := 0; i < n; i++ {
					nx := (i + 1) % n
					switch style {
					case 0:
						e.link(fmt.Sprintf("/d/l%d", i), fmt.Sprintf("/d/l%d", nx))
					case 1:
						e.link(fmt.Sprintf("/d/l%d", i), fmt.Sprintf("l%d", nx))
					case 2: // through intermediate directories
						e.link(fmt.Sprintf("/d/l%d", i), fmt.Sprintf("l%d/x", nx))
					case 3: // growing
						e.link(fmt.Sprintf("/d/l%d", i), fmt.Sprintf("l%d/l%d", nx, nx))
					case 4: // a long tail into the cycle
						e.link(fmt.Sprintf("/d/l%d", i), fmt.Sprintf("../d/l%d", nx))
						e.link(fmt.Sprintf("/t%d", i), map[bool]string{true: "d/l0", false: fmt.Sprintf("t%d", i-1)}[i == 0])
					}
				}
				p := "/d/l0"
				if style == 4 {
					p = fmt.Sprintf("/t%d", n-1)
				}
				guard(func() {
					for _, kind := range []string{"stat", "lstat", "readfile", "readdir", "chdir", "open", "readlink", "mkdirall", "chmod", "writefile", "mkdir", "remove"} {
						e.step(op{kind: kind, p: p, perm: 0o600, data: []byte("x")})
					}
					e.step(op{kind: "stat", p: "/d/l0/x"})
					e.step(op{kind: "mkdir", p: "/d/l0/x", perm: 0o600})
				})
			}
		})
	}
	c.Case("blowup", func(r *rand.Rand) {
		for depth := 1; depth < 20; depth++ {
			e := newEnv(c, m, conf{bs: 16, flags: all, model: true}, r)
			e.plant("/d", os.ModeDir|0o755, nil)
			e.link("/l0", "d")
			for i := 1; i <= depth; i++ {
				e.link(fmt.Sprintf("/l%d", i), fmt.Sprintf("l%d/l%d", i-1, i-1))
				e.link(fmt.Sprintf("/d/l%d", i), fmt.Sprintf("/l%d/l%d", i-1, i-1))
			}
			e.link("/d/l0", ".")
			guard(func() {
				e.step(op{kind: "stat", p: fmt.Sprintf("/d/l%d", depth)})
				e.step(op{kind: "lstat", p: fmt.Sprintf("/d/l%d", depth)})
				e.step(op{kind: "readdir", p: fmt.Sprintf("/d/l%d", depth)})
			})
		}
	})
	minCount(c, "links_followed", 5000)
	minCount(c, "cycles", 200)
}

// ---------------------------------------------------------------- D07

func d07(c *h.Ctx) {
	bits := []disko.MountFlags{disko.MountFlagsAllowWrite, disko.MountFlagsAllowInsert, disko.MountFlagsAllowDelete, disko.MountFlagsAllowAdminister, disko.MountFlagsPreserveTimestamps}
	kinds := append(append(append([]string{}, nsOps...), attrOps...), fileOps...)
	for combo := 0; combo < 1<<len(bits); combo++ {
		fl := disko.MountFlagsAllowRead
		for i, b := range bits {
			if combo>>i&1 != 0 {
				fl |= b
			}
		}
		for k := 0; k < c.M(80, 1500); k++ {
			c.Case(fmt.Sprintf("flags %#x history %d", int(fl), k), func(r *rand.Rand) {
				e := newEnv(c, mon{model: true, perms: true}, conf{bs: bsOf(r), flags: fl, hardlinks: r.Intn(3) != 0, model: true}, r)
				plantTree(e, r, 3+r.Intn(8), r.Intn(4))
				g := &gen{r: r, names: e.names[:3], depth: 1 + r.Intn(3), kinds: kinds}
				history(e, g, 40)
				c.Distinct("flags", int(fl))
			})
		}
		// Every mutating call once, on a tree where each would succeed.
		c.Case(fmt.Sprintf("flags %#x each", int(fl)), func(r *rand.Rand) {
			for bs := range 3 {
				for _, o := range []op{
					{kind: "mkdir", p: "/n"}, {kind: "mkdirall", p: "/n/m"}, {kind: "mkdirall", p: "/d"}, {kind: "create", p: "/n"}, {kind: "writefile", p: "/n", data: []byte("hello")},
					{kind: "writefile", p: "/f", data: []byte("hello")}, {kind: "writefile", p: "/l", data: []byte("hello")}, {kind: "remove", p: "/f"}, {kind: "remove", p: "/l"}, {kind: "remove", p: "/e"},
					{kind: "removeall", p: "/d"}, {kind: "link", p: "/f", q: "/n"}, {kind: "chmod", p: "/f", perm: 0o111}, {kind: "chown", p: "/f", n: 3, off: 4}, {kind: "lchown", p: "/l", n: 3, off: 4},
					{kind: "chtimes", p: "/f", t1: epoch, t2: epoch}, {kind: "truncate", p: "/f"}, {kind: "truncate", p: "/l"},
					{kind: "open", p: "/f", flags: disko.O_WRONLY, perm: 1}, {kind: "open", p: "/f", flags: disko.O_RDWR, perm: 1}, {kind: "open", p: "/f", flags: disko.O_RDWR | disko.O_TRUNC, perm: 1},
					{kind: "open", p: "/f", flags: disko.O_RDWR | disko.O_CREATE, perm: 1}, {kind: "open", p: "/f", flags: disko.O_WRONLY | disko.O_APPEND, perm: 1},
					{kind: "open", p: "/f", flags: disko.O_RDONLY | disko.O_CREATE, perm: 1}, {kind: "open", p: "/n", flags: disko.O_RDONLY | disko.O_CREATE, perm: 1},
					{kind: "open", p: "/n", flags: disko.O_WRONLY | disko.O_CREATE, perm: 1}, {kind: "open", p: "/n", flags: disko.O_RDWR | disko.O_CREATE | disko.O_TRUNC | disko.O_EXCL, perm: 1},
					{kind: "open", p: "/l", flags: disko.O_RDWR, perm: 1}, {kind: "open", p: "/f"}, {kind: "open", p: "/d"},
				} {
					e := newEnv(c, mon{model: true, perms: true}, conf{bs: []int64{3, 16, 512}[bs], flags: fl, hardlinks: true, model: true}, r)
					e.plant("/f", 0o644, []byte("some contents longer than a block"))
					e.plant("/d", os.ModeDir|0o755, nil)
					e.plant("/e", os.ModeDir|0o755, nil)
					e.plant("/d/f", 0o644, []byte("x"))
					e.link("/l", "f")
					guard(func() {
						e.step(o)
						if len(e.files) > 0 {
							for _, q := range []op{{kind: "f.chmod", perm: 0o1}, {kind: "f.chown", n: 9, off: 9}, {kind: "f.write", data: []byte("abc")}, {kind: "f.writeat", data: []byte("abc"), off: 2}, {kind: "f.truncate", off: 1}, {kind: "f.sync"}, {kind: "f.truncate", off: 50}, {kind: "f.close"}} {
								e.step(q)
							}
						}
					})
				}
			}
		})
	}
	// Whatever is asked, and whether or not it works, what changes is bounded.
	for k := 0; k < c.M(2500, 60000); k++ {
		c.Case(fmt.Sprintf("bounded %d", k), func(r *rand.Rand) {
			fl := disko.MountFlags(r.Intn(64)) | disko.MountFlagsAllowRead
			e := newEnv(c, mon{perms: true}, conf{bs: bsOf(r), flags: fl, hardlinks: r.Intn(3) != 0}, r)
			plantTree(e, r, 3+r.Intn(10), r.Intn(5))
			plantSpecial(e, r)
			g := &gen{r: r, names: append(e.names[:3:3], "l")[:2+r.Intn(3)], depth: 1 + r.Intn(3), kinds: everything}
			guard(func() {
				for i := 0; i < 40; i++ {
					o := g.op(e)
					hostile(r, &o)
					if o.kind == "open" && r.Intn(2) == 0 {
						o.flags ^= disko.IOFlags(1 << r.Intn(13))
					}
					if !e.conflicts(&o) {
						e.raw(o)
					}
				}
				e.finish()
			})
		})
	}
	minCount(c, "mutations", 5000)
	minCount(c, "refusals", 2000)
	minCount(c, "ops", 20000)
}

// ---------------------------------------------------------------- D08

// enumerate fails every implementation call of every operation of generated
// histories, one per run, under the given monitors.
func enumerate(c *h.Ctx, histories int, m mon, failClose bool) {
	kinds := append(append(append(append([]string{}, nsOps...), attrOps...), fileOps...), "f.readdir", "readlink", "lstat", "open", "f.close", "f.sync")
	for k := 0; k < histories; k++ {
		c.Case(fmt.Sprintf("enumeration %d close %v", k, failClose), func(r *rand.Rand) {
			seed := r.Int63()
			mk := func(model bool) *env {
				q := rand.New(rand.NewSource(seed))
				bs := bsOf(q)
				e := newEnv(c, mon{}, conf{bs: bs, flags: all, hardlinks: q.Intn(3) != 0, model: model}, q)
				plantTree(e, q, 3+q.Intn(7), q.Intn(4))
				e.fs.failClose = failClose
				return e
			}
			// First without faults, to learn the call counts.
			base := mk(true)
			g := &gen{r: r, names: base.names[:3], depth: 1 + r.Intn(3), kinds: kinds}
			type rec struct {
				o op
				n int
			}
			var recs []rec
			guard(func() {
				for len(recs) < 14 {
					o := g.op(base)
					base.cur = o.String()
					c0 := base.fs.calls
					if _, ran := base.step(o); ran {
						recs = append(recs, rec{o, base.fs.calls - c0})
					}
				}
				for i, f := range base.files {
					if !f.closed {
						o := op{kind: "f.close", fi: i}
						c0 := base.fs.calls
						base.step(o)
						recs = append(recs, rec{o, base.fs.calls - c0})
					}
				}
			})
			for i, rc := range recs {
				last := min(rc.n, 25)
				if m.faults && failClose { // only what closing a file reports
					if rc.o.kind != "f.close" {
						continue
					}
					last *= 2 // with a handle that does not close either
				}
				for n := 1; n <= last; n++ {
					e := mk(false)
					guard(func() {
						for _, p := range recs[:i] {
							e.raw(p.o)
						}
						e.m = m
						at := n
						if m.faults && failClose {
							at = (n + 1) / 2
							e.fs.failCloses = n%2 == 0
						}
						e.fs.failAt[e.fs.calls+at] = true
						e.fs.identity = r.Intn(len(identities) * 2)
						e.raw(rc.o)
						if !m.faults {
							c.Count("faults_fired", int64(len(e.fs.fired)))
						}
						e.fs.failAt = map[int]bool{}
						e.fs.failCloses = false
						if m.handles {
							for i, f := range e.files {
								if !f.closed {
									e.raw(op{kind: "f.close", fi: i})
								}
							}
							e.finish()
						}
						if len(e.fs.fired) == 0 {
							c.Count("not_reached", 1)
						}
					})
					c.Count("fault_points", 1)
					c.Distinct(rc.o.kind, int(rc.o.flags), n, len(e.fs.fired))
				}
			}
		})
	}
}

func d08(c *h.Ctx) {
	enumerate(c, c.M(1500, 20000), mon{faults: true}, false)
	enumerate(c, c.M(1000, 10000), mon{faults: true}, true)
	minCount(c, "faults_fired", 3000)
}

// ---------------------------------------------------------------- D09

func d09(c *h.Ctx) {
	for k := 0; k < c.M(2500, 60000); k++ {
		c.Case(fmt.Sprintf("history %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{quiet: true}, conf{bs: bsOf(r), flags: all, hardlinks: true}, r)
			plantTree(e, r, 2+r.Intn(12), r.Intn(6))
			plantSpecial(e, r)
			e.fs.mutations = nil
			g := &gen{r: r, names: append(e.names[:3:3], "l"), depth: 1 + r.Intn(3), kinds: queryOps}
			guard(func() {
				for i := 0; i < 40; i++ {
					o := g.op(e)
					if o.kind == "open" {
						o.flags = disko.O_RDONLY
						if r.Intn(4) == 0 { // a file opened for writing but only read
							o.flags = disko.O_RDWR
						}
						if r.Intn(4) == 0 {
							o.flags |= disko.O_SYNC
						}
						if r.Intn(4) == 0 {
							o.flags |= disko.O_APPEND
						}
						o.perm = os.FileMode(r.Intn(2))
					}
					hostileQuery(r, &o)
					e.raw(o)
				}
				for i, f := range e.files {
					if !f.closed {
						e.raw(op{kind: "f.close", fi: i})
					}
				}
			})
		})
	}
	minCount(c, "ops", 30000)
	minCount(c, "quiet_checks", 30000)
}

func hostileQuery(r *rand.Rand, o *op) {
	switch r.Intn(20) {
	case 0:
		o.p = []string{"", ".", "..", "/", "//", "/..", "a/", "/a/../../b", "/nope", "./a", "/a/nope/x"}[r.Intn(11)]
	case 1:
		if o.kind == "f.readat" || o.kind == "f.seek" {
			o.off = []int64{-1, 1 << 40, 1<<63 - 1, -1 << 63}[r.Intn(4)]
		}
	}
}

// ---------------------------------------------------------------- D10

// failingListing has the implementation fail now and then while a directory is
// listed. Listing on afterwards still gives every entry once.
func failingListing(c *h.Ctx, r *rand.Rand) {
	e := newEnv(c, mon{}, conf{bs: 16, flags: all}, r)
	e.plant("/d", os.ModeDir|0o755, nil)
	n := r.Intn(9)
	for i := 0; i < n; i++ {
		e.plant(fmt.Sprintf("/d/e%d", i), []os.FileMode{0o644, os.ModeDir | 0o755}[r.Intn(2)], nil)
	}
	guard(func() {
		f, err := e.drv.Open("/d")
		if err != nil {
			c.Fail("setup", "opening a directory failed: %v", err)
		}
		defer f.Close()
		seen := map[string]int{}
		var hist []string
		for calls := 0; ; calls++ {
			if calls == 80 {
				c.Fail("endless", "listing %d entries does not end: %v", n, hist)
			}
			fault := r.Intn(3) == 0 && calls < 8
			e.fs.op++
			e.fs.opCalls, e.fs.fired, e.fs.trace = 0, nil, nil
			if fault {
				e.fs.failAt = map[int]bool{e.fs.calls + 1 + r.Intn(2*n+3): true}
			}
			m := r.Intn(6) - 1
			var names []string
			var err error
			switch r.Intn(3) {
			case 0:
				names, err = f.Readdirnames(m)
			case 1:
				var l []os.DirEntry
				l, err = f.ReadDir(m)
				for _, x := range l {
					names = append(names, x.Name())
				}
			default:
				var l []os.FileInfo
				l, err = f.Readdir(m)
				for _, x := range l {
					names = append(names, x.Name())
				}
			}
			e.fs.failAt = map[int]bool{}
			hist = append(hist, fmt.Sprintf("list(%d)=%v,%v (failing: %v)", m, names, err, e.fs.fired))
			for _, x := range names {
				if seen[x]++; seen[x] > 1 {
					c.Fail("retry", "%q was listed twice: %v", x, hist)
				}
			}
			if len(e.fs.fired) > 0 {
				c.Count("failed_listings", 1)
				if err == nil {
					c.Fail("retry", "a failure was not reported: %v", hist)
				}
				continue
			}
			if err != nil && err != io.EOF {
				c.Fail("retry", "failed although nothing went wrong: %v", hist)
			}
			if err == io.EOF || m <= 0 {
				break
			}
		}
		if len(seen) != n {
			c.Fail("retry", "%d of %d entries were listed: %v", len(seen), n, hist)
		}
		c.Distinct("failing listing", n, strings.Join(hist, ";"))
	})
}

func d10(c *h.Ctx) {
	for k := 0; k < c.M(2000, 80000); k++ {
		c.Case(fmt.Sprintf("listing %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, hardlinks: true, model: true}, r)
			e.plant("/d", os.ModeDir|0o755, nil)
			n := r.Intn(12)
			if r.Intn(20) == 0 {
				n = 100 + r.Intn(200)
			}
			for i := 0; i < n; i++ {
				p := fmt.Sprintf("/d/%c%d", 'a'+rune(r.Intn(26)), i)
				switch r.Intn(6) {
				case 0:
					p = fmt.Sprintf("/d/.%d", i)
				case 1:
					p = fmt.Sprintf("/d/...%d x", i)
				}
				switch r.Intn(4) {
				case 0:
					e.plant(p, os.ModeDir|anyPerm(r), nil)
				case 1:
					e.link(p, []string{"/d", "nowhere", p[3:], "../d"}[r.Intn(4)])
				default:
					e.plant(p, anyPerm(r), fill(r, r.Intn(int(3*e.fs.bs))))
				}
			}
			e.link("/l", "d")
			guard(func() {
				if r.Intn(3) == 0 {
					e.step(op{kind: "chdir", p: "/d"})
				}
				opens := 1 + r.Intn(2)
				for i := 0; i < opens; i++ {
					e.step(op{kind: "open", p: []string{"/d", "/l", "/d/.", "/"}[r.Intn(4)], flags: disko.O_RDONLY})
				}
				form := r.Intn(4)
				style := r.Intn(4)
				for i := 0; i < min(3*n+8, 60); i++ {
					f := form
					if form == 3 {
						f = r.Intn(3)
					}
					o := op{kind: []string{"f.readdir", "f.readdir2", "f.readdirnames"}[f], fi: r.Intn(opens)}
					switch style {
					case 0:
						o.n = 1 + r.Intn(4+n/20)
					case 1:
						o.n = []int{n, n + 1, n - 1, 1000}[r.Intn(4)]
					case 2:
						o.n = r.Intn(8) - 2
						if r.Intn(12) == 0 {
							o.n = []int{math.MaxInt, math.MaxInt - 1, math.MaxInt32, 1 << 32, 1<<32 + 1, math.MinInt, math.MinInt32}[r.Intn(7)]
						}
					case 3:
						o.n = []int{-1, 0}[r.Intn(2)]
						if r.Intn(2) == 0 {
							o.n = 1 + r.Intn(n+2)
						}
					}
					e.step(o)
					if e.files[o.fi].ended && r.Intn(6) == 0 {
						break
					}
					if r.Intn(6) == 0 {
						e.step(op{kind: []string{"stat", "f.stat", "readdir", "samefile"}[r.Intn(4)], p: "/d", q: "/l", fi: 0})
					}
				}
				e.finish()
			})
			c.Distinct("listing", n, e.fs.listDots)
		})
	}
	for k := 0; k < c.M(1500, 20000); k++ {
		c.Case(fmt.Sprintf("relisting %d", k), func(r *rand.Rand) { relisting(c, r) })
	}
	c.Require("relistings", 500)
	for k := 0; k < c.M(1500, 20000); k++ {
		c.Case(fmt.Sprintf("failing listing %d", k), func(r *rand.Rand) { failingListing(c, r) })
	}
	c.Require("failed_listings", 500)
	// Directories and batches beyond the sizes of eight- and sixteen-bit counts
	// and of any fixed buffer an implementation may read through.
	for k := 0; k < c.N(12, 60); k++ {
		c.Case(fmt.Sprintf("wide listing %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, model: true}, r)
			e.plant("/d", os.ModeDir|0o755, nil)
			n := []int{255, 300, 600, 1100, 2200, 5000}[k%6] + r.Intn(9)
			for i := 0; i < n; i++ {
				e.plant(fmt.Sprintf("/d/%x.%d", r.Intn(256), i), []os.FileMode{0o644, 0o600, os.ModeDir | 0o755}[r.Intn(3)], nil)
			}
			guard(func() {
				e.step(op{kind: "readdir", p: "/d"})
				for f, kind := range []string{"f.readdir", "f.readdir2", "f.readdirnames"} {
					e.step(op{kind: "open", p: "/d", flags: disko.O_RDONLY})
					sizes := []int{[]int{255, 256, 257}[(k+f)%3], []int{511, 512, 513}[(k+f)%3], 1000, 1024, 4096, 70000}
					r.Shuffle(len(sizes), func(i, j int) { sizes[i], sizes[j] = sizes[j], sizes[i] })
					if r.Intn(3) == 0 {
						sizes = []int{100, -1, 100}
					}
					for _, m := range sizes {
						e.step(op{kind: kind, fi: f, n: m})
					}
					e.step(op{kind: kind, fi: f, n: 1})
				}
				e.finish()
			})
			c.Distinct("wide listing", n)
		})
	}
	minCount(c, "batches", 5000)
}

// relisting lists a directory to its end, changes it and lists it again, all
// through the same handle.
func relisting(c *h.Ctx, r *rand.Rand) {
	e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, hardlinks: true, model: true}, r)
	e.plant("/d", os.ModeDir|0o755, nil)
	name := func() string { return fmt.Sprintf("/d/%c", 'a'+rune(r.Intn(9))) }
	change := func() {
		for k := r.Intn(4); k > 0; k-- {
			p := name()
			switch r.Intn(4) {
			case 0:
				e.step(op{kind: "remove", p: p})
			case 1:
				e.step(op{kind: "mkdir", p: p, perm: 0o755})
			case 2:
				e.step(op{kind: "writefile", p: p, data: fill(r, r.Intn(20)), perm: 0o644})
			default:
				e.step(op{kind: "removeall", p: p})
			}
		}
	}
	for k := r.Intn(8); k > 0; k-- {
		if p := name(); e.fs.root.ch["d"].ch[p[3:]] == nil {
			e.plant(p, []os.FileMode{0o644, os.ModeDir | 0o755}[r.Intn(2)], nil)
		}
	}
	guard(func() {
		e.step(op{kind: "open", p: "/d", flags: disko.O_RDONLY})
		for round := 0; round < 4; round++ {
			kind := []string{"f.readdir", "f.readdir2", "f.readdirnames"}[r.Intn(3)]
			// to the end and no further, as far as the handle tells
			for k := 0; k < 20; k++ {
				n := []int{-1, 0, 1, 3, 100}[r.Intn(5)]
				res, ran := e.step(op{kind: kind, n: n})
				if !ran || res.err != nil || len(res.names) == 0 {
					break
				}
			}
			change()
		}
		e.finish()
	})
}

// ---------------------------------------------------------------- D11

func d11(c *h.Ctx) {
	kinds := append(append([]string{}, nsOps...), "chmod", "chown", "lchown", "chtimes", "f.chmod", "f.chown", "f.readdir", "f.readdir2", "f.readdirnames",
		"f.close", "f.close", "f.stat", "readlink", "readlink", "lstat", "readdir", "link", "f.read", "f.write", "f.chdir", "chdir", "getwd")
	for lacks := 0; lacks < 16; lacks++ {
		for k := 0; k < c.M(40, 3000); k++ {
			c.Case(fmt.Sprintf("lacking %d history %d", lacks, k), func(r *rand.Rand) {
				e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, hardlinks: r.Intn(2) == 0, model: true}, r)
				e.missing = true
				e.fs.lacks = lacks
				e.fs.feat.HasUnixPermissions = true
				nlinks := 3
				if r.Intn(3) == 0 {
					e.fs.feat.HasSymbolicLinks = false
					nlinks = 0
				}
				plantTree(e, r, 2+r.Intn(8), nlinks)
				own := e.fs.feat
				for i := 0; i < 8; i++ {
					if f := e.drv.GetFSFeatures(); !reflect.DeepEqual(f, e.fs.feat) {
						c.Fail("features", "the driver reports the features %+v, the implementation %+v", f, e.fs.feat)
					}
					c.Count("features_compared", 1)
					v := reflect.ValueOf(&e.fs.feat).Elem()
					for j := 0; j < v.NumField(); j++ {
						switch x := v.Field(j); x.Kind() {
						case reflect.Bool:
							x.SetBool(r.Intn(2) == 0)
						case reflect.Int:
							x.SetInt(int64(r.Intn(1000)))
						}
					}
				}
				e.fs.feat = own
				g := &gen{r: r, names: e.names[:3], depth: 2, kinds: kinds}
				history(e, g, 40)
			})
		}
	}
	minCount(c, "ops", 10000)
	c.Case("base handle", func(r *rand.Rand) {
		// The base type for implementations' handles, which implements nothing.
		var hd disko.ObjectHandle = driver.NopObjectHandle{}
		lister, ok1 := any(driver.NopObjectHandle{}).(disko.SupportsListDirHandle)
		chmod, ok2 := any(driver.NopObjectHandle{}).(disko.SupportsChmodHandle)
		chown, ok3 := any(driver.NopObjectHandle{}).(disko.SupportsChownHandle)
		chtimes, ok4 := any(driver.NopObjectHandle{}).(disko.SupportsChtimesHandle)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			c.Fail("base-handle", "the base handle lacks an optional interface: list %v, chmod %v, chown %v, chtimes %v", ok1, ok2, ok3, ok4)
		}
		for i := 0; i < 50; i++ {
			now := time.Unix(r.Int63n(1<<32), 0)
			for what, f := range map[string]func() error{
				"Resize":        func() error { return hd.Resize(uint64(r.Int63())) },
				"ReadBlocks":    func() error { return hd.ReadBlocks(0, make([]byte, r.Intn(600))) },
				"WriteBlocks":   func() error { return hd.WriteBlocks(0, make([]byte, r.Intn(600))) },
				"ZeroOutBlocks": func() error { return hd.ZeroOutBlocks(0, uint(r.Intn(9))) },
				"Unlink":        func() error { return hd.Unlink() },
				"Close":         func() error { return hd.Close() },
				"Chmod":         func() error { return chmod.Chmod(anyPerm(r)) },
				"Chown":         func() error { return chown.Chown(r.Intn(9), r.Intn(9)) },
				"Chtimes":       func() error { return chtimes.Chtimes(now, now, now, now, now) },
				"ListDir": func() error {
					l, err := lister.ListDir()
					if len(l) != 0 {
						c.Fail("base-handle", "ListDir gives names: %q", l)
					}
					return err
				},
			} {
				if err := f(); !errors.Is(err, disko.ErrNotImplemented) {
					c.Fail("base-handle", "%s of the base handle reports %v, expected not-implemented", what, err)
				}
				c.Count("features_lacking", 1)
			}
			if st := hd.Stat(); st != (disko.FileStat{}) || hd.Name() != "" || hd.SameAs(hd) {
				c.Fail("base-handle", "Stat %+v, Name %q, SameAs %v of the base handle, expected zero values", st, hd.Name(), hd.SameAs(hd))
			}
		}
	})
	minCount(c, "features_lacking", 1000)
}

// ---------------------------------------------------------------- D12

func d12(c *h.Ctx) {
	kinds := append(append(append([]string{}, attrOps...), attrOps...), "chmod", "chown", "lchown", "chtimes", "chtimes", "f.chmod", "f.chown", "f.chmod", "f.chown",
		"open", "open", "f.stat", "f.stat", "f.name", "f.close", "stat", "stat", "lstat", "lstat", "readdir", "f.readdir2", "f.readdir", "readlink", "chdir", "f.chdir",
		"writefile", "link", "remove", "f.write", "f.read", "samefile")
	for k := 0; k < c.M(2000, 50000); k++ {
		c.Case(fmt.Sprintf("attributes %d", k), func(r *rand.Rand) {
			e := newEnv(c, mon{model: true}, conf{bs: bsOf(r), flags: all, hardlinks: true, model: true}, r)
			e.fs.feat.HasUnixPermissions = true
			plantTree(e, r, 2+r.Intn(8), r.Intn(5))
			g := &gen{r: r, names: append(e.names[:3:3], "l"), depth: 1 + r.Intn(3), kinds: kinds, times: true}
			history(e, g, 40)
		})
	}
	minCount(c, "ops", 20000)
	minCount(c, "attribute_changes", 5000)
}

// Props lists the checks of this area.
func Props() []*h.Prop {
	asm := []string{"The in-memory implementation behind the driver is part of the oracle; it implements the documented FileSystemImplementer contract and nothing more."}
	one := append([]string{"No object is written or removed through one path while it is open through another (sharing semantics are not specified)."}, asm...)
	rule := "an operation counts once per (operation, flags, result class, number of implementation calls, block size)"
	return []*h.Prop{
		&h.Prop{ID: "D01", Level: "exploration", Run: d01, Rule: "a path counts once per (length, number of .., number of //, absoluteness, working directory)", Assumptions: asm},
		&h.Prop{ID: "D02", Level: "exploration", Run: d02, Rule: rule, Assumptions: one},
		&h.Prop{ID: "D03", Level: "exploration", Run: d03, Rule: rule, Assumptions: one},
		&h.Prop{ID: "D04", Level: "exploration", Run: d04, Rule: rule, Assumptions: one},
		&h.Prop{ID: "D05", Level: "fault_enumeration", Run: d05, Rule: rule, Assumptions: one},
		&h.Prop{ID: "D06", Level: "exploration", Run: d06, Rule: rule, Assumptions: append([]string{"Up to 32 links must be followed; beyond that the link-cycle error is accepted."}, asm...)},
		&h.Prop{ID: "D07", Level: "exploration", Run: d07, Rule: rule, Assumptions: one},
		&h.Prop{ID: "D08", Level: "fault_enumeration", Run: d08, Rule: "a fault counts once per (operation, flags, position in the call sequence)", Assumptions: asm},
		&h.Prop{ID: "D09", Level: "exploration", Run: d09, Rule: rule, Assumptions: asm},
		&h.Prop{ID: "D10", Level: "exploration", Run: d10, Rule: rule, Assumptions: asm},
		&h.Prop{ID: "D12", Level: "exploration", Run: d12, Rule: rule, Assumptions: one},
		&h.Prop{ID: "D11", Level: "exploration", Run: d11, Rule: "an operation counts once per (operation, flags, result class, number of implementation calls, block size); a refusal once per (operation, missing features)", Assumptions: append([]string{"Either of the not-supported and not-implemented errors may be used."}, one...)},
	}
}
