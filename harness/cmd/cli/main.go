package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"verifharness/h"
)

type res struct {
	code   int
	stdout string
	stderr string
}

func run(bin string, dir string, args ...string) res {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(200*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	code := cmd.ProcessState.ExitCode()
	if err != nil && code == 0 {
		code = -1
	}
	return res{code, o.String(), e.String()}
}

func unRLE(s []byte) (out []byte, ok bool) {
	for i := 0; i < len(s); {
		if i+1 < len(s) && s[i+1] == s[i] {
			if i+2 >= len(s) {
				return out, false
			}
			out = append(out, bytes.Repeat([]byte{s[i]}, int(s[i+2])+2)...)
			i += 3
		} else {
			out = append(out, s[i])
			i++
		}
	}
	return out, true
}

func c07(c *h.Ctx) {
	tmp := h.TempDir()
	zip, unzip := filepath.Join(tmp, "zipimage"), filepath.Join(tmp, "unzipimage")
	for name, out := range map[string]string{"zipimage": zip, "unzipimage": unzip} {
		cmd := exec.Command("go", "build", "-buildvcs=false", "-o", out, "./cmd/"+name)
		cmd.Dir = h.Repo()
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "building %s failed: %v\n%s", name, err, b)
			os.Exit(3)
		}
	}
	good := func(r res, what string) {
		c.Eval(1)
		if r.code != 0 {
			c.Fail("exit", "%s: exit %d, stderr %q", what, r.code, r.stderr)
		}
	}
	bad := func(r res, what string) {
		c.Eval(1)
		if r.code == 0 {
			c.Fail("silent-failure", "%s: exit status 0", what)
		}
		if r.code < 0 || bytes.Contains([]byte(r.stderr), []byte("goroutine ")) {
			c.Fail("crash", "%s: crashed: %q", what, r.stderr)
		}
		if len(r.stderr) == 0 {
			c.Fail("no-diagnostic", "%s: exit %d but nothing on standard error", what, r.code)
		}
		c.Count("failures_reported", 1)
	}
	for i := 0; i < c.M(25, 300); i++ {
		c.Case(fmt.Sprintf("roundtrip-%d", i), func(r *rand.Rand) {
			dir, err := os.MkdirTemp(tmp, "rt")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			p := func(n string) string { return filepath.Join(dir, n) }
			var d []byte
			switch i {
			case 0:
			case 1:
				d = make([]byte, 256256)
			case 2:
				d = make([]byte, 3<<20)
				r.Read(d[1<<20 : 1<<20+70000])
			default:
				for k := r.Intn(30); k > 0; k-- {
					d = append(d, bytes.Repeat([]byte{byte(r.Intn(4))}, 1+r.Intn(700))...)
				}
				x := make([]byte, r.Intn(5000))
				r.Read(x)
				d = append(d, x...)
			}
			os.WriteFile(p("in.img"), d, 0o644)
			if r.Intn(2) == 0 { // outputs that already exist and are longer
				os.WriteFile(p("a.gz"), bytes.Repeat([]byte("old"), 400000), 0o644)
				os.WriteFile(p("out.img"), bytes.Repeat([]byte("old"), len(d)+100000), 0o644)
			}
			good(run(zip, dir, "in.img", "a.gz"), "zipimage")
			if b, _ := os.ReadFile(p("in.img")); !bytes.Equal(b, d) {
				c.Fail("input-modified", "zipimage modified its input")
			}
			a, err := os.ReadFile(p("a.gz"))
			if err != nil {
				c.Fail("no-output", "zipimage exited 0 without output: %v", err)
			}
			gz, err := gzip.NewReader(bytes.NewReader(a))
			if err != nil {
				c.Fail("archive", "zipimage output is no gzip: %v", err)
			}
			s, err := io.ReadAll(gz)
			dd, ok := unRLE(s)
			if err != nil || !ok || !bytes.Equal(dd, d) {
				c.Fail("archive", "zipimage output does not hold the image: %v %v %s", err, ok, h.FirstDiff(dd, d))
			}
			good(run(unzip, dir, "a.gz", "out.img"), "unzipimage")
			b, err := os.ReadFile(p("out.img"))
			if err != nil || !bytes.Equal(b, d) {
				c.Fail("roundtrip", "unzipimage(zipimage(x)) != x: %v %s", err, h.FirstDiff(b, d))
			}
			c.Count("roundtrips", 1)
			c.Distinct(len(d), h.Hex(d))
			c.Sample("image of %d bytes -> archive of %d", len(d), len(a))
			// damage
			for k := 0; k < c.N(3, 20); k++ {
				cut := r.Intn(len(a))
				os.WriteFile(p("bad.gz"), a[:cut], 0o644)
				bad(run(unzip, dir, "bad.gz", "o2"), fmt.Sprintf("unzipimage on an archive cut to %d of %d bytes", cut, len(a)))
				m := append([]byte(nil), a...)
				m[len(m)-1-r.Intn(8)] ^= 1 << uint(r.Intn(8))
				os.WriteFile(p("bad.gz"), m, 0o644)
				bad(run(unzip, dir, "bad.gz", "o2"), "unzipimage on an archive with a damaged trailer")
			}
			// a link, so that a tool replacing its output replaces only the link
			full := func() string {
				os.Remove(p("full"))
				os.Symlink("/dev/full", p("full"))
				return "full"
			}
			if len(d) > 0 {
				bad(run(unzip, dir, "a.gz", full()), "unzipimage to a full device")
			}
			bad(run(zip, dir, "in.img", full()), "zipimage to a full device")
			bad(run(unzip, dir, "in.img", "o3"), "unzipimage on something that is no archive")
			m := append([]byte(nil), a...)
			m[r.Intn(4)] ^= 0x55
			os.WriteFile(p("bad.gz"), m, 0o644)
			bad(run(unzip, dir, "bad.gz", "o4"), "unzipimage on an archive with a damaged header")
			bad(run(unzip, dir, "bad.gz", "nodir/o4"), "unzipimage with a bad archive and an output that cannot be created")
			for n, want := range map[string][]byte{"in.img": d, "a.gz": a, "bad.gz": m} {
				if b, err := os.ReadFile(p(n)); err != nil || !bytes.Equal(b, want) {
					c.Fail("input-modified", "the input %s was changed or removed: %v %s", n, err, h.FirstDiff(b, want))
				}
			}
		})
	}
	for i := 0; i < c.M(8, 60); i++ {
		c.Case(fmt.Sprintf("late-write-failure-%d", i), func(r *rand.Rand) {
			// The output may not grow beyond some size, so that a later
			// write fails or is short.
			dir, err := os.MkdirTemp(tmp, "late")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			p := func(n string) string { return filepath.Join(dir, n) }
			d := make([]byte, 300000+r.Intn(300000))
			r.Read(d)
			os.WriteFile(p("in.img"), d, 0o644)
			good(run(zip, dir, "in.img", "a.gz"), "zipimage")
			a, _ := os.ReadFile(p("a.gz"))
			for _, k := range []int{r.Intn(len(d) / 1024), (len(d) - 1) / 1024} {
				limited := func(bin string, args ...string) res {
					return run("/bin/bash", dir, append([]string{"-c", fmt.Sprintf(`ulimit -f %d; exec "$@"`, k), "sh", bin}, args...)...)
				}
				bad(limited(zip, "in.img", "big"), fmt.Sprintf("zipimage whose output cannot grow beyond %d KiB", k))
				bad(limited(unzip, "a.gz", "big2"), fmt.Sprintf("unzipimage whose output cannot grow beyond %d KiB", k))
			}
			for n, want := range map[string][]byte{"in.img": d, "a.gz": a} {
				if b, err := os.ReadFile(p(n)); err != nil || !bytes.Equal(b, want) {
					c.Fail("input-modified", "the input %s was changed or removed: %v %s", n, err, h.FirstDiff(b, want))
				}
			}
			c.Distinct("late", i)
		})
	}
	// What was written may be reported as lost only when the file is closed.
	c.Case("failing close", func(r *rand.Rand) {
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		dir, _ := os.MkdirTemp(tmp, "cl")
		defer os.RemoveAll(dir)
		for i := 0; i < 4; i++ {
			d := make([]byte, i*30000)
			r.Read(d)
			os.WriteFile(filepath.Join(dir, "in.img"), d, 0o644)
			good(run(zip, dir, "in.img", "a.gz"), "zipimage")
			for _, args := range [][]string{{zip, "in.img", "b.gz"}, {unzip, "a.gz", "out.img"}} {
				got := run(self, dir, append([]string{"-exec-with-failing-close"}, args...)...)
				if got.code == 99 {
					c.Count("close_unavailable", 1)
					continue
				}
				bad(got, filepath.Base(args[0])+" whose output fails to be closed")
				c.Count("failing_close", 1)
			}
		}
	})
	c.Case("usage", func(r *rand.Rand) {
		dir, _ := os.MkdirTemp(tmp, "us")
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "f"), []byte("hello"), 0o644)
		os.Mkdir(filepath.Join(dir, "d"), 0o755)
		for _, b := range []string{zip, unzip} {
			bad(run(b, dir), b+" without arguments")
			bad(run(b, dir, "f"), b+" with one argument")
			bad(run(b, dir, "f", "g", "x"), b+" with three arguments")
			if _, err := os.Stat(filepath.Join(dir, "g")); err == nil {
				c.Fail("usage-output", "%s wrote output despite a usage error", b)
			}
			bad(run(b, dir, "missing", "g"), b+" with a missing input")
			bad(run(b, dir, "f", "nodir/g"), b+" with an output that cannot be created")
			bad(run(b, dir, "f", "d"), b+" with a directory as output")
			bad(run(b, dir, "d", "g2"), b+" with a directory as input")
			// The output is the input, under the same or another name.
			os.Remove(filepath.Join(dir, "hard"))
			os.Remove(filepath.Join(dir, "soft"))
			os.Link(filepath.Join(dir, "f"), filepath.Join(dir, "hard"))
			os.Symlink("f", filepath.Join(dir, "soft"))
			for _, p := range [][2]string{{"f", "f"}, {"f", "./f"}, {"f", "d/../f"}, {"f", "hard"}, {"f", "soft"}, {"soft", "f"}, {"hard", "soft"}, {filepath.Join(dir, "f"), "f"}} {
				// Without a failure, the input must still be there.
				got := run(b, dir, p[0], p[1])
				now, err := os.ReadFile(filepath.Join(dir, "f"))
				if err != nil || string(now) != "hello" {
					c.Fail("input-overwritten", "%s %s %s (which are the same file) exited %d and destroyed its input: %v %q", filepath.Base(b), p[0], p[1], got.code, err, now)
				}
				c.Eval(1)
				c.Count("same_file", 1)
			}
			if b, err := os.ReadFile(filepath.Join(dir, "f")); err != nil || string(b) != "hello" {
				c.Fail("input-modified", "the input was changed or removed: %v %q", err, b)
			}
		}
		c.Distinct("usage")
	})
	c.Require("roundtrips", 20)
	c.Require("failures_reported", 100)
	c.Require("same_file", 16)
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-exec-with-failing-close" {
		h.BadRange{Close: true}.ExecUnder(os.Args[2:])
		os.Exit(99)
	}
	h.Main(&h.Prop{ID: "C07", Level: "exploration", Rule: "generated images through the two built binaries, then archive truncations, trailer damage, full devices, missing and uncreatable files, wrong argument counts; distinct by image", Run: c07})
}
