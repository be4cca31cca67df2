package driver

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"

	"verifharness/h"
)

type mon struct{ model, contract, handles, perms, faults, quiet bool }

type openFile struct {
	f, f2  driver.File
	n      *node // model object
	id     uint64
	flags  disko.IOFlags
	data   []byte
	pos    int64
	dirty  bool
	dir    bool
	closed bool
	// handles held
	hs []*handle
	// listing state
	started, ended bool
	after          map[string][]*node // what the directory held since it is listed again
	left           map[string]*node
	asListed       map[string]disko.FileStat // attributes when the listing began
	called         map[string]bool           // names it may go by; nil if anything goes
}

type op struct {
	kind   string
	p, q   string
	flags  disko.IOFlags
	perm   os.FileMode
	data   []byte
	n      int
	off    int64
	wh     int
	fi     int
	t1, t2 time.Time
}

func (o op) String() string {
	s := o.kind
	if strings.HasPrefix(o.kind, "f.") {
		s += fmt.Sprintf("[%d]", o.fi)
	} else if o.kind != "getwd" {
		s += fmt.Sprintf("(%q", o.p)
		if o.kind == "link" || o.kind == "samefile" {
			s += fmt.Sprintf(", %q", o.q)
		}
		s += ")"
	}
	switch o.kind {
	case "open":
		s += fmt.Sprintf(" flags %#x perm %v", int(o.flags), o.perm)
	case "mkdir", "mkdirall", "chmod", "f.chmod":
		s += fmt.Sprintf(" %v", o.perm)
	case "f.write", "f.writestring", "f.readfrom", "writefile":
		s += fmt.Sprintf(" %d bytes", len(o.data))
	case "f.writeat":
		s += fmt.Sprintf(" %d bytes at %d", len(o.data), o.off)
	case "f.read", "f.readdir", "f.readdir2", "f.readdirnames":
		s += fmt.Sprintf(" n=%d", o.n)
	case "f.readat":
		s += fmt.Sprintf(" n=%d at %d", o.n, o.off)
	case "f.truncate":
		s += fmt.Sprintf(" to %d", o.off)
	case "f.seek":
		s += fmt.Sprintf(" %d,%d", o.off, o.wh)
	}
	return s
}

type env struct {
	c         *h.Ctx
	m         mon
	fs        *memfs
	mod       *memfs // the model; nil when results are not judged
	drv       *driver.BaseDriver
	flags     disko.MountFlags
	hardlinks bool
	cwd       string
	files     []*openFile
	hist      []string
	counting  bool
	cur       string
	names     []string
	results   int
	missing   bool // the implementation may lack optional operations
}

type giveUp struct{}

// fail reports if the monitor is on; otherwise the history is abandoned.
func (e *env) fail(on bool, key, f string, a ...any) {
	if !on {
		e.c.Count("abandoned", 1)
		panic(giveUp{})
	}
	hs := e.hist
	if len(hs) > 40 {
		hs = hs[len(hs)-40:]
	}
	tr := e.fs.trace
	if len(tr) > 25 {
		tr = tr[len(tr)-25:]
	}
	e.c.Fail(key, "%s: %s\n  block size %d, mount flags %#x, cwd %q\n  history: %s\n  implementation calls of the last operation: %s", e.cur, fmt.Sprintf(f, a...), e.fs.bs, int(e.flags), e.cwd, strings.Join(hs, "; "), strings.Join(tr, ", "))
}

type conf struct {
	bs        int64
	flags     disko.MountFlags
	hardlinks bool
	model     bool
}

func newEnv(c *h.Ctx, m mon, cf conf, r *rand.Rand) *env {
	e := &env{c: c, m: m, flags: cf.flags, hardlinks: cf.hardlinks, cwd: "/", counting: true}
	e.fs = newMemfs(c, cf.bs)
	e.fs.flags = cf.flags
	if cf.model {
		e.mod = newMemfs(c, cf.bs)
	}
	e.fs.listDots = r.Intn(2) == 0
	if r.Intn(3) == 0 {
		e.fs.prealloc = int64(r.Intn(3))
	}
	if r.Intn(5) == 0 {
		e.fs.feat.HasAccessedTime = false
	}
	if r.Intn(5) == 0 {
		e.fs.feat.HasModifiedTime = false
	}
	e.fs.feat.HasCreatedTime = r.Intn(2) == 0
	e.fs.feat.HasChangedTime = r.Intn(2) == 0
	e.fs.feat.HasDeletedTime = r.Intn(2) == 0
	e.fs.feat.HasUserPermissions = r.Intn(2) == 0
	if r.Intn(12) == 0 {
		e.fs.feat.HasUnixPermissions = false
	}
	e.fs.identity = r.Intn(len(identities))
	e.fs.feat.HasHardLinks = cf.hardlinks
	if cf.hardlinks {
		e.drv = driver.New(linkfs{e.fs}, cf.flags)
	} else {
		e.drv = driver.New(e.fs, cf.flags)
	}
	e.names = vocabulary(r)
	return e
}

// vocabulary is four names for the objects of a history.
func vocabulary(r *rand.Rand) []string {
	v := []string{"a", "b", "c", "d"}
	switch r.Intn(9) {
	case 0:
		// Alike up to a length some systems stop looking at.
		p := strings.Repeat("L", []int{7, 8, 12, 14, 30, 63, 127, 254, 255, 256, 300}[r.Intn(11)])
		return []string{p + "1", p + "2", p, p + "1x"}
	case 1, 2, 3:
		odd := []string{".a", "..x", "...", ".b.", "c.", "d d", " ", "é", "A", "-", "~", "\\", "a\x00", strings.Repeat("n", 255), strings.Repeat("x", 64), "..", "*", "lost+found", "%s", ". ", "..", "e\n", "\t", "\n", "\xff", "f\r\n", "a"}
		for i := range v {
			if r.Intn(2) == 0 {
				if n := odd[r.Intn(len(odd))]; n != ".." {
					v[i] = n
				}
			}
		}
	}
	return v
}

// plant puts an object into the volume and the model behind the driver's back.
func (e *env) plant(p string, mode os.FileMode, data []byte) {
	for _, m := range []*memfs{e.fs, e.mod} {
		if m == nil {
			continue
		}
		dir, base := split(p)
		d := m.resolve(dir, false)
		if d.err != nil || !d.n.isDir() || d.n.ch[base] != nil {
			return
		}
		n := m.mk(mode)
		d.n.attach(base, n)
		if !n.isDir() {
			m.setData(n, data)
		}
	}
	e.hist = append(e.hist, fmt.Sprintf("(volume has %q %v %d bytes %.40q)", p, mode, len(data), data))
}

// plantHard gives the file p another name, behind the driver's back as well.
func (e *env) plantHard(p, q string) {
	for _, m := range []*memfs{e.fs, e.mod} {
		if m == nil {
			continue
		}
		f := m.resolve(p, false)
		dir, base := split(q)
		d := m.resolve(dir, false)
		if f.err != nil || f.n.isDir() || d.err != nil || !d.n.isDir() || d.n.ch[base] != nil {
			return
		}
		d.n.attach(base, f.n)
	}
	e.hist = append(e.hist, fmt.Sprintf("(volume has %q as another name of %q)", q, p))
}

func (e *env) link(p, text string) { e.plant(p, os.ModeSymlink|0o777, []byte(text)) }

// exec runs one operation on the driver.
func (e *env) exec(o *op) (r *result) {
	r = &result{}
	d := e.drv
	switch o.kind {
	case "stat":
		r.stat, r.err = d.Stat(o.p)
	case "lstat":
		r.stat, r.err = d.Lstat(o.p)
	case "readdir":
		var es []disko.DirectoryEntry
		es, r.err = d.ReadDir(o.p)
		r.entries(es)
	case "readfile":
		r.data, r.err = d.ReadFile(o.p)
		e.c.Keep("ReadFile", r.data)
	case "readlink":
		r.str, r.err = d.Readlink(o.p)
	case "chdir":
		r.err = d.Chdir(o.p)
	case "getwd":
		r.str, r.err = d.Getwd()
	case "mkdir":
		r.err = d.Mkdir(o.p, o.perm)
	case "mkdirall":
		r.err = d.MkdirAll(o.p, o.perm)
	case "remove":
		r.err = d.Remove(o.p)
	case "removeall":
		r.err = d.RemoveAll(o.p)
	case "link":
		r.err = d.Link(o.p, o.q)
	case "chmod":
		r.err = d.Chmod(o.p, o.perm)
	case "chown":
		r.err = d.Chown(o.p, o.n, int(o.off))
	case "lchown":
		r.err = d.Lchown(o.p, o.n, int(o.off))
	case "chtimes":
		r.err = d.Chtimes(o.p, o.t1, o.t2)
	case "truncate":
		r.err = d.Truncate(o.p)
	case "writefile":
		r.err = d.WriteFile(o.p, o.data, o.perm)
	case "create", "open":
		var f driver.File
		fl := o.flags
		if o.kind == "create" {
			f, r.err = d.Create(o.p)
			fl = disko.O_RDWR | disko.O_CREATE | disko.O_EXCL
		} else if o.flags == disko.O_RDONLY && o.perm == 0 {
			f, r.err = d.Open(o.p)
		} else {
			f, r.err = d.OpenFile(o.p, o.flags, o.perm)
		}
		if r.err == nil {
			r.of = &openFile{f: f, f2: f, flags: fl}
		}
	case "samefile":
		var f1, f2 driver.File
		f1, r.err = d.Open(o.p)
		if r.err != nil {
			return
		}
		f2, r.err = d.Open(o.q)
		if r.err != nil {
			f1.Close()
			return
		}
		s1, e1 := f1.Stat()
		for _, m := range []*memfs{e.fs, e.mod}[:2*o.n] { // the file changes in the meantime
			if m == nil { // no model in this run
				continue
			}
			if fd := m.resolve(norm(e.cwd, o.q), true); fd.err == nil {
				fd.n.mtime = fd.n.mtime.Add(12345 * time.Second)
				fd.n.atime = fd.n.atime.Add(54321 * time.Second)
				fd.n.mode ^= 0o111
				fd.n.uid++
			}
		}
		s2, e2 := f2.Stat()
		if e1 == nil && e2 == nil {
			// The size may have changed in the meantime, too.
			if fi, ok := s2.(*driver.FileInfo); ok && o.n > 0 {
				later := *fi
				later.FileStat.Size += int64(o.n) * 37
				later.FileStat.NumBlocks += int64(o.n)
				s2 = &later
			}
			r.same = d.SameFile(s1, s2)
		}
		r.err = errors.Join(e1, e2, f1.Close(), f2.Close())
	default:
		e.execFile(o, r)
	}
	return
}

func (r *result) entries(es []disko.DirectoryEntry) {
	if r.err != nil {
		return
	}
	r.ents = len(es)
	for _, x := range es {
		if x == nil {
			r.err = errors.New("harness: the listing has an empty entry")
			return
		}
		r.names = append(r.names, x.Name())
		r.stats = append(r.stats, x.Stat())
		r.types = append(r.types, x.Type())
		fi, err := x.Info()
		if err != nil {
			r.err = err
			return
		}
		r.infos = append(r.infos, fi)
	}
}

func (e *env) execFile(o *op, r *result) {
	of := e.files[o.fi]
	f := &of.f
	// A File is a value, and copies of it are the same open file. Only where
	// its listing stands is each copy's own.
	if !strings.Contains(o.kind, "readdir") && len(e.hist)%5 == 0 || of.closed && len(e.hist)%2 == 0 {
		f = &of.f2
	}
	switch o.kind {
	case "f.read", "f.readat":
		b := bytes.Repeat([]byte{0xEE}, o.n)
		var n int
		if o.kind == "f.read" {
			n, r.err = f.Read(b)
		} else {
			n, r.err = f.ReadAt(b, o.off)
		}
		r.data = b[:n]
	case "f.write":
		var n int
		n, r.err = f.Write(o.data)
		r.n = int64(n)
	case "f.writestring":
		var n int
		n, r.err = f.WriteString(string(o.data))
		r.n = int64(n)
	case "f.writeat":
		var n int
		n, r.err = f.WriteAt(o.data, o.off)
		r.n = int64(n)
	case "f.readfrom":
		r.n, r.err = f.ReadFrom(bytes.NewReader(o.data))
	case "f.writeto":
		var b bytes.Buffer
		r.n, r.err = f.WriteTo(&b)
		r.data = b.Bytes()
	case "f.seek":
		r.n, r.err = f.Seek(o.off, o.wh)
	case "f.truncate":
		r.err = f.Truncate(o.off)
	case "f.sync":
		r.err = f.Sync()
	case "f.close":
		r.err = f.Close()
	case "f.stat":
		var fi os.FileInfo
		fi, r.err = f.Stat()
		r.infos = []os.FileInfo{fi}
	case "f.name":
		r.str = f.Name()
	case "f.chdir":
		r.err = f.Chdir()
	case "f.chmod":
		r.err = f.Chmod(o.perm)
	case "f.chown":
		r.err = f.Chown(o.n, int(o.off))
	case "f.readdir":
		es, err := f.ReadDir(o.n)
		r.err = err
		if err != nil {
			return
		}
		r.ents = len(es)
		for _, x := range es {
			if x == nil {
				r.err = errors.New("harness: the listing has an empty entry")
				return
			}
			r.names = append(r.names, x.Name())
			r.types = append(r.types, x.Type())
			fi, err := x.Info()
			if err != nil {
				r.err = err
				return
			}
			r.infos = append(r.infos, fi)
		}
	case "f.readdir2":
		r.infos, r.err = f.Readdir(o.n)
		for _, fi := range r.infos {
			if fi == nil {
				r.err = errors.New("harness: the listing has an empty entry")
				return
			}
			r.names = append(r.names, fi.Name())
		}
		r.ents = len(r.infos)
	case "f.readdirnames":
		r.names, r.err = f.Readdirnames(o.n)
		r.ents = len(r.names)
	default:
		panic("harness: unknown op " + o.kind)
	}
}

// step runs an operation under all monitors. It reports whether it ran.
func (e *env) step(o op) (*result, bool) {
	var x exp
	var called map[string]bool
	if e.mod != nil {
		x = e.predict(&o)
		if x.skip {
			return nil, false
		}
		if o.kind == "open" || o.kind == "create" {
			// The name it was opened by, or that of what a link leads to.
			p := norm(e.cwd, o.p)
			if fd := e.mod.resolve(p, true); p != "/" && fd.canon != "/" && fd.n != e.mod.root {
				called = map[string]bool{path.Base(p): true, fd.base: true}
				if fd.canon != "" {
					called[path.Base(fd.canon)] = true
				}
			}
		}
		if e.missing {
			x = e.withoutFeatures(&o, x)
		}
	}
	e.cur = o.String()
	e.hist = append(e.hist, e.cur)
	e.c.Logf("%s", e.cur)
	e.c.Count("ops", 1)
	e.fs.op++
	e.fs.opCalls = 0
	e.fs.fired, e.fs.trace, e.fs.mutations = nil, nil, nil
	e.fs.listing = strings.Contains(o.kind, "readdir") || o.kind == "removeall"
	closing := (*openFile)(nil)
	if o.kind == "f.close" {
		closing = e.files[o.fi]
	}
	var before string
	if e.m.perms || e.m.quiet {
		before = e.fs.snapshot(nil)
	}
	wasClosed := e.isClosed(&o) && o.kind != "f.name"
	r := e.exec(&o)
	e.results++
	if r.of != nil {
		r.of.called = called
	}
	e.c.Distinct(o.kind, int(o.flags), r.err == nil, errClass(r.err), len(e.fs.trace), e.fs.bs)
	if r.err != nil {
		e.c.Count("op_errors", 1)
	}

	// What becomes of a handle that does not close is up to the operation,
	// unless it is what was asked for.
	if e.m.faults && len(e.fs.fired) > 0 && (!e.fs.failClose || o.kind == "f.close") {
		e.c.Count("faults_fired", 1)
		if r.err == nil {
			e.fail(true, "fault-lost", "%v failed but the operation reported success", e.fs.fired)
		} else if !errors.Is(r.err, errInjected) {
			e.fail(true, "fault-identity", "%v failed but the operation reported %q, in which the failure cannot be recognised", e.fs.fired, r.err)
		}
	}
	// What the implementation saw.
	// (Only D04 and D05 judge this; the others go on to see what comes of it.)
	if len(e.fs.contract) > 0 && e.m.contract {
		e.fail(true, "contract", "%s", strings.Join(e.fs.contract, "; "))
	}
	if len(e.fs.lifecycle) > 0 && e.m.handles {
		e.fail(true, "handle-use", "%s", strings.Join(e.fs.lifecycle, "; "))
	}
	if e.m.handles {
		e.leaks(&o, r, closing)
	}
	if wasClosed && e.mod == nil {
		e.c.Count("uses_of_closed_files", 1)
		if r.err == nil {
			e.fail(e.m.handles, "closed-file", "succeeded although the file was closed before")
		}
	}
	if e.m.perms {
		e.c.Count("permission_checks", 1)
		e.c.Count("mutations", int64(len(e.fs.mutations)))
		if len(e.fs.denied) > 0 {
			e.fail(true, "not-allowed", "made changes the mount permissions don't allow: %v", e.fs.denied)
		}
	}
	if e.m.quiet {
		e.c.Count("quiet_checks", 1)
		if len(e.fs.mutations) > 0 {
			e.fail(true, "query-wrote", "a query made modifying calls: %v", e.fs.mutations)
		}
		if after := e.fs.snapshot(nil); after != before {
			e.fail(true, "query-changed", "a query changed the volume:\n%s", lineDiff(after, before))
		}
	}
	if closing != nil {
		closing.closed = true
	}
	if e.mod == nil {
		if r.of != nil {
			e.files = append(e.files, r.of)
		}
		return r, true
	}
	e.judge(&o, x, r, before)
	return r, true
}

func errClass(err error) string {
	for _, k := range []error{nil, io.EOF, disko.ErrExists, disko.ErrNotFound, disko.ErrNotADirectory, disko.ErrIsADirectory, disko.ErrDirectoryNotEmpty,
		disko.ErrLinkCycleDetected, disko.ErrNotPermitted, disko.ErrReadOnlyFileSystem, disko.ErrPermissionDenied} {
		if k == err || (k != nil && errors.Is(err, k)) {
			return fmt.Sprint(k)
		}
	}
	return "other"
}

func (e *env) judge(o *op, x exp, r *result, before string) {
	on := e.m.model
	lacking := x.ok && x.need&^e.flags != 0
	switch {
	case lacking:
		e.c.Count("refusals", 1)
		if r.err == nil {
			e.fail(on || e.m.perms, "not-refused", "succeeded; it needs mount permissions %#x", int(x.need))
		}
	case r.err == nil:
		if !x.ok {
			e.fail(on, "succeeded", "succeeded, expected the error %v", x.errs)
		}
		if x.apply != nil {
			x.apply(r)
		}
		if x.check != nil {
			if m := x.check(r); m != "" {
				e.fail(on, "result", "%s", m)
			}
		}
	default:
		match := x.anyErr
		for _, w := range x.errs {
			if errors.Is(r.err, w) {
				match = true
			}
		}
		if !match && !x.ok && errors.Is(r.err, disko.ErrReadOnlyFileSystem) && o.mayNeed()&^e.flags != 0 {
			match = true // refused before looking at anything else
		}
		if !match {
			if len(x.errs) == 0 {
				e.fail(on || (e.m.perms && errors.Is(r.err, disko.ErrReadOnlyFileSystem)), "failed", "failed: %v", r.err)
			}
			e.fail(on, "wrong-error", "failed with %q, expected %v", r.err, x.errs)
		}
		if x.check != nil && len(x.errs) == 1 && x.errs[0] == io.EOF && errors.Is(r.err, io.EOF) {
			if m := x.check(r); m != "" {
				e.fail(on, "result", "%s", m)
			}
		}
	}
	if r.of != nil {
		e.files = append(e.files, r.of)
		if r.of.n == nil {
			e.fail(on, "succeeded", "opened something the model does not expect")
		}
	}
	if lacking && before != "" {
		if after := e.fs.snapshot(nil); after != before {
			e.fail(e.m.perms, "refused-but-changed", "was refused but changed the volume:\n%s", lineDiff(after, before))
		}
	}
	skip := map[uint64]bool{}
	for _, f := range e.files {
		if !f.closed && f.dirty {
			skip[f.id] = true
		}
	}
	got, exp := e.fs.snapshot(skip), e.mod.snapshot(skip)
	e.c.Count("tree_snapshots", 1)
	if got != exp {
		e.fail(on || e.m.perms, "tree", "the volume differs from the model:\n%s", lineDiff(got, exp))
	}
	if wd, _ := e.drv.Getwd(); wd != e.cwd {
		e.fail(on, "cwd", "the working directory changed from %q to %q", e.cwd, wd)
	}
}

// mayNeed is the set of mount permissions an operation of this kind can require.
func (o *op) mayNeed() disko.MountFlags {
	switch o.kind {
	case "chmod", "chown", "lchown", "f.chmod", "f.chown":
		return disko.MountFlagsAllowAdminister
	case "remove", "removeall":
		return disko.MountFlagsAllowDelete
	case "mkdir", "mkdirall", "link":
		return disko.MountFlagsAllowInsert
	case "truncate", "chtimes":
		return disko.MountFlagsAllowWrite
	case "create", "writefile":
		return disko.MountFlagsAllowInsert | disko.MountFlagsAllowWrite
	case "open":
		var m disko.MountFlags
		if o.flags.RequiresWritePerm() {
			m |= disko.MountFlagsAllowWrite
		}
		if o.flags.Create() {
			m |= disko.MountFlagsAllowInsert
		}
		return m
	}
	return 0
}

func lineDiff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	in := func(s string, l []string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	var b strings.Builder
	for _, s := range g {
		if !in(s, w) {
			fmt.Fprintf(&b, "    has:      %s\n", s)
		}
	}
	for _, s := range w {
		if !in(s, g) {
			fmt.Fprintf(&b, "    expected: %s\n", s)
		}
	}
	return b.String()
}

// leaks checks that handles opened by this operation were released.
func (e *env) leaks(o *op, r *result, closing *openFile) {
	e.c.Count("leak_checks", 1)
	var fresh []*handle
	for _, hd := range e.fs.openHandles() {
		if hd.op == e.fs.op {
			fresh = append(fresh, hd)
		}
		if closing != nil && hd.file == closing {
			e.fail(true, "leak-close", "the handle of object %d (%s) is still open after the file was closed", hd.n.id, hd.name)
		}
	}
	if len(fresh) == 0 {
		return
	}
	if r.of != nil {
		for _, hd := range fresh {
			hd.file = r.of
		}
		if len(fresh) > 1 {
			// Only the file's own object may stay open.
			for _, hd := range fresh {
				if hd.n.id != fresh[len(fresh)-1].n.id {
					e.fail(true, "leak-open", "opening left the handle of object %d (%s) open besides the file's", hd.n.id, hd.name)
				}
			}
		}
		return
	}
	e.fail(true, "leak", "left the handle of object %d (%s) open (operation result: %v)", fresh[0].n.id, fresh[0].name, r.err)
}

// ---------------------------------------------------------------- generation

type gen struct {
	r      *rand.Rand
	names  []string
	depth  int
	kinds  []string
	noJunk bool
	perms  bool
	times  bool // any time stamps, not only common ones
}

var fileOps = []string{"f.read", "f.read", "f.readat", "f.write", "f.write", "f.write", "f.writeat", "f.writeat", "f.writestring", "f.readfrom", "f.writeto", "f.seek", "f.seek", "f.truncate", "f.truncate",
	"f.sync", "f.close", "f.close", "f.stat", "f.name"}
var nsOps = []string{"stat", "lstat", "readdir", "readfile", "chdir", "getwd", "mkdir", "mkdir", "mkdirall", "remove", "remove", "removeall", "link", "writefile", "writefile", "create", "open", "open", "truncate", "samefile"}
var attrOps = []string{"chmod", "chown", "lchown", "chtimes", "f.chmod", "f.chown"}
var dirOps = []string{"f.readdir", "f.readdir2", "f.readdirnames", "f.chdir"}
var queryOps = []string{"stat", "lstat", "readdir", "readfile", "readlink", "chdir", "getwd", "open", "samefile", "f.read", "f.readat", "f.writeto", "f.seek", "f.sync", "f.close", "f.stat", "f.name",
	"f.readdir", "f.readdir2", "f.readdirnames", "f.chdir"}

// vol is the volume to draw paths from.
func (e *env) vol() *memfs {
	if e.mod != nil {
		return e.mod
	}
	return e.fs
}

func (g *gen) path(e *env) string {
	r := g.r
	p := ""
	cur := e.vol().root
	for i := 0; i <= r.Intn(g.depth+1); i++ {
		var name string
		if cur != nil && len(cur.order) > 0 && r.Intn(4) != 0 {
			name = cur.order[r.Intn(len(cur.order))]
		} else {
			name = g.names[r.Intn(len(g.names))]
		}
		p += "/" + name
		if cur != nil {
			cur = cur.ch[name]
			if cur != nil && cur.isLink() {
				if f := e.vol().resolve(p, true); f.err == nil {
					cur = f.n
				} else {
					cur = nil
				}
			}
		}
	}
	if r.Intn(25) == 0 {
		p = "/"
	}
	// As a relative path.
	if r.Intn(4) == 0 {
		if e.cwd != "/" && strings.HasPrefix(p, e.cwd+"/") {
			p = p[len(e.cwd)+1:]
		} else {
			up := strings.Count(e.cwd, "/")
			p = strings.Repeat("../", up) + p[1:]
			if p == "" {
				p = "."
			}
		}
	}
	if !g.noJunk && r.Intn(5) == 0 {
		cs := strings.Split(p, "/")
		i := r.Intn(len(cs) + 1)
		junk := [][]string{{"."}, {""}, {"zz", ".."}, {".", "."}, {"..", "."}}[r.Intn(5)]
		if i == 0 && strings.HasPrefix(p, "/") {
			i = 1
		}
		if i == 0 && junk[0] == "" {
			junk = []string{"."}
		}
		cs = append(cs[:i:i], append(append([]string(nil), junk...), cs[i:]...)...)
		p = strings.Join(cs, "/")
	}
	return p
}

func fill(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + r.Intn(255))
	}
	return b
}

func (g *gen) op(e *env) op {
	r := g.r
	o := op{kind: g.kinds[r.Intn(len(g.kinds))]}
	if strings.HasPrefix(o.kind, "f.") {
		o.fi = -1
		for i := 0; i < 6; i++ {
			if len(e.files) == 0 {
				break
			}
			o.fi = r.Intn(len(e.files))
			f := e.files[o.fi]
			isList := strings.HasPrefix(o.kind, "f.readdir")
			if !f.closed && f.dir == isList {
				break
			}
		}
		if o.fi < 0 {
			o.kind = "open"
		}
	}
	o.p, o.q = g.path(e), g.path(e)
	bs := e.fs.bs
	sz := func() int64 {
		switch r.Intn(5) {
		case 0:
			return bs * int64(r.Intn(4))
		case 1:
			return max(0, bs*int64(r.Intn(4))+int64(r.Intn(3))-1)
		}
		return int64(r.Intn(int(3*bs + 2)))
	}
	o.perm = os.FileMode(r.Intn(0o1000))
	if (o.kind == "mkdir" || o.kind == "mkdirall" || o.kind == "chmod" || o.kind == "f.chmod") && r.Intn(3) == 0 {
		o.perm |= []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeDir | os.ModeTemporary, os.ModeNamedPipe}[r.Intn(4)]
		if o.kind == "mkdir" || o.kind == "mkdirall" {
			o.perm &^= os.ModeTemporary
		}
	}
	switch o.kind {
	case "mkdir", "mkdirall", "writefile", "open":
		if r.Intn(6) == 0 {
			o.perm |= []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky}[r.Intn(3)]
		}
	}
	switch o.kind {
	case "open":
		o.flags = disko.IOFlags(r.Intn(3))
		if r.Intn(2) == 0 {
			o.flags |= disko.O_CREATE
		}
		if r.Intn(6) == 0 {
			o.flags |= disko.O_EXCL
		}
		if r.Intn(5) == 0 && o.flags.Write() {
			o.flags |= disko.O_TRUNC
		}
		if r.Intn(6) == 0 {
			o.flags |= disko.O_APPEND
		}
		if r.Intn(5) == 0 {
			o.flags |= disko.O_SYNC
		}
		if r.Intn(4) == 0 {
			o.flags = disko.O_RDONLY
			o.perm = 0
		}
		if r.Intn(8) == 0 && o.perm != 0 {
			o.perm |= []os.FileMode{os.ModeDir, os.ModeSymlink}[r.Intn(2)]
		}
	case "f.read", "f.readat":
		o.n, o.off = int(sz()), sz()
		if o.kind == "f.readat" && r.Intn(15) == 0 {
			o.off = 1 << 40
		}
	case "f.write", "f.writestring", "f.writeat", "f.readfrom", "writefile":
		o.data = fill(r, int(sz()))
		o.off = sz()
	case "f.seek":
		o.wh = r.Intn(3)
		o.off = sz()
		if o.wh == 2 {
			o.off = int64(r.Intn(int(2*bs))) - bs
		} else if r.Intn(20) == 0 {
			o.off = -sz() - 1
		}
	case "f.truncate":
		o.off = sz()
	case "samefile":
		if e.mod != nil {
			o.n = r.Intn(2)
		}
	case "chown", "lchown", "f.chown":
		o.n, o.off = r.Intn(100), int64(r.Intn(100))
		if r.Intn(6) == 0 {
			o.n = -1
		}
		if r.Intn(6) == 0 {
			o.off = -1
		}
		if g.times && r.Intn(4) == 0 { // all the way up
			o.n, o.off = int(r.Uint32()>>r.Intn(32)), int64(r.Uint32()>>r.Intn(32))
		}
	case "chtimes":
		o.t1, o.t2 = time.Unix(int64(r.Intn(1<<30)), 0), time.Unix(int64(r.Intn(1<<30)), 0)
		if g.times {
			// Any instant, in any zone.
			for _, t := range []*time.Time{&o.t1, &o.t2} {
				switch r.Intn(6) {
				case 0:
					*t = time.Unix(r.Int63n(1<<35)-1<<34, r.Int63n(1e9))
				case 1:
					*t = time.Unix(r.Int63n(3)-1, r.Int63n(2))
				case 2:
					*t = t.In(time.FixedZone("x", r.Intn(80000)-40000)).Add(time.Duration(r.Int63n(1e9)))
				case 3:
					*t = time.Time{}.Add(time.Duration(1 + r.Int63n(3)))
				}
			}
			if r.Intn(6) == 0 {
				o.t2 = o.t1
			}
		}
		if r.Intn(5) == 0 {
			o.t1 = time.Time{}
		}
		if r.Intn(5) == 0 {
			o.t2 = time.Time{}
		}
	case "f.readdir", "f.readdir2", "f.readdirnames":
		o.n = r.Intn(6) - 1
	}
	return o
}

// finish closes every open file.
func (e *env) finish() {
	for i, f := range e.files {
		if !f.closed {
			e.step(op{kind: "f.close", fi: i})
		}
	}
	if e.m.handles {
		for _, hd := range e.fs.openHandles() {
			e.cur = "end of history"
			e.fail(true, "leak-end", "the handle of object %d (%s) is open although every file was closed", hd.n.id, hd.name)
		}
	}
}

var closedOps = []string{"f.read", "f.readat", "f.write", "f.writeat", "f.writestring", "f.readfrom", "f.writeto", "f.seek", "f.truncate", "f.sync", "f.close", "f.stat",
	"f.chmod", "f.chown", "f.chdir", "f.readdir", "f.readdir2", "f.readdirnames"}

// useClosed tries some operations on every file, all of which are closed.
func (e *env) useClosed(g *gen) {
	kinds := g.kinds
	g.kinds = closedOps
	defer func() { g.kinds = kinds }()
	for i := range e.files {
		for n := 0; n < 5; n++ {
			o := g.op(e)
			o.fi = i
			e.raw(o)
		}
	}
}

// guard runs one history; abandoned histories end quietly.
func guard(f func()) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(giveUp); ok {
				return
			}
			panic(v)
		}
	}()
	f()
}

var epoch = time.Unix(12345678, 0)
