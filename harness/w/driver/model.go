package driver

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko"
)

// norm is the reference path normaliser.
func norm(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	var st []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, c)
		}
	}
	return "/" + strings.Join(st, "/")
}

func split(p string) (dir, base string) {
	i := strings.LastIndex(p, "/")
	return norm("/", p[:i]), p[i+1:]
}

type found struct {
	n      *node
	canon  string
	parent *node // directory of the last component, if resolution got that far
	base   string
	links  int
	err    error
}

// resolve walks a normalised absolute path the POSIX way.
func (m *memfs) resolve(p string, follow bool) (f found) {
	type el struct {
		n    *node
		name string
	}
	st := []el{{m.root, ""}}
	comps := strings.Split(p, "/")
	for len(comps) > 0 {
		c := comps[0]
		comps = comps[1:]
		if c == "" || c == "." {
			continue
		}
		cur := st[len(st)-1].n
		if !cur.isDir() {
			f.err = disko.ErrNotADirectory
			return
		}
		if c == ".." {
			if len(st) > 1 {
				st = st[:len(st)-1]
			}
			continue
		}
		last := true
		for _, r := range comps {
			if r != "" && r != "." {
				last = false
			}
		}
		ch := cur.ch[c]
		if last {
			f.parent, f.base = cur, c
		}
		if ch == nil {
			f.err = disko.ErrNotFound
			return
		}
		if ch.isLink() && (!last || follow) {
			f.links++
			if f.links > 3000 {
				f.parent = nil
				f.err = disko.ErrLinkCycleDetected
				return
			}
			// Parent components are resolved lexically, in link texts too.
			dir := ""
			for _, e := range st[1:] {
				dir += "/" + e.name
			}
			st = st[:1]
			comps = append(strings.Split(norm(dir, string(ch.contents())), "/"), comps...)
			continue
		}
		st = append(st, el{ch, c})
	}
	for _, e := range st[1:] {
		f.canon += "/" + e.name
	}
	if f.canon == "" {
		f.canon = "/"
	}
	f.n = st[len(st)-1].n
	return
}

// exp is what the model expects of an operation.
type exp struct {
	ok     bool             // success is acceptable
	errs   []error          // acceptable errors
	anyErr bool             // any error is acceptable
	need   disko.MountFlags // mount permissions required for success
	apply  func(r *result)  // effect on success
	check  func(r *result) string
	skip   bool
}

type result struct {
	err   error
	stat  disko.FileStat
	stats []disko.FileStat
	infos []os.FileInfo
	names []string
	types []os.FileMode
	ents  int
	data  []byte
	str   string
	n     int64
	of    *openFile
	same  bool
}

func want(errs ...error) exp { return exp{errs: errs} }

// linkLimit is how many links must be followed before giving up is acceptable.
const linkLimit = 32

// at makes the expectation for an operation on an existing object.
func (e *env) at(p string, follow bool, f func(n *node, fd found) exp) exp {
	fd := e.mod.resolve(p, follow)
	var x exp
	if fd.err != nil {
		x = want(fd.err)
	} else {
		x = f(fd.n, fd)
	}
	if fd.links > linkLimit {
		x.errs = append(x.errs, disko.ErrLinkCycleDetected)
	}
	if fd.links > 0 && e.counting {
		e.c.Count("links_followed", int64(min(fd.links, 100)))
		if errors.Is(fd.err, disko.ErrLinkCycleDetected) {
			e.c.Count("cycles", 1)
		}
	}
	return x
}

func (e *env) statMsg(got disko.FileStat, n *node) string {
	switch {
	case got.InodeNumber != n.id:
		return fmt.Sprintf("describes object %d, expected %d", got.InodeNumber, n.id)
	case got.ModeFlags != n.mode:
		return fmt.Sprintf("mode %v, expected %v", got.ModeFlags, n.mode)
	case !n.isDir() && !e.openFor(n.id) && got.Size != n.size:
		return fmt.Sprintf("size %d, expected %d", got.Size, n.size)
	case got.Uid != uint32(n.uid) || got.Gid != uint32(n.gid):
		return fmt.Sprintf("owner %d:%d, expected %d:%d", got.Uid, got.Gid, n.uid, n.gid)
	case !got.LastModified.Equal(n.mtime) || !got.LastAccessed.Equal(n.atime):
		return fmt.Sprintf("times %v %v, expected %v %v", got.LastModified, got.LastAccessed, n.mtime, n.atime)
	}
	w := n.stat(e.mod)
	w.LastModified, w.LastAccessed = got.LastModified, got.LastAccessed // compared above
	w.Size, w.NumBlocks = got.Size, got.NumBlocks                       // depend on what is open, and on the implementation
	if got != w {
		return fmt.Sprintf("says %+v, expected %+v", got, w)
	}
	return ""
}

// openFor says whether a file is open with changes that are not stored yet.
func (e *env) openFor(id uint64) bool {
	for _, f := range e.files {
		if !f.closed && f.id == id && f.dirty {
			return true
		}
	}
	return false
}

func (e *env) isOpen(id uint64) bool {
	for _, f := range e.files {
		if !f.closed && f.id == id {
			return true
		}
	}
	return false
}

func (e *env) isOpenWrite(id uint64) bool {
	for _, f := range e.files {
		if !f.closed && f.id == id && f.flags.Write() {
			return true
		}
	}
	return false
}

// anyOpen says whether n or anything below it is open.
func (e *env) anyOpen(n *node) bool {
	if e.isOpen(n.id) {
		return true
	}
	for _, c := range n.ch {
		if e.anyOpen(c) {
			return true
		}
	}
	return false
}

func (e *env) entriesMsg(r *result, d *node) string {
	wantN := map[string]*node{}
	for k, v := range d.ch {
		wantN[k] = v
	}
	seen := map[string]bool{}
	for i, name := range r.names {
		if seen[name] {
			return fmt.Sprintf("entry %q listed twice", name)
		}
		seen[name] = true
		n := wantN[name]
		if n == nil {
			return fmt.Sprintf("unexpected entry %q", name)
		}
		if m := e.entryMsg(r, i, n); m != "" {
			return fmt.Sprintf("entry %q: %s", name, m)
		}
	}
	if len(seen) != len(wantN) {
		return fmt.Sprintf("lists %d entries %v, directory has %d", len(seen), r.names, len(wantN))
	}
	return ""
}

func (e *env) entryMsg(r *result, i int, n *node) string {
	if r.stats != nil {
		if m := e.statMsg(r.stats[i], n); m != "" {
			return m
		}
	}
	if r.types != nil && r.types[i] != n.mode.Type() {
		return fmt.Sprintf("type %v, expected %v", r.types[i], n.mode.Type())
	}
	if r.infos != nil {
		fi := r.infos[i]
		if fi.Name() != r.names[i] || fi.IsDir() != n.isDir() || fi.Mode() != n.mode || !fi.ModTime().Equal(n.mtime) || (!n.isDir() && !e.openFor(n.id) && fi.Size() != n.size) {
			return fmt.Sprintf("info name=%q dir=%v mode=%v size=%d mtime=%v, expected mode %v size %d mtime %v", fi.Name(), fi.IsDir(), fi.Mode(), fi.Size(), fi.ModTime(), n.mode, n.size, n.mtime)
		}
		if st, ok := fi.Sys().(disko.FileStat); ok {
			if m := e.statMsg(st, n); m != "" {
				return "Sys() " + m
			}
		}
	}
	return ""
}

// creation is the expectation for making something at p.
func (e *env) creation(p string) (exp, found, bool) {
	fd := e.mod.resolve(p, false)
	if fd.err == nil {
		return want(disko.ErrExists), fd, false
	}
	if fd.err != disko.ErrNotFound || fd.parent == nil {
		x := want(fd.err)
		if fd.links > linkLimit {
			x.errs = append(x.errs, disko.ErrLinkCycleDetected)
		}
		return x, fd, false
	}
	x := exp{ok: true, need: disko.MountFlagsAllowInsert}
	if fd.links > linkLimit {
		x.errs = append(x.errs, disko.ErrLinkCycleDetected)
	}
	return x, fd, true
}

func (e *env) predict(o *op) exp {
	p := norm(e.cwd, o.p)
	switch o.kind {
	case "stat", "lstat":
		return e.at(p, o.kind == "stat", func(n *node, _ found) exp {
			return exp{ok: true, check: func(r *result) string { return e.statMsg(r.stat, n) }}
		})
	case "readdir":
		return e.at(p, true, func(n *node, _ found) exp {
			if !n.isDir() {
				return want(disko.ErrNotADirectory)
			}
			return exp{ok: true, check: func(r *result) string { return e.entriesMsg(r, n) }}
		})
	case "readfile":
		return e.at(p, true, func(n *node, _ found) exp {
			if n.isDir() {
				return exp{ok: true, anyErr: true}
			}
			if e.isOpenWrite(n.id) {
				return exp{skip: true}
			}
			return exp{ok: true, check: func(r *result) string { return diff(r.data, n.contents()) }}
		})
	case "readlink":
		if !e.fs.feat.HasSymbolicLinks {
			return want(disko.ErrNotSupported)
		}
		return e.at(p, false, func(n *node, _ found) exp {
			if !n.isLink() {
				return exp{anyErr: true}
			}
			return exp{ok: true, check: func(r *result) string {
				if r.str != string(n.contents()) {
					return fmt.Sprintf("returned %q, the link says %q", r.str, n.contents())
				}
				return ""
			}}
		})
	case "chdir":
		return e.at(p, true, func(n *node, fd found) exp {
			if !n.isDir() {
				return want(disko.ErrNotADirectory)
			}
			return exp{ok: true, check: func(r *result) string { return e.cwdMsg(n) }}
		})
	case "getwd":
		return exp{ok: true, check: func(r *result) string {
			if r.str != e.cwd {
				return fmt.Sprintf("working directory is %q, expected %q", r.str, e.cwd)
			}
			return ""
		}}
	case "mkdir":
		x, fd, ok := e.creation(p)
		if ok {
			x.apply = func(*result) { fd.parent.attach(fd.base, e.mod.mk(os.ModeDir|o.perm&modeBits)) }
		}
		return x
	case "mkdirall":
		return e.predictMkdirAll(p, o.perm)
	case "remove":
		if p == "/" {
			return exp{anyErr: true}
		}
		return e.at(p, false, func(n *node, fd found) exp {
			if e.anyOpen(n) {
				return exp{skip: true}
			}
			if n.isDir() && len(n.ch) > 0 {
				return want(disko.ErrDirectoryNotEmpty)
			}
			return exp{ok: true, need: disko.MountFlagsAllowDelete, apply: func(*result) { fd.parent.detach(fd.base) }}
		})
	case "removeall":
		if p == "/" {
			return exp{anyErr: true}
		}
		fd := e.mod.resolve(p, false)
		if fd.err != nil {
			return exp{ok: true, anyErr: true, apply: func(*result) {}}
		}
		if e.anyOpen(fd.n) {
			return exp{skip: true}
		}
		return exp{ok: true, anyErr: !fd.n.isDir() || fd.links > linkLimit, need: disko.MountFlagsAllowDelete, apply: func(*result) { e.mod.removeTree(fd.parent, fd.base) }}
	case "link":
		if !e.hardlinks {
			return exp{anyErr: true}
		}
		q := norm(e.cwd, o.q)
		src := e.mod.resolve(p, true)
		x, fd, ok := e.creation(q)
		if src.err != nil {
			x.errs = append(x.errs, src.err)
			x.ok = false
		} else if src.n.isDir() {
			x.anyErr, x.ok = true, false
		}
		if src.links > linkLimit {
			x.errs = append(x.errs, disko.ErrLinkCycleDetected)
		}
		if ok && x.ok {
			x.apply = func(*result) { fd.parent.attach(fd.base, src.n) }
		}
		return x
	case "chmod":
		return e.at(p, true, func(n *node, _ found) exp { return e.attr(o, n) })
	case "chown":
		return e.at(p, true, func(n *node, _ found) exp { return e.attr(o, n) })
	case "lchown":
		return e.at(p, false, func(n *node, _ found) exp { return e.attr(o, n) })
	case "chtimes":
		return e.at(p, true, func(n *node, _ found) exp { return e.attr(o, n) })
	case "truncate":
		return e.at(p, true, func(n *node, _ found) exp {
			if n.isDir() {
				return want(disko.ErrIsADirectory)
			}
			if e.isOpen(n.id) {
				return exp{skip: true}
			}
			return exp{ok: true, need: disko.MountFlagsAllowWrite, apply: func(*result) { e.mod.setData(n, nil) }}
		})
	case "writefile":
		x := e.predictOpen(p, disko.O_WRONLY|disko.O_CREATE|disko.O_TRUNC, o.perm)
		if x.ok && x.apply != nil {
			ap := x.apply
			x.apply = func(r *result) {
				r.of = &openFile{}
				ap(r)
				e.mod.setData(r.of.n, o.data)
				r.of = nil
			}
		}
		x.check = nil
		return x
	case "create":
		return e.predictOpen(p, disko.O_RDWR|disko.O_CREATE|disko.O_EXCL, 0)
	case "open":
		return e.predictOpen(p, o.flags, o.perm)
	case "samefile":
		a, b := e.mod.resolve(p, true), e.mod.resolve(norm(e.cwd, o.q), true)
		if a.err != nil || b.err != nil || a.links > linkLimit || b.links > linkLimit || e.isOpen(a.n.id) || e.isOpen(b.n.id) {
			return exp{skip: true}
		}
		return exp{ok: true, check: func(r *result) string {
			if r.same != (a.n == b.n) {
				return fmt.Sprintf("SameFile says %v for objects %d and %d", r.same, a.n.id, b.n.id)
			}
			return ""
		}}
	}
	return e.predictFile(o)
}

// modeBits are the mode bits a caller can ask for when creating something.
const modeBits = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky

func (e *env) cwdMsg(n *node) string {
	wd, err := e.drv.Getwd()
	if err != nil {
		return "Getwd failed: " + err.Error()
	}
	if wd != norm("/", wd) {
		return fmt.Sprintf("working directory %q is not a normalised absolute path", wd)
	}
	fd := e.mod.resolve(wd, true)
	if fd.err != nil || fd.n != n {
		return fmt.Sprintf("working directory %q is not the directory changed to (object %d)", wd, n.id)
	}
	e.cwd = wd
	return ""
}

func (e *env) attr(o *op, n *node) exp {
	e.c.Count("attribute_changes", 1)
	if !e.fs.feat.HasUnixPermissions {
		return exp{anyErr: true}
	}
	x := exp{ok: true, need: disko.MountFlagsAllowAdminister}
	switch o.kind {
	case "chmod", "f.chmod":
		x.apply = func(*result) { n.mode = n.mode&^os.ModePerm | o.perm.Perm() }
	case "chtimes":
		x.need = 0
		x.anyErr = !e.flags.CanWrite()
		x.apply = func(*result) {
			if e.fs.feat.HasAccessedTime && !o.t1.IsZero() {
				n.atime = o.t1
			}
			if e.fs.feat.HasModifiedTime && !o.t2.IsZero() {
				n.mtime = o.t2
			}
		}
	default:
		x.apply = func(*result) { n.uid, n.gid = o.n, int(o.off) }
	}
	return x
}

func (m *memfs) removeTree(parent *node, name string) {
	n := parent.ch[name]
	for k := range n.ch {
		m.removeTree(n, k)
	}
	parent.detach(name)
}

func (e *env) predictMkdirAll(p string, perm os.FileMode) exp {
	fd := e.mod.resolve(p, true)
	many := fd.links > linkLimit
	if fd.err == nil {
		if fd.n.isDir() {
			return exp{ok: true, anyErr: many || e.flags&disko.MountFlagsAllowInsert == 0}
		}
		return exp{anyErr: true}
	}
	if fd.err != disko.ErrNotFound {
		x := want(fd.err)
		if many {
			x.anyErr = true
		}
		return x
	}
	// The longest existing prefix must be a directory reached without a
	// dangling link.
	dir, base := split(p)
	if dir != p {
		if nf := e.mod.resolve(p, false); nf.err == nil { // dangling link
			return exp{anyErr: true}
		}
		up := e.predictMkdirAll(dir, perm)
		if !up.ok {
			return exp{anyErr: true}
		}
		return exp{ok: true, anyErr: many || up.anyErr, need: disko.MountFlagsAllowInsert, apply: func(r *result) {
			if up.apply != nil {
				up.apply(r)
			}
			d := e.mod.resolve(dir, true)
			if d.err == nil && d.n.isDir() && d.n.ch[base] == nil {
				d.n.attach(base, e.mod.mk(os.ModeDir|perm&modeBits))
			}
		}}
	}
	return exp{anyErr: true}
}

func (e *env) predictOpen(p string, fl disko.IOFlags, perm os.FileMode) exp {
	fd := e.mod.resolve(p, true)
	nf := e.mod.resolve(p, false)
	many := fd.links > linkLimit
	if fl.Create() && fl.Exclusive() {
		if nf.err == nil {
			x := want(disko.ErrExists)
			return x
		}
	}
	if fd.err == nil {
		n := fd.n
		if n.isDir() {
			if fl.RequiresWritePerm() || fl.Create() {
				return want(disko.ErrIsADirectory)
			}
			return exp{ok: true, anyErr: many, apply: func(r *result) {
				r.of.n, r.of.id, r.of.dir, r.of.data = n, n.id, true, append([]byte(nil), n.contents()...)
			}}
		}
		if e.isOpenWrite(n.id) || (fl.RequiresWritePerm() && e.isOpen(n.id)) {
			return exp{skip: true}
		}
		if fl.Truncate() && !fl.Write() {
			return exp{skip: true}
		}
		x := exp{ok: true, anyErr: many}
		if fl.RequiresWritePerm() {
			x.need = disko.MountFlagsAllowWrite
		}
		x.apply = func(r *result) {
			if fl.Truncate() {
				e.mod.setData(n, nil)
			}
			r.of.n, r.of.id, r.of.data = n, n.id, append([]byte(nil), n.contents()...)
			r.of.dirty = fl.Truncate()
		}
		return x
	}
	if fd.err != disko.ErrNotFound || !fl.Create() {
		x := want(fd.err)
		if many {
			x.anyErr = true
		}
		return x
	}
	if nf.err == nil { // dangling link: refuse, or create what it points to
		x := exp{anyErr: true, ok: true, need: disko.MountFlagsAllowInsert}
		if fd.parent == nil {
			x.ok = false
		}
		x.apply = func(r *result) {
			n := e.mod.mk(perm & modeBits)
			fd.parent.attach(fd.base, n)
			r.of.n, r.of.id = n, n.id
		}
		return x
	}
	if nf.parent == nil || nf.err != disko.ErrNotFound {
		x := want(nf.err)
		x.anyErr = many
		return x
	}
	if fl.Truncate() && !fl.Write() {
		return exp{skip: true}
	}
	return exp{ok: true, anyErr: many, need: disko.MountFlagsAllowInsert, apply: func(r *result) {
		n := e.mod.mk(perm & modeBits)
		nf.parent.attach(nf.base, n)
		r.of.n, r.of.id = n, n.id
	}}
}

func diff(got, want []byte) string {
	if string(got) == string(want) {
		return ""
	}
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d is %#x, expected %#x (lengths %d/%d)", i, got[i], want[i], len(got), len(want))
		}
	}
	return fmt.Sprintf("%d bytes, expected %d", len(got), len(want))
}

// predictFile covers operations on open files.
func (e *env) predictFile(o *op) exp {
	if o.fi < 0 || o.fi >= len(e.files) {
		return exp{skip: true}
	}
	f := e.files[o.fi]
	if f.closed {
		// It may still tell its name.
		if o.kind == "f.name" {
			return exp{skip: true}
		}
		e.c.Count("uses_of_closed_files", 1)
		return exp{anyErr: true}
	}
	size := int64(len(f.data))
	sync := f.flags.Synchronous()
	commit := func() {
		if f.flags.Write() {
			if f.dirty {
				e.c.Count("commits", 1)
				e.mod.setData(f.n, f.data)
			}
			f.dirty = false
		}
	}
	put := func(at int64, b []byte) {
		if len(b) == 0 {
			return
		}
		if end := at + int64(len(b)); end > size {
			f.data = append(f.data, make([]byte, end-size)...)
		}
		copy(f.data[at:], b)
		f.dirty = true
		if sync {
			commit()
		}
	}
	pos := func(r *result) string {
		if f.f.Tell() != f.pos {
			return fmt.Sprintf("position %d, expected %d", f.f.Tell(), f.pos)
		}
		if f.f.Size() != int64(len(f.data)) {
			return fmt.Sprintf("size %d, expected %d", f.f.Size(), len(f.data))
		}
		return ""
	}
	switch o.kind {
	case "f.read", "f.readat":
		if f.dir || o.n == 0 {
			return exp{skip: true}
		}
		if !f.flags.Read() {
			return want(disko.ErrNotPermitted)
		}
		at := f.pos
		if o.kind == "f.readat" {
			at = o.off
		}
		var w []byte
		if at < size {
			w = f.data[at:min(size, at+int64(o.n))]
		}
		x := exp{ok: true, check: func(r *result) string {
			if o.kind == "f.read" {
				f.pos += int64(len(w))
			}
			if m := diff(r.data, w); m != "" {
				return "read " + m
			}
			return pos(r)
		}}
		if at+int64(len(w)) >= size {
			x.errs = []error{io.EOF}
			x.ok = len(w) > 0
		}
		return x
	case "f.write", "f.writestring", "f.writeat", "f.readfrom":
		if f.dir {
			return exp{anyErr: true}
		}
		if len(o.data) == 0 {
			return exp{skip: true}
		}
		if !f.flags.Write() || (o.kind == "f.writeat" && f.flags.Append()) {
			return want(disko.ErrNotPermitted)
		}
		at := f.pos
		if o.kind == "f.writeat" {
			at = o.off
		} else if f.flags.Append() {
			at = size
		}
		if at > 1<<16 {
			return exp{skip: true}
		}
		return exp{ok: true, apply: func(*result) {
			put(at, o.data)
			if o.kind != "f.writeat" {
				f.pos = at + int64(len(o.data))
			}
		}, check: func(r *result) string {
			if r.n != int64(len(o.data)) {
				return fmt.Sprintf("count %d, expected %d", r.n, len(o.data))
			}
			return pos(r)
		}}
	case "f.writeto":
		if f.dir {
			return exp{skip: true}
		}
		if !f.flags.Read() {
			return want(disko.ErrNotPermitted)
		}
		w := f.data[min(f.pos, size):]
		return exp{ok: true, check: func(r *result) string {
			f.pos += int64(len(w))
			if m := diff(r.data, w); m != "" {
				return "copied " + m
			}
			return pos(r)
		}}
	case "f.seek":
		base := []int64{0, f.pos, size}[o.wh]
		if base+o.off < 0 {
			return exp{anyErr: true}
		}
		return exp{ok: true, check: func(r *result) string {
			f.pos = base + o.off
			return pos(r)
		}}
	case "f.truncate":
		if f.dir {
			return exp{anyErr: true}
		}
		if !f.flags.Write() {
			return want(disko.ErrNotPermitted)
		}
		if o.off < 0 {
			return exp{anyErr: true}
		}
		return exp{ok: true, apply: func(*result) {
			if o.off <= size {
				f.data = append([]byte(nil), f.data[:o.off]...)
			} else {
				f.data = append(f.data, make([]byte, o.off-size)...)
			}
			f.dirty = true
			if sync {
				commit()
			}
		}, check: pos}
	case "f.sync":
		return exp{ok: true, apply: func(*result) { commit() }}
	case "f.close":
		return exp{ok: true, apply: func(*result) { commit(); f.closed = true }}
	case "f.stat":
		return exp{ok: true, check: func(r *result) string {
			fi := r.infos[0]
			if fi.IsDir() != f.dir || fi.Mode() != f.n.mode || (!f.dir && fi.Size() != int64(len(f.data))) || !fi.ModTime().Equal(f.n.mtime) {
				return fmt.Sprintf("dir=%v mode=%v size=%d mtime=%v, expected dir=%v mode=%v size=%d mtime=%v", fi.IsDir(), fi.Mode(), fi.Size(), fi.ModTime(), f.dir, f.n.mode, len(f.data), f.n.mtime)
			}
			if f.called != nil && !f.called[fi.Name()] {
				return fmt.Sprintf("the name is %q, expected one of %v", fi.Name(), f.called)
			}
			if st, ok := fi.Sys().(disko.FileStat); ok {
				w := f.n.stat(e.mod)
				w.Size, w.NumBlocks = st.Size, st.NumBlocks
				if st.LastModified.Equal(w.LastModified) && st.LastAccessed.Equal(w.LastAccessed) {
					w.LastModified, w.LastAccessed = st.LastModified, st.LastAccessed
				}
				if st != w || (!f.dir && st.Size != int64(len(f.data))) {
					return fmt.Sprintf("Sys() says %+v, expected %+v, size %d", st, w, len(f.data))
				}
			}
			return ""
		}}
	case "f.name":
		return exp{ok: true, check: func(r *result) string {
			if f.called != nil && !f.called[r.str] {
				return fmt.Sprintf("the name is %q, expected one of %v", r.str, f.called)
			}
			return ""
		}}
	case "f.chdir":
		if !f.dir {
			return want(disko.ErrNotADirectory)
		}
		return exp{ok: true, check: func(r *result) string { return e.cwdMsg(f.n) }}
	case "f.chmod", "f.chown":
		return e.attr(o, f.n)
	case "f.readdir", "f.readdir2", "f.readdirnames":
		if !f.dir {
			return want(disko.ErrNotADirectory)
		}
		return e.predictList(o, f)
	}
	panic("harness: unknown op " + o.kind)
}

// predictList follows the exactly-once contract of batched listings.
func (e *env) predictList(o *op, f *openFile) exp {
	if f.ended {
		return e.predictRelist(o, f)
	}
	if !f.started {
		f.started = true
		f.left = map[string]*node{}
		f.asListed = map[string]disko.FileStat{}
		for k, v := range f.n.ch {
			f.left[k] = v
			f.asListed[k] = v.stat(e.mod)
		}
	}
	x := exp{ok: true}
	if len(f.left) == 0 {
		f.ended = true
		if o.n > 0 {
			x.ok = false
			x.errs = []error{io.EOF}
			return x
		}
	}
	x.check = func(r *result) string {
		if r.ents > len(r.names) || (o.n > 0 && len(r.names) > o.n) {
			return fmt.Sprintf("returned %d entries for a batch of %d", len(r.names), o.n)
		}
		if o.n > 0 && len(r.names) == 0 {
			return "returned no entries and no end-of-file"
		}
		for i, name := range r.names {
			n := f.left[name]
			if n == nil {
				return fmt.Sprintf("entry %q was listed before or does not exist", name)
			}
			delete(f.left, name)
			if f.n.ch[name] != n || n.stat(e.mod) != f.asListed[name] {
				// Changed since the listing began: old and new attributes are
				// both right.
				if r.types != nil && r.types[i] != n.mode.Type() {
					return fmt.Sprintf("entry %q: type %v, expected %v", name, r.types[i], n.mode.Type())
				}
				continue
			}
			if m := e.entryMsg(r, i, n); m != "" {
				return fmt.Sprintf("entry %q: %s", name, m)
			}
		}
		if o.n <= 0 && len(f.left) > 0 {
			return fmt.Sprintf("unbounded listing left out %d entries", len(f.left))
		}
		e.c.Count("batches", 1)
		return ""
	}
	return x
}

// seen notes what the directory holds now.
func (f *openFile) seen() {
	if f.after == nil {
		f.after = map[string][]*node{}
	}
	for k, v := range f.n.ch {
		f.after[k] = append(f.after[k], v)
	}
}

// predictRelist: once the end was reported, the handle may stay there or begin
// again, but not with what was there before.
func (e *env) predictRelist(o *op, f *openFile) exp {
	f.seen()
	x := exp{ok: true, errs: []error{io.EOF}}
	x.check = func(r *result) string {
		if r.ents > len(r.names) || (o.n > 0 && len(r.names) > o.n) {
			return fmt.Sprintf("returned %d entries for a batch of %d", len(r.names), o.n)
		}
		for i, name := range r.names {
			ok := false
			for _, n := range f.after[name] {
				ok = ok || r.types == nil || r.types[i] == n.mode.Type()
			}
			if !ok {
				return fmt.Sprintf("entry %q was listed again, but has not been there since the listing began again", name)
			}
		}
		if len(r.names) > 0 {
			e.c.Count("relistings", 1)
		} else {
			f.after = nil // the next one begins when it is asked for
		}
		return ""
	}
	return x
}

var _ = time.Time{}

// lacksFor says whether an operation needs something the implementation lacks.
// Whether listing is needed depends on the object.
func (e *env) lacksFor(o *op) bool {
	has := func(bit int) bool { return e.fs.lacks&bit == 0 && e.fs.feat.HasUnixPermissions }
	switch o.kind {
	case "chmod", "f.chmod":
		return !has(lacksChmod)
	case "chown", "lchown", "f.chown":
		return !has(lacksChown)
	case "chtimes":
		return !has(lacksChtimes)
	case "link":
		return !e.hardlinks
	case "readlink":
		return !e.fs.feat.HasSymbolicLinks
	case "readdir", "f.readdir", "f.readdir2", "f.readdirnames":
		return e.fs.lacks&lacksListDir != 0
	case "remove", "removeall":
		fd := e.mod.resolve(norm(e.cwd, o.p), false)
		return e.fs.lacks&lacksListDir != 0 && fd.n != nil && fd.n.isDir()
	}
	return false
}

// withoutFeatures is the expectation for an operation on a volume which may
// lack what it needs.
func (e *env) withoutFeatures(o *op, x exp) exp {
	if !e.lacksFor(o) {
		return x
	}
	lacking := []error{disko.ErrNotSupported, disko.ErrNotImplemented}
	if (x.ok && len(x.errs) == 0) || (len(x.errs) == 1 && x.errs[0] == io.EOF) || o.kind == "f.chmod" || o.kind == "f.chown" {
		e.c.Count("features_lacking", 1)
		e.c.Distinct("lacking", o.kind, e.fs.lacks)
		if e.isClosed(o) {
			return exp{anyErr: true}
		}
		return exp{errs: lacking}
	}
	// Something else is wrong with the call as well.
	return exp{errs: append(lacking, x.errs...), anyErr: x.anyErr}
}

func (e *env) isClosed(o *op) bool {
	return strings.HasPrefix(o.kind, "f.") && o.fi >= 0 && o.fi < len(e.files) && e.files[o.fi].closed
}
