package driver

import (
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"

	"verifharness/h"
)

var errInjected = errors.New("injected implementation failure")

// implError is the failure an implementation reports; independent of disko's
// own error type.
type implError struct {
	msg   string
	cause []error
}

func (e *implError) Error() string   { return e.msg }
func (e *implError) Unwrap() []error { return e.cause }
func (e *implError) WithMessage(m string) disko.DriverError {
	return &implError{e.msg + ": " + m, []error{e}}
}
func (e *implError) Wrap(err error) disko.DriverError {
	return &implError{e.msg + ": " + err.Error(), []error{e, err}}
}

func injected(what string) disko.DriverError {
	return &implError{"implementation failed: " + what, []error{errInjected}}
}

// identities are what else a failure may be recognisable as.
var identities = []error{nil, nil, disko.ErrIOFailed, disko.ErrFileSystemCorrupted, disko.ErrNoSpaceOnDevice, disko.ErrPermissionDenied,
	disko.ErrBusy, disko.ErrInvalidArgument, io.ErrUnexpectedEOF, os.ErrPermission, disko.ErrExists, disko.ErrNotADirectory,
	disko.ErrIsADirectory, disko.ErrDirectoryNotEmpty, disko.ErrNotSupported, disko.ErrNotImplemented, disko.ErrReadOnlyFileSystem,
	disko.ErrLinkCycleDetected, disko.ErrFileDescriptorBadState, os.ErrExist, disko.ErrNotPermitted}

// listed reports whether the current operation has listed a directory.
func (fs *memfs) listed() bool {
	for _, t := range fs.trace {
		if strings.HasPrefix(t, "ListDir") {
			return true
		}
	}
	return false
}

func (fs *memfs) injected(what string) disko.DriverError {
	fs.identity++
	k := identities[fs.identity%len(identities)]
	switch {
	case fs.identity%2 == 0:
	case strings.HasPrefix(what, "CreateObject"), strings.HasPrefix(what, "CreateHardLink"):
		// Perhaps someone else was faster.
		k = disko.ErrExists
	case strings.HasPrefix(what, "GetObject") && fs.listing && fs.listed():
		// Listed, but not there.
		k = disko.ErrNotFound
	}
	if fs.identity%5 == 0 {
		for _, change := range []string{"Unlink", "Resize", "Write", "Chmod", "Chown", "Chtimes"} {
			if strings.HasPrefix(what, change) {
				k = disko.ErrNotFound
			}
		}
	}
	if k != nil {
		return &implError{"implementation failed: " + what, []error{k, errInjected}}
	}
	return injected(what)
}

type node struct {
	id       uint64
	mode     os.FileMode // type and permissions
	uid, gid int
	atime    time.Time
	mtime    time.Time
	btime    time.Time // created
	ctime    time.Time // changed
	dtime    time.Time // deleted
	dev, rdv uint64
	fresh    bool             // created through the driver
	data     []byte           // allocated blocks
	far      map[int64][]byte // instead of data: the blocks that were written
	farBlks  int64
	size     int64
	ch       map[string]*node
	order    []string
	nlink    int
}

func (n *node) isDir() bool  { return n.mode.IsDir() }
func (n *node) isLink() bool { return n.mode&os.ModeSymlink != 0 }

// memfs is a file system implementation that checks what the driver asks of it.
type memfs struct {
	c          *h.Ctx
	bs         int64
	root       *node
	nextID     uint64
	feat       disko.FSFeatures
	listDots   bool
	prealloc   int64
	handles    []*handle
	op         int // current driver operation
	calls      int // fallible calls since the last reset
	opCalls    int // all calls in this operation
	failAt     map[int]bool
	failClose  bool // Close may be chosen to fail
	failCloses bool // and always does
	fired      []string
	contract   []string // contract violations
	lifecycle  []string // handle misuse
	mutations  []string
	trace      []string
	flags      disko.MountFlags // what the volume was mounted with
	denied     []string         // changes the mount flags don't allow
	listing    bool             // the current operation only lists a directory
	lacks      int              // optional operations its handles don't have
	identity   int              // which of the identities the next failure has
	extraCalls int              // calls an operation may make beyond the usual
}

func newMemfs(c *h.Ctx, bs int64) *memfs {
	fs := &memfs{c: c, bs: bs, failAt: map[int]bool{}}
	fs.feat = disko.FSFeatures{HasDirectories: true, HasSymbolicLinks: true, HasHardLinks: true, HasAccessedTime: true,
		HasModifiedTime: true, HasUnixPermissions: true, HasUserID: true, HasGroupID: true, DefaultBlockSize: int(bs)}
	fs.root = fs.mk(os.ModeDir | 0o755)
	fs.root.nlink = 1
	return fs
}

func (fs *memfs) mk(mode os.FileMode) *node {
	fs.nextID++
	at := func(k uint64) time.Time { return time.Unix(int64(fs.nextID*k%97)*1000+int64(k), 0) }
	id := fs.nextID/2 + fs.nextID%2<<33 + 1 // not unique in the low bits
	n := &node{id: id, mode: mode, mtime: at(31), atime: at(57), btime: at(11), ctime: at(73), dtime: at(89), dev: fs.nextID*7 + 1, rdv: fs.nextID*13 + 2}
	if n.isDir() {
		n.ch = map[string]*node{}
		n.size = fs.bs
		n.data = make([]byte, fs.bs)
		for i := range n.data {
			n.data[i] = 0xD1
		}
	}
	return n
}

func (n *node) attach(name string, c *node) {
	n.ch[name] = c
	n.order = append(n.order, name)
	c.nlink++
}

func (n *node) detach(name string) {
	c := n.ch[name]
	delete(n.ch, name)
	for i, s := range n.order {
		if s == name {
			n.order = append(n.order[:i:i], n.order[i+1:]...)
			break
		}
	}
	c.nlink--
}

// setData stores exact contents directly (used to plant objects).
func (fs *memfs) setData(n *node, b []byte) {
	nb := (int64(len(b)) + fs.bs - 1) / fs.bs
	if nb > 0 {
		nb += fs.prealloc
	}
	n.data = make([]byte, nb*fs.bs)
	for i := range n.data {
		n.data[i] = 0xA5 // slack is garbage
	}
	copy(n.data, b)
	n.size = int64(len(b))
}

func (n *node) contents() []byte { return n.data[:min(n.size, int64(len(n.data)))] }

func (fs *memfs) bad(f string, a ...any) {
	if len(fs.contract) < 20 {
		fs.contract = append(fs.contract, fmt.Sprintf(f, a...))
	}
}

func (fs *memfs) misuse(f string, a ...any) {
	if len(fs.lifecycle) < 20 {
		fs.lifecycle = append(fs.lifecycle, fmt.Sprintf(f, a...))
	}
}

func (fs *memfs) mutate(f string, a ...any) {
	if len(fs.mutations) < 200 {
		fs.mutations = append(fs.mutations, fmt.Sprintf(f, a...))
	}
}

// changes notes a change to n that needs one of the given mount permissions.
func (fs *memfs) changes(n *node, need disko.MountFlags, f string, a ...any) {
	fs.mutate(f, a...)
	if fs.flags&need == 0 && !(n.fresh && need == disko.MountFlagsAllowWrite) && len(fs.denied) < 20 {
		fs.denied = append(fs.denied, fmt.Sprintf(f, a...))
	}
}

// enter counts a call; it returns a failure if one is due.
func (fs *memfs) enter(what string) disko.DriverError {
	fs.opCalls++
	if fs.opCalls > 60000+fs.extraCalls {
		panic(h.StepBudget{What: fmt.Sprintf("more than %d implementation calls in one driver operation, last %s", fs.opCalls-1, what)})
	}
	if len(fs.trace) < 2000 {
		fs.trace = append(fs.trace, what)
	}
	fs.calls++
	if fs.failAt[fs.calls] {
		fs.fired = append(fs.fired, what)
		return fs.injected(what)
	}
	return nil
}

// issued checks that a handle argument is one of ours and usable.
func (fs *memfs) issued(call string, o disko.ObjectHandle) *handle {
	var hd *handle
	rh, ok := o.(interface{ raw() *handle })
	if ok {
		hd = rh.raw()
	}
	if !ok || hd == nil || hd.fs != fs {
		fs.bad("%s was passed a handle this implementation did not issue (%T)", call, o)
		return nil
	}
	if hd.closed {
		fs.misuse("%s was passed the closed handle of object %d (%s)", call, hd.n.id, hd.name)
	}
	return hd
}

func (fs *memfs) handle(n *node, parent *node, name string) disko.ObjectHandle {
	hd := &handle{fs: fs, n: n, parent: parent, name: name, op: fs.op}
	fs.handles = append(fs.handles, hd)
	return hd.iface()
}

func (fs *memfs) openHandles() []*handle {
	var out []*handle
	for _, hd := range fs.handles {
		if !hd.closed {
			out = append(out, hd)
		}
	}
	fs.handles = out
	return out
}

func (fs *memfs) Mount(disko.MountFlags) disko.DriverError { return nil }
func (fs *memfs) Flush() disko.DriverError                 { return nil }
func (fs *memfs) Unmount() disko.DriverError               { return nil }
func (fs *memfs) FSStat() disko.FSStat                     { return disko.FSStat{BlockSize: uint(fs.bs)} }
func (fs *memfs) GetFSFeatures() disko.FSFeatures          { return fs.feat }

func (fs *memfs) GetRootDirectory() disko.ObjectHandle {
	fs.opCalls++
	if fs.opCalls > 60000+fs.extraCalls {
		panic(h.StepBudget{What: "more than 60000 implementation calls in one driver operation"})
	}
	return fs.handle(fs.root, nil, "/")
}

func (fs *memfs) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	p := fs.issued("GetObject", parent)
	if p == nil {
		return nil, injected("harness: foreign handle")
	}
	if !p.n.isDir() {
		fs.bad("GetObject(%q) with parent %q, which is not a directory", name, p.name)
		return nil, disko.ErrNotADirectory
	}
	if err := fs.enter(fmt.Sprintf("GetObject(%q in %d)", name, p.n.id)); err != nil {
		return nil, err
	}
	n := p.n.ch[name]
	if n == nil {
		return nil, disko.ErrNotFound.WithMessage(name)
	}
	return fs.handle(n, p.n, name), nil
}

func (fs *memfs) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	p := fs.issued("CreateObject", parent)
	if p == nil {
		return nil, injected("harness: foreign handle")
	}
	switch {
	case !p.n.isDir():
		fs.bad("CreateObject(%q) with parent %q, which is not a directory", name, p.name)
		return nil, disko.ErrNotADirectory
	case p.n.ch[name] != nil:
		fs.bad("CreateObject(%q): that name exists", name)
		return nil, disko.ErrExists
	case name == "" || name == "." || name == ".." || strings.Contains(name, "/"):
		fs.bad("CreateObject(%q): not a name", name)
		return nil, disko.ErrInvalidArgument
	case perm&os.ModeType != 0 && perm&os.ModeType != os.ModeDir:
		fs.bad("CreateObject(%q) with type bits %v", name, perm)
		return nil, disko.ErrInvalidArgument
	}
	if err := fs.enter(fmt.Sprintf("CreateObject(%q in %d)", name, p.n.id)); err != nil {
		return nil, err
	}
	n := fs.mk(perm)
	n.fresh = true
	p.n.attach(name, n)
	fs.changes(n, disko.MountFlagsAllowInsert, "create %q", name)
	return fs.handle(n, p.n, name), nil
}

// linkfs also has hard links.
type linkfs struct{ *memfs }

func (lf linkfs) CreateHardLink(source, dir disko.ObjectHandle, name string) (disko.ObjectHandle, disko.DriverError) {
	fs := lf.memfs
	s, p := fs.issued("CreateHardLink", source), fs.issued("CreateHardLink", dir)
	if s == nil || p == nil {
		return nil, injected("harness: foreign handle")
	}
	switch {
	case s.n.isDir():
		fs.bad("CreateHardLink: source %q is a directory", s.name)
		return nil, disko.ErrNotPermitted
	case !p.n.isDir():
		fs.bad("CreateHardLink: target parent %q is not a directory", p.name)
		return nil, disko.ErrNotADirectory
	case p.n.ch[name] != nil:
		fs.bad("CreateHardLink: target %q exists", name)
		return nil, disko.ErrExists
	case name == "" || name == "." || name == ".." || strings.Contains(name, "/"):
		fs.bad("CreateHardLink: %q is not a name", name)
		return nil, disko.ErrInvalidArgument
	}
	if err := fs.enter(fmt.Sprintf("CreateHardLink(%q in %d)", name, p.n.id)); err != nil {
		return nil, err
	}
	p.n.attach(name, s.n)
	fs.changes(s.n, disko.MountFlagsAllowInsert, "link %q", name)
	return fs.handle(s.n, p.n, name), nil
}

type handle struct {
	fs     *memfs
	n      *node
	parent *node
	name   string
	op     int
	closed bool
	min    bool
	file   *openFile
}

func (hd *handle) use(what string) {
	if hd.closed {
		hd.fs.misuse("%s on the closed handle of object %d (%s)", what, hd.n.id, hd.name)
	}
}

func (hd *handle) Stat() disko.FileStat {
	hd.use("Stat")
	n := hd.n
	return n.stat(hd.fs)
}

func (n *node) stat(fs *memfs) disko.FileStat {
	links := uint64(n.nlink)
	if n.isDir() { // file systems differ on what they count here
		links += n.id % 5
	}
	return disko.FileStat{DeviceID: n.dev, InodeNumber: n.id, Nlinks: links, ModeFlags: n.mode, Uid: uint32(n.uid), Gid: uint32(n.gid), Rdev: n.rdv,
		Size: n.size, BlockSize: fs.bs, NumBlocks: n.blocks(fs.bs), LastAccessed: n.atime, LastModified: n.mtime, CreatedAt: n.btime, LastChanged: n.ctime, DeletedAt: n.dtime}
}

func (n *node) blocks(bs int64) int64 {
	if n.far != nil {
		return n.farBlks
	}
	return int64(len(n.data)) / bs
}

func (hd *handle) Resize(size uint64) disko.DriverError {
	hd.use("Resize")
	if err := hd.fs.enter(fmt.Sprintf("Resize(%d to %d)", hd.n.id, size)); err != nil {
		return err
	}
	n := hd.n
	if n.far != nil {
		n.farBlks = (int64(size) + hd.fs.bs - 1) / hd.fs.bs
		n.size = int64(size)
		for i := range n.far {
			if i >= n.farBlks {
				delete(n.far, i)
			}
		}
		return nil
	}
	if size > 1<<26 {
		return disko.ErrNoSpaceOnDevice
	}
	if n.isDir() {
		hd.fs.bad("Resize of directory %q", hd.name)
		hd.fs.changes(n, disko.MountFlagsAllowWrite, "resize of directory %d", n.id)
	}
	if int64(size) != n.size {
		hd.fs.changes(n, disko.MountFlagsAllowWrite, "resize %d %d->%d", n.id, n.size, size)
	}
	bs := hd.fs.bs
	nb := (int64(size) + bs - 1) / bs
	if nb > 0 && int64(size) > n.size {
		nb += hd.fs.prealloc
	}
	old := int64(len(n.data))
	if nb*bs < old {
		if int64(size) == n.size {
			hd.fs.changes(n, disko.MountFlagsAllowWrite, "resize of %d to the same size %d, releasing blocks", n.id, size)
		}
		n.data = append([]byte(nil), n.data[:nb*bs]...)
	}
	for i := old; i < nb*bs; i++ {
		n.data = append(n.data, 0xA5)
	}
	n.size = int64(size)
	return nil
}

func (hd *handle) rng(what string, index common.LogicalBlock, nbytes int) bool {
	bs := hd.fs.bs
	if nbytes == 0 || int64(nbytes)%bs != 0 {
		hd.fs.bad("%s of %d bytes (block size %d)", what, nbytes, bs)
		return false
	}
	total := uint64(hd.n.blocks(bs))
	cnt := uint64(int64(nbytes) / bs)
	if uint64(index) >= total || cnt > total-uint64(index) {
		hd.fs.bad("%s of blocks [%d,+%d) of an object with %d blocks (size %d)", what, index, cnt, total, hd.n.size)
		return false
	}
	return true
}

func (hd *handle) ReadBlocks(index common.LogicalBlock, b []byte) disko.DriverError {
	hd.use("ReadBlocks")
	if !hd.rng("ReadBlocks", index, len(b)) {
		return injected("harness: bad range")
	}
	if err := hd.fs.enter(fmt.Sprintf("ReadBlocks(%d, %d)", hd.n.id, index)); err != nil {
		for i := range b {
			b[i] = 0xBD
		}
		return err
	}
	if hd.n.far != nil {
		for i := 0; i < len(b); i += int(hd.fs.bs) {
			clear(b[i : i+int(hd.fs.bs)])
			copy(b[i:i+int(hd.fs.bs)], hd.n.far[int64(index)+int64(i)/hd.fs.bs])
		}
		return nil
	}
	copy(b, hd.n.data[int64(index)*hd.fs.bs:])
	return nil
}

func (hd *handle) WriteBlocks(index common.LogicalBlock, b []byte) disko.DriverError {
	hd.use("WriteBlocks")
	if !hd.rng("WriteBlocks", index, len(b)) {
		return injected("harness: bad range")
	}
	if hd.n.isDir() || hd.n.isLink() {
		hd.fs.bad("WriteBlocks to %q, which is not a file", hd.name)
	}
	if err := hd.fs.enter(fmt.Sprintf("WriteBlocks(%d, %d)", hd.n.id, index)); err != nil {
		return err
	}
	hd.fs.changes(hd.n, disko.MountFlagsAllowWrite, "write %d block %d", hd.n.id, index)
	if hd.n.far != nil {
		for i := 0; i < len(b); i += int(hd.fs.bs) {
			hd.n.far[int64(index)+int64(i)/hd.fs.bs] = append([]byte(nil), b[i:i+int(hd.fs.bs)]...)
		}
		return nil
	}
	copy(hd.n.data[int64(index)*hd.fs.bs:], b)
	return nil
}

func (hd *handle) ZeroOutBlocks(index common.LogicalBlock, count uint) disko.DriverError {
	hd.use("ZeroOutBlocks")
	if count > 1<<20 || !hd.rng("ZeroOutBlocks", index, int(int64(count)*hd.fs.bs)) {
		return injected("harness: bad range")
	}
	if err := hd.fs.enter(fmt.Sprintf("ZeroOutBlocks(%d, %d)", hd.n.id, index)); err != nil {
		return err
	}
	hd.fs.changes(hd.n, disko.MountFlagsAllowWrite, "zero %d block %d+%d", hd.n.id, index, count)
	clear(hd.n.data[int64(index)*hd.fs.bs : (int64(index)+int64(count))*hd.fs.bs])
	return nil
}

func (hd *handle) Unlink() disko.DriverError {
	hd.use("Unlink")
	if hd.n.isDir() && len(hd.n.ch) > 0 {
		hd.fs.bad("Unlink of directory %q, which has %d entries", hd.name, len(hd.n.ch))
		return disko.ErrDirectoryNotEmpty
	}
	if hd.parent == nil {
		hd.fs.bad("Unlink of the root directory")
		return disko.ErrNotPermitted
	}
	if err := hd.fs.enter(fmt.Sprintf("Unlink(%q)", hd.name)); err != nil {
		return err
	}
	if hd.parent.ch[hd.name] == hd.n {
		hd.parent.detach(hd.name)
	}
	hd.fs.changes(hd.n, disko.MountFlagsAllowDelete, "unlink %q", hd.name)
	return nil
}

func (hd *handle) Name() string { hd.use("Name"); return hd.name }

func (hd *handle) SameAs(o disko.ObjectHandle) bool {
	hd.use("SameAs")
	x := hd.fs.issued("SameAs", o)
	return x != nil && x.n == hd.n
}

func (hd *handle) Close() error {
	if hd.closed {
		hd.fs.misuse("second Close of the handle of object %d (%s)", hd.n.id, hd.name)
		return disko.ErrFileDescriptorBadState
	}
	hd.closed = true
	if hd.fs.failClose {
		hd.fs.calls++
		if hd.fs.failAt[hd.fs.calls] || hd.fs.failCloses {
			hd.fs.fired = append(hd.fs.fired, "Close")
			return hd.fs.injected("Close")
		}
	}
	return nil
}

func (hd *handle) ListDir() ([]string, disko.DriverError) {
	hd.use("ListDir")
	if !hd.n.isDir() {
		hd.fs.bad("ListDir of %q, which is not a directory", hd.name)
		return nil, disko.ErrNotADirectory
	}
	if err := hd.fs.enter(fmt.Sprintf("ListDir(%d)", hd.n.id)); err != nil {
		return nil, err
	}
	out := append([]string(nil), hd.n.order...)
	if hd.fs.listDots {
		out = append([]string{"."}, out...)
		out = append(out, "..")
	}
	return out, nil
}

func (hd *handle) Chmod(mode os.FileMode) disko.DriverError {
	hd.use("Chmod")
	if mode&^(os.ModePerm|os.ModeSetuid|os.ModeSetgid|os.ModeSticky) != 0 {
		hd.fs.bad("Chmod(%q, %v): more than permission bits", hd.name, mode)
	}
	if err := hd.fs.enter("Chmod"); err != nil {
		return err
	}
	hd.fs.changes(hd.n, disko.MountFlagsAllowAdminister, "chmod %d", hd.n.id)
	hd.n.mode = hd.n.mode&^os.ModePerm | mode.Perm()
	return nil
}

func (hd *handle) Chown(uid, gid int) disko.DriverError {
	hd.use("Chown")
	if err := hd.fs.enter("Chown"); err != nil {
		return err
	}
	hd.fs.changes(hd.n, disko.MountFlagsAllowAdminister, "chown %d", hd.n.id)
	hd.n.uid, hd.n.gid = uid, gid
	return nil
}

func (hd *handle) Chtimes(created, accessed, modified, changed, deleted time.Time) disko.DriverError {
	hd.use("Chtimes")
	f := hd.fs.feat
	for _, t := range []struct {
		ok   bool
		t    time.Time
		what string
	}{{f.HasCreatedTime, created, "created"}, {f.HasAccessedTime, accessed, "accessed"}, {f.HasModifiedTime, modified, "modified"},
		{f.HasChangedTime, changed, "changed"}, {f.HasDeletedTime, deleted, "deleted"}} {
		if !t.ok && !t.t.IsZero() {
			hd.fs.bad("Chtimes(%q): %s time is set but not supported", hd.name, t.what)
		}
	}
	if err := hd.fs.enter("Chtimes"); err != nil {
		return err
	}
	hd.fs.changes(hd.n, disko.MountFlagsAllowAdminister|disko.MountFlagsAllowWrite, "chtimes %d", hd.n.id)
	if f.HasAccessedTime && !accessed.IsZero() {
		hd.n.atime = accessed
	}
	if f.HasModifiedTime && !modified.IsZero() {
		hd.n.mtime = modified
	}
	if !created.IsZero() {
		hd.n.btime = created
	}
	if !changed.IsZero() {
		hd.n.ctime = changed
	}
	if !deleted.IsZero() {
		hd.n.dtime = deleted
	}
	return nil
}

// What implementations may leave out. A handle type that embeds one of these
// beside *handle doesn't have the method.
type (
	noListDir struct{}
	noChmod   struct{}
	noChown   struct{}
	noChtimes struct{}
)

func (noListDir) ListDir() {}
func (noChmod) Chmod()     {}
func (noChown) Chown()     {}
func (noChtimes) Chtimes() {}

const (
	lacksListDir = 1 << iota
	lacksChmod
	lacksChown
	lacksChtimes
	lacksAttrs = lacksChmod | lacksChown | lacksChtimes
)

func (hd *handle) raw() *handle { return hd }

func (hd *handle) iface() disko.ObjectHandle {
	lacks := hd.fs.lacks
	if !hd.fs.feat.HasUnixPermissions {
		lacks |= lacksAttrs
	}
	switch lacks {
	case 1:
		return struct {
			*handle
			noListDir
		}{handle: hd}
	case 2:
		return struct {
			*handle
			noChmod
		}{handle: hd}
	case 3:
		return struct {
			*handle
			noListDir
			noChmod
		}{handle: hd}
	case 4:
		return struct {
			*handle
			noChown
		}{handle: hd}
	case 5:
		return struct {
			*handle
			noListDir
			noChown
		}{handle: hd}
	case 6:
		return struct {
			*handle
			noChmod
			noChown
		}{handle: hd}
	case 7:
		return struct {
			*handle
			noListDir
			noChmod
			noChown
		}{handle: hd}
	case 8:
		return struct {
			*handle
			noChtimes
		}{handle: hd}
	case 9:
		return struct {
			*handle
			noListDir
			noChtimes
		}{handle: hd}
	case 10:
		return struct {
			*handle
			noChmod
			noChtimes
		}{handle: hd}
	case 11:
		return struct {
			*handle
			noListDir
			noChmod
			noChtimes
		}{handle: hd}
	case 12:
		return struct {
			*handle
			noChown
			noChtimes
		}{handle: hd}
	case 13:
		return struct {
			*handle
			noListDir
			noChown
			noChtimes
		}{handle: hd}
	case 14:
		return struct {
			*handle
			noChmod
			noChown
			noChtimes
		}{handle: hd}
	case 15:
		return struct {
			*handle
			noListDir
			noChmod
			noChown
			noChtimes
		}{handle: hd}
	}
	return hd
}

func (fs *memfs) snapshot(skip map[uint64]bool) string {
	var b strings.Builder
	first := map[uint64]string{}
	var walk func(p string, n *node)
	walk = func(p string, n *node) {
		fmt.Fprintf(&b, "%s %v %d:%d times %v %v %v %v %v", p, n.mode, n.uid, n.gid, stamp(n.atime), stamp(n.mtime), stamp(n.btime), stamp(n.ctime), stamp(n.dtime))
		if f, ok := first[n.id]; ok {
			fmt.Fprintf(&b, " same as %s\n", f)
			return
		}
		first[n.id] = p
		if !n.isDir() {
			if skip[n.id] {
				fmt.Fprintf(&b, " open")
			} else {
				fmt.Fprintf(&b, " %d %x", n.size, sum(n.contents()))
			}
		}
		b.WriteByte('\n')
		names := make([]string, 0, len(n.ch))
		for k := range n.ch {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			walk(strings.TrimSuffix(p, "/")+"/"+k, n.ch[k])
		}
	}
	walk("/", fs.root)
	return b.String()
}

func sum(b []byte) uint64 {
	x := uint64(14695981039346656037)
	for _, c := range b {
		x = (x ^ uint64(c)) * 1099511628211
	}
	return x
}

// stamp tells instants apart that UnixNano cannot represent.
func stamp(t time.Time) [2]int64 { return [2]int64{t.Unix(), int64(t.Nanosecond())} }
