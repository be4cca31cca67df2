// Package core checks U01, E01, E02 and K01: Unix v6 inodes, errors, flags and
// disk geometries.
package core

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/disks"
	"github.com/dargueta/disko/file_systems/unixv6"
	"github.com/hashicorp/go-multierror"

	"verifharness/h"
)

// Props lists the checks of this area.
func Props() []*h.Prop {
	return []*h.Prop{
		{ID: "U01", Level: "exploration", Rule: "all 65,536 mode words and portable modes over every type and attribute bit, random inodes; distinct by type, set-id bits and size class", Run: u01,
			Assumptions: []string{"A character device may be given as ModeCharDevice with or without ModeDevice.", "The sticky bit, which v6 does not define, is not judged."}},
		{ID: "E01", Level: "exploration", Rule: "random derivation graphs of annotations and wraps over predefined, new and foreign errors; distinct by shape", Run: e01,
			Assumptions: []string{"A cause that is itself a go-multierror list is recognised by its members.", "Wrapping nil is not judged."}},
		{ID: "E02", Level: "exploration", Rule: "every combination of the defined flag bits", Run: e02,
			Assumptions: []string{"The access mode 3, which operating systems do not define, only must not panic.", "Operating-system flags sharing bits with O_SYNC are not judged when given without it."}},
		{ID: "K01", Level: "exploration", Rule: "random and boundary geometries, every slug of the embedded table; distinct by word size and residue", Run: k01,
			Assumptions: []string{"Sizes that do not fit 63 bits are not judged."}},
	}
}

// ---------------------------------------------------------------- U01

func u01(c *h.Ctx) {
	c.Case("mode bits", func(r *rand.Rand) {
		for i, b := range []int{unixv6.FlagOtherX, unixv6.FlagOtherW, unixv6.FlagOtherR, unixv6.FlagGroupX, unixv6.FlagGroupW, unixv6.FlagGroupR, unixv6.FlagOwnerX, unixv6.FlagOwnerW, unixv6.FlagOwnerR} {
			if b != 1<<i {
				c.Fail("bits", "permission bit %d has the value %#x", i, b)
			}
		}
		if unixv6.OtherPermMask != 0o7 || unixv6.GroupPermMask != 0o70 || unixv6.OwnerPermMask != 0o700 {
			c.Fail("bits", "permission masks %#x, %#x, %#x", unixv6.OtherPermMask, unixv6.GroupPermMask, unixv6.OwnerPermMask)
		}
		c.Distinct("bits")
	})
	c.Case("every mode word", func(r *rand.Rand) {
		for w := range 65536 {
			m, err := unixv6.ConvertFSFlagsToStandard(uint16(w))
			if err != nil {
				c.Fail("word", "mode word %#06x was refused: %v", w, err)
			}
			checkMode(c, w, m)
			back, err := unixv6.ConvertStandardFlagsToFS(m)
			if want := uint16(w)&0x6dff | 0x8000; err != nil || back&^0x200 != want {
				c.Fail("roundtrip", "mode word %#06x became mode %v and then %#06x (error %v), expected %#06x", w, m, back, err, want)
			}
			c.Distinct("word", w&0x6c00)
		}
		c.Eval(65536)
		c.Count("words", 65536)
	})
	kinds := []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeDevice, os.ModeNamedPipe, os.ModeSocket, os.ModeCharDevice, os.ModeIrregular}
	others := []os.FileMode{os.ModeAppend, os.ModeExclusive, os.ModeTemporary, os.ModeSticky, os.ModeSetuid, os.ModeSetgid}
	c.Case("every portable mode", func(r *rand.Rand) {
		for t := 0; t < 1<<len(kinds); t++ {
			for o := 0; o < 1<<len(others); o++ {
				for _, perm := range []os.FileMode{0, 0o777, 0o644, 0o421, os.FileMode(r.Intn(0o1000)), 1 << r.Intn(9)} {
					m := perm
					for i, k := range kinds {
						if t>>i&1 == 1 {
							m |= k
						}
					}
					for i, k := range others {
						if o>>i&1 == 1 {
							m |= k
						}
					}
					want, ok := wordOf(m)
					w, err := unixv6.ConvertStandardFlagsToFS(m)
					if ok && (err != nil || w&^0x200 != want) {
						c.Fail("mode", "mode %v became %#06x (error %v), expected %#06x", m, w, err, want)
					}
					if !ok && err == nil {
						c.Fail("unsupported", "mode %v, whose type v6 lacks, became %#06x", m, w)
					}
					if ok {
						back, err := unixv6.ConvertFSFlagsToStandard(w)
						if err != nil {
							c.Fail("word", "mode word %#06x was refused: %v", w, err)
						}
						checkMode(c, int(w), back)
						c.Count("supported", 1)
					} else {
						c.Count("unsupported", 1)
					}
				}
			}
		}
		c.Eval(6 << (len(kinds) + len(others)))
	})
	for k := range c.M(50, 4000) {
		c.Case(fmt.Sprintf("inodes %d", k), func(r *rand.Rand) {
			for range 200 {
				size := []int{r.Intn(1 << 24), r.Intn(8) * 512, r.Intn(32768) * 512, 1<<24 - 1, 1 << r.Intn(24), r.Intn(600)}[r.Intn(6)]
				if r.Intn(3) == 0 && size > 0 {
					size--
				}
				in := unixv6.RawInode{Flags: uint16(r.Intn(65536)), NLink: uint8(r.Intn(256)), UID: uint8(r.Intn(256)), GID: uint8(r.Intn(256)),
					AccessedTime: r.Uint32(), ModifiedTime: r.Uint32()}
				// On disk: the high byte, then a little-endian word.
				in.Size = [3]uint8{uint8(size >> 16), uint8(size), uint8(size >> 8)}
				for i := range in.Addr {
					in.Addr[i] = unixv6.BlockNum(r.Intn(65536))
				}
				// The same inode as the record of 32 bytes that holds it. (How the
				// two words of a time stamp are ordered is not judged.)
				disk := binary.LittleEndian.AppendUint16(nil, in.Flags)
				disk = append(disk, in.NLink, in.UID, in.GID, in.Size[0], in.Size[1], in.Size[2])
				for _, a := range in.Addr {
					disk = binary.LittleEndian.AppendUint16(disk, uint16(a))
				}
				disk = binary.LittleEndian.AppendUint32(disk, in.AccessedTime)
				disk = binary.LittleEndian.AppendUint32(disk, in.ModifiedTime)
				var raw unixv6.RawInode
				err := binary.Read(bytes.NewReader(disk), binary.LittleEndian, &raw)
				raw.AccessedTime, raw.ModifiedTime = in.AccessedTime, in.ModifiedTime
				if err != nil || binary.Size(raw) != 32 || raw != in {
					c.Fail("record", "the %d bytes %x of an inode were read as %+v (error %v), expected %+v in 32 bytes", binary.Size(raw), disk, raw, err, in)
				}
				num := unixv6.Inumber(r.Intn(65536))
				was := in
				st, err := unixv6.RawInodeToStat(num, in)
				if err != nil || in != was {
					c.Fail("inode", "inode %d %+v was refused: %v", num, in, err)
				}
				checkMode(c, int(in.Flags), st.ModeFlags)
				want := disko.FileStat{InodeNumber: uint64(num), Nlinks: uint64(in.NLink), ModeFlags: st.ModeFlags, Uid: uint32(in.UID), Gid: uint32(in.GID),
					Size: int64(size), BlockSize: 512, NumBlocks: int64((size + 511) / 512)}
				if !st.LastAccessed.Equal(time.Unix(int64(in.AccessedTime), 0)) || !st.LastModified.Equal(time.Unix(int64(in.ModifiedTime), 0)) {
					c.Fail("times", "inode times %d, %d became %v, %v", in.AccessedTime, in.ModifiedTime, st.LastAccessed, st.LastModified)
				}
				if !st.CreatedAt.IsZero() || !st.DeletedAt.IsZero() || !st.LastChanged.IsZero() {
					c.Fail("times", "timestamps that v6 does not have are defined: %+v", st)
				}
				got := st
				got.LastAccessed, got.LastModified, got.CreatedAt, got.DeletedAt, got.LastChanged = time.Time{}, time.Time{}, time.Time{}, time.Time{}, time.Time{}
				if got != want {
					c.Fail("inode", "inode %d %+v (%d bytes) became %+v, expected %+v", num, in, size, got, want)
				}
				c.Count("inodes", 1)
				c.Distinct("size", size>>16 != 0, size%512 == 0, size == 0)
			}
			c.Eval(200)
		})
	}
	c.Require("inodes", 5000)
	c.Require("unsupported", 1000)
	c.Exhaustive()
}

// checkMode compares a portable mode with a v6 mode word.
func checkMode(c *h.Ctx, w int, m os.FileMode) {
	want := os.FileMode(w & 0o777)
	if w&0x800 != 0 {
		want |= os.ModeSetuid
	}
	if w&0x400 != 0 {
		want |= os.ModeSetgid
	}
	got := m
	switch w >> 13 & 3 {
	case 1:
		want |= os.ModeDevice | os.ModeCharDevice
		if got&os.ModeCharDevice != 0 {
			got |= os.ModeDevice
		}
	case 2:
		want |= os.ModeDir
	case 3:
		want |= os.ModeDevice
	}
	if got&^os.ModeSticky != want {
		c.Fail("word", "mode word %#06x became mode %v, expected %v", w, m, want)
	}
}

func wordOf(m os.FileMode) (uint16, bool) {
	w := uint16(m&0o777) | 0x8000
	if m&os.ModeSetuid != 0 {
		w |= 0x800
	}
	if m&os.ModeSetgid != 0 {
		w |= 0x400
	}
	switch m & os.ModeType {
	case 0:
	case os.ModeDir:
		w |= 0x4000
	case os.ModeDevice:
		w |= 0x6000
	case os.ModeCharDevice, os.ModeDevice | os.ModeCharDevice:
		w |= 0x2000
	default:
		return 0, false
	}
	return w, true
}

// ---------------------------------------------------------------- E01

var predefined = map[string]disko.DriverError{
	"ErrAlreadyInProgress": disko.ErrAlreadyInProgress, "ErrArgumentOutOfRange": disko.ErrArgumentOutOfRange,
	"ErrBlockDeviceRequired": disko.ErrBlockDeviceRequired, "ErrBusy": disko.ErrBusy, "ErrCrossDeviceLink": disko.ErrCrossDeviceLink,
	"ErrDirectoryNotEmpty": disko.ErrDirectoryNotEmpty, "ErrDiskQuotaExceeded": disko.ErrDiskQuotaExceeded, "ErrExists": disko.ErrExists,
	"ErrFileDescriptorBadState": disko.ErrFileDescriptorBadState, "ErrFileSystemCorrupted": disko.ErrFileSystemCorrupted,
	"ErrFileTooLarge": disko.ErrFileTooLarge, "ErrInvalidArgument": disko.ErrInvalidArgument, "ErrInvalidFileDescriptor": disko.ErrInvalidFileDescriptor,
	"ErrInvalidFileSystem": disko.ErrInvalidFileSystem, "ErrIOFailed": disko.ErrIOFailed, "ErrIsADirectory": disko.ErrIsADirectory,
	"ErrLinkCycleDetected": disko.ErrLinkCycleDetected, "ErrNameTooLong": disko.ErrNameTooLong, "ErrNoDevice": disko.ErrNoDevice,
	"ErrNoSpaceOnDevice": disko.ErrNoSpaceOnDevice, "ErrNotADirectory": disko.ErrNotADirectory, "ErrNotFound": disko.ErrNotFound,
	"ErrNotImplemented": disko.ErrNotImplemented, "ErrNotPermitted": disko.ErrNotPermitted, "ErrNotSupported": disko.ErrNotSupported,
	"ErrPermissionDenied": disko.ErrPermissionDenied, "ErrReadOnlyFileSystem": disko.ErrReadOnlyFileSystem,
	"ErrResultOutOfRange": disko.ErrResultOutOfRange, "ErrTooManyLinks": disko.ErrTooManyLinks, "ErrTooManyOpenFiles": disko.ErrTooManyOpenFiles,
	"ErrTooManyUsers": disko.ErrTooManyUsers,
}

var predefinedNames = func() (out []string) {
	for n := range predefined {
		out = append(out, n)
	}
	// Map order must not leak into the random choices.
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return
}()

// listError is an error whose type cannot be compared.
type listError []string

func (e listError) Error() string { return strings.Join(e, "; ") }

type enode struct {
	err    error
	is     map[int]bool // indexes of the nodes this one must be recognised as
	texts  []string
	text   string // at creation
	depth  int
	shape  string
	opaque bool // cannot be asked about by errors.Is
}

func e01(c *h.Ctx) {
	c.Case("predefined errors", func(r *rand.Rand) {
		seen := map[string]string{}
		for _, a := range predefinedNames {
			if predefined[a] == nil || predefined[a].Error() == "" {
				c.Fail("empty", "%s has no text", a)
			}
			if o := seen[predefined[a].Error()]; o != "" {
				c.Fail("same", "%s and %s have the same text", a, o)
			}
			seen[predefined[a].Error()] = a
			for _, b := range predefinedNames {
				if errors.Is(predefined[a], predefined[b]) != (a == b) {
					c.Fail("same", "errors.Is(%s, %s) is %v", a, b, a != b)
				}
				c.Count("pairs", 1)
			}
		}
		if disko.CastToDriverError(nil) != nil {
			c.Fail("cast", "casting nil gave an error")
		}
	})
	for k := range c.N(60, 1000) {
		c.Case(fmt.Sprintf("long derivation %d", k), func(r *rand.Rand) {
			base := predefinedNames[r.Intn(len(predefinedNames))]
			var err disko.DriverError = disko.CastToDriverError(predefined[base])
			within := []error{predefined[base]}
			texts := []string{predefined[base].Error()}
			for s := range []int{20, 60, 150, 400}[k%4] + r.Intn(20) {
				m := fmt.Sprintf("step %d", s)
				switch j := r.Intn(12); {
				case j == 0 && k%3 > 0:
					o := predefinedNames[r.Intn(len(predefinedNames))]
					err = err.Wrap(predefined[o])
					within, texts = append(within, predefined[o]), append(texts, predefined[o].Error())
				case j == 1 && k%3 > 0:
					f := errors.New(m)
					err = err.Wrap(f)
					within, texts = append(within, f), append(texts, m)
				case j == 2:
					err = disko.CastToDriverError(fmt.Errorf("%s %w", m, err))
					texts = append(texts, m)
				default:
					err = err.WithMessage(m)
					texts = append(texts, m)
				}
				if s%10 == 0 {
					within = append(within, err)
				}
			}
			for i, w := range within {
				if !errors.Is(err, w) {
					c.Fail("lost", "an error with %d parts is not recognised as part %d, %q", len(texts), i, w)
				}
			}
			for _, n := range predefinedNames {
				known := false
				for _, w := range within {
					known = known || w == predefined[n]
				}
				if !known && errors.Is(err, predefined[n]) {
					c.Fail("foreign", "an error derived from %s and others is recognised as %s", base, n)
				}
			}
			for _, t := range texts {
				if !strings.Contains(err.Error(), t) {
					c.Fail("text", "an error with %d parts lacks %q", len(texts), t)
				}
			}
			c.Count("long_derivations", 1)
			c.Distinct("long", len(texts))
		})
	}
	for k := range c.M(400, 20000) {
		c.Case(fmt.Sprintf("derivations %d", k), func(r *rand.Rand) {
			var nodes []*enode
			add := func(err error, parents []int, texts []string, shape string) *enode {
				n := &enode{err: err, is: map[int]bool{len(nodes): true}, texts: texts, shape: shape}
				for _, p := range parents {
					q := nodes[p]
					for i := range q.is {
						n.is[i] = true
					}
					n.texts = append(n.texts, q.texts...)
					if q.depth+1 > n.depth {
						n.depth = q.depth + 1
					}
				}
				if err == nil {
					c.Fail("nil", "%s gave nil", shape)
				}
				n.text = err.Error()
				nodes = append(nodes, n)
				return n
			}
			for _, p := range predefinedNames {
				add(predefined[p], nil, []string{predefined[p].Error()}, p)
			}
			np := len(nodes)
			words := []string{"disk", "100%", "%s %d %v", "", "two\nlines", "é\xff", ": "}
			word := func(i int) string {
				w := fmt.Sprintf("%s#%d", words[r.Intn(len(words))], i)
				switch r.Intn(12) {
				case 0:
					w += []string{" ", "\n", ": ", "\t\t", "\x00"}[r.Intn(5)]
				case 1:
					w = []string{" ", "\n", ": ", "\x00"}[r.Intn(4)] + w
				case 2:
					w += strings.Repeat(".", []int{200, 1000, 5000, 70000}[r.Intn(4)]) + "end"
				}
				return w
			}
			for i := range 3 {
				m := word(i)
				add(disko.NewError("new "+m), nil, []string{"new " + m}, "new")
			}
			for i := range 3 {
				m := "foreign " + word(i)
				add(errors.New(m), nil, []string{m}, "foreign")
			}
			add(io.EOF, nil, []string{"EOF"}, "EOF")
			add(errors.New(""), nil, nil, "wordless")
			pe := &fs.PathError{Op: "read", Path: "/x%d", Err: nodes[np+3].err}
			add(pe, []int{np + 3}, []string{pe.Error()}, "path")
			le := listError{"one", "two%v"}
			add(le, nil, []string{"one; two%v"}, "list").opaque = true
			add(fmt.Errorf("outer %w", nodes[5].err), []int{5}, nil, "fmt")
			me := multierror.Append(nil, nodes[np+4].err, nodes[7].err)
			add(me, []int{np + 4, 7}, nil, "multi").opaque = true
			steps := 4 + r.Intn(16)
			for s := 0; s < steps; s++ {
				i := r.Intn(len(nodes))
				if r.Intn(2) == 0 && len(nodes) > np+14 {
					i = len(nodes) - 1 - r.Intn(4)
				}
				a := nodes[i]
				drv, isDrv := a.err.(disko.DriverError)
				if a.depth > 9 {
					continue
				}
				switch k := r.Intn(7); {
				case k < 3 && isDrv:
					m := word(100 + s)
					add(drv.WithMessage(m), []int{i}, []string{m}, "message("+a.shape+")")
					c.Count("messages", 1)
				case k < 5 && isDrv:
					j := r.Intn(len(nodes))
					b := nodes[j]
					if a.depth+b.depth > 9 {
						continue
					}
					add(drv.Wrap(b.err), []int{i, j}, []string{b.text}, "wrap("+a.shape+","+b.shape+")")
					c.Count("wraps", 1)
				case k == 5:
					add(fmt.Errorf("ctx %w", a.err), []int{i}, nil, "fmt("+a.shape+")")
				default:
					d := disko.CastToDriverError(a.err)
					n := add(d, []int{i}, nil, "cast("+a.shape+")")
					if isDrv && !reflect.DeepEqual(d, a.err) {
						c.Fail("cast", "casting the driver error %q changed it to %q", a.err, n.text)
					}
					c.Count("casts", 1)
				}
			}
			for i, n := range nodes {
				if i >= np {
					c.Distinct(n.shape)
				}
				if n.err.Error() != n.text {
					c.Fail("mutated", "the text of %s changed from %q to %q when something was derived from it", n.shape, n.text, n.err.Error())
				}
				for _, t := range n.texts {
					if !strings.Contains(n.text, t) {
						c.Fail("text", "%s reads %q, which lacks %q", n.shape, n.text, t)
					}
				}
				for j, m := range nodes {
					if m.opaque {
						continue
					}
					got := errors.Is(n.err, m.err)
					if n.is[j] && !got {
						c.Fail("lost", "%s (%q) is not recognised as %s (%q), from which it was derived", n.shape, n.text, m.shape, m.text)
					}
					// Foreign and predefined errors are known by identity.
					if got && !n.is[j] && (j < np+7) {
						c.Fail("confused", "%s (%q) is recognised as %s (%q), from which it was not derived", n.shape, n.text, m.shape, m.text)
					}
					c.Count("queries", 1)
				}
				for j, m := range nodes {
					if m.err == error(pe) && n.is[j] {
						var q *fs.PathError
						if !errors.As(n.err, &q) || q != pe {
							c.Fail("as", "%s (%q): its cause cannot be retrieved with errors.As", n.shape, n.text)
						}
					}
				}
			}
			if len(nodes) > np+12 {
				c.Sample("%s: %q", nodes[len(nodes)-1].shape, nodes[len(nodes)-1].text)
			}
		})
	}
	c.Require("pairs", 900)
	c.Require("wraps", 500)
	c.Require("messages", 500)
	c.Require("casts", 300)
}

// ---------------------------------------------------------------- E02

func e02(c *h.Ctx) {
	type bit struct {
		io   disko.IOFlags
		os   int
		pred func(disko.IOFlags) bool
		name string
	}
	bits := []bit{
		{disko.O_APPEND, os.O_APPEND, disko.IOFlags.Append, "append"},
		{disko.O_CREATE, os.O_CREATE, disko.IOFlags.Create, "create"},
		{disko.O_TRUNC, os.O_TRUNC, disko.IOFlags.Truncate, "truncate"},
		{disko.O_EXCL, os.O_EXCL, disko.IOFlags.Exclusive, "exclusive"},
		{disko.O_SYNC, os.O_SYNC, disko.IOFlags.Synchronous, "synchronous"},
		{disko.O_NOFOLLOW, 0, disko.IOFlags.NoFollow, "no-follow"},
		{disko.O_DIRECTORY, 0, nil, "directory"},
		{disko.O_TMPFILE, 0, nil, "tmpfile"},
		{disko.O_NOATIME, 0, nil, "noatime"},
		{disko.O_PATH, 0, nil, "path"},
	}
	acc := []struct {
		io          disko.IOFlags
		os          int
		read, write bool
	}{{disko.O_RDONLY, os.O_RDONLY, true, false}, {disko.O_WRONLY, os.O_WRONLY, false, true}, {disko.O_RDWR, os.O_RDWR, true, true}}
	c.Case("the flags are separate", func(r *rand.Rand) {
		seen := disko.O_ACCMODE
		if disko.O_ACCMODE != disko.O_RDONLY|disko.O_WRONLY|disko.O_RDWR {
			c.Fail("bits", "the access mode mask is %#x", int(disko.O_ACCMODE))
		}
		for _, b := range bits {
			if b.io == 0 || b.io&(b.io-1) != 0 || seen&b.io != 0 {
				c.Fail("bits", "flag %s is %#x, which is not a bit of its own", b.name, int(b.io))
			}
			seen |= b.io
		}
		// The permission and type bits have their POSIX values.
		for _, p := range []struct {
			got  os.FileMode
			want uint32
		}{{disko.S_IXOTH, 1}, {disko.S_IWOTH, 2}, {disko.S_IROTH, 4}, {disko.S_IXGRP, 8}, {disko.S_IWGRP, 16}, {disko.S_IRGRP, 32}, {disko.S_IXUSR, 64}, {disko.S_IWUSR, 128}, {disko.S_IRUSR, 256},
			{disko.S_ISVTX, 0o1000}, {disko.S_ISGID, 0o2000}, {disko.S_ISUID, 0o4000}, {disko.S_IFIFO, 0o10000}, {disko.S_IFCHR, 0o20000}, {disko.S_IFDIR, 0o40000}, {disko.S_IFBLK, 0o60000}, {disko.S_IFREG, 0o100000}, {disko.S_IFLNK, 0o120000}, {disko.S_IFSOCK, 0o140000}, {disko.S_IFMT, 0o170000},
			{disko.S_IRWXO, 7}, {disko.S_IRWXG, 0o70}, {disko.S_IRWXU, 0o700}, {disko.DefaultFileModeFlags, 0o644}, {disko.DefaultDirModeFlags, uint32(os.ModeDir | 0o755)}} {
			if uint32(p.got) != p.want {
				c.Fail("bits", "a mode constant is %#o instead of %#o", uint32(p.got), p.want)
			}
			c.Distinct("const", p.want)
		}
	})
	c.Case("every flag word", func(r *rand.Rand) {
		for _, a := range acc {
			for m := 0; m < 1<<len(bits); m++ {
				f := a.io
				for i, b := range bits {
					if m>>i&1 == 1 {
						f |= b.io
					}
				}
				// Undefined bits change nothing.
				if r.Intn(3) == 0 {
					f |= disko.IOFlags(r.Uint32()) & 0x70 << 20
				}
				if f.Read() != a.read || f.Write() != a.write {
					c.Fail("access", "flags %#x: read %v, write %v; expected %v, %v", int(f), f.Read(), f.Write(), a.read, a.write)
				}
				for i, b := range bits {
					if b.pred != nil && b.pred(f) != (m>>i&1 == 1) {
						c.Fail("predicate", "flags %#x: %s is %v", int(f), b.name, b.pred(f))
					}
				}
				if want := a.write || m>>2&1 == 1; f.RequiresWritePerm() != want {
					c.Fail("predicate", "flags %#x: write permission required is %v", int(f), f.RequiresWritePerm())
				}
				c.Count("words", 1)
				c.Distinct("io", int(f))
			}
			for m := range 32 {
				of, want := a.os, a.io
				for i := range 5 {
					if m>>i&1 == 1 {
						of |= bits[i].os
						want |= bits[i].io
					}
				}
				for range 20 {
					extra := int(r.Uint32())
					for i := range 5 {
						extra &^= bits[i].os
					}
					extra &^= 3
					if r.Intn(2) == 0 {
						extra = 0
					}
					if got := disko.OSFlagsToIOFlags(of | extra); got != want {
						c.Fail("translate", "operating-system flags %#x became %#x, expected %#x", of|extra, int(got), int(want))
					}
					c.Count("translations", 1)
				}
				c.Distinct("os", of)
			}
		}
		for range 1000 {
			disko.OSFlagsToIOFlags(int(r.Uint64()))
		}
		c.Eval(int64(3 << len(bits)))
	})
	c.Case("mount flags and types", func(r *rand.Rand) {
		all := []disko.MountFlags{disko.MountFlagsAllowRead, disko.MountFlagsAllowWrite, disko.MountFlagsAllowInsert, disko.MountFlagsAllowDelete, disko.MountFlagsAllowAdminister, disko.MountFlagsPreserveTimestamps, disko.MountFlagsCustomStart}
		var seen disko.MountFlags
		for _, f := range all {
			if f == 0 || f&(f-1) != 0 || f&seen != 0 {
				c.Fail("bits", "mount flag %#x is not a bit of its own", int(f))
			}
			seen |= f
		}
		for m := range 1 << len(all) {
			var f disko.MountFlags
			for i, b := range all {
				if m>>i&1 == 1 {
					f |= b
				}
			}
			if f.CanRead() != (m&1 != 0) || f.CanWrite() != (m&2 != 0) || f.CanDelete() != (m&8 != 0) {
				c.Fail("predicate", "mount flags %#x: read %v, write %v, delete %v", int(f), f.CanRead(), f.CanWrite(), f.CanDelete())
			}
			c.Distinct("mount", m)
		}
		if disko.MountFlagsAllowAll != all[0]|all[1]|all[2]|all[3]|all[4] || disko.MountFlagsAllowReadWrite != all[0]|all[1] || disko.MountFlagsMask != all[6]-1 {
			c.Fail("bits", "a combined mount flag is wrong")
		}
		types := []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeDevice, os.ModeNamedPipe, os.ModeSocket, os.ModeCharDevice, os.ModeIrregular}
		for m := range 1 << len(types) {
			st := disko.FileStat{ModeFlags: os.FileMode(r.Intn(0o1000)) | os.FileMode(r.Intn(2))*os.ModeSticky | os.FileMode(r.Intn(2))*os.ModeSetuid}
			for i, b := range types {
				if m>>i&1 == 1 {
					st.ModeFlags |= b
				}
			}
			if st.IsFile() != (m == 0) || st.IsDir() != (m&1 != 0) || m == 2 && !st.IsSymlink() || m&2 == 0 && st.IsSymlink() {
				c.Fail("predicate", "mode %v: file %v, directory %v, link %v", st.ModeFlags, st.IsFile(), st.IsDir(), st.IsSymlink())
			}
		}
	})
	c.Require("words", 1000)
	c.Require("translations", 1000)
	c.Exhaustive()
}

// ---------------------------------------------------------------- K01

func k01(c *h.Ctx) {
	for k := range c.M(100, 5000) {
		c.Case(fmt.Sprintf("sizes %d", k), func(r *rand.Rand) {
			for range 200 {
				dim := func(max int) uint { return uint(r.Intn(max + 1)) }
				g := disks.DiskGeometry{BitsPerAddressUnit: []uint{1, 6, 7, 8, 12, 16, 18, 36, 60, dim(70)}[r.Intn(10)], AddressUnitsPerSector: dim(5000), SectorsPerTrack: dim(300),
					TotalDataTracks: dim(2000), Heads: dim(40), HiddenTracks: dim(50), FirstYearAvailable: dim(2000), IsRemovable: dim(1)}
				if r.Intn(3) == 0 { // small odd products
					g.AddressUnitsPerSector, g.SectorsPerTrack, g.TotalDataTracks, g.Heads = 1+dim(6), 1+dim(4), 1+dim(4), 1+dim(2)
				}
				if r.Intn(6) == 0 { // beyond 32 bits
					g.TotalDataTracks = 1 << 20
					g.Heads = 1 + dim(200)
				}
				if r.Intn(6) == 0 { // some of any dimension
					ds := []*uint{&g.BitsPerAddressUnit, &g.AddressUnitsPerSector, &g.SectorsPerTrack, &g.TotalDataTracks, &g.Heads}
					r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
					bits := 60
					for _, d := range ds {
						k := r.Intn(min(bits, 44) + 1)
						bits -= k
						*d = uint(1<<k>>1) + uint(r.Int63n(int64(1<<k)/2+1))
					}
				}
				p := big.NewInt(1)
				for _, d := range []uint{g.BitsPerAddressUnit, g.AddressUnitsPerSector, g.SectorsPerTrack, g.TotalDataTracks, g.Heads} {
					p.Mul(p, new(big.Int).SetUint64(uint64(d)))
				}
				rem := new(big.Int).And(p, big.NewInt(7))
				if p.BitLen() > 62 {
					continue
				}
				p.Add(p, big.NewInt(7))
				p.Rsh(p, 3)
				was := g
				if got := g.TotalSizeBytes(); big.NewInt(got).Cmp(p) != 0 {
					c.Fail("size", "geometry %+v has size %d, expected %v", g, got, p)
				}
				if g != was {
					c.Fail("mutated", "asking for the size changed the geometry")
				}
				c.Count("sizes", 1)
				if rem.Sign() != 0 {
					c.Count("partial_bytes", 1)
				}
				c.Distinct(g.BitsPerAddressUnit, rem.Int64())
				st := disko.FSStat{BlockSize: uint(r.Intn(70000)), TotalBlocks: uint64(r.Int63n(1 << 40)), BlocksFree: 5, Files: 3}
				if got := st.TotalSizeBytes(); got != int64(st.BlockSize)*int64(st.TotalBlocks) {
					c.Fail("size", "%d blocks of %d bytes have size %d", st.TotalBlocks, st.BlockSize, got)
				}
			}
			c.Eval(200)
		})
	}
	c.Case("the table", func(r *rand.Rand) {
		rows := table()
		for _, row := range rows {
			g, err := disks.GetPredefinedDiskGeometry(row["slug"])
			if err != nil {
				c.Fail("lookup", "geometry %q: %v", row["slug"], err)
			}
			num := func(s string) uint {
				n, err := strconv.ParseUint(strings.TrimSpace(s), 10, 64)
				if err != nil {
					panic("harness: bad number in the table: " + s)
				}
				return uint(n)
			}
			want := disks.DiskGeometry{Name: row["name"], Slug: row["slug"], FirstYearAvailable: num(row["first_year_available"]), FormFactor: row["form_factor"],
				IsRemovable: num(row["is_removable"]), BitsPerAddressUnit: num(row["bits_per_address_unit"]), AddressUnitsPerSector: num(row["address_units_per_sector"]),
				SectorsPerTrack: num(row["sectors_per_track"]), TotalDataTracks: num(row["total_data_tracks"]), HiddenTracks: num(row["hidden_tracks"]), Heads: num(row["heads"]), Notes: row["notes"]}
			if g != want {
				c.Fail("table", "geometry %q is %+v, the table says %+v", row["slug"], g, want)
			}
			if g.TotalSizeBytes() <= 0 {
				c.Fail("size", "geometry %q has size %d", row["slug"], g.TotalSizeBytes())
			}
			// What a caller does with the result is its own affair.
			g.Heads, g.Slug = 99, "scribbled"
			if again, err := disks.GetPredefinedDiskGeometry(row["slug"]); err != nil || again != want {
				c.Fail("shared", "geometry %q changed with an earlier result", row["slug"])
			}
			c.Count("rows", 1)
			c.Distinct(row["slug"])
		}
		have := map[string]bool{}
		for _, row := range rows {
			have[row["slug"]] = true
		}
		for _, row := range rows {
			s := row["slug"]
			for _, bad := range []string{s + "x", s + " ", " " + s, s[1:], s[:len(s)-1], strings.ToUpper(s), row["name"], "", "slug"} {
				if have[bad] {
					continue
				}
				if g, err := disks.GetPredefinedDiskGeometry(bad); err == nil || g != (disks.DiskGeometry{}) {
					c.Fail("unknown", "unknown slug %q gave %+v, error %v", bad, g, err)
				}
				c.Count("unknown", 1)
			}
		}
	})
	c.Require("sizes", 5000)
	c.Require("partial_bytes", 100)
	c.Require("rows", 5)
	c.Require("unknown", 50)
}

// table reads the geometry table as it is in the working tree.
func table() (out []map[string]string) {
	f, err := os.Open(filepath.Join(h.Repo(), "disks/disk-geometries.csv"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	r := csv.NewReader(f)
	r.Comma = '|'
	all, err := r.ReadAll()
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, rec := range all[1:] {
		m := map[string]string{}
		for i, k := range all[0] {
			m[k] = rec[i]
		}
		out = append(out, m)
	}
	return
}

// Slugs are the slugs of the geometry table.
func Slugs() (out []string) {
	for _, row := range table() {
		out = append(out, row["slug"])
	}
	return
}

// Predefined are the predefined errors, in the order of their names.
func Predefined() (out []disko.DriverError) {
	for _, n := range predefinedNames {
		out = append(out, predefined[n])
	}
	return
}
