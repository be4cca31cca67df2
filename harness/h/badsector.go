//go:build linux

package h

import (
	"fmt"
	"os"
	"runtime"
	"syscall"
	"unsafe"
)

// BadRange describes positioned file I/O that fails: every pread64/pwrite64
// that touches a byte in [Lo, Hi) of any file, and setting the size of a file:
// any, or only to something else than 0. Close makes closing fail.
type BadRange struct {
	Lo, Hi           uint32
	Reads, Writes    bool
	Truncate, Extend bool
	Close            bool
	Errno            syscall.Errno
}

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

type sockFprog struct {
	n uint16
	f *sockFilter
}

// install makes the calling thread, and what it starts, suffer the faults.
func (b BadRange) install() bool {
	if b.Errno == 0 {
		b.Errno = syscall.EIO
	}
	const (
		ld   = 0x20 // BPF_LD|BPF_W|BPF_ABS
		jeq  = 0x15
		jgt  = 0x25
		jge  = 0x35
		ret  = 0x06
		tax  = 0x07
		addx = 0x0c
	)
	const allow, errno = 0x7fff0000, 0x00050000
	prog := []sockFilter{{ld, 0, 0, 0}}
	at := func(nr uintptr, body []sockFilter) {
		prog = append(prog, sockFilter{jeq, 0, uint8(len(body)), uint32(nr)})
		prog = append(prog, body...)
	}
	touching := []sockFilter{
		{ld, 0, 0, 32}, // length
		{tax, 0, 0, 0},
		{ld, 0, 0, 40}, // offset
		{jge, 2, 0, b.Hi},
		{addx, 0, 0, 0},
		{jgt, 1, 0, b.Lo},
		{ret, 0, 0, allow},
		{ret, 0, 0, errno | uint32(b.Errno)},
	}
	if b.Reads {
		at(syscall.SYS_PREAD64, touching)
	}
	if b.Writes {
		at(syscall.SYS_PWRITE64, touching)
	}
	if b.Truncate {
		at(syscall.SYS_FTRUNCATE, []sockFilter{{ret, 0, 0, errno | uint32(b.Errno)}})
	}
	if b.Extend {
		at(syscall.SYS_FTRUNCATE, []sockFilter{{ld, 0, 0, 24}, {jeq, 1, 0, 0}, {ret, 0, 0, errno | uint32(b.Errno)}, {ret, 0, 0, allow}})
	}
	if b.Close {
		at(syscall.SYS_CLOSE, []sockFilter{{ret, 0, 0, errno | uint32(b.Errno)}})
	}
	prog = append(prog, sockFilter{ret, 0, 0, allow})
	const prSetNoNewPrivs, prSetSeccomp, modeFilter = 38, 22, 2
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, prSetNoNewPrivs, 1, 0, 0, 0, 0); e != 0 {
		return false
	}
	fp := sockFprog{uint16(len(prog)), &prog[0]}
	_, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, prSetSeccomp, modeFilter, uintptr(unsafe.Pointer(&fp)), 0, 0, 0)
	return e == 0
}

// ExecUnder replaces this process by a command that suffers the faults. It
// returns only if that is impossible.
func (b BadRange) ExecUnder(argv []string) {
	runtime.LockOSThread()
	if b.install() {
		syscall.Exec(argv[0], argv, os.Environ())
	}
}

// WithBadRange runs f on a thread of its own whose system calls fail as
// described, like those on a disk with a bad sector. The thread ends with f.
// It reports false, without running f, where the system does not allow it. A
// panic of f comes back as pv.
func (c *Ctx) WithBadRange(b BadRange, f func()) (ran bool, pv any, stack string) {
	type result struct {
		ran   bool
		pv    any
		stack string
		own   any // a panic of the harness itself
	}
	done := make(chan result)
	go func() {
		var res result
		defer func() {
			if r := recover(); r != nil {
				res.own = r
			}
			done <- res
		}()
		runtime.LockOSThread() // never unlocked: the thread ends with the goroutine
		if !b.install() {
			return
		}
		res.ran = true
		res.pv, res.stack = c.Protect(f)
	}()
	res := <-done
	if res.own != nil {
		panic(res.own)
	}
	if !res.ran {
		c.Count("bad_range_unavailable", 1)
	}
	return res.ran, res.pv, res.stack
}

// NoPanic reports a panic that came back from WithBadRange.
func (c *Ctx) NoPanic(pv any, stack, what string) {
	if pv != nil {
		c.Fail("panic", "%s: panicked: %v\n%s", what, pv, stack)
	}
}

// SealedFile returns a file in memory which holds content and on which the
// operations of the given kind (a sum of the Seal constants) fail.
func SealedFile(content []byte, seals int) (fd int, err error) {
	name := []byte("verif\x00")
	const sysMemfdCreate, allowSealing = 319, 2
	r, _, e := syscall.Syscall(sysMemfdCreate, uintptr(unsafe.Pointer(&name[0])), allowSealing, 0)
	if e != 0 {
		return -1, e
	}
	for n := 0; n < len(content); {
		k, err := syscall.Write(int(r), content[n:])
		if err != nil {
			return -1, err
		}
		n += k
	}
	const fAddSeals = 1033
	if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, r, fAddSeals, uintptr(seals)); e != 0 {
		syscall.Close(int(r))
		return -1, fmt.Errorf("sealing: %w", e)
	}
	return int(r), nil
}

// What a seal prevents.
const (
	SealShrink = 2
	SealGrow   = 4
	SealWrite  = 8
)
