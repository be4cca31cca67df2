// Checks F01-F05: the FAT12/16/32 building blocks.
package fatx

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"slices"
	"sort"
	"strings"
	"time"
	_ "time/tzdata" // the sandbox may have no zone files

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"

	"verifharness/h"
	"verifharness/iox"
)

// Props lists the checks of this area.
func Props() []*h.Prop {
	return []*h.Prop{
		&h.Prop{ID: "F01", Level: "exploration",
			Rule:        "a boot sector decodes to the published formulas' values, or is refused as corrupted when its fields are impossible, or fails with the I/O error when it is short; never panics",
			Assumptions: []string{"zero FATs, zero reserved sectors, zero clusters and a zero FAT size are not judged"},
			Run:         f01},
		&h.Prop{ID: "F02", Level: "exploration",
			Rule:        "a directory entry decodes to the values of an independent decoder",
			Assumptions: []string{"dates that are not calendar dates and hundredths above 199 must not panic but their value is not judged"},
			Run:         f02},
		&h.Prop{ID: "F03", Level: "fault_enumeration",
			Rule:        "reads of a synthesized volume return the reference tree's data; damaged chains are reported as corruption and injected failures as themselves; a step budget bounds every operation",
			Assumptions: []string{"the version specific part (table access, root directory) is supplied by the harness"},
			Run:         f03},
		&h.Prop{ID: "F04", Level: "fault_enumeration",
			Rule:        "a removal releases exactly the clusters of its file, once each, and deletes exactly its entry; everything else keeps its content",
			Assumptions: []string{"the version specific part (table access, root directory) is supplied by the harness"},
			Run:         f04},
		&h.Prop{ID: "F05", Level: "exploration",
			Rule: "a setter changes its own field to the given value and nothing else, or refuses and changes nothing",
			Run:  f05},
	}
}

// ---------------------------------------------------------------- F01

type geometry struct {
	fatSecs, totalFat, rootSecs, bpc, clusters, data, first uint64
	version                                                 int
	corrupt                                                 string
	vague                                                   bool
}

func le16(b []byte) uint64 { return uint64(b[0]) | uint64(b[1])<<8 }
func le32(b []byte) uint64 { return le16(b) | le16(b[2:])<<16 }

// spec computes the geometry from the published formulas.
func spec(b []byte) (g geometry) {
	bps, spc := le16(b[11:]), uint64(b[13])
	reserved, nfats, ents := le16(b[14:]), uint64(b[16]), le16(b[17:])
	tot := le16(b[19:])
	if tot == 0 {
		tot = le32(b[32:])
	}
	g.fatSecs = le16(b[22:])
	if g.fatSecs == 0 {
		g.fatSecs = le32(b[36:])
	}
	g.vague = reserved == 0 || nfats == 0 || g.fatSecs == 0
	switch bps {
	case 512, 1024, 2048, 4096:
	default:
		g.corrupt = fmt.Sprintf("%d bytes per sector", bps)
		return
	}
	if spc == 0 || spc > 128 || spc&(spc-1) != 0 {
		g.corrupt = fmt.Sprintf("%d sectors per cluster", spc)
		return
	}
	g.bpc = bps * spc
	if g.bpc > 32768 {
		g.corrupt = fmt.Sprintf("%d bytes per cluster", g.bpc)
		return
	}
	g.rootSecs = (ents*32 + bps - 1) / bps
	g.totalFat = nfats * g.fatSecs
	g.first = reserved + g.totalFat + g.rootSecs
	if g.first > tot {
		g.corrupt = fmt.Sprintf("data at sector %d of %d", g.first, tot)
		return
	}
	g.data = tot - g.first
	g.clusters = g.data / spc
	g.vague = g.vague || g.clusters == 0
	switch {
	case g.clusters < 4085:
		g.version = 12
	case g.clusters < 65525:
		g.version = 16
	default:
		g.version = 32
		if ents != 0 {
			g.corrupt = "a FAT32 volume with a fixed root directory"
		}
	}
	if g.version != 32 && le16(b[22:]) == 0 {
		g.vague = true
	}
	return
}

func checkBoot(c *h.Ctx, b []byte, bs *fat.FATBootSector, err error) {
	g := spec(b)
	if (bs == nil) == (err == nil) {
		c.Fail("result", "boot sector %x gave both or neither of a result and an error (%v)", b[:40], err)
	}
	if g.corrupt != "" {
		c.Count("corrupt", 1)
		if err == nil && !g.vague {
			c.Fail("accepted", "boot sector %x was accepted although it has %s", b[:40], g.corrupt)
		}
		if err != nil && !errors.Is(err, disko.ErrFileSystemCorrupted) {
			c.Fail("error", "boot sector %x with %s was refused with %v, not as corrupted", b[:40], g.corrupt, err)
		}
		return
	}
	if err != nil {
		if g.vague && errors.Is(err, disko.ErrFileSystemCorrupted) {
			return
		}
		c.Fail("refused", "well-formed boot sector %x was refused: %v", b[:40], err)
	}
	c.Count("valid", 1)
	c.Distinct("valid", g.version, g.bpc, g.rootSecs == 0, le16(b[19:]) == 0)
	want := []struct {
		what      string
		got, want uint64
	}{
		{"SectorsPerFAT", uint64(bs.SectorsPerFAT), g.fatSecs},
		{"TotalFATSectors", uint64(bs.TotalFATSectors), g.totalFat},
		{"RootDirSectors", uint64(bs.RootDirSectors), g.rootSecs},
		{"BytesPerCluster", uint64(bs.BytesPerCluster), g.bpc},
		{"TotalClusters", uint64(bs.TotalClusters), g.clusters},
		{"TotalDataSectors", uint64(bs.TotalDataSectors), g.data},
		{"FirstDataSector", uint64(bs.FirstDataSector), g.first},
		{"FATVersion", uint64(bs.FATVersion), uint64(g.version)},
		{"DirentsPerCluster", uint64(bs.DirentsPerCluster), g.bpc / 32},
		{"BytesPerSector", uint64(bs.BytesPerSector), le16(b[11:])},
		{"SectorsPerCluster", uint64(bs.SectorsPerCluster), uint64(b[13])},
		{"ReservedSectors", uint64(bs.ReservedSectors), le16(b[14:])},
		{"NumFATs", uint64(bs.NumFATs), uint64(b[16])},
		{"RootEntryCount", uint64(bs.RootEntryCount), le16(b[17:])},
		{"TotalSectors16", uint64(bs.TotalSectors16), le16(b[19:])},
		{"Media", uint64(bs.Media), uint64(b[21])},
		{"SectorsPerFAT16", uint64(bs.SectorsPerFAT16), le16(b[22:])},
		{"SectorsPerTrack", uint64(bs.SectorsPerTrack), le16(b[24:])},
		{"NumHeads", uint64(bs.NumHeads), le16(b[26:])},
		{"HiddenSectors", uint64(bs.HiddenSectors), le32(b[28:])},
		{"TotalSectors32", uint64(bs.TotalSectors32), le32(b[32:])},
	}
	for _, w := range want {
		if w.got != w.want {
			c.Fail("value", "boot sector %x: %s is %d, the specification gives %d", b[:40], w.what, w.got, w.want)
		}
	}
	if string(bs.JmpBoot[:]) != string(b[:3]) || string(bs.OEMName[:]) != string(b[3:11]) {
		c.Fail("value", "boot sector %x: JmpBoot or OEMName is wrong", b[:40])
	}
}

// aimed builds a boot sector near the interesting values.
func aimed(r *rand.Rand) []byte {
	b := make([]byte, 64)
	r.Read(b)
	bps := []int{512, 512, 1024, 2048, 4096}[r.Intn(5)]
	spc := 1 << r.Intn(8)
	for r.Intn(8) > 0 && bps*spc > 32768 {
		spc /= 2
	}
	clusters := []int{1 + r.Intn(5000), 4083 + r.Intn(4), 65523 + r.Intn(4), 60000 + r.Intn(100000), 1 << (10 + r.Intn(14)), 0}[r.Intn(6)]
	reserved := []int{1, 32, r.Intn(65536), 65535, 1 + r.Intn(8)}[r.Intn(5)]
	nfats := []int{1, 2, 2, 3, r.Intn(256)}[r.Intn(5)]
	ents := []int{0, 0, 16, 224, 512, r.Intn(65536), 65535, 65521, 2047 + r.Intn(3)}[r.Intn(9)]
	if clusters >= 65525 && r.Intn(3) > 0 {
		ents = 0
	}
	fatSecs := []int{1 + r.Intn(20), r.Intn(65536), 65535, 65536 + r.Intn(100000), clusters/128 + 1}[r.Intn(5)]
	first := reserved + nfats*fatSecs + (ents*32+bps-1)/bps
	total := first + clusters*spc + []int{0, 0, spc - 1, r.Intn(spc)}[r.Intn(4)]
	switch r.Intn(12) {
	case 0:
		total = first - 1 - r.Intn(5)
	case 1:
		total = r.Intn(70000)
	}
	if total < 0 {
		total = 0
	}
	none := r.Intn(30) == 0 // a volume of no sectors at all
	if none {
		total = 0
	}
	put16(b[11:], bps)
	b[13] = byte(spc)
	put16(b[14:], reserved)
	b[16] = byte(nfats)
	put16(b[17:], ents)
	put16(b[19:], 0)
	if total < 65536 && (total == 0 || r.Intn(4) > 0) {
		put16(b[19:], total) // TotalSectors32 keeps random content
	} else {
		put32(b[32:], total)
	}
	if none {
		put32(b[32:], 0)
	}
	if fatSecs < 65536 && r.Intn(4) > 0 {
		put16(b[22:], fatSecs)
	} else {
		put16(b[22:], 0)
		put32(b[36:], fatSecs)
	}
	switch r.Intn(24) {
	case 0:
		b[13] = byte(r.Intn(256))
	case 1:
		put16(b[11:], r.Intn(65536))
	case 2:
		put16(b[11:], []int{0, 256, 513, 8192, 32768, 128, 65535}[r.Intn(7)])
	case 3:
		r.Read(b[11+r.Intn(29):][:1])
	}
	return b
}

func f01(c *h.Ctx) {
	decode := func(b []byte) (*fat.FATBootSector, error) {
		return fat.NewFATBootSectorFromStream(bytes.NewReader(b))
	}
	for k := range c.M(150, 6000) {
		c.Case(fmt.Sprintf("boot sectors %d", k), func(r *rand.Rand) {
			for range 300 {
				b := aimed(r)
				bs, err := decode(b)
				checkBoot(c, b, bs, err)
			}
			c.Eval(300)
		})
	}
	c.Case("every sectors per cluster", func(r *rand.Rand) {
		for _, bps := range []int{0, 1, 256, 511, 512, 513, 1024, 2048, 4096, 8192, 65535} {
			for spc := range 256 {
				b := aimed(r)
				put16(b[11:], bps)
				b[13] = byte(spc)
				bs, err := decode(b)
				checkBoot(c, b, bs, err)
			}
		}
	})
	for k := range c.M(30, 1000) {
		c.Case(fmt.Sprintf("short and failing streams %d", k), func(r *rand.Rand) {
			b := aimed(r)
			for n := 0; n < 40; n++ {
				if bs, err := decode(b[:n]); bs != nil || !errors.Is(err, disko.ErrIOFailed) {
					c.Fail("short", "a boot sector of %d bytes gave error %v, expected the I/O error", n, err)
				}
				rd := iox.FailReader(b, n, iox.Modes(r)[r.Intn(6)], r.Intn(2) == 0)
				if bs, err := fat.NewFATBootSectorFromStream(rd); bs != nil || !errors.Is(err, disko.ErrIOFailed) || !errors.Is(err, iox.ErrInjected) {
					c.Fail("fault", "a read failure at byte %d gave error %v; the failure and the I/O error must be recognisable", n, err)
				}
				c.Count("short", 2)
			}
			for _, m := range iox.Modes(r) {
				for _, n := range []int{40, 41, 64} {
					bs, err := fat.NewFATBootSectorFromStream(iox.NewReader(b[:n], m, r.Intn(2) == 0))
					checkBoot(c, b, bs, err)
				}
			}
		})
	}
	c.Case("version thresholds", func(r *rand.Rand) {
		for i := uint(0); i < 200000; i++ {
			want := 32
			if i < 4085 {
				want = 12
			} else if i < 65525 {
				want = 16
			}
			if got := fat.DetermineFATVersion(i); got != want {
				c.Fail("version", "%d clusters are FAT%d, not FAT%d", i, want, got)
			}
		}
		for _, i := range []uint{1 << 28, 1<<32 - 1, 1 << 40, 1<<64 - 1} {
			if fat.DetermineFATVersion(i) != 32 {
				c.Fail("version", "%d clusters are not FAT32", i)
			}
		}
	})
	c.Require("valid", 10000)
	c.Require("corrupt", 1000)
	c.Require("short", 1000)
}

// ---------------------------------------------------------------- F02

func daysIn(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

type civil struct{ y, mo, d, h, mi, s, ns int }

func (v civil) String() string {
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d.%09d", v.y, v.mo, v.d, v.h, v.mi, v.s, v.ns)
}

// ok says whether the fields are valid and name a time there is in the local
// zone: the clocks may skip it.
func civilOf(date, tim uint64, hund int) (v civil, ok bool) {
	v = civil{1980 + int(date>>9), int(date >> 5 & 15), int(date & 31), int(tim >> 11), int(tim >> 5 & 63), int(tim&31) * 2, 0}
	v.s += hund / 100
	v.ns = hund % 100 * 10000000
	ok = v.mo >= 1 && v.mo <= 12 && v.d >= 1 && v.d <= daysIn(v.y, v.mo) && v.h < 24 && v.mi < 60 && tim&31 < 30 && hund < 200
	ok = ok && sameTime(time.Date(v.y, time.Month(v.mo), v.d, v.h, v.mi, v.s, v.ns, time.Local), v)
	return
}

func sameTime(t time.Time, v civil) bool {
	return t.Location() == time.Local && t.Year() == v.y && int(t.Month()) == v.mo && t.Day() == v.d &&
		t.Hour() == v.h && t.Minute() == v.mi && t.Second() == v.s && t.Nanosecond() == v.ns
}

func bootFor(r *rand.Rand) *fat.FATBootSector {
	for {
		b := aimed(r)
		if bs, err := fat.NewFATBootSectorFromStream(bytes.NewReader(b)); err == nil {
			return bs
		}
	}
}

func f02(c *h.Ctx) {
	c.Logf("local time zone: %v", time.Now().Format("MST -0700"))
	if time.Date(2017, time.March, 12, 0, 0, 0, 0, time.Local).Day() != 11 {
		panic("the local time zone is not the one these tests are for")
	}
	c.Case("the attribute bits", func(r *rand.Rand) {
		for i, a := range []int{fat.AttrReadOnly, fat.AttrHidden, fat.AttrSystem, fat.AttrVolumeLabel, fat.AttrDirectory, fat.AttrArchived, fat.AttrDevice} {
			if a != 1<<i {
				c.Fail("bits", "the constant of attribute bit %d is %d", i, a)
			}
			c.Distinct("const", i)
		}
	})
	c.Case("every date", func(r *rand.Rand) {
		for d := uint64(0); d < 65536; d++ {
			got := fat.DateFromInt(uint16(d))
			if v, ok := civilOf(d, 0, 0); ok {
				if !sameTime(got, v) {
					c.Fail("date", "date word %#04x decodes to %v, expected %v local time", d, got, v)
				}
				c.Count("dates", 1)
			}
			for hour := range uint64(24) {
				got := fat.TimestampFromParts(uint16(d), uint16(hour<<11), 0)
				if v, ok := civilOf(d, hour<<11, 0); ok {
					if !sameTime(got, v) {
						c.Fail("hour", "date %#04x at %d o'clock decodes to %v, expected %v local time", d, hour, got, v)
					}
					if _, ok := civilOf(d, 0, 0); !ok {
						c.Count("hours_of_days_without_midnight", 1)
					}
				}
			}
		}
		c.Eval(65536)
	})
	c.Case("every time", func(r *rand.Rand) {
		for k := uint64(0); k < 65536; k++ {
			for _, hund := range []int{0, 99, 100, 199, r.Intn(200), r.Intn(256)} {
				date := uint64(r.Intn(128)<<9 | (1+r.Intn(12))<<5 | (1 + r.Intn(28)))
				got := fat.TimestampFromParts(uint16(date), uint16(k), uint8(hund))
				if v, ok := civilOf(date, k, hund); ok {
					if !sameTime(got, v) {
						c.Fail("time", "date %#04x, time %#04x, hundredths %d decode to %v, expected %v local time", date, k, hund, got, v)
					}
					c.Count("times", 1)
				}
				if ts := fat.TimeToTimespec(got); int64(ts.Sec) != got.Unix() || int64(ts.Nsec) != int64(got.Nanosecond()) {
					c.Fail("timespec", "%v becomes %d seconds and %d nanoseconds, expected %d and %d", got, ts.Sec, ts.Nsec, got.Unix(), got.Nanosecond())
				}
			}
		}
		c.Eval(6 * 65536)
	})
	c.Case("every hundredth and attribute", func(r *rand.Rand) {
		for hund := range 256 {
			for range 200 {
				date, tim := uint64(r.Intn(65536)), uint64(r.Intn(65536))
				got := fat.TimestampFromParts(uint16(date), uint16(tim), uint8(hund))
				if v, ok := civilOf(date, tim, hund); ok && !sameTime(got, v) {
					c.Fail("time", "date %#04x, time %#04x, hundredths %d decode to %v, expected %v local time", date, tim, hund, got, v)
				}
			}
			if got := fat.AttrFlagsToFileMode(uint8(hund)); !modeOK(uint8(hund), got) {
				c.Fail("mode", "attributes %#02x give mode %v", hund, got)
			}
			fat.AttrFlagsToFileMode(uint8(hund))
		}
	})
	for k := range c.M(200, 8000) {
		c.Case(fmt.Sprintf("entries %d", k), func(r *rand.Rand) {
			bs := bootFor(r)
			for range 100 {
				var b [32]byte
				r.Read(b[:])
				if r.Intn(5) > 0 {
					raw, _ := legalName(r)
					copy(b[:], raw[:])
				}
				if r.Intn(3) > 0 {
					for _, o := range []int{16, 18, 24} {
						put16(b[o:], r.Intn(128)<<9|(1+r.Intn(12))<<5|(1+r.Intn(28)))
					}
					for _, o := range []int{14, 22} {
						put16(b[o:], r.Intn(24)<<11|r.Intn(60)<<5|r.Intn(30))
					}
					b[13] = byte(r.Intn(200))
				}
				switch r.Intn(12) {
				case 0:
					b[0] = 0xe5
				case 1:
					b[0] = 0
				case 2:
					b[0] = 5
				case 3:
					for i := 1 + r.Intn(8); i < 8; i++ {
						b[i] = ' '
					}
				case 4:
					put32(b[28:], int(bs.BytesPerCluster)*r.Intn(100)+r.Intn(3)-1)
				case 5:
					for i := range 8 {
						b[i] = ' '
					}
				}
				checkEntry(c, bs, b)
			}
			c.Eval(100)
			for n := 0; n < 32; n++ {
				b := make([]byte, n, n+r.Intn(40))
				r.Read(b)
				if _, err := fat.NewRawDirentFromBytes(b); err == nil {
					c.Fail("short", "a directory entry of %d bytes was accepted", n)
				}
				c.Count("short", 1)
			}
		})
	}
	c.Require("dates", 40000)
	c.Require("times", 100000)
	c.Require("entries", 5000)
	c.Require("deleted", 300)
	c.Require("unused", 300)
}

func modeOK(attr uint8, m os.FileMode) bool {
	want := os.FileMode(0o777)
	if attr&1 != 0 {
		want = 0o555
	}
	switch {
	case attr&16 != 0:
		want |= os.ModeDir
	case attr&64 != 0:
		want |= os.ModeDevice
	}
	return m&^os.ModeCharDevice == want && (m&os.ModeCharDevice == 0 || want&os.ModeDevice != 0)
}

func checkEntry(c *h.Ctx, bs *fat.FATBootSector, b [32]byte) {
	fail := func(key, f string, a ...any) {
		c.Fail(key, "entry %x: %s", b, fmt.Sprintf(f, a...))
	}
	// Extra bytes after the entry do not matter.
	raw, err := fat.NewRawDirentFromBytes(append(b[:], 1, 2, 3))
	if err != nil {
		fail("refused", "refused: %v", err)
	}
	for _, w := range []struct {
		what      string
		got, want uint64
	}{
		{"AttributeFlags", uint64(raw.AttributeFlags), uint64(b[11])},
		{"NTReserved", uint64(raw.NTReserved), uint64(b[12])},
		{"CreatedTimeMillis", uint64(raw.CreatedTimeMillis), uint64(b[13])},
		{"CreatedTime", uint64(raw.CreatedTime), le16(b[14:])},
		{"CreatedDate", uint64(raw.CreatedDate), le16(b[16:])},
		{"LastAccessedDate", uint64(raw.LastAccessedDate), le16(b[18:])},
		{"FirstClusterHigh", uint64(raw.FirstClusterHigh), le16(b[20:])},
		{"LastModifiedTime", uint64(raw.LastModifiedTime), le16(b[22:])},
		{"LastModifiedDate", uint64(raw.LastModifiedDate), le16(b[24:])},
		{"FirstClusterLow", uint64(raw.FirstClusterLow), le16(b[26:])},
		{"FileSize", uint64(raw.FileSize), le32(b[28:])},
	} {
		if w.got != w.want {
			fail("raw", "raw %s is %#x, expected %#x", w.what, w.got, w.want)
		}
	}
	if string(raw.Name[:]) != string(b[:8]) || string(raw.Extension[:]) != string(b[8:11]) {
		fail("raw", "raw name is %q.%q", raw.Name, raw.Extension)
	}
	before := raw
	d, err := fat.NewDirentFromRaw(bs, &raw)
	if raw != before {
		fail("raw", "decoding changed the raw entry")
	}
	if b[0] == 0 {
		if !errors.Is(err, disko.ErrNotFound) {
			fail("unused", "an unused entry gave error %v, expected not-found", err)
		}
		c.Count("unused", 1)
		return
	}
	if b[0] == ' ' {
		if err != nil && errors.Is(err, disko.ErrNotFound) {
			fail("blank", "an entry with a blank name was reported as the end of the directory")
		}
		if strings.TrimRight(string(b[:8]), " ") == "" && err == nil {
			fail("blank", "an entry without a name was accepted as %q", d.Name())
		}
		if err != nil {
			return
		}
	}
	if err != nil {
		fail("refused", "refused: %v", err)
	}
	c.Count("entries", 1)
	deleted := b[0] == 0xe5
	name := decodeName([11]byte(b[:11]))
	if deleted {
		name = string([]byte{b[13]}) + name[1:]
		c.Count("deleted", 1)
	}
	if d.Name() != name {
		fail("name", "the name is %q, expected %q", d.Name(), name)
	}
	size, first := int64(le32(b[28:])), le16(b[26:])|le16(b[20:])<<16
	st := d.Stat()
	bpc := int64(bs.BytesPerCluster)
	c.Distinct(deleted, b[0] == 5, b[11], size%bpc == 0, first>>16 == 0)
	if d.Size() != size || st.Size != size {
		fail("size", "size is %d/%d, expected %d", d.Size(), st.Size, size)
	}
	if uint64(d.FirstCluster) != first || st.InodeNumber != first {
		fail("cluster", "first cluster is %#x, inode %#x, expected %#x", d.FirstCluster, st.InodeNumber, first)
	}
	if d.AttributeFlags != int(b[11]) || d.NTReserved != int(b[12]) {
		fail("attributes", "attributes are %#x/%#x", d.AttributeFlags, d.NTReserved)
	}
	if st.BlockSize != bpc || st.NumBlocks != (size+bpc-1)/bpc {
		fail("blocks", "%d blocks of %d bytes, expected %d of %d", st.NumBlocks, st.BlockSize, (size+bpc-1)/bpc, bpc)
	}
	if !modeOK(b[11], d.Mode()) || st.ModeFlags != d.Mode() || d.Type() != d.Mode().Type() ||
		d.IsDir() != (b[11]&16 != 0) || d.IsDir() != d.Mode().IsDir() {
		fail("mode", "attributes %#02x give mode %v, stat mode %v, type %v, directory %v", b[11], d.Mode(), st.ModeFlags, d.Type(), d.IsDir())
	}
	info, err := d.Info()
	if err != nil || info.Name() != name || info.Size() != size || info.Mode() != d.Mode() || !info.ModTime().Equal(d.ModTime()) {
		fail("info", "Info() disagrees with the entry (error %v)", err)
	}
	if sys, ok := d.Sys().(disko.FileStat); !ok || sys != st {
		fail("info", "Sys() is %#v", d.Sys())
	}
	at := func(what string, got time.Time, date, tim uint64, hund int) {
		if v, ok := civilOf(date, tim, hund); ok {
			if !sameTime(got, v) {
				fail("time", "%s is %v, expected %v local time", what, got, v)
			}
			c.Count("entry_times", 1)
		}
	}
	at("last access", st.LastAccessed, le16(b[18:]), 0, 0)
	at("last access", d.GetLastAccessedAt(), le16(b[18:]), 0, 0)
	at("last modification", st.LastModified, le16(b[24:]), le16(b[22:]), 0)
	at("last modification", d.GetLastModifiedAt(), le16(b[24:]), le16(b[22:]), 0)
	at("last modification", d.ModTime(), le16(b[24:]), le16(b[22:]), 0)
	created, err := d.GetCreatedAt()
	if deleted {
		if err == nil {
			fail("deleted", "the creation time of a deleted entry was given as %v", created)
		}
	} else {
		if err != nil {
			fail("created", "the creation time could not be read: %v", err)
		}
		at("creation", created, le16(b[16:]), le16(b[14:]), int(b[13]))
		at("creation", st.CreatedAt, le16(b[16:]), le16(b[14:]), int(b[13]))
	}
	if _, err := d.GetDeletedAt(); (err == nil) != deleted {
		fail("deleted", "asking for the deletion time gave error %v", err)
	}
}

// ---------------------------------------------------------------- F03

var corrupted = disko.ErrFileSystemCorrupted

func mount(v *vol) (*common, *fat.FATDriver) {
	m := newCommon(v)
	return m, newDriver(m, m)
}

func (m *common) judged(c *h.Ctx) {
	if m.wrong != "" {
		c.Fail("backend", "%s", m.wrong)
	}
}

// variants spells a path differently.
func variants(r *rand.Rand, p string) string {
	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
	var out []string
	for _, q := range parts {
		switch r.Intn(8) {
		case 0:
			out = append(out, ".")
		case 1:
			out = append(out, "", "")
		case 2:
			out = append(out, q, "..")
		}
		out = append(out, q)
	}
	s := strings.Join(out, "/")
	if r.Intn(2) == 0 {
		s = "/" + s
	}
	if r.Intn(5) == 0 {
		s += "/"
	}
	return s
}

func checkStat(c *h.Ctx, v *vol, what string, n *node, st disko.FileStat) {
	bpc := int64(v.bpc())
	size := int64(len(n.data))
	if st.IsDir() != n.dir || st.Size != size || st.InodeNumber != uint64(n.first()) || st.BlockSize != bpc || st.NumBlocks != (size+bpc-1)/bpc {
		c.Fail("stat", "%s %q: directory %v, size %d, inode %d, %d blocks of %d; expected directory %v, size %d, inode %d", what, n.path(), st.IsDir(), st.Size, st.InodeNumber, st.NumBlocks, st.BlockSize, n.dir, size, n.first())
	}
	if vv, ok := civilOf(le16(n.raw[24:]), le16(n.raw[22:]), 0); ok && !sameTime(st.LastModified, vv) {
		c.Fail("stat", "%s %q: modified %v, expected %v", what, n.path(), st.LastModified, vv)
	}
	if st.ModeFlags&0o222 != 0 && n.raw[11]&1 != 0 {
		c.Fail("stat", "%s %q: read-only file has mode %v", what, n.path(), st.ModeFlags)
	}
}

func checkTree(c *h.Ctx, r *rand.Rand, v *vol, m *common, drv *fat.FATDriver, d *node) {
	p := d.path()
	if d == v.root {
		p = []string{"", "/", ".", "//", "/..", "./"}[r.Intn(6)]
		if st, err := drv.Stat(p); err != nil || !st.IsDir() {
			c.Fail("stat", "status of the root, %q: directory %v, error %v", p, st.IsDir(), err)
		}
	} else if r.Intn(2) == 0 {
		p = variants(r, p)
	}
	m.reset()
	infos, err := drv.Readdir(p)
	m.judged(c)
	if err != nil {
		c.Fail("readdir", "listing %q failed: %v", p, err)
	}
	byName := map[string]os.FileInfo{}
	for _, i := range infos {
		if d != v.root && (i.Name() == "." || i.Name() == "..") && i.IsDir() {
			continue
		}
		if byName[i.Name()] != nil {
			c.Fail("readdir", "listing %q shows %q twice", p, i.Name())
		}
		byName[i.Name()] = i
	}
	live := 0
	for _, k := range d.kids {
		if k.deleted {
			continue
		}
		live++
		i := byName[k.name]
		if i == nil {
			c.Fail("readdir", "listing %q lacks %q (%d entries listed)", p, k.name, len(infos))
		}
		if i.IsDir() != k.dir || i.Size() != int64(len(k.data)) {
			c.Fail("readdir", "listing %q shows %q as directory %v of size %d, expected %v, %d", p, k.name, i.IsDir(), i.Size(), k.dir, len(k.data))
		}
		if st, ok := i.Sys().(disko.FileStat); !ok {
			c.Fail("readdir", "entry %q has no status", k.name)
		} else {
			checkStat(c, v, "listed", k, st)
		}
		m.reset()
		q := k.path()
		if r.Intn(2) == 0 {
			q = variants(r, q)
		}
		st, err := drv.Stat(q)
		if err != nil {
			c.Fail("stat", "status of %q failed: %v", q, err)
		}
		checkStat(c, v, "stat", k, st)
		if ls, err := drv.Lstat(q); err != nil || ls != st {
			c.Fail("stat", "Lstat of %q gives something else (error %v)", q, err)
		}
		m.reset()
		data, err := drv.ReadFile(q)
		m.judged(c)
		if k.dir {
			if !errors.Is(err, disko.ErrIsADirectory) {
				c.Fail("readfile", "reading directory %q gave %v", q, err)
			}
			checkTree(c, r, v, m, drv, k)
		} else {
			if err != nil || !bytes.Equal(data, k.data) {
				c.Fail("readfile", "reading %q (%d bytes, chain %v) gave error %v, %s", q, len(k.data), k.chain, err, h.FirstDiff(data, k.data))
			}
			c.Keep("ReadFile", data)
			if m.lookups > len(k.chain)+2000 {
				c.Fail("work", "reading %q took %d table lookups", q, m.lookups)
			}
			c.Count("files", 1)
			c.Count("file_clusters", int64(len(k.chain)))
			c.Distinct("file", v.version, len(k.data)%v.bpc() == 0, len(k.chain), len(k.chain)*v.bpc()-len(k.data) >= v.bpc())
			if _, err := drv.Readdir(q); !errors.Is(err, disko.ErrNotADirectory) {
				c.Fail("notdir", "listing file %q gave %v", q, err)
			}
			if _, err := drv.Stat(q + "/X"); !errors.Is(err, disko.ErrNotADirectory) {
				c.Fail("notdir", "looking below file %q gave %v", q, err)
			}
			m.reset()
			if !internals {
				continue
			}
			if got, err := listClusters(drv, fat.ClusterID(k.first())); k.first() != 0 && (err != nil || fmt.Sprint(got) != fmt.Sprint(k.chain)) {
				c.Fail("chain", "chain of %q is %v (error %v), expected %v", q, got, err, k.chain)
			}
			if len(k.chain) > 0 {
				i := r.Intn(len(k.chain))
				got, err := readCluster(drv, fat.ClusterID(k.chain[i]))
				if err != nil || !bytes.Equal(got, v.readCluster(k.chain[i])) {
					c.Fail("cluster", "cluster %d reads wrong (error %v)", k.chain[i], err)
				}
				c.Keep("reading a cluster", got)
			}
		}
	}
	if len(byName) != live {
		c.Fail("readdir", "listing %q has %d entries, expected %d", p, len(byName), live)
	}
	// Names that are not there.
	for range 3 {
		_, name := legalName(r)
		switch r.Intn(3) {
		case 0:
			if len(d.kids) > 0 {
				k := d.kids[r.Intn(len(d.kids))]
				name = []string{k.name + "X", "X" + k.name, k.name[:len(k.name)-1], strings.ReplaceAll(k.name, ".", "")}[r.Intn(4)]
			}
		case 1: // what a deleted entry is called
			for _, k := range d.kids {
				if k.deleted {
					b := k.raw
					name = string([]byte{b[13]}) + decodeName([11]byte(b[:11]))[1:]
				}
			}
		}
		if byName[name] != nil || name == "" || name == "." || name == ".." || strings.Contains(name, "/") {
			continue
		}
		if _, err := drv.Stat(d.path() + "/" + name); !errors.Is(err, disko.ErrNotFound) {
			c.Fail("notfound", "status of %q in %q, which does not exist, gave %v", name, d.path(), err)
		}
		if _, err := drv.ReadFile(d.path() + "/" + name + "/Y"); !errors.Is(err, disko.ErrNotFound) {
			c.Fail("notfound", "reading below %q in %q, which does not exist, gave %v", name, d.path(), err)
		}
		c.Count("missing", 1)
	}
	c.Count("directories", 1)
}

func f03(c *h.Ctx) {
	for k := range c.M(300, 12000) {
		c.Case(fmt.Sprintf("volume %d", k), func(r *rand.Rand) {
			v := sizedVol(c, r, k == 7 || k%500 == 499)
			v.populate(r, true)
			m, drv := mount(v)
			c.Distinct("volume", v.version, v.bps, v.spc, v.rootEnts)
			checkTree(c, r, v, m, drv, v.root)
			files := v.root.all()
			for range 20 {
				if len(files) < 2 {
					break
				}
				a, b := files[r.Intn(len(files))], files[r.Intn(len(files))]
				if a.first() == 0 || b.first() == 0 {
					continue
				}
				fi := func(n *node) os.FileInfo {
					l, err := drv.Readdir(n.parent.path())
					if err != nil {
						c.Fail("readdir", "listing %q failed: %v", n.parent.path(), err)
					}
					for _, i := range l {
						if i.Name() == n.name {
							return i
						}
					}
					c.Fail("readdir", "listing lacks %q", n.path())
					return nil
				}
				if got := drv.SameFile(fi(a), fi(b)); got != (a == b) {
					c.Fail("samefile", "SameFile(%q, %q) is %v", a.path(), b.path(), got)
				}
				// A file stays the same one when it grows, shrinks or is touched.
				if !a.dir {
					before := fi(a)
					for _, s := range v.dirSlots(dirCluster(v, a.parent)) {
						if string(s[:11]) == string(a.raw[:11]) {
							old := append([]byte(nil), s...)
							switch r.Intn(3) {
							case 0:
								put32(s[28:], max(0, len(a.data)-1-r.Intn(5)))
							case 1:
								put32(s[28:], len(a.data)+1+r.Intn(70000))
							default:
								put16(s[22:], r.Intn(24)<<11|r.Intn(60)<<5|r.Intn(30))
								put16(s[24:], r.Intn(128)<<9|(1+r.Intn(12))<<5|(1+r.Intn(28)))
							}
							if after := fi(a); !drv.SameFile(before, after) || !drv.SameFile(after, before) {
								c.Fail("samefile", "%q is not the same file after a change of its entry from %x to %x", a.path(), old, s)
							}
							copy(s, old)
						}
					}
				}
				m.reset()
			}
			m.judged(c)
		})
	}
	for k := range c.N(16, 200) {
		c.Case(fmt.Sprintf("stretched volume %d", k), func(r *rand.Rand) {
			v := newVol(c, r)
			v.stretched = true
			v.populate(r, true)
			m, drv := mount(v)
			c.Distinct("stretched", v.version, v.bps, v.spc)
			checkTree(c, r, v, m, drv, v.root)
			c.Count("stretched_volumes", 1)
		})
	}
	c.Require("stretched_volumes", 12)
	for k := range c.M(250, 10000) {
		c.Case(fmt.Sprintf("corrupt chain %d", k), func(r *rand.Rand) { corruptCase(c, r) })
	}
	for k := range c.M(150, 6000) {
		c.Case(fmt.Sprintf("fault %d", k), func(r *rand.Rand) { faultCase(c, r) })
	}
	c.Require("files", 1000)
	c.Require("directories", 500)
	c.Require("corrupt_chains", 2000)
	c.Require("faults", 1000)
	c.Require("missing", 500)
	c.Require("deleted_namesakes", 100)
	c.Require("large_volumes", 5)
	c.Require("huge_volumes", 1)
}

// corruptCase damages chains and first clusters of files and directories.
func corruptCase(c *h.Ctx, r *rand.Rand) {
	v := newVol(c, r)
	v.populate(r, false)
	m, drv := mount(v)
	badValues := func() []uint32 {
		return []uint32{0, 1, v.bad(), uint32(v.clusters) + 2, uint32(v.clusters) + 3 + uint32(r.Intn(50)), v.eocMin() - 2}
	}
	var picked []*node
	for _, n := range v.root.all() {
		if len(n.chain) > 0 && (n.dir || len(n.data) > 0) { // an empty file has nothing to read
			picked = append(picked, n)
		}
	}
	r.Shuffle(len(picked), func(i, j int) { picked[i], picked[j] = picked[j], picked[i] })
	if len(picked) > 6 {
		picked = picked[:6]
	}
	for _, n := range picked {
		expect := func(what string) {
			m.reset()
			var err error
			if n.dir {
				_, err = drv.Readdir(n.path())
			} else {
				_, err = drv.ReadFile(n.path())
			}
			if !errors.Is(err, corrupted) {
				c.Fail("unreported", "%q (%d bytes, chain %v): %s, but reading it gave error %v instead of corruption", n.path(), len(n.data), n.chain, what, err)
			}
			c.Count("corrupt_chains", 1)
			m.judged(c)
		}
		for i, cl := range n.chain {
			if i > 3 && i < len(n.chain)-2 {
				continue
			}
			old := v.table[cl]
			for _, x := range badValues() {
				if v.isCluster(x) || v.isEOC(x) {
					continue
				}
				v.table[cl] = x
				expect(fmt.Sprintf("cluster %d of the chain is followed by %#x", i, x))
				if !internals {
					continue
				}
				m.reset()
				if _, err := listClusters(drv, fat.ClusterID(n.chain[0])); !errors.Is(err, corrupted) {
					c.Fail("unreported", "chain %v with %#x after cluster %d was listed with error %v", n.chain, x, i, err)
				}
				if i+1 < len(n.chain) {
					m.reset()
					if _, err := readClusterOfDirent(drv, direntOf(c, v, n), uint(i+1)); !errors.Is(err, corrupted) {
						c.Fail("unreported", "reading cluster %d of chain %v with %#x after cluster %d gave error %v", i+1, n.chain, x, i, err)
					}
				}
				c.Distinct("bad", v.version, i, x == 0, x == v.bad())
			}
			for j := 0; j <= i; j++ {
				v.table[cl] = n.chain[j]
				expect(fmt.Sprintf("cluster %d of the chain is followed by cluster %d of the chain", i, j))
				if !internals {
					continue
				}
				m.reset()
				if _, err := listClusters(drv, fat.ClusterID(n.chain[0])); !errors.Is(err, corrupted) {
					c.Fail("unreported", "looping chain was listed with error %v", err)
				}
				c.Distinct("loop", i, j)
			}
			if !n.dir && (i+1)*v.bpc() < len(n.data) {
				v.table[cl] = v.eocMin() + uint32(r.Intn(8))
				expect(fmt.Sprintf("the chain ends after %d clusters", i+1))
				c.Distinct("short", i)
			}
			v.table[cl] = old
		}
		// Cluster indexes past the end.
		m.reset()
		for _, i := range []uint{uint(len(n.chain)), uint(len(n.chain)) + 1, 1 << 40} {
			if !internals {
				break
			}
			if _, err := readClusterOfDirent(drv, direntOf(c, v, n), i); err == nil {
				c.Fail("index", "cluster %d of a chain of %d was read", i, len(n.chain))
			}
		}
		for i := range n.chain {
			if !internals {
				break
			}
			m.reset()
			got, err := readClusterOfDirent(drv, direntOf(c, v, n), uint(i))
			if err != nil || !bytes.Equal(got, v.readCluster(n.chain[i])) {
				c.Fail("index", "cluster %d of chain %v reads wrong (error %v)", i, n.chain, err)
			}
		}
		// A damaged first cluster in the entry itself.
		for _, s := range v.dirSlots(dirCluster(v, n.parent)) {
			if string(s[:11]) != string(n.raw[:11]) {
				continue
			}
			var old [32]byte
			copy(old[:], s)
			for _, x := range badValues() {
				if x == 0 && n.dir || v.isCluster(x) {
					continue // a directory at cluster 0 is a link to the root
				}
				if x == 0 && len(n.data) == 0 {
					continue
				}
				put16(s[26:], int(x&0xffff))
				put16(s[20:], int(x>>16))
				expect(fmt.Sprintf("the entry has first cluster %#x", x))
			}
			copy(s, old[:])
			if !n.dir { // more bytes than clusters
				for _, size := range []int{len(n.chain)*v.bpc() + 1, len(n.chain)*v.bpc() + v.bpc(), 1<<32 - 1} {
					put32(s[28:], size)
					expect(fmt.Sprintf("the entry claims %d bytes", size))
				}
				copy(s, old[:])
			}
			break
		}
	}
	m.reset()
	for _, x := range append(badValues(), 1<<32-1) {
		if v.isCluster(x) || !internals {
			continue
		}
		if _, err := readCluster(drv, fat.ClusterID(x)); err == nil {
			c.Fail("index", "cluster %#x of %d was read", x, v.clusters)
		}
	}
	// Undamaged again.
	checkTree(c, r, v, m, drv, v.root)
}

func dirCluster(v *vol, d *node) uint32 {
	if d == v.root {
		return 0
	}
	return d.first()
}

func direntOf(c *h.Ctx, v *vol, n *node) *fat.Dirent {
	for _, s := range v.dirSlots(dirCluster(v, n.parent)) {
		if string(s[:11]) == string(n.raw[:11]) {
			raw, err := fat.NewRawDirentFromBytes(s)
			if err != nil {
				c.Fail("refused", "entry refused: %v", err)
			}
			d, err := fat.NewDirentFromRaw(v.bs, &raw)
			if err != nil {
				c.Fail("refused", "entry refused: %v", err)
			}
			return &d
		}
	}
	panic("entry of " + n.path() + " is gone")
}

// faultCase fails each backend access of each operation in turn.
func faultCase(c *h.Ctx, r *rand.Rand) {
	v := newVol(c, r)
	v.populate(r, false)
	m, drv := mount(v)
	nodes := v.root.all()
	r.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
	if len(nodes) > 8 {
		nodes = nodes[:8]
	}
	sort.SliceStable(nodes, func(i, j int) bool { return nodes[i].parent != v.root && nodes[j].parent == v.root })
	for _, n := range nodes {
		ops := map[string]func() error{
			"Stat": func() error { _, err := drv.Stat(n.path()); return err },
			"ReadFile": func() error {
				data, err := drv.ReadFile(n.path())
				if err == nil && !bytes.Equal(data, n.data) {
					c.Fail("partial", "reading %q succeeded with the wrong data", n.path())
				}
				return err
			},
			"Readdir": func() error { _, err := drv.Readdir(n.path()); return err },
			"cluster": func() error {
				i := uint(len(n.chain) - 1)
				got, err := readClusterOfDirent(drv, direntOf(c, v, n), i)
				if err == nil && !bytes.Equal(got, v.readCluster(n.chain[i])) {
					c.Fail("partial", "reading cluster %d of %q succeeded with the wrong data", i, n.path())
				}
				return err
			},
		}
		for _, what := range []string{"Stat", "ReadFile", "Readdir", "cluster"} {
			if n.dir && what == "ReadFile" || !n.dir && what == "Readdir" || what == "cluster" && (!internals || len(n.chain) == 0) {
				continue
			}
			op := ops[what]
			m.reset()
			if err := op(); err != nil {
				c.Fail("refused", "%s of %q failed: %v", what, n.path(), err)
			}
			lookups, roots, reads := m.lookups, m.roots, m.reads
			try := func(kind string, field *int, k int, want error) {
				*field = k
				m.reset()
				err := op()
				*field = -1
				if err == nil || want != nil && !errors.Is(err, want) {
					c.Fail("unreported", "%s of %q: %s %d failed, but the result is error %v", what, n.path(), kind, k, err)
				}
				c.Count("faults", 1)
				c.Distinct("fault", what, kind, k)
			}
			for k := range min(lookups, 12) {
				try("table lookup", &m.failLookup, k, errTable)
			}
			for k := range roots {
				try("root directory read", &m.failRoot, k, errRoot)
			}
			for k := range min(reads, 12) {
				try("disk read", &m.failRead, k, errDisk)
				try("short disk read", &m.shortRead, k, nil)
			}
			m.judged(c)
		}
	}
	// A truncated image: files whose sectors are missing cannot be read.
	total := v.total
	v.total = v.dataAt + r.Intn(v.total-v.dataAt)
	for _, n := range nodes {
		if n.dir || len(n.data) == 0 {
			continue
		}
		lost, any := false, false
		for i, cl := range n.chain {
			if v.clusterSector(cl)+v.spc > v.total {
				any = true
				if i*v.bpc() < len(n.data) {
					lost = lost || v.clusterSector(cl)+min(v.spc, (len(n.data)-i*v.bpc()+v.bps-1)/v.bps) > v.total
				}
			}
		}
		m.reset()
		data, err := drv.ReadFile(n.path())
		if lost && err == nil {
			c.Fail("unreported", "%q was read from an image that lacks some of its sectors", n.path())
		}
		if !any && n.parent == v.root && v.version != 32 && (err != nil || !bytes.Equal(data, n.data)) {
			c.Fail("readfile", "%q, whose sectors are all present, gave error %v", n.path(), err)
		}
		c.Count("truncated", 1)
	}
	v.total = total
}

// ---------------------------------------------------------------- F04

func f04(c *h.Ctx) {
	for k := range c.M(400, 15000) {
		c.Case(fmt.Sprintf("history %d", k), func(r *rand.Rand) { removeCase(c, r, false) })
	}
	for k := range c.N(8, 100) {
		c.Case(fmt.Sprintf("stretched history %d", k), func(r *rand.Rand) { removeCase(c, r, true) })
	}
	c.Require("removed", 800)
	c.Require("refused", 300)
	c.Require("faults", 300)
	c.Require("unsupported", 500)
}

func removeCase(c *h.Ctx, r *rand.Rand, stretched bool) {
	v := newVol(c, r)
	v.stretched = stretched
	v.populate(r, true)
	m, drv := mount(v)
	dirImage := func() string {
		var sb strings.Builder
		for _, s := range v.dirSlots(0) {
			sb.Write(s)
		}
		for _, d := range v.root.all() {
			if d.dir {
				for _, s := range v.dirSlots(d.first()) {
					sb.Write(s)
				}
			}
		}
		return sb.String()
	}
	for range 3 + r.Intn(12) {
		nodes := v.root.all()
		if len(nodes) == 0 {
			break
		}
		n := nodes[r.Intn(len(nodes))]
		if stretched && r.Intn(2) == 0 {
			for _, k := range nodes {
				if len(k.chain) > len(n.chain) {
					n = k
				}
			}
		}
		path := n.path()
		if r.Intn(2) == 0 {
			path = variants(r, path)
		}
		m.reset()
		m.freed, m.deleted, m.deletes = nil, nil, 0
		m.failDelete, m.failFree = false, -1
		table := append([]uint32(nil), v.table...)
		dirs := dirImage()
		unchanged := func(what string) {
			if m.deletes != 0 && !m.failDelete || len(m.freed) != 0 || dirImage() != dirs || !slices.Equal(table, v.table) {
				c.Fail("refused", "%s failed, but %d entries were deleted and clusters %v released", what, m.deletes, m.freed)
			}
		}
		k := r.Intn(14)
		// A read-only file may be removed or refused, but not half removed.
		readonly := !n.dir && n.raw[11]&1 != 0
		if readonly && k > 1 {
			k = 13
		}
		switch {
		case k == 0 || n.dir && k < 12:
			what, want := fmt.Sprintf("removing directory %q", path), error(disko.ErrIsADirectory)
			if !n.dir || r.Intn(4) == 0 {
				switch r.Intn(3) {
				case 0:
					path = []string{"", "/", ".", "/.."}[r.Intn(4)]
					what = fmt.Sprintf("removing the root %q", path)
				case 1:
					path, want = n.parent.path()+"/No_Such.Fil/Y", disko.ErrNotFound
					what = fmt.Sprintf("removing %q, which does not exist,", path)
				case 2:
					path, want = n.parent.path()+"/No_Such.Fil", disko.ErrNotFound
					what = fmt.Sprintf("removing %q, which does not exist,", path)
				}
			}
			err := drv.Remove(path)
			if err == nil || !errors.Is(err, want) {
				c.Fail("refused", "%s gave error %v", what, err)
			}
			unchanged(what)
			c.Count("refused", 1)
		case k == 1:
			// Operations FAT does not have.
			for what, f := range map[string]func() error{
				"Symlink":  func() error { return drv.Symlink(path, "/L") },
				"Link":     func() error { return drv.Link(path, "/L") },
				"Readlink": func() error { _, err := drv.Readlink(path); return err },
				"Chown":    func() error { return drv.Chown(path, 1, 2) },
				"Lchown":   func() error { return drv.Lchown(path, 1, 2) },
			} {
				if err := f(); !errors.Is(err, disko.ErrNotSupported) {
					c.Fail("unsupported", "%s of %q gave error %v", what, path, err)
				}
				unchanged(what)
				c.Count("unsupported", 1)
			}
		case n.dir:
			continue
		case k == 2:
			m.failDelete = true
			err := drv.Remove(path)
			if !errors.Is(err, errDelete) {
				c.Fail("unreported", "removing %q: deleting its entry failed, but the result is %v", path, err)
			}
			unchanged("removing the entry of " + path)
			c.Count("faults", 1)
		case k == 3 && len(n.chain) > 0:
			m.failFree, m.failOnce = r.Intn(len(n.chain)), r.Intn(2) == 0
			failed := m.failFree
			err := drv.Remove(path)
			retried := err == nil && m.failOnce && len(m.freed) == len(n.chain) && len(m.deleted) == 1
			if !errors.Is(err, errFree) && !retried {
				c.Fail("unreported", "removing %q: release %d failed, but the result is %v", path, failed, err)
			}
			for _, f := range m.freed {
				if !owns(n, f) {
					c.Fail("foreign", "removing %q (chain %v) released cluster %d", path, n.chain, f)
				}
			}
			for _, d := range m.deleted {
				if d != n {
					c.Fail("entry", "removing %q deleted the entry of %q", path, d.path())
				}
				d.deleted = true
			}
			c.Count("faults", 1)
			if !n.deleted { // the entry is still there, but its clusters are not: stop using it
				return
			}
		case k == 4 && len(n.chain) > 0:
			// A damaged chain: nobody else's clusters may go.
			i := r.Intn(len(n.chain))
			old := v.table[n.chain[i]]
			v.table[n.chain[i]] = []uint32{0, 1, v.bad(), uint32(v.clusters) + 2, n.chain[r.Intn(i+1)]}[r.Intn(5)]
			err := drv.Remove(path)
			for _, f := range m.freed {
				if !owns(n, f) {
					c.Fail("foreign", "removing %q (chain %v, damaged) released cluster %d", path, n.chain, f)
				}
			}
			if err == nil {
				c.Fail("unreported", "removing %q, whose chain %v is damaged after cluster %d, succeeded", path, n.chain, i)
			}
			c.Count("faults", 1)
			if m.deletes > 0 || len(m.freed) > 0 {
				return
			}
			v.table[n.chain[i]] = old
		default:
			if k == 5 && len(n.chain) > 1 {
				m.failLookup = r.Intn(len(n.chain))
				err := drv.Remove(path)
				m.failLookup = -1
				if !errors.Is(err, errTable) {
					c.Fail("unreported", "removing %q: a table lookup failed, but the result is %v", path, err)
				}
				if m.deletes > 0 || len(m.freed) > 0 {
					for _, f := range m.freed {
						if !owns(n, f) {
							c.Fail("foreign", "removing %q (chain %v) released cluster %d", path, n.chain, f)
						}
					}
					return
				}
				m.reset()
				c.Count("faults", 1)
			}
			if err := drv.Remove(path); err != nil && readonly {
				unchanged("removing the read-only file " + path)
				c.Count("readonly_refused", 1)
				continue
			} else if err != nil {
				c.Fail("remove", "removing %q failed: %v", path, err)
			}
			if readonly {
				c.Count("readonly_removed", 1)
			}
			m.judged(c)
			if len(m.deleted) != 1 || m.deleted[0] != n {
				c.Fail("entry", "removing %q deleted %d entries", path, len(m.deleted))
			}
			if len(m.freed) != len(n.chain) {
				c.Fail("leak", "removing %q with chain %v released %v", path, n.chain, m.freed)
			}
			for _, f := range m.freed {
				if !owns(n, f) {
					c.Fail("foreign", "removing %q (chain %v) released cluster %d", path, n.chain, f)
				}
			}
			n.deleted = true
			c.Count("removed", 1)
			c.Count("released", int64(len(m.freed)))
			c.Distinct("removed", v.version, len(n.chain), n.parent == v.root)
			m.reset()
			if _, err := drv.Stat(n.path()); !errors.Is(err, disko.ErrNotFound) {
				c.Fail("entry", "%q is still there after its removal: %v", n.path(), err)
			}
		}
		m.failDelete = false
		m.judged(c)
		// Everybody else still owns what they owned.
		for _, k := range v.root.all() {
			for _, cl := range k.chain {
				if v.table[cl] == 0 {
					c.Fail("foreign", "after removing %q, cluster %d of %q is free", path, cl, k.path())
				}
			}
		}
		if r.Intn(10) == 0 && !stretched {
			m.reset()
			checkTree(c, r, v, m, drv, v.root)
		}
	}
	m.reset()
	checkTree(c, r, v, m, drv, v.root)
}

func owns(n *node, cl uint32) bool {
	for _, x := range n.chain {
		if x == cl {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- F05

type view struct {
	name                                 string
	attr, nt                             int
	first                                fat.ClusterID
	size                                 int64
	mode                                 os.FileMode
	accessed, modified, created, deleted time.Time
	createdErr, deletedErr               bool
	stat                                 disko.FileStat
}

func viewOf(d *fat.Dirent) (v view) {
	v = view{name: d.Name(), attr: d.AttributeFlags, nt: d.NTReserved, first: d.FirstCluster, size: d.Size(), mode: d.Mode(), accessed: d.GetLastAccessedAt(), modified: d.GetLastModifiedAt(), stat: d.Stat()}
	var err error
	v.created, err = d.GetCreatedAt()
	v.createdErr = err != nil
	v.deleted, err = d.GetDeletedAt()
	v.deletedErr = err != nil
	return
}

// The earliest time the format has.
func epoch() time.Time { return time.Date(1980, time.January, 1, 0, 0, 0, 0, time.Local) }

func someTime(r *rand.Rand) time.Time {
	zone := []*time.Location{time.Local, time.UTC, time.FixedZone("east", 14*3600), time.FixedZone("west", -12*3600)}[r.Intn(4)]
	var t time.Time
	switch r.Intn(6) {
	case 0:
		t = epoch().Add(time.Duration(r.Intn(5)-2) * []time.Duration{1, time.Second, time.Hour, 24 * time.Hour}[r.Intn(4)])
	case 1:
		t = time.Unix(0, 0)
	case 2:
		t = time.Time{}
	default:
		t = time.Unix(int64(315532800)+r.Int63n(4039372800), r.Int63n(1e9))
	}
	return t.In(zone)
}

func f05(c *h.Ctx) {
	for k := range c.M(200, 8000) {
		c.Case(fmt.Sprintf("setters %d", k), func(r *rand.Rand) {
			bs := bootFor(r)
			var b [32]byte
			r.Read(b[:])
			raw11, _ := legalName(r)
			copy(b[:], raw11[:])
			for _, o := range []int{16, 18, 24} {
				put16(b[o:], r.Intn(128)<<9|(1+r.Intn(12))<<5|(1+r.Intn(28)))
			}
			if r.Intn(4) == 0 {
				b[0] = 0xe5
			}
			raw, err := fat.NewRawDirentFromBytes(b[:])
			if err != nil {
				c.Fail("refused", "entry refused: %v", err)
			}
			d, err := fat.NewDirentFromRaw(bs, &raw)
			if err != nil {
				c.Fail("refused", "entry refused: %v", err)
			}
			deleted := b[0] == 0xe5
			for range 20 {
				t := someTime(r)
				old := t.Before(epoch())
				was := viewOf(&d)
				want := was
				var what string
				refuse := old
				switch r.Intn(8) {
				case 0, 1:
					what = "SetLastAccessedAt"
					err = d.SetLastAccessedAt(t)
					want.accessed, want.stat.LastAccessed = t, t
				case 2, 3:
					what = "SetLastModifiedAt"
					err = d.SetLastModifiedAt(t)
					want.modified, want.stat.LastModified = t, t
				case 4, 5, 6:
					what = "SetCreatedAt"
					err = d.SetCreatedAt(t)
					want.created, want.stat.CreatedAt = t, t
					refuse = refuse || deleted
				case 7:
					what = "SetDeletedAt"
					err = d.SetDeletedAt(t)
					want.deleted, want.stat.DeletedAt = t, t
					want.deletedErr, want.createdErr = false, true
					want.created = disko.UndefinedTimestamp
					if !old {
						deleted = true
					}
				}
				c.Count("set", 1)
				c.Distinct(what, refuse, old, deleted)
				if refuse {
					want = was
					if err == nil {
						c.Fail("accepted", "%s(%v) on an entry (deleted: %v) succeeded", what, t, deleted)
					}
					if old && !deleted && !errors.Is(err, disko.ErrArgumentOutOfRange) {
						c.Fail("error", "%s(%v) failed with %v, not out-of-range", what, t, err)
					}
					c.Count("refused", 1)
				} else if err != nil {
					c.Fail("refused", "%s(%v) on an entry (deleted: %v) failed: %v", what, t, deleted, err)
				}
				if diff := viewDiff(viewOf(&d), want); diff != "" {
					c.Fail("field", "after %s(%v), error %v: %s", what, t, err, diff)
				}
			}
		})
	}
	for k := range c.M(200, 6000) {
		c.Case(fmt.Sprintf("updates %d", k), func(r *rand.Rand) {
			v := newVol(c, r)
			v.populate(r, true)
			m, drv := mount(v)
			nodes := v.root.all()
			if len(nodes) == 0 {
				return
			}
			for range 10 {
				n := nodes[r.Intn(len(nodes))]
				path := n.path()
				if r.Intn(2) == 0 {
					path = variants(r, path)
				}
				was := viewOf(direntOf(c, v, n))
				want := was
				m.reset()
				m.updates, m.failUpdate = nil, r.Intn(8) == 0
				var err error
				var what string
				refuse := false
				chmod, writable := false, false
				if r.Intn(6) == 0 {
					// Something on the way to the entry cannot be read.
					m.failLookup, m.failRoot, m.failRead, m.shortRead = r.Intn(4), r.Intn(4), r.Intn(4), r.Intn(4)
					m.failUpdate = false
				}
				switch r.Intn(5) {
				case 0:
					path = n.parent.path() + "/No_Such.Fil"
					refuse = true
					if r.Intn(2) == 0 {
						what = "Chtimes of a missing file"
						err = drv.Chtimes(path, time.Now(), time.Now())
					} else {
						what = "Chmod of a missing file"
						err = drv.Chmod(path, 0o777)
					}
					if !m.failed() && !errors.Is(err, disko.ErrNotFound) {
						c.Fail("missing", "%s %q gave %v", what, path, err)
					}
				case 1, 2:
					mode := os.FileMode(r.Intn(0o1000))
					if r.Intn(2) == 0 {
						mode &^= 0o222
					}
					what = fmt.Sprintf("Chmod(%v)", mode)
					chmod, writable = true, mode&0o222 != 0
					err = drv.Chmod(path, mode)
				default:
					a, b := someTime(r), someTime(r)
					refuse = a.Before(epoch()) || b.Before(epoch())
					what = fmt.Sprintf("Chtimes(%v, %v)", a, b)
					err = drv.Chtimes(path, a, b)
					want.accessed, want.stat.LastAccessed = a, a
					want.modified, want.stat.LastModified = b, b
				}
				c.Count("updates", 1)
				if m.failed() {
					c.Count("lookup_faults", 1)
					refuse = true
				}
				m.failLookup, m.failRoot, m.failRead, m.shortRead = -1, -1, -1, -1
				if refuse {
					if err == nil || len(m.updates) != 0 {
						c.Fail("accepted", "%s of %q gave error %v and made %d updates", what, path, err, len(m.updates))
					}
					c.Count("refused", 1)
					continue
				}
				if m.failUpdate {
					if !errors.Is(err, errUpdate) {
						c.Fail("unreported", "%s of %q: the update failed, but the result is %v", what, path, err)
					}
					c.Count("faults", 1)
					continue
				}
				if err != nil || len(m.updates) != 1 {
					c.Fail("update", "%s of %q gave error %v and made %d updates", what, path, err, len(m.updates))
				}
				got := viewOf(&m.updates[0])
				if chmod {
					w := got.stat.ModeFlags & 0o222
					if writable && w != 0o222 || !writable && w != 0 {
						c.Fail("mode", "%s of %q updates the entry to mode %v", what, path, got.stat.ModeFlags)
					}
					if got.stat.ModeFlags&^0o222 != was.stat.ModeFlags&^0o222 {
						c.Fail("mode", "%s of %q changed the mode from %v to %v", what, path, was.stat.ModeFlags, got.stat.ModeFlags)
					}
					// The other forms of the same attribute may follow.
					got.stat.ModeFlags, got.mode = want.stat.ModeFlags, got.mode&^0o222|want.mode&0o222
					got.attr = got.attr&^1 | want.attr&1
				}
				if diff := viewDiff(got, want); diff != "" {
					c.Fail("field", "%s of %q: %s", what, path, diff)
				}
				m.judged(c)
			}
		})
	}
	c.Require("set", 2000)
	c.Require("refused", 500)
	c.Require("updates", 1000)
	c.Require("lookup_faults", 100)
	c.Require("faults", 50)
}

func viewDiff(got, want view) string {
	for _, p := range []struct {
		what string
		a, b *time.Time
	}{
		{"access time", &got.accessed, &want.accessed}, {"modification time", &got.modified, &want.modified},
		{"creation time", &got.created, &want.created}, {"deletion time", &got.deleted, &want.deleted},
		{"stat access time", &got.stat.LastAccessed, &want.stat.LastAccessed}, {"stat modification time", &got.stat.LastModified, &want.stat.LastModified},
		{"stat creation time", &got.stat.CreatedAt, &want.stat.CreatedAt}, {"stat deletion time", &got.stat.DeletedAt, &want.stat.DeletedAt},
		{"stat change time", &got.stat.LastChanged, &want.stat.LastChanged},
	} {
		if !p.a.Equal(*p.b) {
			return fmt.Sprintf("the %s is %v, expected %v", p.what, *p.a, *p.b)
		}
		*p.a, *p.b = time.Time{}, time.Time{}
	}
	if got != want {
		return fmt.Sprintf("the entry is %+v, expected %+v", got, want)
	}
	return ""
}
