package fatx

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"

	"verifharness/h"
	"verifharness/iox"
)

var errDisk = errors.New("injected disk failure")
var errTable = errors.New("injected table failure")
var errRoot = errors.New("injected root directory failure")
var errDelete = errors.New("injected entry deletion failure")
var errFree = errors.New("injected release failure")
var errUpdate = errors.New("injected update failure")

// node is a file or directory of the reference volume.
type node struct {
	raw     [32]byte
	name    string
	dir     bool
	deleted bool
	data    []byte
	chain   []uint32
	kids    []*node // directories: live entries and deleted ones, in disk order
	parent  *node
}

func (n *node) first() uint32 {
	if len(n.chain) == 0 {
		return 0
	}
	return n.chain[0]
}

func (n *node) path() string {
	if n.parent == nil {
		return ""
	}
	return n.parent.path() + "/" + n.name
}

// vol is a synthesized FAT volume: sparse sectors plus an allocation table.
type vol struct {
	c         *h.Ctx
	version   int
	bps, spc  int
	reserved  int
	nfats     int
	fatSecs   int
	rootEnts  int
	total     int // sectors
	clusters  int
	dataAt    int // first data sector
	boot      []byte
	table     []uint32
	sectors   map[int][]byte
	salt      uint32
	root      *node
	free      []uint32
	bs        *fat.FATBootSector
	nodes     int
	stretched bool // deep, wide and tall
}

func (v *vol) eocMin() uint32 {
	return map[int]uint32{12: 0xff8, 16: 0xfff8, 32: 0x0ffffff8}[v.version]
}
func (v *vol) bad() uint32             { return v.eocMin() - 1 }
func (v *vol) isEOC(x uint32) bool     { return x >= v.eocMin() }
func (v *vol) isCluster(x uint32) bool { return x >= 2 && x < uint32(v.clusters)+2 }
func (v *vol) bpc() int                { return v.bps * v.spc }

func put16(b []byte, x int) { b[0], b[1] = byte(x), byte(x>>8) }
func put32(b []byte, x int) { put16(b, x); put16(b[2:], x>>16) }

// sector returns the content of a sector; untouched sectors hold a pattern
// that depends on their number.
func (v *vol) sector(s int) []byte {
	if b, ok := v.sectors[s]; ok {
		return b
	}
	b := make([]byte, v.bps)
	x := uint32(s)*2654435761 ^ v.salt
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	v.sectors[s] = b
	return b
}

func (v *vol) clusterSector(c uint32) int { return v.dataAt + (int(c)-2)*v.spc }

func (v *vol) writeCluster(c uint32, data []byte) {
	for i := 0; i < v.spc && i*v.bps < len(data); i++ {
		copy(v.sector(v.clusterSector(c)+i), data[i*v.bps:])
	}
}

func (v *vol) readCluster(c uint32) []byte {
	var out []byte
	for i := 0; i < v.spc; i++ {
		out = append(out, v.sector(v.clusterSector(c)+i)...)
	}
	return out
}

// geometry picks volume dimensions.
func newVol(c *h.Ctx, r *rand.Rand) *vol { return sizedVol(c, r, false) }

// sizedVol makes a volume of almost 2^32 sectors if huge is true.
func sizedVol(c *h.Ctx, r *rand.Rand, huge bool) *vol {
	v := &vol{c: c, sectors: map[int][]byte{}, salt: r.Uint32()}
	switch k := r.Intn(12); {
	case k < 9:
		v.version = 12
		v.clusters = []int{30 + r.Intn(60), 100 + r.Intn(900), 4084, 4083}[r.Intn(4)]
	case k < 11:
		v.version = 16
		v.clusters = []int{4085, 4086 + r.Intn(3000), 65524}[r.Intn(3)]
	default:
		v.version = 32
		v.clusters = []int{65525, 65526 + r.Intn(5000)}[r.Intn(2)]
	}
	if huge {
		v.version = 32
	}
	v.bps = []int{512, 512, 512, 1024, 2048, 4096}[r.Intn(6)]
	v.spc = []int{1, 1, 2, 2, 4, 8, 16}[r.Intn(7)]
	if v.version == 32 && r.Intn(3) == 0 { // data beyond the first 4 GiB
		v.clusters = 131100 + r.Intn(3000)
		v.spc = 32768 / v.bps
		c.Count("large_volumes", 1)
	}
	for v.bpc() > 32768 {
		v.spc /= 2
	}
	if huge {
		v.bps, v.spc = 512, 64
		v.clusters = 67000000 - r.Intn(1000)
	}
	v.reserved = 1 + r.Intn(40)
	v.nfats = 1 + r.Intn(3)
	perEntry := map[int]int{12: 3, 16: 4, 32: 8}[v.version] // half bytes
	v.fatSecs = ((v.clusters+2)*perEntry/2+v.bps)/v.bps + r.Intn(2)
	if v.version != 32 {
		v.rootEnts = []int{16, 16, 48, 48, 112, 112, 224, 512}[r.Intn(8)]
	}
	rootSecs := (v.rootEnts*32 + v.bps - 1) / v.bps
	v.dataAt = v.reserved + v.nfats*v.fatSecs + rootSecs
	v.total = v.dataAt + v.clusters*v.spc + r.Intn(v.spc)
	v.table = make([]uint32, v.clusters+2)
	v.table[0], v.table[1] = v.eocMin(), v.eocMin()
	b := make([]byte, 64)
	r.Read(b)
	put16(b[11:], v.bps)
	b[13] = byte(v.spc)
	put16(b[14:], v.reserved)
	b[16] = byte(v.nfats)
	put16(b[17:], v.rootEnts)
	if v.total < 65536 && v.version != 32 {
		put16(b[19:], v.total)
		put32(b[32:], 0)
	} else {
		put16(b[19:], 0)
		put32(b[32:], v.total)
	}
	if v.version != 32 {
		put16(b[22:], v.fatSecs)
	} else {
		put16(b[22:], 0)
		put32(b[36:], v.fatSecs)
	}
	v.boot = b
	bs, err := fat.NewFATBootSectorFromStream(strings.NewReader(string(b)))
	if err != nil {
		c.Fail("boot", "decoding a valid FAT%d boot sector failed: %v", v.version, err)
	}
	v.bs = bs
	if huge {
		seen := map[uint32]bool{}
		for i := range 30000 {
			x := uint32(r.Intn(v.clusters)) + 2
			switch i {
			case 3:
				x = 2
			case 5:
				x = uint32(v.clusters) + 1
			}
			if !seen[x] {
				v.free = append(v.free, x)
			}
			seen[x] = true
		}
		c.Count("huge_volumes", 1)
		return v
	}
	for i := range v.clusters {
		v.free = append(v.free, uint32(i+2))
	}
	if r.Intn(3) > 0 || v.clusters > 131000 { // fragmented allocation; clusters at both ends come first
		r.Shuffle(len(v.free), func(i, j int) { v.free[i], v.free[j] = v.free[j], v.free[i] })
		for _, want := range []uint32{2, uint32(v.clusters) + 1} {
			for i, x := range v.free {
				if x == want {
					j := r.Intn(10)
					v.free[i], v.free[j] = v.free[j], v.free[i]
				}
			}
		}
	}
	return v
}

func (v *vol) alloc(n int) []uint32 {
	if n > len(v.free) {
		n = len(v.free)
	}
	out := append([]uint32(nil), v.free[:n]...)
	v.free = v.free[n:]
	return out
}

func (v *vol) link(r *rand.Rand, chain []uint32) {
	for i, c := range chain {
		if i+1 < len(chain) {
			v.table[c] = chain[i+1]
		} else {
			v.table[c] = v.eocMin() + uint32(r.Intn(8))
		}
	}
}

func legalName(r *rand.Rand) (raw [11]byte, name string) {
	const chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()-@^_`{}~ab\x80\xa5\xe5\xff"
	for i := range raw {
		raw[i] = ' '
	}
	n, e := 1+r.Intn(8), r.Intn(4)
	for i := 0; i < n; i++ {
		raw[i] = chars[r.Intn(len(chars))]
	}
	for i := 0; i < e; i++ {
		raw[8+i] = chars[r.Intn(len(chars))]
	}
	if n > 2 && r.Intn(8) == 0 {
		raw[1] = ' '
	}
	if r.Intn(10) == 0 || raw[0] == 0xe5 {
		raw[0] = 5
	}
	return raw, decodeName(raw)
}

func decodeName(raw [11]byte) string {
	base := strings.TrimRight(string(raw[:8]), " ")
	if base != "" && base[0] == 5 {
		base = "\xe5" + base[1:]
	}
	if ext := strings.TrimRight(string(raw[8:]), " "); ext != "" {
		return base + "." + ext
	}
	return base
}

// populate builds a random tree and writes it out.
func (v *vol) populate(r *rand.Rand, readonly bool) {
	v.root = &node{dir: true}
	v.fill(r, v.root, 0, readonly)
	if v.stretched {
		v.stretch(r, readonly)
	}
	v.write(r, v.root, nil)
}

// entry makes an entry with a name that is not used yet; nil if it hit one
// that is.
func (v *vol) entry(r *rand.Rand, d *node, used map[string]bool, readonly bool) *node {
	raw, name := legalName(r)
	if used[name] {
		return nil
	}
	used[name] = true
	v.nodes++
	n := &node{name: name, parent: d}
	r.Read(n.raw[:])
	copy(n.raw[:11], raw[:])
	n.raw[11] = []byte{0, 2, 4, 6, 32, 34}[r.Intn(6)]
	if readonly && r.Intn(4) == 0 {
		n.raw[11] |= 1
	}
	// Valid dates and times.
	put16(n.raw[14:], r.Intn(24)<<11|r.Intn(60)<<5|r.Intn(30))
	put16(n.raw[22:], r.Intn(24)<<11|r.Intn(60)<<5|r.Intn(30))
	n.raw[13] = byte(r.Intn(200))
	for _, o := range []int{16, 18, 24} {
		put16(n.raw[o:], r.Intn(128)<<9|(1+r.Intn(12))<<5|(1+r.Intn(28)))
	}
	return n
}

// stretch adds, in some directory below the root, what ordinary trees lack:
// a deep chain of directories, a very wide directory, a file of many clusters.
func (v *vol) stretch(r *rand.Rand, readonly bool) {
	top := v.root
	used := map[string]bool{}
	for _, k := range top.kids {
		used[k.name] = true
	}
	dir := func(in *node) *node {
		u := used
		if in != top {
			u = map[string]bool{}
			for _, k := range in.kids {
				u[k.name] = true
			}
		}
		var n *node
		for n == nil {
			n = v.entry(r, in, u, readonly)
		}
		n.dir = true
		n.raw[11] |= 16
		in.kids = append(in.kids, n)
		return n
	}
	file := func(in *node, used map[string]bool, size int) {
		n := v.entry(r, in, used, readonly)
		if n == nil {
			return
		}
		n.data = make([]byte, size)
		r.Read(n.data)
		n.chain = v.alloc((size + v.bpc() - 1) / v.bpc())
		n.data = n.data[:min(size, len(n.chain)*v.bpc())]
		in.kids = append(in.kids, n)
	}
	if v.version != 32 { // the root holds a fixed number of entries
		top.kids = top.kids[:min(len(top.kids), v.rootEnts-3)]
	}
	deep, wide, tall := dir(top), dir(top), dir(top)
	for range 8 + r.Intn(50) {
		if len(v.free) > 12 {
			file(deep, map[string]bool{}, r.Intn(2*v.bpc()))
			deep = dir(deep)
		}
	}
	names := map[string]bool{}
	for range []int{270, 520, 700, 1050}[r.Intn(4)] {
		if len(v.free) > len(names)*32/v.bpc()+10 {
			file(wide, names, r.Intn(2))
		}
	}
	most := min(len(v.free)-len(v.free)/4-len(names)*32/v.bpc()-100, 6<<20/v.bpc())
	if most > 0 {
		file(tall, map[string]bool{}, (most-r.Intn(1+most/8))*v.bpc()-r.Intn(v.bpc()))
		v.c.Count("files_of_many_clusters", 1)
	}
}

func (v *vol) fill(r *rand.Rand, d *node, depth int, readonly bool) {
	room := 1 + r.Intn(12)
	perCluster := v.bpc() / 32
	if r.Intn(3) == 0 && perCluster <= 64 { // exactly full or nearly full directories
		room = perCluster*(1+r.Intn(2)) - 2 + r.Intn(4) - 1
	}
	if d == v.root && v.version != 32 && room > v.rootEnts {
		room = v.rootEnts
	}
	if d == v.root && v.version != 32 && r.Intn(6) == 0 && v.rootEnts <= 112 {
		room = v.rootEnts
	}
	if d != v.root && room > 120-v.nodes {
		room = max(1, 120-v.nodes)
	}
	used := map[string]bool{}
	for i := 0; i < room; i++ {
		n := v.entry(r, d, used, readonly)
		if n == nil {
			continue
		}
		size := 0
		switch k := r.Intn(10); {
		case k == 0 && depth < 3 || k == 1 && depth == 0:
			n.dir = true
			n.raw[11] |= 16
			v.fill(r, n, depth+1, readonly)
		case k == 2: // deleted entry; its clusters belong to nobody
			n.deleted = true
			n.raw[0] = 0xe5
			put16(n.raw[26:], r.Intn(v.clusters)+2)
			put32(n.raw[28:], r.Intn(100000))
			if r.Intn(3) == 0 { // it never had any
				put16(n.raw[26:], 0)
				put16(n.raw[20:], 0)
				put32(n.raw[28:], 0)
			}
		case k == 3:
			if r.Intn(3) == 0 { // an empty file that owns clusters
				n.chain = v.alloc(1 + r.Intn(3))
			}
		case k < 6:
			size = v.bpc() * (1 + r.Intn(3))
		default:
			size = 1 + r.Intn(v.bpc()*4)
		}
		if size > 0 {
			n.data = make([]byte, size)
			r.Read(n.data)
			n.chain = v.alloc((size + v.bpc() - 1) / v.bpc())
			if len(n.chain)*v.bpc() < size {
				n.data = n.data[:len(n.chain)*v.bpc()]
			}
			if len(n.chain) > 0 && r.Intn(8) == 0 { // a chain longer than needed
				n.chain = append(n.chain, v.alloc(1+r.Intn(2))...)
			}
		}
		d.kids = append(d.kids, n)
	}
	// A file deleted and made again leaves an entry of the same name, before
	// or after the one in use.
	for _, n := range d.kids {
		k := d.kids[r.Intn(len(d.kids))]
		if !n.deleted || k.deleted || r.Intn(3) == 0 {
			continue
		}
		copy(n.raw[1:11], k.raw[1:11])
		n.raw[13] = k.raw[0]
		if k.raw[0] == 5 {
			n.raw[13] = 0xe5
		}
		n.raw[11] = n.raw[11]&^16 | byte(16*r.Intn(2))
		v.c.Count("deleted_namesakes", 1)
	}
}

func (v *vol) write(r *rand.Rand, d *node, parent *node) {
	for _, k := range d.kids {
		if k.deleted {
			continue
		}
		if k.dir {
			// The cluster is needed before the entries of the directory are written.
			n := len(k.kids) + 2
			per := v.bpc() / 32
			k.chain = v.alloc((n + per - 1) / per)
			if r.Intn(4) == 0 {
				k.chain = append(k.chain, v.alloc(1)...)
			}
			for len(k.chain)*per < n && len(k.kids) > 0 { // volume full
				k.kids = k.kids[:len(k.kids)-1]
				n--
			}
			if len(k.chain) == 0 {
				k.dir, k.kids = false, nil
				k.raw[11] &^= 16
			}
		}
		f := k.first()
		put16(k.raw[26:], int(f&0xffff))
		put16(k.raw[20:], int(f>>16))
		put32(k.raw[28:], len(k.data))
		if k.dir {
			put32(k.raw[28:], 0)
		}
		v.link(r, k.chain)
		for i, c := range k.chain {
			if i*v.bpc() < len(k.data) {
				end := min(len(k.data), (i+1)*v.bpc())
				v.writeCluster(c, k.data[i*v.bpc():end])
			}
		}
	}
	// Now the directory itself.
	var ents [][32]byte
	if d != v.root {
		var dot, dd [32]byte
		r.Read(dot[:])
		for i := range 11 {
			dot[i] = ' '
		}
		dot[0] = '.'
		dot[11] = 16
		for _, o := range []int{16, 18, 24} {
			put16(dot[o:], 20<<9|1<<5|1)
		}
		put32(dot[28:], 0)
		dd = dot
		dd[1] = '.'
		put16(dot[26:], int(d.first()&0xffff))
		put16(dot[20:], int(d.first()>>16))
		up := uint32(0)
		if parent != nil && parent != v.root {
			up = parent.first()
		}
		put16(dd[26:], int(up&0xffff))
		put16(dd[20:], int(up>>16))
		ents = append(ents, dot, dd)
	}
	for _, k := range d.kids {
		ents = append(ents, k.raw)
	}
	var flat []byte
	for _, e := range ents {
		flat = append(flat, e[:]...)
	}
	if d == v.root {
		size := v.rootEnts * 32
		if v.version == 32 {
			per := v.bpc() / 32
			d.chain = v.alloc((len(ents) + per) / per)
			v.link(r, d.chain)
			size = len(d.chain) * v.bpc()
		}
		if len(flat)+32 <= size {
			flat = append(flat, make([]byte, 32)...)
		}
		if v.version == 32 {
			for i, c := range d.chain {
				if i*v.bpc() < len(flat) {
					v.writeCluster(c, flat[i*v.bpc():min(len(flat), (i+1)*v.bpc())])
				}
			}
		} else {
			for i := 0; i < len(flat); i++ {
				v.sector(v.dataAt - (size+v.bps-1)/v.bps + i/v.bps)[i%v.bps] = flat[i]
			}
		}
	} else {
		if len(flat) < len(d.chain)*v.bpc() {
			flat = append(flat, make([]byte, 32)...) // end marker; what follows is garbage
		}
		for i, c := range d.chain {
			if i*v.bpc() < len(flat) {
				v.writeCluster(c, flat[i*v.bpc():min(len(flat), (i+1)*v.bpc())])
			}
		}
	}
	for _, k := range d.kids {
		if k.dir && !k.deleted {
			v.write(r, k, d)
		}
	}
}

// dirBytes returns the storage positions of a directory's entries.
func (v *vol) dirSlots(first uint32) (slots [][]byte) {
	add := func(b []byte) {
		for i := 0; i+32 <= len(b); i += 32 {
			slots = append(slots, b[i:i+32])
		}
	}
	if first == 0 && v.version != 32 {
		n := v.rootEnts
		s := v.dataAt - (n*32+v.bps-1)/v.bps
		for ; len(slots) < n; s++ {
			add(v.sector(s))
		}
		return slots[:n]
	}
	if first == 0 {
		first = v.root.first()
	}
	for i := 0; v.isCluster(first) && i <= v.clusters; i++ {
		for k := range v.spc {
			add(v.sector(v.clusterSector(first) + k))
		}
		first = v.table[first]
	}
	return
}

// all lists the live nodes below d.
func (d *node) all() (out []*node) {
	for _, k := range d.kids {
		if !k.deleted {
			out = append(out, k)
			if k.dir {
				out = append(out, k.all()...)
			}
		}
	}
	return
}

// common implements fat.FATDriverCommon over a vol.
type common struct {
	v                          *vol
	steps, budget              int
	lookups, failLookup        int
	roots, failRoot            int
	deletes                    int
	failDelete                 bool
	deleted                    []*node
	freed                      []uint32
	failFree                   int  // -1 never
	failOnce                   bool // the release that fails works again afterwards
	updates                    []fat.Dirent
	failUpdate                 bool
	wrong                      string
	reads, failRead, shortRead int
	faults                     int
}

func newCommon(v *vol) *common {
	return &common{v: v, budget: 3*len(v.table) + 20000, failLookup: -1, failRoot: -1, failFree: -1, failRead: -1, shortRead: -1}
}

func (m *common) reset() { m.steps, m.lookups, m.roots, m.reads = 0, 0, 0, 0 }

// failed tells whether one of the failures has happened.
func (m *common) failed() bool {
	return m.failLookup >= 0 && m.lookups > m.failLookup || m.failRoot >= 0 && m.roots > m.failRoot ||
		m.failRead >= 0 && m.reads > m.failRead || m.shortRead >= 0 && m.reads > m.shortRead
}

func (m *common) step() {
	if m.steps++; m.steps > m.budget {
		panic(h.StepBudget{What: fmt.Sprintf("%d table and disk accesses in one operation on a volume of %d clusters", m.steps, m.v.clusters)})
	}
}

// fault gives the failure e, recognisable as something else as well.
func (m *common) fault(e error) error {
	m.faults++
	return iox.Variant(e, m.faults)
}

func (m *common) complain(f string, a ...any) {
	if m.wrong == "" {
		m.wrong = fmt.Sprintf(f, a...)
	}
}

func (m *common) GetBootSector() *fat.FATBootSector { return m.v.bs }

func (m *common) GetClusterAtIndex(i uint) (fat.ClusterID, error) {
	m.step()
	m.lookups++
	if m.lookups-1 == m.failLookup {
		return 0, m.fault(errTable)
	}
	if i >= uint(len(m.v.table)) {
		return 0, disko.ErrArgumentOutOfRange
	}
	return fat.ClusterID(m.v.table[i]), nil
}
func (m *common) SetClusterAtIndex(i uint, c fat.ClusterID) error {
	m.complain("table entry %d was set to %#x", i, c)
	return nil
}
func (m *common) GetNextClusterInChain(c fat.ClusterID) (fat.ClusterID, error) {
	return m.GetClusterAtIndex(uint(c))
}
func (m *common) IsValidCluster(c fat.ClusterID) bool { return m.v.isCluster(uint32(c)) }
func (m *common) IsEndOfChain(c fat.ClusterID) bool   { return m.v.isEOC(uint32(c)) }

func (m *common) ListRootDirectory() ([]fat.Dirent, error) {
	m.step()
	m.roots++
	if m.roots-1 == m.failRoot {
		return nil, m.fault(errRoot)
	}
	var out []fat.Dirent
	for _, s := range m.v.dirSlots(0) {
		if s[0] == 0 {
			break
		}
		raw, err := fat.NewRawDirentFromBytes(s)
		if err != nil {
			return nil, err
		}
		d, err := fat.NewDirentFromRaw(m.v.bs, &raw)
		if err != nil {
			return nil, err
		}
		out = append(out, d)
	}
	return out, nil
}
func (m *common) AllocateCluster(n uint) ([]fat.ClusterID, error) {
	m.complain("%d clusters were allocated", n)
	return nil, disko.ErrNoSpaceOnDevice
}
func (m *common) FreeCluster(c fat.ClusterID) error {
	m.step()
	if len(m.freed) == m.failFree {
		if m.failOnce {
			m.failFree = -1
		}
		return m.fault(errFree)
	}
	if !m.v.isCluster(uint32(c)) {
		m.complain("cluster %#x, which does not exist, was released", c)
		return nil
	}
	for _, f := range m.freed {
		if f == uint32(c) {
			m.complain("cluster %d was released twice", c)
		}
	}
	if m.v.table[c] == 0 {
		m.complain("cluster %d was released although it is free", c)
	}
	m.v.table[c] = 0
	m.freed = append(m.freed, uint32(c))
	return nil
}
func (m *common) UpdateDirent(d *fat.Dirent) error {
	m.step()
	if m.failUpdate {
		return m.fault(errUpdate)
	}
	m.updates = append(m.updates, *d)
	return nil
}
func (m *common) DeleteDirent(d, parent *fat.Dirent) error {
	m.step()
	m.deletes++
	if m.failDelete {
		return m.fault(errDelete)
	}
	if parent == nil {
		m.complain("entry %q was deleted from no directory", d.Name())
		return nil
	}
	if !parent.IsDir() {
		m.complain("entry %q was deleted from %q, which is not a directory", d.Name(), parent.Name())
		return nil
	}
	dir := m.v.findDir(m.v.root, uint32(parent.FirstCluster))
	if dir == nil {
		m.complain("entry %q was deleted from a directory at cluster %d, which does not exist", d.Name(), parent.FirstCluster)
		return nil
	}
	for _, k := range dir.kids {
		if !k.deleted && k.name == d.Name() && k.first() == uint32(d.FirstCluster) {
			for _, s := range m.v.dirSlots(uint32(parent.FirstCluster)) {
				if string(s[:11]) == string(k.raw[:11]) {
					s[0] = 0xe5
					m.deleted = append(m.deleted, k)
					return nil
				}
			}
		}
	}
	m.complain("entry %q (cluster %d) was deleted from the wrong directory (cluster %d)", d.Name(), d.FirstCluster, parent.FirstCluster)
	return nil
}

func (v *vol) findDir(d *node, first uint32) *node {
	if first == 0 {
		return v.root
	}
	for _, k := range d.all() {
		if k.dir && k.first() == first {
			return k
		}
	}
	return nil
}

// ReadAt makes common the disk as well.
func (m *common) ReadAt(p []byte, off int64) (int, error) {
	m.step()
	m.reads++
	if m.reads-1 == m.failRead {
		return 0, m.fault(errDisk)
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	for n < len(p) {
		s := int((off + int64(n)) / int64(m.v.bps))
		if s >= m.v.total {
			return n, io.EOF
		}
		o := int((off + int64(n)) % int64(m.v.bps))
		n += copy(p[n:], m.v.sector(s)[o:])
	}
	if m.reads-1 == m.shortRead {
		return n / 2, io.ErrUnexpectedEOF
	}
	return n, nil
}
