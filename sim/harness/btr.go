//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"sort"

	"btrsim/simrt"
)

// On-disk format, written from the format's documentation, not from the
// program under test.

type Key struct {
	Obj  uint64
	Type uint8
	Off  uint64
}

const (
	tInode    = 1
	tInodeRef = 12
	tXattr    = 24
	tDirItem  = 84
	tDirIndex = 96
	tExtent   = 108
	tCsum     = 128
	tRoot     = 132
	tRootBack = 144
	tRootRef  = 156
	tExtItem  = 168
	tMetaItem = 169
	tBGItem   = 192
	tDevExt   = 204
	tDevItem  = 216
	tChunk    = 228

	oRoot  = 1
	oExt   = 2
	oChunk = 3
	oDev   = 4
	oFS    = 5
	oCsum  = 7
	oUUID  = 9

	ftReg  = 1
	ftDir  = 2
	ftChr  = 3
	ftBlk  = 4
	ftFifo = 5
	ftSock = 6
	ftLnk  = 7

	headerLen = 101
	itemLen   = 25
	super1    = 0x10000
	super2    = 0x4000000
	sector    = 4096
)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// nameHash is the directory hash: crc32c with seed ~1, not inverted.
func nameHash(name string) uint64 {
	crc := uint32(0xfffffffe)
	for i := 0; i < len(name); i++ {
		crc = castagnoli[byte(crc)^name[i]] ^ crc>>8
	}
	return uint64(crc)
}

var le = binary.LittleEndian

func le16(v int) []byte    { b := make([]byte, 2); le.PutUint16(b, uint16(v)); return b }
func le32(v uint32) []byte { b := make([]byte, 4); le.PutUint32(b, v); return b }
func le64(v uint64) []byte { b := make([]byte, 8); le.PutUint64(b, v); return b }

func cat(l ...[]byte) []byte {
	var o []byte
	for _, b := range l {
		o = append(o, b...)
	}
	return o
}

func keyBytes(k Key) []byte { return cat(le64(k.Obj), []byte{k.Type}, le64(k.Off)) }

func keyLess(a, b Key) bool {
	if a.Obj != b.Obj {
		return a.Obj < b.Obj
	}
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	return a.Off < b.Off
}

type item struct {
	key  Key
	data []byte
}

// Rec identifies one stored version of an item.
type Rec struct {
	Owner uint64
	Key   Key
	Gen   uint64
}

func (r Rec) String() string {
	return fmt.Sprintf("(owner %d key %d/%d/%d gen %d)", r.Owner, r.Key.Obj, r.Key.Type, r.Key.Off, r.Gen)
}

type inodeT struct {
	gen, size            uint64
	nlink, uid, gid      uint32
	mode                 uint32
	rdev                 uint64
	atime, ctime, mtime  int64
	atimen, ctimen, mtin uint32
}

func (i *inodeT) bytes() []byte {
	b := make([]byte, 160)
	le.PutUint64(b[0:], i.gen)
	le.PutUint64(b[8:], i.gen)
	le.PutUint64(b[16:], i.size)
	le.PutUint64(b[24:], i.size)
	le.PutUint32(b[40:], i.nlink)
	le.PutUint32(b[44:], i.uid)
	le.PutUint32(b[48:], i.gid)
	le.PutUint32(b[52:], i.mode)
	le.PutUint64(b[56:], i.rdev)
	le.PutUint64(b[112:], uint64(i.atime))
	le.PutUint32(b[120:], i.atimen)
	le.PutUint64(b[124:], uint64(i.ctime))
	le.PutUint32(b[132:], i.ctimen)
	le.PutUint64(b[136:], uint64(i.mtime))
	le.PutUint32(b[144:], i.mtin)
	le.PutUint64(b[148:], uint64(i.ctime))
	return b
}

func parseInode(b []byte) (i inodeT, ok bool) {
	if len(b) < 160 {
		return i, false
	}
	i.gen = le.Uint64(b)
	i.size = le.Uint64(b[16:])
	i.nlink = le.Uint32(b[40:])
	i.uid = le.Uint32(b[44:])
	i.gid = le.Uint32(b[48:])
	i.mode = le.Uint32(b[52:])
	i.rdev = le.Uint64(b[56:])
	i.atime, i.atimen = int64(le.Uint64(b[112:])), le.Uint32(b[120:])
	i.ctime, i.ctimen = int64(le.Uint64(b[124:])), le.Uint32(b[132:])
	i.mtime, i.mtin = int64(le.Uint64(b[136:])), le.Uint32(b[144:])
	return i, true
}

func dirItemBytes(loc Key, trans uint64, ft uint8, name string, data []byte) []byte {
	return cat(keyBytes(loc), le64(trans), le16(len(data)), le16(len(name)), []byte{ft}, []byte(name), data)
}

func inlineExtent(gen uint64, data []byte) []byte {
	return cat(le64(gen), le64(uint64(len(data))), []byte{0, 0, 0, 0, 0}, data)
}

func regExtent(gen, ram uint64, typ uint8, disk, diskLen, off, n uint64) []byte {
	return cat(le64(gen), le64(ram), []byte{0, 0, 0, 0, typ}, le64(disk), le64(diskLen), le64(off), le64(n))
}

type stripeT struct{ dev, off uint64 }

func chunkBytes(length, typ uint64, stripes []stripeT) []byte {
	b := cat(le64(length), le64(oExt), le64(65536), le64(typ), le32(4096), le32(4096), le32(4096), le16(len(stripes)), le16(1))
	for _, s := range stripes {
		b = append(b, cat(le64(s.dev), le64(s.off), make([]byte, 16))...)
	}
	return b
}

func rootItemBytes(gen uint64, bytenr uint64) []byte {
	ino := inodeT{gen: gen, nlink: 1, mode: 040755, size: 3}
	b := make([]byte, 439)
	copy(b, ino.bytes())
	le.PutUint64(b[160:], gen)
	le.PutUint64(b[168:], 256)
	le.PutUint64(b[176:], bytenr)
	le.PutUint64(b[239:], gen)
	return b
}

// makeLeaf lays items out as a metadata block.
func makeLeaf(bs int, fsid [16]byte, bytenr, gen, owner uint64, items []item, junk uint64) []byte {
	b := make([]byte, bs)
	if junk != 0 {
		simrt.FillBytes(b[headerLen:], junk)
	}
	blockHeader(b, fsid, bytenr, gen, owner, len(items), 0)
	end := bs - headerLen
	for i, it := range items {
		end -= len(it.data)
		o := headerLen + i*itemLen
		copy(b[o:], keyBytes(it.key))
		le.PutUint32(b[o+17:], uint32(end))
		le.PutUint32(b[o+21:], uint32(len(it.data)))
		copy(b[headerLen+end:], it.data)
	}
	if headerLen+len(items)*itemLen > headerLen+end {
		panic("leaf overflow")
	}
	sealBlock(b)
	return b
}

func blockHeader(b []byte, fsid [16]byte, bytenr, gen, owner uint64, n, level int) {
	for i := range b[:headerLen] {
		b[i] = 0
	}
	copy(b[32:], fsid[:])
	le.PutUint64(b[48:], bytenr)
	le.PutUint64(b[56:], 1|1<<56)
	for i := 0; i < 16; i++ {
		b[64+i] = fsid[15-i] ^ 0x5a
	}
	le.PutUint64(b[80:], gen)
	le.PutUint64(b[88:], owner)
	le.PutUint32(b[96:], uint32(n))
	b[100] = byte(level)
}

func sealBlock(b []byte) { le.PutUint32(b, crc32.Checksum(b[32:], castagnoli)) }

func makeNode(bs int, fsid [16]byte, bytenr, gen, owner uint64, level int, keys []Key, junk uint64) []byte {
	b := make([]byte, bs)
	if junk != 0 {
		simrt.FillBytes(b[headerLen:], junk)
	}
	max := (bs - headerLen) / 33
	if len(keys) > max {
		keys = keys[:max]
	}
	blockHeader(b, fsid, bytenr, gen, owner, len(keys), level)
	for i, k := range keys {
		copy(b[headerLen+i*33:], cat(keyBytes(k), le64(bytenr+uint64(bs*(i+1))), le64(gen)))
	}
	sealBlock(b)
	return b
}

func makeSuper(fsid [16]byte, off, gen, root, chunkRoot, logRoot, total uint64, bs int) []byte {
	b := make([]byte, 4096)
	copy(b[32:], fsid[:])
	le.PutUint64(b[48:], off)
	le.PutUint64(b[56:], 1)
	copy(b[64:], "_BHRfS_M")
	le.PutUint64(b[72:], gen)
	le.PutUint64(b[80:], root)
	le.PutUint64(b[88:], chunkRoot)
	le.PutUint64(b[96:], logRoot)
	le.PutUint64(b[112:], total)
	le.PutUint64(b[120:], total/3)
	le.PutUint64(b[128:], 6)
	le.PutUint64(b[136:], 1)
	le.PutUint32(b[144:], 4096)
	le.PutUint32(b[148:], uint32(bs))
	le.PutUint32(b[152:], uint32(bs))
	le.PutUint32(b[156:], 4096)
	sealBlock(b)
	return b
}

// itemsOf reads a well-formed leaf back.
func itemsOf(b []byte) []item {
	n := int(le.Uint32(b[96:]))
	var l []item
	for i := 0; i < n; i++ {
		o := headerLen + i*itemLen
		k := Key{le.Uint64(b[o:]), b[o+8], le.Uint64(b[o+9:])}
		s := headerLen + int(le.Uint32(b[o+17:]))
		l = append(l, item{k, b[s : s+int(le.Uint32(b[o+21:]))]})
	}
	return l
}

// ------------------------------------------------------------- the world

type chunkT struct {
	logical, length uint64
	phys            []uint64
	meta            bool
}

type placed struct {
	off    int64 // physical
	raw    []byte
	owner  uint64
	gen    uint64
	nItems int
	kind   string // leaf, dup, node, stray, foreign, super, decoy, damaged
	dead   bool   // overwritten since
}

type tleaf struct {
	items []item
	dirty bool
	log   uint64 // logical address, 0 = not written
}

type tree struct {
	owner  uint64
	leaves []*tleaf
}

type fnode struct {
	ino     uint64
	it      inodeT
	ft      uint8
	parent  *fnode
	names   []nameT // entries that refer to this node
	kids    []*fnode
	nextIdx uint64
	target  string
	extents map[uint64]extT // by file offset
	xattrs  map[string][]byte
	sub     *subvol // for the entry of a subvolume
	comp    bool    // compressed contents
}

type nameT struct {
	dir  *fnode
	name string
	idx  uint64
}

type extT struct {
	typ           uint8 // 0 inline, 1 regular, 2 preallocated
	comp          uint8
	data          []byte
	disk, diskLen uint64
	off, n        uint64
	gen           uint64
	ram           uint64
}

type subvol struct {
	id      uint64
	t       *tree
	root    *fnode
	nextIno uint64
	nodes   []*fnode
	linked  bool
}

// World is a generated file system on a simulated device.
type World struct {
	g      simrt.Gen
	s      *simrt.Sim
	fsid   [16]byte
	fsid2  [16]byte
	bs     int
	size   int64
	img    *simrt.Inode
	gen    uint64
	chunks []*chunkT
	blocks []*placed
	byOff  map[int64]*placed
	trees  []*tree
	subs   []*subvol
	// free metadata slots (logical), and slots freed in this generation
	free, freed []uint64
	dataFree    []dspan
	opt         WorldOpt
	names       int
	hist        []string
	damaged     []*placed
	prealloc    []uint64
}

type dspan struct{ log, n uint64 }

type WorldOpt struct {
	BS        int // 0: drawn
	Gens      int // number of transactions
	Ops       int // operations per transaction
	Small     bool
	NoSubs    bool
	Noise     bool // foreign blocks, decoys
	Strays    bool // extra leaves of other trees
	Dense     int  // number of items in dense leaves
	BigFiles  bool
	Collide   bool
	Special   bool
	Compress  bool // extents that are compressed
	Xattrs    bool
	NoRename  bool
	Orphans   bool // subvolumes without a directory entry
	Printable bool // names that ls prints unambiguously
	MinOps    int
	LogRoot   bool
	Vast      bool // may have addresses and offsets beyond 32 bits
	Thin      bool // may lack chunks, inodes, extents
}

var collisions [][2]string

// initCollisions finds printable names with the same hash.
func initCollisions() {
	if collisions != nil {
		return
	}
	seen := make(map[uint32]uint32, 1<<19)
	for i := uint32(0); i < 1<<19; i++ {
		n := collName(i)
		h := uint32(nameHash(n))
		if j, ok := seen[h]; ok {
			collisions = append(collisions, [2]string{collName(j), n})
			if len(collisions) >= 12 {
				return
			}
		} else {
			seen[h] = i
		}
	}
}

func collName(i uint32) string {
	x := uint64(i)*2654435761 + 12345
	b := []byte("c")
	for k := 0; k < 7; k++ {
		b = append(b, "abcdefghijklmnopqrstuvwxyz012345"[x&31])
		x = x>>5 ^ uint64(i)*0x9e3779b9>>uint(k)
	}
	return string(b)
}

func roundUp(n, a int64) int64 { return (n + a - 1) / a * a }

// NewWorld lays out an empty file system.
func (c *Ctx) NewWorld(s *simrt.Sim, opt WorldOpt) *World {
	initCollisions()
	g := c.Gen("world")
	w := &World{g: g, s: s, opt: opt, byOff: map[int64]*placed{}, gen: 5}
	w.bs = opt.BS
	if w.bs == 0 {
		w.bs = g.Pick(16384, 4096, 8192, 16384, 32768, 65536)
	}
	simrt.FillBytes(w.fsid[:], 77+uint64(g.N(1000)))
	simrt.FillBytes(w.fsid2[:], 5077)
	if g.Chance(1, 3) { // ids that differ in one place only
		w.fsid2 = w.fsid
		w.fsid2[g.N(16)] ^= 1 << uint(g.N(8))
	}
	w.size = super2 + 100*int64(w.bs) + int64(g.N(64))*65536
	if g.Chance(1, 4) {
		w.size += int64(g.N(65536))
	}
	w.img = s.FS.Put("/img/disk.img", "image", nil)
	w.img.NoTrack = true
	w.img.SetSize(w.size)
	w.layChunks()
	w.boot()
	return w
}

func (w *World) layChunks() {
	g := w.g
	type want struct {
		meta bool
		dup  bool
		n    int64
	}
	var l []want
	metaN := int64(1 << 20)
	if w.bs >= 32768 {
		metaN = 3 << 20
	}
	for i := 0; i < 1+g.N(2); i++ {
		l = append(l, want{true, g.Chance(1, 4), metaN})
	}
	nd := 1 + g.N(4)
	for i := 0; i < nd; i++ {
		l = append(l, want{false, g.Chance(1, 8), int64(1+g.N(32)) * 65536})
	}
	if w.opt.BigFiles {
		l = append(l, want{false, false, 6 << 20})
	}
	pos := int64(1 << 20)
	place := func(n int64) uint64 {
		pos += int64(g.N(8)) * 65536
		if g.Chance(1, 5) && pos < 50<<20 {
			pos = int64(50+g.N(12)) << 20
		}
		if pos < super2+65536 && pos+n > super2 {
			pos = super2 + 65536
		}
		if pos+n > w.size {
			// wrap into the gap at the start
			return 0
		}
		p := pos
		pos += n
		return uint64(p)
	}
	// Logical addresses are handed out in an order of their own.
	order := make([]int, len(l))
	for i := range order {
		order[i] = i
	}
	for i := len(order) - 1; i > 0; i-- {
		j := i - g.N(i+1)
		order[i], order[j] = order[j], order[i]
	}
	logical := uint64(1+g.N(64)) << 20
	cs := make([]*chunkT, len(l))
	for i, x := range l {
		n := 1
		if x.dup {
			n = 2
		}
		ch := &chunkT{length: uint64(x.n), meta: x.meta}
		for k := 0; k < n; k++ {
			if p := place(x.n); p != 0 {
				ch.phys = append(ch.phys, p)
			}
		}
		cs[i] = ch
	}
	for _, i := range order {
		ch := cs[i]
		if len(ch.phys) == 0 {
			continue
		}
		ch.logical = logical
		logical += ch.length
		if g.Chance(1, 2) {
			logical += uint64(1+g.N(16)) << 16
		}
		w.chunks = append(w.chunks, ch)
	}
	for _, ch := range w.chunks {
		if ch.meta {
			for o := uint64(0); o+uint64(w.bs) <= ch.length; o += uint64(w.bs) {
				w.free = append(w.free, ch.logical+o)
			}
		} else {
			w.dataFree = append(w.dataFree, dspan{ch.logical, ch.length})
		}
	}
}

func (w *World) chunkOf(log uint64) *chunkT {
	for _, c := range w.chunks {
		if log >= c.logical && log < c.logical+c.length {
			return c
		}
	}
	return nil
}

func (w *World) physOf(log uint64) uint64 {
	c := w.chunkOf(log)
	return c.phys[0] + log - c.logical
}

// putBlock writes a metadata block at a physical offset.
func (w *World) putBlock(off int64, raw []byte, kind string, owner, gen uint64, n int) *placed {
	if old := w.byOff[off]; old != nil {
		old.dead = true
	}
	p := &placed{off: off, raw: raw, kind: kind, owner: owner, gen: gen, nItems: n}
	w.img.Poke(raw, off)
	w.blocks = append(w.blocks, p)
	w.byOff[off] = p
	return p
}

func (w *World) allocMeta() (uint64, bool) {
	if len(w.free) == 0 {
		return 0, false
	}
	i := 0
	switch w.g.N(3) {
	case 0:
	case 1:
		i = len(w.free) - 1
	default:
		i = w.g.N(len(w.free))
	}
	l := w.free[i]
	w.free = append(w.free[:i:i], w.free[i+1:]...)
	return l, true
}

func (w *World) writeMeta(log uint64, raw []byte, kind string, owner, gen uint64, n int) {
	c := w.chunkOf(log)
	for i, p := range c.phys {
		k := kind
		if i > 0 && kind == "leaf" {
			k = "dup"
		}
		w.putBlock(int64(p+log-c.logical), raw, k, owner, gen, n)
	}
}

// ------------------------------------------------------------- trees

func (w *World) newTree(owner uint64) *tree {
	t := &tree{owner: owner}
	w.trees = append(w.trees, t)
	return t
}

func (t *tree) find(k Key) (int, int, bool) {
	li := 0
	for i, l := range t.leaves {
		if i > 0 && len(l.items) > 0 && keyLess(k, l.items[0].key) {
			break
		}
		li = i
	}
	if len(t.leaves) == 0 {
		return 0, 0, false
	}
	its := t.leaves[li].items
	p := sort.Search(len(its), func(i int) bool { return !keyLess(its[i].key, k) })
	return li, p, p < len(its) && its[p].key == k
}

func leafUsed(items []item) int {
	n := headerLen
	for _, it := range items {
		n += itemLen + len(it.data)
	}
	return n
}

func (t *tree) put(bs int, k Key, data []byte) {
	if len(data) > bs-headerLen-itemLen {
		panic("item too large")
	}
	if len(t.leaves) == 0 {
		t.leaves = []*tleaf{{}}
	}
	li, p, ok := t.find(k)
	l := t.leaves[li]
	l.dirty = true
	if ok {
		l.items[p].data = data
	} else {
		l.items = append(l.items, item{})
		copy(l.items[p+1:], l.items[p:])
		l.items[p] = item{k, data}
	}
	for li < len(t.leaves) && leafUsed(t.leaves[li].items) > bs {
		l := t.leaves[li]
		m := len(l.items) / 2
		if m == 0 {
			m = 1
		}
		n := &tleaf{items: append([]item{}, l.items[m:]...), dirty: true}
		l.items = l.items[:m:m]
		l.dirty = true
		t.leaves = append(t.leaves, nil)
		copy(t.leaves[li+2:], t.leaves[li+1:])
		t.leaves[li+1] = n
		if leafUsed(l.items) <= bs {
			li++
		}
	}
}

func (t *tree) get(k Key) []byte {
	li, p, ok := t.find(k)
	if !ok {
		return nil
	}
	return t.leaves[li].items[p].data
}

func (t *tree) del(k Key) {
	li, p, ok := t.find(k)
	if !ok {
		return
	}
	l := t.leaves[li]
	l.items = append(l.items[:p:p], l.items[p+1:]...)
	l.dirty = true
	if len(l.items) == 0 && len(t.leaves) > 1 {
		t.leaves = append(t.leaves[:li:li], t.leaves[li+1:]...)
		// the block stays behind on disk
	}
}

// commit writes every changed leaf to a new place.
func (w *World) commit() {
	for _, t := range w.trees {
		any := false
		for _, l := range t.leaves {
			if !l.dirty {
				continue
			}
			any = true
			log, ok := w.allocMeta()
			if !ok {
				// No space: the transaction overwrites what was freed.
				if len(w.freed) == 0 {
					continue
				}
				log = w.freed[0]
				w.freed = w.freed[1:]
			}
			if l.log != 0 {
				w.freed = append(w.freed, l.log)
			}
			l.log = log
			l.dirty = false
			junk := uint64(0)
			if w.g.Chance(1, 3) {
				junk = uint64(log) + 1
			}
			raw := makeLeaf(w.bs, w.fsid, log, w.gen, t.owner, l.items, junk)
			w.writeMeta(log, raw, "leaf", t.owner, w.gen, len(l.items))
		}
		if any && len(t.leaves) > 1 && w.g.Chance(1, 2) {
			if log, ok := w.allocMeta(); ok {
				var ks []Key
				for _, l := range t.leaves {
					if len(l.items) > 0 {
						ks = append(ks, l.items[0].key)
					}
				}
				lvl := 1 + w.g.N(3)
				w.writeMeta(log, makeNode(w.bs, w.fsid, log, w.gen, t.owner, lvl, ks, uint64(w.g.N(2))*log), "node", t.owner, w.gen, len(ks))
			}
		}
	}
	// Freed blocks can be used again in later transactions.
	if w.g.Chance(1, 2) {
		w.free = append(w.freed, w.free...)
	} else {
		w.free = append(w.free, w.freed...)
	}
	w.freed = nil
	w.gen += uint64(1 + w.g.N(3))
}

func (w *World) tree(owner uint64) *tree {
	for _, t := range w.trees {
		if t.owner == owner {
			return t
		}
	}
	return w.newTree(owner)
}

// boot creates the initial trees.
func (w *World) boot() {
	ct := w.tree(oChunk)
	ct.put(w.bs, Key{1, tDevItem, 1}, cat(le64(1), le64(uint64(w.size)), le64(1<<20), make([]byte, 74)))
	for _, c := range w.chunks {
		w.putChunk(c)
	}
	w.newSub(oFS, true)
}

func (w *World) putChunk(c *chunkT) {
	typ := uint64(1)
	if c.meta {
		typ = 4
	}
	var st []stripeT
	for i, p := range c.phys {
		st = append(st, stripeT{1, p})
		w.tree(oDev).put(w.bs, Key{1, tDevExt, p}, cat(le64(3), le64(256), le64(c.logical), le64(c.length), make([]byte, 16)))
		if i > 0 {
			typ |= 1 << 5
		}
	}
	w.tree(oChunk).put(w.bs, Key{256, tChunk, c.logical}, chunkBytes(c.length, typ, st))
	w.tree(oExt).put(w.bs, Key{c.logical, tBGItem, c.length}, cat(le64(4096), le64(256), le64(typ)))
}

func (w *World) newSub(id uint64, linked bool) *subvol {
	sv := &subvol{id: id, t: w.tree(id), nextIno: 257, linked: linked}
	w.subs = append(w.subs, sv)
	sv.root = &fnode{ino: 256, ft: ftDir, it: w.newInode(040755), nextIdx: 2, xattrs: map[string][]byte{}}
	sv.root.it.nlink = 1
	sv.nodes = append(sv.nodes, sv.root)
	w.putInode(sv, sv.root)
	sv.t.put(w.bs, Key{256, tInodeRef, 256}, cat(le64(0), le16(2), []byte("..")))
	w.tree(oRoot).put(w.bs, Key{id, tRoot, 0}, rootItemBytes(w.gen, uint64(w.bs)*id))
	return sv
}

func (w *World) newInode(mode uint32) inodeT {
	g := w.g
	t := int64(1500000000) + int64(g.N(1<<28))
	return inodeT{gen: w.gen, nlink: 1, mode: mode, uid: uint32(g.Pick(0, 1000, 65534, 4294967295)), gid: uint32(g.Pick(0, 100, 1000)),
		atime: t + int64(g.N(100000)), ctime: t, mtime: t - int64(g.N(100000)), atimen: uint32(g.N(1e9)), ctimen: uint32(g.N(1e9)), mtin: uint32(g.N(1e9))}
}

func (w *World) putInode(sv *subvol, f *fnode) {
	sv.t.put(w.bs, Key{f.ino, tInode, 0}, f.it.bytes())
}

// entries of a directory that share a hash live in one item.
func (w *World) putEntry(sv *subvol, dir *fnode, name string, loc Key, ft uint8, idx uint64) {
	k := Key{dir.ino, tDirItem, nameHash(name)}
	e := dirItemBytes(loc, w.gen, ft, name, nil)
	old := sv.t.get(k)
	sv.t.put(w.bs, k, cat(old, e))
	sv.t.put(w.bs, Key{dir.ino, tDirIndex, idx}, e)
}

func (w *World) delEntry(sv *subvol, dir *fnode, name string, idx uint64) {
	k := Key{dir.ino, tDirItem, nameHash(name)}
	var rest []byte
	for _, d := range parseDirItems(sv.t.get(k)) {
		if d.name != name {
			rest = append(rest, d.raw...)
		}
	}
	if len(rest) == 0 {
		sv.t.del(k)
	} else {
		sv.t.put(w.bs, k, rest)
	}
	sv.t.del(Key{dir.ino, tDirIndex, idx})
}

type dirItemT struct {
	loc  Key
	ft   uint8
	name string
	data []byte
	raw  []byte
}

// parseDirItems reads as many packed entries as are intact.
func parseDirItems(b []byte) (l []dirItemT) {
	for len(b) >= 30 {
		dl, nl := int(le.Uint16(b[25:])), int(le.Uint16(b[27:]))
		if 30+nl+dl > len(b) {
			return
		}
		d := dirItemT{loc: Key{le.Uint64(b), b[8], le.Uint64(b[9:])}, ft: b[29], name: string(b[30 : 30+nl]), data: b[30+nl : 30+nl+dl], raw: b[:30+nl+dl]}
		l = append(l, d)
		b = b[30+nl+dl:]
	}
	return
}

func (w *World) hasName(dir *fnode, name string) bool {
	for _, k := range dir.kids {
		for _, n := range k.names {
			if n.dir == dir && n.name == name {
				return true
			}
		}
	}
	return false
}

// newName draws a name that is new in the directory.
func (w *World) newName(dir *fnode) string {
	g := w.g
	if w.opt.Collide && g.Chance(1, 3) && len(collisions) > 0 {
		p := collisions[g.N(len(collisions))]
		for _, n := range p {
			if !w.hasName(dir, n) {
				return n
			}
		}
	}
	w.names++
	n := ""
	switch g.N(13) {
	default:
		n = fmt.Sprintf("f%d", w.names)
	case 12:
		n = fmt.Sprintf("back\\slash%d", w.names)
	case 7:
		n = fmt.Sprintf("with space %d", w.names)
	case 8:
		n = fmt.Sprintf("ünï-%d-✓", w.names)
	case 9:
		n = fmt.Sprintf("%d%%s%%n.txt", w.names)
	case 10:
		n = fmt.Sprintf(".hidden%d", w.names)
	case 11:
		b := []byte(fmt.Sprintf("%d-", w.names))
		for len(b) < 255-g.N(3) {
			b = append(b, "longname"[len(b)%8])
		}
		n = string(b)
		if w.bs < 8192 && len(n) > 120 {
			n = n[:120]
		}
	case 6:
		if w.opt.Printable {
			n = fmt.Sprintf("A%d", w.names)
		} else {
			n = fmt.Sprintf("odd\xff\xfe\x01%d\tx", w.names)
		}
	}
	return n
}

func (w *World) note(format string, a ...interface{}) {
	w.hist = append(w.hist, fmt.Sprintf("gen %d: ", w.gen)+fmt.Sprintf(format, a...))
	simrt.S.Note("world gen %d: "+format, append([]interface{}{w.gen}, a...)...)
}

func (sv *subvol) dirs() (l []*fnode) {
	for _, f := range sv.nodes {
		if f.ft == ftDir && f.sub == nil && (f == sv.root || len(f.names) > 0) {
			l = append(l, f)
		}
	}
	return
}

func (sv *subvol) files() (l []*fnode) {
	for _, f := range sv.nodes {
		if f.ft == ftReg && len(f.names) > 0 {
			l = append(l, f)
		}
	}
	return
}

func (w *World) link(sv *subvol, dir, f *fnode, name string) {
	dir.nextIdx++
	idx := dir.nextIdx
	f.names = append(f.names, nameT{dir, name, idx})
	dir.kids = append(dir.kids, f)
	loc := Key{f.ino, tInode, 0}
	if f.sub != nil {
		loc = Key{f.sub.id, tRoot, ^uint64(0)}
	}
	w.putEntry(sv, dir, name, loc, f.ft, idx)
	if f.sub == nil {
		ref := cat(le64(idx), le16(len(name)), []byte(name))
		k := Key{f.ino, tInodeRef, dir.ino}
		if all := cat(sv.t.get(k), ref); len(all) < w.bs/4 {
			sv.t.put(w.bs, k, all)
		}
	}
	dir.it.size += uint64(len(name) * 2)
	w.putInode(sv, dir)
}

func (w *World) unlink(sv *subvol, f *fnode, i int) {
	n := f.names[i]
	f.names = append(f.names[:i:i], f.names[i+1:]...)
	for j, k := range n.dir.kids {
		if k == f {
			n.dir.kids = append(n.dir.kids[:j:j], n.dir.kids[j+1:]...)
			break
		}
	}
	w.delEntry(sv, n.dir, n.name, n.idx)
	n.dir.it.size -= uint64(len(n.name) * 2)
	w.putInode(sv, n.dir)
	if len(f.names) == 0 && f.sub == nil {
		sv.t.del(Key{f.ino, tInode, 0})
		sv.t.del(Key{f.ino, tInodeRef, n.dir.ino})
		for o := range f.extents {
			sv.t.del(Key{f.ino, tExtent, o})
		}
		for n := range f.xattrs {
			sv.t.del(Key{f.ino, tXattr, nameHash(n)})
		}
	} else if f.sub == nil {
		f.it.nlink--
		w.putInode(sv, f)
	}
}

func (w *World) create(sv *subvol, dir *fnode, ft uint8) *fnode {
	g := w.g
	modes := map[uint8]uint32{ftReg: 0100000, ftDir: 040000, ftLnk: 0120000, ftChr: 020000, ftBlk: 060000, ftFifo: 010000, ftSock: 0140000}
	perm := uint32(g.Pick(0644, 0755, 0600, 0777, 0, 04755, 01777, 0421))
	if ft == ftLnk {
		perm = 0777
	}
	f := &fnode{ino: sv.nextIno, ft: ft, it: w.newInode(modes[ft] | perm), nextIdx: 2, extents: map[uint64]extT{}, xattrs: map[string][]byte{}}
	if ft == ftChr || ft == ftBlk {
		f.it.rdev = uint64(g.N(4096))
	}
	sv.nextIno += uint64(1 + g.N(3))
	sv.nodes = append(sv.nodes, f)
	name := w.newName(dir)
	if ft == ftLnk {
		f.target = w.newTarget()
		f.it.size = uint64(len(f.target))
		w.setExtent(sv, f, 0, extT{typ: 0, data: []byte(f.target), gen: w.gen, ram: uint64(len(f.target))})
	}
	w.putInode(sv, f)
	w.link(sv, dir, f, name)
	return f
}

func (w *World) newTarget() string {
	g := w.g
	switch g.N(5) {
	case 0:
		return fmt.Sprintf("f%d", g.N(20))
	case 1:
		return "../" + fmt.Sprintf("f%d", g.N(20))
	case 2:
		return "/etc/passwd"
	case 3:
		b := make([]byte, 1+g.N(1000))
		for i := range b {
			b[i] = "abc/def.gh"[i%10]
		}
		return string(b)
	}
	return "dangling target with spaces"
}

func (w *World) setExtent(sv *subvol, f *fnode, off uint64, e extT) {
	f.extents[off] = e
	k := Key{f.ino, tExtent, off}
	b := inlineExtent(e.gen, e.data)
	if e.typ != 0 {
		b = regExtent(e.gen, e.ram, e.typ, e.disk, e.diskLen, e.off, e.n)
	} else if e.comp != 0 {
		le.PutUint64(b[8:], e.ram)
	}
	b[16] = e.comp
	sv.t.put(w.bs, k, b)
}

// compressed gives a new file compressed contents.
func (w *World) compressed(sv *subvol, f *fnode) {
	g := w.g
	f.comp = true
	if g.Chance(1, 2) {
		b := make([]byte, 10+g.N(100))
		simrt.FillBytes(b, g.Seed64())
		f.it.size = uint64(len(b) + 1 + g.N(2000))
		w.setExtent(sv, f, 0, extT{typ: 0, comp: uint8(1 + g.N(3)), data: b, gen: w.gen, ram: f.it.size})
	} else {
		n := uint64(2+g.N(8)) * sector
		log, ok := w.allocData(sector)
		if ok {
			w.writeData(log, sector, g.Seed64())
			w.setExtent(sv, f, 0, extT{typ: 1, comp: uint8(1 + g.N(3)), disk: log, diskLen: sector, n: n, gen: w.gen, ram: n})
			f.it.size = n
		}
	}
	w.putInode(sv, f)
}

func (w *World) dropExtent(sv *subvol, f *fnode, off uint64) {
	delete(f.extents, off)
	sv.t.del(Key{f.ino, tExtent, off})
}

// allocData takes n bytes (a multiple of the sector size) of data space.
func (w *World) allocData(n uint64) (uint64, bool) {
	var l []int
	for i, s := range w.dataFree {
		if s.n >= n {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return 0, false
	}
	i := l[w.g.N(len(l))]
	s := w.dataFree[i]
	w.dataFree[i] = dspan{s.log + n, s.n - n}
	return s.log, true
}

func (w *World) writeData(log, n uint64, seed uint64) {
	b := make([]byte, n)
	simrt.FillBytes(b, seed)
	c := w.chunkOf(log)
	for _, p := range c.phys {
		w.img.Poke(b, int64(p+log-c.logical))
	}
}

// cut removes [from, to) from the extents of a file, as an overwrite does.
func (w *World) cut(sv *subvol, f *fnode, from, to uint64) {
	var offs []uint64
	for o := range f.extents {
		offs = append(offs, o)
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
	for _, o := range offs {
		e := f.extents[o]
		n := e.n
		if e.typ == 0 {
			n = uint64(roundUp(int64(len(e.data)), sector))
		}
		if o+n <= from || o >= to {
			continue
		}
		w.dropExtent(sv, f, o)
		if e.typ == 0 {
			continue
		}
		if o < from {
			h := e
			h.n = from - o
			w.setExtent(sv, f, o, h)
		}
		if o+n > to {
			t := e
			t.off += to - o
			if t.disk == 0 {
				t.off = 0
			}
			t.n = o + n - to
			w.setExtent(sv, f, to, t)
		}
	}
}

// write puts new contents into [from, from+n) of a file; from is aligned.
func (w *World) writeFile(sv *subvol, f *fnode, from, n uint64, typ int) {
	g := w.g
	al := uint64(roundUp(int64(n), sector))
	if al == 0 {
		return
	}
	w.cut(sv, f, from, from+al)
	switch typ {
	case 0: // data
		disk := al
		lead := uint64(0)
		if g.Chance(1, 4) { // the extent on disk is larger than what is used
			lead = uint64(g.N(3)) * sector
			disk = al + lead + uint64(g.N(3))*sector
		}
		log, ok := w.allocData(disk)
		if !ok {
			w.setExtent(sv, f, from, extT{typ: 1, disk: 0, n: al, gen: w.gen, ram: al})
			return
		}
		w.writeData(log, disk, g.Seed64())
		w.setExtent(sv, f, from, extT{typ: 1, disk: log, diskLen: disk, off: lead, n: al, gen: w.gen, ram: disk})
	case 1: // hole
		w.setExtent(sv, f, from, extT{typ: 1, disk: 0, n: al, gen: w.gen, ram: al})
	case 2: // preallocated: what lies on disk is not the file's
		log, ok := w.allocData(al)
		if !ok {
			return
		}
		w.writeData(log, al, g.Seed64())
		w.setExtent(sv, f, from, extT{typ: 2, disk: log, diskLen: al, n: al, gen: w.gen, ram: al})
	}
}

// fill gives a new file its first contents.
func (w *World) fill(sv *subvol, f *fnode) {
	g := w.g
	switch g.N(8) {
	case 0: // small inline
		w.inline(sv, f, 1+g.N(200))
	case 1: // empty
	case 2:
		w.inline(sv, f, 1+g.N(w.bs/4-100))
	case 3: // one extent, odd size
		n := uint64(1 + g.N(5*sector))
		w.writeFile(sv, f, 0, n, 0)
		f.it.size = n
	case 4: // several extents with holes, gaps and preallocated ranges
		pos := uint64(0)
		for i := 0; i < 2+g.N(5); i++ {
			n := uint64(1+g.N(8)) * sector
			k := g.N(5)
			switch k {
			case 3:
				pos += n // gap without any extent
			case 4:
				w.writeFile(sv, f, pos, n, 0)
				pos += n
			default:
				w.writeFile(sv, f, pos, n, k)
				pos += n
			}
		}
		f.it.size = pos
		if g.Chance(1, 2) && pos > 0 {
			f.it.size = pos - uint64(g.N(sector))
		}
		if g.Chance(1, 5) {
			f.it.size = pos + uint64(g.N(40000)) // ends in a gap
		}
	case 5: // preallocated beyond the end
		n := uint64(1+g.N(4)) * sector
		w.writeFile(sv, f, 0, n, 0)
		w.writeFile(sv, f, n, uint64(1+g.N(4))*sector, 2)
		f.it.size = n - uint64(g.N(sector))
	case 6: // only a hole
		f.it.size = uint64(1 + g.N(100000))
		if g.Chance(1, 2) {
			w.writeFile(sv, f, 0, f.it.size, 1)
		}
	case 7:
		if w.opt.BigFiles {
			n := uint64(1<<20 + g.N(1<<20+9000))
			w.writeFile(sv, f, 0, n, 0)
			f.it.size = n
		} else {
			n := uint64(1 + g.N(16*sector))
			w.writeFile(sv, f, 0, n, 0)
			f.it.size = n
		}
	}
	w.putInode(sv, f)
}

func (w *World) inline(sv *subvol, f *fnode, n int) {
	b := make([]byte, n)
	simrt.FillBytes(b, w.g.Seed64())
	w.setExtent(sv, f, 0, extT{typ: 0, data: b, gen: w.gen, ram: uint64(n)})
	f.it.size = uint64(n)
}

func (f *fnode) end() (n uint64) {
	for o, e := range f.extents {
		if e.typ == 0 {
			if uint64(len(e.data)) > n {
				n = uint64(len(e.data))
			}
		} else if o+e.n > n {
			n = o + e.n
		}
	}
	return
}

// overwrite changes an existing file.
func (w *World) overwrite(sv *subvol, f *fnode) {
	g := w.g
	f.it.gen = w.gen
	switch g.N(5) {
	case 0: // rewrite a range in the middle
		from := uint64(g.N(int(f.it.size/sector)+1)) * sector
		n := uint64(1 + g.N(4*sector))
		if e, ok := f.extents[0]; ok && e.typ == 0 {
			// an inline file grows into a regular one
			from = 0
			if n < uint64(len(e.data)) {
				n = uint64(len(e.data))
			}
		}
		w.writeFile(sv, f, from, n, 0)
		if from+n > f.it.size {
			f.it.size = from + n
		}
	case 1: // truncate down
		f.it.size = uint64(g.N(int(f.it.size) + 1))
		al := uint64(roundUp(int64(f.it.size), sector))
		if e, ok := f.extents[0]; ok && e.typ == 0 {
			if f.it.size == 0 {
				w.dropExtent(sv, f, 0)
			} else if f.it.size < uint64(len(e.data)) {
				e.data = e.data[:f.it.size]
				e.ram = f.it.size
				w.setExtent(sv, f, 0, e)
			}
		} else {
			w.cut(sv, f, al, ^uint64(0)>>1)
		}
	case 2: // replace the whole contents
		var offs []uint64
		for o := range f.extents {
			offs = append(offs, o)
		}
		sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
		for _, o := range offs {
			w.dropExtent(sv, f, o)
		}
		f.it.size = 0
		w.fill(sv, f)
	case 3: // punch a hole
		if e, ok := f.extents[0]; !ok || e.typ != 0 {
			from := uint64(g.N(int(f.it.size/sector)+1)) * sector
			w.writeFile(sv, f, from, uint64(1+g.N(3))*sector, 1)
		}
	case 4: // append
		if e, ok := f.extents[0]; !ok || e.typ != 0 {
			from := uint64(roundUp(int64(f.it.size), sector))
			n := uint64(1 + g.N(3*sector))
			w.writeFile(sv, f, from, n, g.Pick(0, 0, 2))
			f.it.size = from + n
		}
	}
	w.putInode(sv, f)
}

// mutate does one random operation.
func (w *World) mutate() {
	g := w.g
	sv := w.subs[g.N(len(w.subs))]
	dirs := sv.dirs()
	dir := dirs[g.N(len(dirs))]
	switch op := g.N(18); op {
	default: // 0..3: a file
		f := w.create(sv, dir, ftReg)
		w.fill(sv, f)
		w.note("sub %d create file %d in %d %q size %d", sv.id, f.ino, dir.ino, f.names[0].name, f.it.size)
	case 4, 5:
		f := w.create(sv, dir, ftDir)
		w.note("sub %d mkdir %d in %d %q", sv.id, f.ino, dir.ino, f.names[0].name)
	case 6:
		f := w.create(sv, dir, ftLnk)
		w.note("sub %d symlink %d in %d %q -> %q", sv.id, f.ino, dir.ino, f.names[0].name, f.target)
	case 7, 8, 9:
		fs := sv.files()
		if len(fs) == 0 {
			return
		}
		f := fs[g.N(len(fs))]
		if f.comp {
			return
		}
		w.overwrite(sv, f)
		w.note("sub %d change file %d, size %d", sv.id, f.ino, f.it.size)
	case 10: // hard link
		fs := sv.files()
		if len(fs) == 0 {
			return
		}
		f := fs[g.N(len(fs))]
		n := w.newName(dir)
		f.it.nlink++
		w.putInode(sv, f)
		w.link(sv, dir, f, n)
		w.note("sub %d link %d in %d %q", sv.id, f.ino, dir.ino, n)
	case 11: // unlink
		fs := sv.files()
		if len(fs) == 0 || w.opt.NoRename {
			return
		}
		f := fs[g.N(len(fs))]
		w.note("sub %d unlink %d %q", sv.id, f.ino, f.names[0].name)
		w.unlink(sv, f, 0)
	case 12: // subvolume
		if w.opt.NoSubs || len(w.subs) > 5 {
			return
		}
		id := uint64(256 + len(w.subs) - 1)
		if g.Chance(1, 4) {
			id += uint64(g.N(100)) * 10
		}
		for _, x := range w.subs {
			if x.id == id {
				return
			}
		}
		linked := sv.linked && !(w.opt.Orphans && g.Chance(1, 3))
		if !sv.linked {
			return
		}
		n := w.newSub(id, linked)
		if linked {
			f := &fnode{ino: 0, ft: ftDir, sub: n}
			name := w.newName(dir)
			w.link(sv, dir, f, name)
			ref := cat(le64(dir.ino), le64(dir.nextIdx), le16(len(name)), []byte(name))
			w.tree(oRoot).put(w.bs, Key{sv.id, tRootRef, id}, ref)
			w.tree(oRoot).put(w.bs, Key{id, tRootBack, sv.id}, ref)
			w.note("sub %d subvolume %d in %d %q", sv.id, id, dir.ino, name)
		} else {
			w.note("subvolume %d without entry", id)
		}
	case 13: // xattr
		if !w.opt.Xattrs {
			return
		}
		f := sv.nodes[g.N(len(sv.nodes))]
		if len(f.names) == 0 && f != sv.root {
			return
		}
		n := fmt.Sprintf("user.a%d", g.N(6))
		if w.opt.Collide && g.Chance(1, 3) {
			n = collisions[g.N(len(collisions))][g.N(2)]
		}
		v := make([]byte, g.N(200))
		simrt.FillBytes(v, g.Seed64())
		f.xattrs[n] = v
		w.putXattrs(sv, f, nameHash(n))
		w.note("sub %d xattr %d %q %d bytes", sv.id, f.ino, n, len(v))
	case 14: // attributes
		f := sv.nodes[g.N(len(sv.nodes))]
		if len(f.names) == 0 && f != sv.root {
			return
		}
		old := f.it
		f.it = w.newInode(old.mode&^0777 | uint32(g.N(512)))
		f.it.size, f.it.nlink, f.it.rdev = old.size, old.nlink, old.rdev
		w.putInode(sv, f)
		w.note("sub %d attributes %d mode %o", sv.id, f.ino, f.it.mode)
	case 16: // rename
		fs := sv.files()
		if len(fs) == 0 || w.opt.NoRename {
			return
		}
		f := fs[g.N(len(fs))]
		n := w.newName(dir)
		f.it.nlink++
		w.link(sv, dir, f, n)
		w.note("sub %d rename %d %q to %q in %d", sv.id, f.ino, f.names[0].name, n, dir.ino)
		w.unlink(sv, f, 0)
	case 17: // compressed
		if !w.opt.Compress {
			return
		}
		f := w.create(sv, dir, ftReg)
		w.compressed(sv, f)
		w.note("sub %d create compressed file %d in %d %q size %d", sv.id, f.ino, dir.ino, f.names[0].name, f.it.size)
	case 15: // special file
		if !w.opt.Special {
			return
		}
		f := w.create(sv, dir, uint8(g.Pick(ftFifo, ftChr, ftBlk, ftSock)))
		w.note("sub %d special %d in %d %q", sv.id, f.ino, dir.ino, f.names[0].name)
	}
}

func (w *World) putXattrs(sv *subvol, f *fnode, h uint64) {
	var names []string
	for n := range f.xattrs {
		if nameHash(n) == h {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var b []byte
	for _, n := range names {
		b = append(b, dirItemBytes(Key{}, w.gen, 8, n, f.xattrs[n])...)
	}
	if len(b) < w.bs-300 {
		sv.t.put(w.bs, Key{f.ino, tXattr, h}, b)
	}
}

// Populate runs the history of the file system.
func (w *World) Populate() {
	g := w.g
	o := w.opt
	if o.Gens == 0 {
		o.Gens = 1 + g.N(4)
	}
	for i := 0; i < o.Gens; i++ {
		n := o.MinOps + g.N(o.Ops+1)
		for k := 0; k < n; k++ {
			w.mutate()
		}
		w.commit()
	}
	w.finish()
}

// slot finds an aligned place that is in no chunk.
func (w *World) outside(off int64) bool {
	if w.byOff[off] != nil {
		return false
	}
	for _, c := range w.chunks {
		for _, p := range c.phys {
			if off+int64(w.bs) > int64(p) && off < int64(p+c.length) {
				return false
			}
		}
	}
	return off+int64(w.bs) <= w.size && !(off < super2+4096 && off+int64(w.bs) > super2) && !(off < super1+4096 && off+int64(w.bs) > super1)
}

func (w *World) randItem(max int) item {
	g := w.g
	k := Key{g.U64() >> uint(g.N(63)), uint8(g.N(256)), g.U64() >> uint(g.N(63))}
	d := make([]byte, g.Pick(0, 1, 25, 60, 160, 439, max))
	if len(d) > max {
		d = d[:max]
	}
	simrt.FillBytes(d, g.Seed64())
	return item{k, d}
}

// finish writes superblocks, extra leaves and noise.
func (w *World) finish() {
	g := w.g
	bs := int64(w.bs)
	logRoot := uint64(0)
	if w.opt.LogRoot || g.Chance(1, 3) {
		logRoot = uint64(1+g.N(200)) << 20
	}
	for _, o := range []int64{super1, super2} {
		w.putBlock(o, makeSuper(w.fsid, uint64(o), w.gen, 30<<20, 20<<20, logRoot, uint64(w.size), w.bs), "super", 0, w.gen, 0)
	}
	if w.opt.Strays || g.Chance(1, 2) {
		last := w.size/bs*bs - bs
		offs := []int64{super1 + bs, last, super2 + bs, super2 - bs, last - bs}
		seen := map[Rec]bool{}
		n := 1 + g.N(4)
		for i := 0; i < n; i++ {
			off := offs[g.N(len(offs))]
			if g.Chance(1, 2) {
				off = (2 + int64(g.N(int(w.size/bs)-3))) * bs
			}
			if off < super1+bs || !w.outside(off) {
				continue
			}
			owner := uint64(g.Pick(2, 7, 9, 100, 101, 1<<40))
			if g.Chance(1, 6) {
				owner = ^uint64(5) // a log tree
			}
			gen := uint64(1 + g.N(100))
			if g.Chance(1, 10) { // the far end of all ranges
				owner = ^uint64(0)
				gen = ^uint64(g.Pick(0, 0, 1))
			}
			var its []item
			used := headerLen
			want := g.Pick(1, 3, 20, 1000)
			m := map[Key]bool{}
			for k := 0; k < want; k++ {
				max := w.bs - used - itemLen
				if max < 0 {
					break
				}
				it := w.randItem(max)
				if owner == ^uint64(0) && g.Chance(1, 2) {
					it.key = Key{^uint64(g.Pick(255, 255, 0, 254)), uint8(255 - g.Pick(0, 0, 1)), ^uint64(g.Pick(0, 0, 1))}
				}
				r := Rec{owner, it.key, gen}
				if seen[r] || m[it.key] {
					continue
				}
				if owner <= 9 && it.key.Obj < 1<<40 {
					it.key.Obj += 1 << 40
				}
				seen[Rec{owner, it.key, gen}] = true
				m[it.key] = true
				its = append(its, it)
				used += itemLen + len(it.data)
				if used > w.bs-itemLen {
					break
				}
			}
			sort.Slice(its, func(a, b int) bool { return keyLess(its[a].key, its[b].key) })
			if g.Chance(1, 8) {
				its = nil
			}
			w.putBlock(off, makeLeaf(w.bs, w.fsid, uint64(off), gen, owner, its, uint64(g.N(2))), "stray", owner, gen, len(its))
			w.note("stray leaf @%d owner %d gen %d items %d", off, owner, gen, len(its))
		}
	}
	if w.opt.Dense > 0 {
		left := w.opt.Dense
		id := uint64(1)
		for off := int64(4 << 20); left > 0 && off < w.size-bs; off += bs {
			if !w.outside(off) {
				continue
			}
			var its []item
			for n := (w.bs - headerLen) / itemLen; n > 0 && left > 0; n-- {
				its = append(its, item{Key{id, 200, id * 3}, nil})
				id++
				left--
			}
			w.putBlock(off, makeLeaf(w.bs, w.fsid, uint64(off), 7, 3000, its, 0), "stray", 3000, 7, len(its))
		}
	}
	if w.opt.Noise {
		n := g.N(8)
		for i := 0; i < n; i++ {
			off := (2 + int64(g.N(int(w.size/bs)-3))) * bs
			if off < super1+bs || !w.outside(off) {
				continue
			}
			it := []item{w.randItem(100), {Key{256, tDirItem, 5}, dirItemBytes(Key{257, 1, 0}, 1, 1, "foreign", nil)}}
			switch g.N(6) {
			case 0: // a leaf of another file system
				w.putBlock(off, makeLeaf(w.bs, w.fsid2, uint64(off), 50, oFS, it, 0), "foreign", oFS, 50, 2)
			case 1: // interior node that looks like anything
				w.putBlock(off, makeNode(w.bs, w.fsid, uint64(off), 60, oFS, 1+g.N(7), []Key{it[0].key, it[1].key}, g.Seed64()), "node", oFS, 60, 2)
			case 2: // data
				b := make([]byte, w.bs)
				simrt.FillBytes(b, g.Seed64())
				w.putBlock(off, b, "data", 0, 0, 0)
			case 3: // a leaf at an offset that is not aligned to the block size
				if w.bs > sector {
					b := make([]byte, 2*w.bs)
					if !w.outside(off + bs) {
						continue
					}
					m := sector * (1 + g.N(w.bs/sector-1))
					copy(b[m:], makeLeaf(w.bs, w.fsid, uint64(off), 70, oFS, it, 0))
					w.putBlock(off, b[:w.bs], "decoy", oFS, 70, 0)
					w.putBlock(off+bs, b[w.bs:], "decoy", oFS, 70, 0)
				}
			case 4: // a superblock of another file system
				b := make([]byte, w.bs)
				copy(b, makeSuper(w.fsid2, uint64(off), 9, 1<<20, 2<<20, 3<<20, uint64(w.size), w.bs))
				w.putBlock(off, b, "foreign", 0, 0, 0)
			case 5: // only the id of the file system, in a data block
				b := make([]byte, w.bs)
				simrt.FillBytes(b, g.Seed64())
				copy(b[100:], w.fsid[:])
				w.putBlock(off, b, "data", 0, 0, 0)
			}
		}
	}
}

// Records is what recon has to find: the items of every leaf still intact.
func (w *World) Records() map[Rec][]byte {
	m := map[Rec][]byte{}
	for _, p := range w.blocks {
		if p.dead || p.kind != "leaf" && p.kind != "dup" && p.kind != "stray" {
			continue
		}
		addRecords(m, p.raw, p.owner, p.gen)
	}
	return m
}

// reservedRec has the key of the record that binds a metadata file to its file
// system.
var reservedRec = Rec{^uint64(0), Key{^uint64(255), 255, ^uint64(0)}, ^uint64(0)}

func addRecords(m map[Rec][]byte, raw []byte, owner, gen uint64) {
	for i, it := range itemsOf(raw) {
		o := headerLen + i*itemLen
		r := Rec{owner, it.key, gen}
		if r == reservedRec { // cannot be a real item
			continue
		}
		m[r] = cat(raw[o:o+itemLen], it.data)
	}
}

// LeafBlocks lists the intact leaves on the device.
func (w *World) LeafBlocks() (l []*placed) {
	for _, p := range w.blocks {
		if !p.dead && (p.kind == "leaf" || p.kind == "dup" || p.kind == "stray") {
			l = append(l, p)
		}
	}
	return
}

func (w *World) FSID() string {
	f := w.fsid
	return fmt.Sprintf("%x-%x-%x-%x-%x", f[0:4], f[4:6], f[6:8], f[8:10], f[10:16])
}
