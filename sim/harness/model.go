//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	"btrsim/simrt"
)

// Model reads records the way the properties say a rescue has to.
type Model struct {
	recs  map[Rec][]byte
	dirs  map[ownObj][]mver // newest versions by owner, type and object
	img   *simrt.Inode
	chunk []mchunk
	links bool // targets of links may be in regular extents
}

type ownObj struct {
	owner uint64
	typ   uint8
	obj   uint64
}

type mver struct {
	off, gen uint64
	data     []byte
}

type mchunk struct{ logical, length, phys uint64 }

func sortedRecs(m map[Rec][]byte) []Rec {
	l := make([]Rec, 0, len(m))
	for r := range m {
		l = append(l, r)
	}
	sort.Slice(l, func(i, j int) bool { return recLess(l[i], l[j]) })
	return l
}

// itemData is the data of a stored item.
func itemData(v []byte) []byte {
	if len(v) < itemLen {
		return nil
	}
	n := int64(le.Uint32(v[21:]))
	if n > int64(len(v)-itemLen) {
		n = int64(len(v) - itemLen)
	}
	return v[itemLen : itemLen+n]
}

// NewModel indexes a record set.
func NewModel(recs map[Rec][]byte, img *simrt.Inode) *Model {
	m := &Model{recs: recs, dirs: map[ownObj][]mver{}, img: img}
	for _, r := range sortedRecs(recs) {
		o := ownObj{r.Owner, r.Key.Type, r.Key.Obj}
		l := m.dirs[o]
		v := mver{r.Key.Off, r.Gen, itemData(recs[r])}
		if n := len(l); n > 0 && l[n-1].off == v.off {
			l[n-1] = v // generations ascend
		} else {
			l = append(l, v)
		}
		m.dirs[o] = l
	}
	for _, v := range m.dirs[ownObj{oChunk, tChunk, 256}] {
		if len(v.data) >= 48+32 && le.Uint16(v.data[44:]) > 0 {
			m.chunk = append(m.chunk, mchunk{v.off, le.Uint64(v.data), le.Uint64(v.data[48+8:])})
		}
	}
	return m
}

func (m *Model) get(owner uint64, typ uint8, obj, off uint64) ([]byte, uint64, bool) {
	for _, v := range m.dirs[ownObj{owner, typ, obj}] {
		if v.off == off {
			return v.data, v.gen, true
		}
	}
	return nil, 0, false
}

// Inode returns the newest inode item.
func (m *Model) Inode(owner, ino uint64) (inodeT, bool) {
	d, _, _ := m.get(owner, tInode, ino, 0)
	return parseInode(d)
}

// Entries lists a directory in the order of the name hashes.
func (m *Model) Entries(owner, dir uint64) (l []dirItemT) {
	for _, v := range m.dirs[ownObj{owner, tDirItem, dir}] {
		l = append(l, parseDirItems(v.data)...)
	}
	return
}

// Xattrs lists extended attributes.
func (m *Model) Xattrs(owner, ino uint64) map[string][]byte {
	x := map[string][]byte{}
	for _, v := range m.dirs[ownObj{owner, tXattr, ino}] {
		for _, d := range parseDirItems(v.data) {
			if _, ok := x[d.name]; !ok {
				x[d.name] = d.data
			}
		}
	}
	return x
}

func (d *dirItemT) isSub() bool { return d.loc.Type == tRoot }

// target is the inode an entry refers to.
func (d *dirItemT) target(owner uint64) (uint64, uint64) {
	if d.isSub() {
		return d.loc.Obj, 256
	}
	return owner, d.loc.Obj
}

// physical maps a range; it has to lie in one chunk.
func (m *Model) physical(log, n uint64) (uint64, bool) {
	for _, c := range m.chunk {
		if log >= c.logical && log-c.logical < c.length && n <= c.length-(log-c.logical) {
			return c.phys + log - c.logical, true
		}
	}
	return 0, false
}

const (
	sZero = iota
	sInline
	sDev
	sComp
	sUnmapped
)

type seg struct {
	from, to uint64
	kind     int
	data     []byte // inline
	phys     uint64
	gen      uint64
	key      uint64 // offset of the extent item
}

// Segments returns what makes up a file, in order, without what reads as zeros
// because there is no extent. dam lists items that cannot be understood.
func (m *Model) Segments(owner, ino uint64) (l []seg, dam []mver) {
	type ext struct {
		from, to uint64
		v        mver
	}
	var es []ext
	var cuts []uint64
	for _, v := range m.dirs[ownObj{owner, tExtent, ino}] {
		d := v.data
		if len(d) < 21 {
			dam = append(dam, v)
			continue
		}
		var n uint64
		switch {
		case d[20] == 0 && d[16] != 0:
			n = le.Uint64(d[8:])
		case d[20] == 0:
			n = uint64(len(d) - 21)
		case len(d) < 53:
			dam = append(dam, v)
			continue
		default:
			n = le.Uint64(d[45:])
		}
		e := ext{v.off, v.off + n, v}
		if e.to < e.from {
			e.to = ^uint64(0)
		}
		if n > 0 {
			es = append(es, e)
			cuts = append(cuts, e.from, e.to)
		}
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	for i := 0; i+1 < len(cuts); i++ {
		a, b := cuts[i], cuts[i+1]
		if a == b {
			continue
		}
		var best *ext
		for j := range es {
			if es[j].from <= a && es[j].to >= b && (best == nil || es[j].v.gen > best.v.gen) {
				best = &es[j]
			}
		}
		if best == nil {
			continue
		}
		d := best.v.data
		s := seg{from: a, to: b, gen: best.v.gen, key: best.from}
		skip := a - best.from
		switch {
		case d[20] == 2:
			s.kind = sZero
		case d[20] == 0 && d[16] != 0:
			s.kind = sComp
		case d[20] == 0:
			s.kind = sInline
			s.data = d[21+skip : 21+skip+b-a]
		case le.Uint64(d[21:]) == 0:
			s.kind = sZero
		case d[16] != 0:
			s.kind = sComp
		default:
			s.kind = sDev
			// The whole extent lies in one chunk.
			base, ok := m.physical(le.Uint64(d[21:]), 1)
			if _, ok2 := m.physical(le.Uint64(d[21:]), le.Uint64(d[37:])+skip+b-a); !ok || !ok2 {
				s.kind = sUnmapped
			} else {
				s.phys = base + le.Uint64(d[37:]) + skip
			}
		}
		l = append(l, s)
	}
	return l, dam
}

// Content returns a range of a file. bad tells that some of it cannot be
// delivered.
func (m *Model) Content(owner, ino uint64, off, n uint64) (b []byte, bad bool) {
	it, ok := m.Inode(owner, ino)
	segs, dam := m.Segments(owner, ino)
	size := it.size
	if !ok {
		size = 0
		for _, s := range segs {
			if s.to > size {
				size = s.to
			}
		}
	}
	b, bad = m.content(segs, size, off, n)
	if len(dam) > 0 {
		bad = true
	}
	return b, bad
}

func (m *Model) content(segs []seg, size, off, n uint64) (b []byte, bad bool) {
	if off >= size {
		return nil, false
	}
	if n > size-off {
		n = size - off
	}
	b = make([]byte, n)
	for _, s := range segs {
		from, to := s.from, s.to
		if from < off {
			from = off
		}
		if to > off+n {
			to = off + n
		}
		if from >= to {
			continue
		}
		dst := b[from-off : to-off]
		switch s.kind {
		case sInline:
			copy(dst, s.data[from-s.from:])
		case sDev:
			if m.img == nil || m.img.Peek(dst, int64(s.phys+from-s.from)) < len(dst) {
				bad = true
			}
		case sComp, sUnmapped:
			bad = true
		}
	}
	return b, bad
}

// DevRanges lists the device bytes a file consists of.
func (m *Model) DevRanges(owner, ino uint64) (l [][2]int64) {
	it, _ := m.Inode(owner, ino)
	segs, _ := m.Segments(owner, ino)
	for _, s := range segs {
		if s.kind != sDev || s.from >= it.size {
			continue
		}
		to := s.to
		if to > it.size {
			to = it.size
		}
		l = append(l, [2]int64{int64(s.phys), int64(s.phys + to - s.from)})
	}
	return
}

// Target returns the target of a symbolic link.
func (m *Model) Target(owner, ino uint64) (string, bool) {
	d, _, ok := m.get(owner, tExtent, ino, 0)
	if m.links && ok && len(d) >= 53 && d[20] == 1 && d[16] == 0 {
		n := le.Uint64(d[45:])
		if it, ok := m.Inode(owner, ino); ok && it.size < n {
			n = it.size
		}
		l := m.linkRange(owner, ino)
		if l == nil || n > 4096 {
			return "", false
		}
		b := make([]byte, n)
		full := m.img.Peek(b, l[0][0]) == len(b)
		return string(b), full
	}
	if !ok || len(d) < 21 || d[20] != 0 {
		return "", false
	}
	return string(d[21:]), true
}

// linkRange is where the target of a symbolic link is, if it is not inline.
func (m *Model) linkRange(owner, ino uint64) [][2]int64 {
	d, _, ok := m.get(owner, tExtent, ino, 0)
	if !m.links || !ok || len(d) < 53 || d[20] != 1 || le.Uint64(d[21:]) == 0 {
		return nil
	}
	n := le.Uint64(d[45:])
	if it, ok := m.Inode(owner, ino); ok && it.size < n {
		n = it.size
	}
	base, ok := m.physical(le.Uint64(d[21:]), 1)
	if _, ok2 := m.physical(le.Uint64(d[21:]), le.Uint64(d[37:])+n); !ok || !ok2 {
		return nil
	}
	base += le.Uint64(d[37:])
	return [][2]int64{{int64(base), int64(base + n)}}
}

// Subvols lists the subvolumes in the root tree.
func (m *Model) Subvols() (l []uint64) {
	for o := range m.dirs {
		if o.owner == oRoot && o.typ == tRoot && o.obj >= 256 && o.obj <= ^uint64(0)-256 {
			l = append(l, o.obj)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

type dirKey struct{ owner, ino uint64 }

// Node is one object that recover has to restore.
type Node struct {
	Path       string // relative to the destination
	FT         uint8
	Owner, Ino uint64
	HasInode   bool
	Dir        dirKey // where the entry is
	Hash       uint64
}

func validName(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.ContainsAny(n, "/\x00")
}

// Walk lists everything below the top-level tree and in unreferenced
// subvolumes. multi holds directories that more than one entry leads to.
func (m *Model) Walk() (l []Node, multi map[dirKey]int) {
	seen := map[dirKey]bool{}
	multi = map[dirKey]int{}
	var walk func(p string, k dirKey)
	walk = func(p string, k dirKey) {
		seen[k] = true
		for _, d := range m.Entries(k.owner, k.ino) {
			d := d
			if !validName(d.name) {
				continue
			}
			o, i := d.target(k.owner)
			_, has := m.Inode(o, i)
			n := Node{Path: p + d.name, FT: d.ft, Owner: o, Ino: i, HasInode: has, Dir: k, Hash: nameHash(d.name)}
			if d.ft == ftDir {
				multi[dirKey{o, i}]++
				if !seen[dirKey{o, i}] {
					l = append(l, n)
					walk(n.Path+"/", dirKey{o, i})
				}
				continue
			}
			l = append(l, n)
		}
	}
	walk("", dirKey{oFS, 256})
	for _, id := range m.Subvols() {
		if k := (dirKey{id, 256}); !seen[k] {
			p := fmt.Sprintf("subvol_%d", id)
			l = append(l, Node{Path: p, FT: ftDir, Owner: id, Ino: 256, HasInode: true})
			walk(p+"/", k)
		}
	}
	for k, n := range multi {
		if n < 2 {
			delete(multi, k)
		}
	}
	return l, multi
}
