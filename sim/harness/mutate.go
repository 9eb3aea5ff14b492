//go:build go1.22

package main

import (
	"strings"

	"btrsim/simrt"
)

// setData replaces the data of a record.
func setData(recs map[Rec][]byte, r Rec, data []byte) {
	h := append([]byte{}, recs[r]...)
	if len(h) < itemLen {
		h = make([]byte, itemLen)
		copy(h, keyBytes(r.Key))
	}
	h = h[:itemLen]
	le.PutUint32(h[21:], uint32(len(data)))
	recs[r] = cat(h, data)
}

// rewrite makes the metadata file anew.
func (c *Ctx) rewrite(w *World, db string, recs map[Rec][]byte) {
	c.S.FS.Put(db, "", writeBolt(c.Gen("rewrite"), recs, metaRecord(w.bs, w.fsid)))
}

// addEntry adds a directory entry the way a hostile or broken file system has
// it: nothing but the entry itself. The newest version of its item gets it.
func addEntry(recs map[Rec][]byte, owner, dir uint64, d dirItemT) {
	k := Key{dir, tDirItem, nameHash(d.name)}
	best := Rec{owner, k, 3}
	for r := range recs {
		if r.Owner == owner && r.Key == k && r.Gen > best.Gen {
			best = r
		}
	}
	setData(recs, best, cat(itemData(recs[best]), dirItemBytes(d.loc, 7, d.ft, d.name, nil)))
}

// addLink adds a symbolic link.
func addLink(recs map[Rec][]byte, owner, dir, ino uint64, name, target string) {
	it := inodeT{mode: 0120777, nlink: 1, size: uint64(len(target))}
	setData(recs, Rec{owner, Key{ino, tInode, 0}, 6}, it.bytes())
	setData(recs, Rec{owner, Key{ino, tExtent, 0}, 6}, inlineExtent(6, []byte(target)))
	addEntry(recs, owner, dir, dirItemT{loc: Key{ino, tInode, 0}, ft: ftLnk, name: name})
}

// addFile adds a file with inline contents.
func addFile(recs map[Rec][]byte, owner, dir, ino uint64, name, data string) {
	it := inodeT{mode: 0100644, nlink: 1, size: uint64(len(data))}
	setData(recs, Rec{owner, Key{ino, tInode, 0}, 6}, it.bytes())
	setData(recs, Rec{owner, Key{ino, tExtent, 0}, 6}, inlineExtent(6, []byte(data)))
	addEntry(recs, owner, dir, dirItemT{loc: Key{ino, tInode, 0}, ft: ftReg, name: name})
}

var hostileNames = []string{
	"..", ".", "", "../x", "../../secret/file", "/secret/file", "a/b", "x/../../y", "/", "//", "./z", "..\x00", "\x00", "a\x00b",
	"../r2/x", "r/../../q", "...", "-rf", "../../img/disk.img", "../../m/meta.db", "dir/..", "~", "*", "a\nb", strings.Repeat("n", 256), strings.Repeat("../", 40) + "secret/file",
	strings.Repeat("n", 255), strings.Repeat("n", 4096), "\xff\xfe", "a\\..\\b", "..\\x", ". ", ".. ", " ", "\t", "\u2215etc", "subvol_300", "con:",
}

var hostileTargets = []string{
	"/secret", "../../secret", "..", ".", "/", "../r2", "/secret/file", "../../img/disk.img", "../../m/meta.db", "loop", "", "/out", "../..", strings.Repeat("t", 5000), "a\x00b", "/nowhere/at/all", "new-outside", "../new-outside", "/secret/new",
}

// hostile adds entries of which no rescue may let itself be fooled.
func hostile(g simrt.Gen, recs map[Rec][]byte) {
	type place struct {
		owner, dir uint64
		names      []string
	}
	var places []place
	m := NewModel(recs, nil)
	ns, _ := m.Walk()
	places = append(places, place{owner: oFS, dir: 256})
	for _, n := range ns {
		if n.FT == ftDir {
			places = append(places, place{owner: n.Owner, dir: n.Ino})
		}
	}
	ino := uint64(900000)
	k := 1 + g.N(8)
	for i := 0; i < k; i++ {
		p := &places[g.N(len(places))]
		var have []string
		for _, d := range m.Entries(p.owner, p.dir) {
			have = append(have, d.name)
		}
		have = append(have, p.names...)
		name := hostileNames[g.N(len(hostileNames))]
		if len(have) > 0 && g.Chance(1, 2) { // the name of something else
			name = have[g.N(len(have))]
		} else if g.Chance(1, 4) {
			name = "plain" + u(g.N(4))
		}
		p.names = append(p.names, name)
		ino++
		switch g.N(6) {
		case 0, 1: // a link and, with the same name, a directory or file
			t := hostileTargets[g.N(len(hostileTargets))]
			addLink(recs, p.owner, p.dir, ino, name, t)
			if g.Chance(2, 3) {
				ino++
				if g.Chance(1, 2) {
					addFile(recs, p.owner, p.dir, ino, name, "through the link")
				} else {
					addEntry(recs, p.owner, p.dir, dirItemT{loc: Key{ino, tInode, 0}, ft: ftDir, name: name})
					addFile(recs, p.owner, ino, ino+1, []string{"file", "new", "disk.img", "meta.db", "passwd"}[g.N(5)], "below the link")
					addLink(recs, p.owner, ino, ino+2, "l", t)
					ino += 2
				}
			}
		case 2: // file
			addFile(recs, p.owner, p.dir, ino, name, "hostile contents")
		case 3: // directory
			addEntry(recs, p.owner, p.dir, dirItemT{loc: Key{ino, tInode, 0}, ft: ftDir, name: name})
			addFile(recs, p.owner, ino, ino+1, "file", "below")
			addFile(recs, p.owner, ino, ino+2, hostileNames[g.N(len(hostileNames))], "below, too")
			places = append(places, place{owner: p.owner, dir: ino})
			ino += 2
		case 4: // something that is already there: cycles
			q := places[g.N(len(places))]
			loc := Key{q.dir, tInode, 0}
			if q.dir == 256 && g.Chance(1, 2) {
				loc = Key{q.owner, tRoot, ^uint64(0)}
			}
			addEntry(recs, p.owner, p.dir, dirItemT{loc: loc, ft: ftDir, name: name})
		case 5: // of any type
			loc := Key{uint64(256 + g.N(20)), uint8(g.Pick(1, tRoot, 84, 0, 255)), 0}
			addEntry(recs, p.owner, p.dir, dirItemT{loc: loc, ft: uint8(g.Pick(ftReg, ftDir, ftLnk, 0, 8, 9, 200, ftFifo)), name: name})
		}
	}
}

// vast makes the addresses as large as those of real file systems: logical ones
// far up, chunks and offsets beyond 32 bits, and a device to match. It has to be
// called when nothing reads the whole device any more.
func (c *Ctx) vast(g simrt.Gen, w *World, recs map[Rec][]byte) {
	c.Count("vast_world")
	l := sortedRecs(recs)
	if d := []uint64{0, 1 << 32, 5<<30 + 65536, 1 << 40, 1<<62 + 1<<20}[g.N(5)]; d != 0 {
		for _, r := range l {
			v := append([]byte{}, itemData(recs[r])...)
			switch {
			case r.Owner == oChunk && r.Key.Type == tChunk && r.Key.Obj == 256:
				delete(recs, r)
				r.Key.Off += d
				setData(recs, r, v)
			case r.Key.Type == tExtent && len(v) >= 53 && v[20] != 0 && le.Uint64(v[21:]) != 0:
				le.PutUint64(v[21:], le.Uint64(v[21:])+d)
				setData(recs, r, v)
			}
		}
	}
	// A chunk behind all others, and behind the end of the device so far.
	logical, phys := uint64(1<<20), uint64(roundUp(w.img.Size, 65536))
	for r, v := range recs {
		if d := itemData(v); r.Owner == oChunk && r.Key.Type == tChunk && r.Key.Obj == 256 && len(d) >= 8 {
			if e := r.Key.Off + le.Uint64(d); e > logical && e >= r.Key.Off {
				logical = e
			}
		}
	}
	logical += uint64(g.N(3)) << 20
	n := []uint64{1 << 32, 1<<32 + 65536, 5 << 30, 1 << 31, 1<<31 + 65536, 1<<33 - 65536, 1 << 36}[g.N(7)]
	if g.Chance(1, 2) {
		phys = []uint64{1<<32 - 65536, 1 << 32, 1<<31 - 65536, 1<<40 + 65536}[g.N(4)]
	}
	w.img.SetSize(int64(phys + n))
	setData(recs, Rec{oChunk, Key{256, tChunk, logical}, 6}, chunkBytes(n, 1, []stripeT{{1, phys}}))
	m := NewModel(recs, nil)
	ns, _ := m.Walk()
	places := []dirKey{{oFS, 256}}
	for _, x := range ns {
		if x.FT == ftDir {
			places = append(places, dirKey{x.Owner, x.Ino})
		}
	}
	for i := 1 + g.N(3); i > 0; i-- {
		p := places[g.N(len(places))]
		ino := uint64(1<<33) + uint64(i)
		off, end := []uint64{0, 0, 1<<31 - 4096, 1 << 32, 1<<32 - 4096, 1 << 40, 1 << 42}[g.N(7)], uint64(0)
		for k := 1 + g.N(3); k > 0; k-- {
			b := make([]byte, 4096*(1+g.N(16)))
			simrt.FillBytes(b, uint64(g.N(1<<30)))
			size := uint64(len(b))
			var at uint64 // in the chunk
			switch g.N(6) {
			case 0:
				at = n - size
			case 1:
				at = 1<<31 - size/8192*4096
			case 2:
				if at = 1<<32 - size/8192*4096; at > n-size {
					at = n - size
				}
			case 3:
				at = n / 2 / 4096 * 4096
			case 4:
				at = 0
			default:
				at = uint64(g.N(1<<18)) << 12 * (n >> 30)
				if at > n-size {
					at = 4096
				}
			}
			if at > n-size {
				at = n - size
			}
			if !w.img.Holds(int64(phys + at)) { // do not overwrite other data
				w.img.Poke(b, int64(phys+at))
			}
			skip := uint64(0)
			if g.Chance(1, 3) {
				if skip = 4096 * uint64(g.N(1<<15)); skip > at {
					skip = at
				}
			}
			e := regExtent(6, skip+size, 1, logical+at-skip, skip+size, skip, size)
			setData(recs, Rec{p.owner, Key{ino, tExtent, off}, 6}, e)
			end = off + size
			off = end
			switch g.N(4) {
			case 0: // an explicit hole
				h := uint64([]int{4096, 1 << 20, 1 << 31, 1<<32 + 4096}[g.N(4)])
				setData(recs, Rec{p.owner, Key{ino, tExtent, off}, 6}, regExtent(6, h, 1, 0, 0, 0, h))
				off += h
				end = off
			case 1:
				off += uint64([]int{4096, 1<<31 - 4096, 1 << 32, 1 << 33}[g.N(4)])
			}
		}
		switch g.N(4) {
		case 0:
			end -= uint64(1 + g.N(4095))
		case 1:
			end += uint64([]int{1, 1 << 31, 1 << 32, 1 << 34}[g.N(4)])
		}
		it := inodeT{mode: 0100644, nlink: 1, size: end}
		setData(recs, Rec{p.owner, Key{ino, tInode, 0}, 6}, it.bytes())
		addEntry(recs, p.owner, p.ino, dirItemT{loc: Key{ino, tInode, 0}, ft: ftReg, name: "vast" + string(rune('0'+i))})
	}
	c.rewrite(w, dbPath, recs)
}

// wide gives some inodes numbers that do not fit in 32 bits, preferably ones
// that differ from others in their upper half only.
func wide(g simrt.Gen, recs map[Rec][]byte) {
	l := sortedRecs(recs)
	byOwner := map[uint64][]uint64{}
	dirs := map[dirKey]bool{}
	var owners []uint64
	for _, r := range l {
		if r.Key.Type != tInode || r.Key.Obj < 256 || r.Key.Obj > 1<<31 {
			continue
		}
		o := byOwner[r.Owner]
		if o == nil {
			owners = append(owners, r.Owner)
		}
		if len(o) == 0 || o[len(o)-1] != r.Key.Obj {
			byOwner[r.Owner] = append(o, r.Key.Obj)
		}
		if it, ok := parseInode(itemData(recs[r])); ok && it.mode&0170000 == 0040000 {
			dirs[dirKey{r.Owner, r.Key.Obj}] = true
		}
	}
	if len(owners) == 0 {
		return
	}
	used := map[uint64]bool{}
	for i := 1 + g.N(4); i > 0; i-- {
		o := owners[g.N(len(owners))]
		inos := byOwner[o]
		if g.Chance(1, 2) { // two directories
			var d []uint64
			for _, n := range inos {
				if dirs[dirKey{o, n}] {
					d = append(d, n)
				}
			}
			inos = d
		}
		if len(inos) == 0 {
			continue
		}
		old, like := inos[g.N(len(inos))], inos[g.N(len(inos))]
		n := like + uint64(1+g.N(3))<<32
		switch g.N(6) {
		case 0:
			n = like + 1<<63
		case 1:
			n = ^uint64(0) - 256 - uint64(g.N(3))
		}
		if old == 256 || used[n] {
			continue
		}
		used[n] = true
		renumber(recs, o, old, n)
	}
}

// renumber changes the number of an inode.
func renumber(recs map[Rec][]byte, owner, old, ino uint64) {
	for _, r := range sortedRecs(recs) {
		if r.Owner != owner {
			continue
		}
		v := append([]byte{}, itemData(recs[r])...)
		if r.Key.Type == tDirItem || r.Key.Type == tDirIndex {
			at := 0
			for _, d := range parseDirItems(v) {
				if d.loc.Type == tInode && d.loc.Obj == old {
					le.PutUint64(v[at:], ino)
					setData(recs, r, v)
				}
				at += len(d.raw)
			}
		}
		if r.Key.Obj == old {
			delete(recs, r)
			r.Key.Obj = ino
			setData(recs, r, v)
		}
	}
}

// bigLinks moves the targets of some symbolic links out of their items.
func (c *Ctx) bigLinks(g simrt.Gen, w *World, recs map[Rec][]byte) (links [][2]int64) {
	m := NewModel(recs, nil)
	ns, _ := m.Walk()
	logical := uint64(1 << 20)
	for _, x := range m.chunk {
		if e := x.logical + x.length; e > logical {
			logical = e
		}
	}
	if logical >= 1<<63 {
		return nil
	}
	phys := uint64(roundUp(w.img.Size, 65536))
	n := uint64(0)
	for _, x := range ns {
		t, ok := m.Target(x.Owner, x.Ino)
		if x.FT != ftLnk || !ok || g.Chance(1, 3) {
			continue
		}
		if g.Chance(1, 4) {
			t = strings.Repeat(t+"/", 1+g.N(200))
		}
		if len(t) == 0 || len(t) > 4000 {
			continue
		}
		_, gen, _ := m.get(x.Owner, tExtent, x.Ino, 0)
		size := roundUp(int64(len(t)), 4096)
		skip := int64(4096 * g.N(3))
		w.img.SetSize(int64(phys+n) + skip + size)
		w.img.Poke([]byte(t), int64(phys+n)+skip)
		links = append(links, [2]int64{int64(phys+n) + skip, int64(phys+n) + skip + int64(len(t))})
		setData(recs, Rec{x.Owner, Key{x.Ino, tExtent, 0}, gen}, regExtent(gen, uint64(skip+size), 1, logical+n, uint64(skip+size), uint64(skip), uint64(size)))
		it, ok := m.Inode(x.Owner, x.Ino)
		if ok {
			_, gen, _ = m.get(x.Owner, tInode, x.Ino, 0)
			it.size = uint64(len(t))
			setData(recs, Rec{x.Owner, Key{x.Ino, tInode, 0}, gen}, it.bytes())
		}
		n += uint64(skip + size)
	}
	if n > 0 {
		n += uint64(g.N(3)) * 65536
		w.img.SetSize(int64(phys + n))
		setData(recs, Rec{oChunk, Key{256, tChunk, logical}, 6}, chunkBytes(n, 1, []stripeT{{1, phys}}))
		c.Count("links_in_regular_extents")
	}
	return links
}

// attrs gives inodes attributes from the whole range of each. Types stay, and
// so do the sizes of files and links unless sizes is set.
func attrs(g simrt.Gen, recs map[Rec][]byte, sizes bool) {
	stamp := func() (int64, uint32) {
		var t int64
		switch g.N(6) {
		case 0:
			t = int64(g.N(1 << 30))
		case 1:
			t = 1<<31 + int64(g.N(1<<30)) // beyond 2038
		case 2:
			t = 1<<32 + int64(g.N(1<<30)) // beyond 2106
		case 3:
			t = -1 - int64(g.N(1<<30)) // before 1970
		case 4:
			t = int64(g.N(3)) - 1
		default:
			t = int64(g.U64()>>(20+uint(g.N(20)))) - 1<<20
		}
		return t, uint32(g.Pick(0, 1, 999999999, g.N(1e9)))
	}
	id := func() uint32 {
		return uint32(g.Pick(0, 1, 1000, 65535, 65536, 1<<31-1)) + uint32(g.Pick(0, 0, 1))<<31
	}
	every := g.Chance(1, 2)
	for _, r := range sortedRecs(recs) {
		if r.Key.Type != tInode || !every && !g.Chance(1, 4) {
			continue
		}
		v := append([]byte{}, itemData(recs[r])...)
		it, ok := parseInode(v)
		if !ok {
			continue
		}
		if typ := it.mode & 0170000; sizes || typ != 0100000 && typ != 0120000 {
			it.size = g.U64() >> uint(1+g.N(63))
		}
		it.mode = it.mode&^07777 | uint32(g.N(07777+1))
		it.nlink, it.uid, it.gid = id(), id(), id()
		if t := it.mode & 0170000; t == 0020000 || t == 0060000 {
			it.rdev = uint64(g.N(1<<12))<<20 | uint64(g.N(1<<20))
		}
		it.atime, it.atimen = stamp()
		it.ctime, it.ctimen = stamp()
		it.mtime, it.mtin = stamp()
		setData(recs, r, it.bytes())
	}
}
