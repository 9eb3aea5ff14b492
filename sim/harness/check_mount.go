//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"syscall"

	simfuse "btrsim/shim/fuse"
	"btrsim/simrt"

	real "github.com/hanwen/go-fuse/v2/fuse"
)

// The kernel and its users, who know from the model what every request has to
// be answered with.

const (
	mRoot = iota // root of the mount
	mMeta        // the file "metadata"
	mTree        // something of the filesystem
)

type mnode struct {
	id         uint64
	kind       int
	owner, ino uint64
	ft         uint8
	name       string
	parent     *mnode
	children   int
	pins       int
	handles    int
}

func (n *mnode) String() string {
	if n.parent == nil {
		return "/"
	}
	return strings.TrimSuffix(n.parent.String(), "/") + "/" + n.name
}

type mhandle struct {
	n     *mnode
	fh    uint64
	users int
	gone  bool // about to be released
}

// mtree is what the kernel knows about a mount.
type mtree struct {
	c     *Ctx
	k     *simfuse.Conn
	m     *Model
	w     *World
	db    *simrt.Inode
	nodes []*mnode
	byID  map[uint64]*mnode
	open  []*mhandle
	what  string

	// What a request may fail with because of the source. Reads that need none
	// of it have to succeed.
	bad   func() [][2]int64
	hard  func() int // number of hard faults so far
	past  [][2]int64 // what was bad and has been healed
	reads int
	eio   int
	done  int // requests that were answered and checked

	// stop makes requests that fail with ENOTCONN fine.
	stopping bool
	corrupt  bool // metadata is not the way a filesystem would write it
}

func (c *Ctx) newTree(k *simfuse.Conn, m *Model, w *World, db *simrt.Inode) *mtree {
	t := &mtree{c: c, k: k, m: m, w: w, db: db, byID: map[uint64]*mnode{}, what: "mount"}
	r := &mnode{id: 1, kind: mRoot, ft: ftDir}
	t.nodes = append(t.nodes, r)
	t.byID[1] = r
	return t
}

func (t *mtree) fail(kind, format string, a ...interface{}) {
	t.c.Fail(kind, "%s: %s", t.what, fmt.Sprintf(format, a...))
}

// gone tells whether the mount went away, which is fine if it was asked to.
func (t *mtree) gone(st real.Status) bool {
	return t.stopping && (st == real.Status(syscall.ENOTCONN) || st == real.Status(syscall.ECONNABORTED))
}

var ftMode = map[uint8]uint32{ftReg: syscall.S_IFREG, ftDir: syscall.S_IFDIR, ftLnk: syscall.S_IFLNK, ftChr: syscall.S_IFCHR, ftBlk: syscall.S_IFBLK, ftFifo: syscall.S_IFIFO, ftSock: syscall.S_IFSOCK}

func typeOf(ft uint8) uint32 {
	if m, ok := ftMode[ft]; ok {
		return m
	}
	return syscall.S_IFREG
}

// dirNames lists what a directory has to have.
func (t *mtree) dirNames(n *mnode) map[string]dirItemT {
	l := map[string]dirItemT{}
	switch n.kind {
	case mRoot:
		l["rescue"] = dirItemT{loc: Key{256, tInode, 0}, ft: ftDir, name: "rescue"}
		l["metadata"] = dirItemT{ft: ftReg, name: "metadata"}
	case mTree:
		if n.ft != ftDir {
			return l
		}
		for _, d := range t.m.Entries(n.owner, n.ino) {
			if validName(d.name) {
				l[d.name] = d
			}
		}
	}
	return l
}

// ambiguous tells whether a directory has several entries of one name.
func (t *mtree) ambiguous(n *mnode, name string) bool {
	k := 0
	if n.kind == mTree {
		for _, d := range t.m.Entries(n.owner, n.ino) {
			if d.name == name {
				k++
			}
		}
	}
	return k > 1
}

func (t *mtree) child(n *mnode, name string, d dirItemT) mnode {
	if n.kind == mRoot {
		if name == "metadata" {
			return mnode{kind: mMeta, ft: ftReg, name: name, parent: n}
		}
		return mnode{kind: mTree, owner: oFS, ino: 256, ft: ftDir, name: name, parent: n}
	}
	o, i := d.target(n.owner)
	return mnode{kind: mTree, owner: o, ino: i, ft: d.ft, name: name, parent: n}
}

// fileSize is what the size of a file is taken for.
func (t *mtree) fileSize(owner, ino uint64) uint64 {
	if it, ok := t.m.Inode(owner, ino); ok {
		return it.size
	}
	segs, _ := t.m.Segments(owner, ino)
	n := uint64(0)
	for _, s := range segs {
		if s.to > n {
			n = s.to
		}
	}
	return n
}

// checkAttr compares attributes.
func (t *mtree) checkAttr(n *mnode, a *real.Attr, how string) {
	t.c.Evals++
	switch n.kind {
	case mRoot:
		if a.Mode&syscall.S_IFMT != syscall.S_IFDIR {
			t.fail("attr", "%s of the root: mode %o", how, a.Mode)
		}
		return
	case mMeta:
		if a.Mode&syscall.S_IFMT != syscall.S_IFREG || a.Mode&0222 != 0 || a.Size != uint64(t.db.Size) {
			t.fail("attr", "%s of metadata: mode %o size %d, the file has %d", how, a.Mode, a.Size, t.db.Size)
		}
		return
	}
	it, ok := t.m.Inode(n.owner, n.ino)
	if !ok {
		if a.Mode&syscall.S_IFMT != typeOf(n.ft) {
			t.fail("attr", "%s of %s, which has no inode: mode %o, its entry has type %d", how, n, a.Mode, n.ft)
		}
		if n.ft == ftReg && a.Size != t.fileSize(n.owner, n.ino) {
			t.fail("attr", "%s of %s, which has no inode: size %d, its extents have %d", how, n, a.Size, t.fileSize(n.owner, n.ino))
		}
		return
	}
	if it.nlink == 0 && a.Nlink == 1 {
		it.nlink = 1 // as the library has it
	}
	got := fmt.Sprint(a.Mode, a.Size, a.Nlink, a.Uid, a.Gid, a.Rdev, int64(a.Atime), int64(a.Mtime), int64(a.Ctime), a.Atimensec, a.Mtimensec, a.Ctimensec)
	want := fmt.Sprint(it.mode, it.size, it.nlink, it.uid, it.gid, uint32(it.rdev), it.atime, it.mtime, it.ctime, it.atimen, it.mtin, it.ctimen)
	if got != want {
		t.fail("attr", "%s of %s: got %s, the inode has %s (mode size nlink uid gid rdev times nsecs)", how, n, got, want)
	}
}

// learn notes that the kernel has got to know a node.
func (t *mtree) learn(want mnode, id uint64) *mnode {
	if n := t.byID[id]; n != nil {
		if n.kind != want.kind || n.owner != want.owner || n.ino != want.ino {
			t.fail("node", "node %d stands for %s and for %s", id, n, &want)
		}
		return n
	}
	n := &want
	n.id = id
	t.nodes = append(t.nodes, n)
	t.byID[id] = n
	n.parent.children++
	return n
}

func (t *mtree) lookup(n *mnode, name string) *mnode {
	n.pins++
	defer func() { n.pins-- }()
	e, st := t.k.Lookup(n.id, name)
	if t.gone(st) {
		return nil
	}
	t.c.Evals++
	t.done++
	d, ok := t.dirNames(n)[name]
	if !ok {
		if st != real.ENOENT {
			t.fail("lookup", "lookup of %q in %s, which does not have it: %v", name, n, st)
		}
		return nil
	}
	if st != real.OK {
		t.fail("lookup", "lookup of %q in %s: %v", name, n, st)
	}
	if t.ambiguous(n, name) {
		t.k.Forget(e.NodeId)
		return nil
	}
	want := t.child(n, name, d)
	t.checkAttr(&want, &e.Attr, "lookup")
	return t.learn(want, e.NodeId)
}

func (t *mtree) forget(n *mnode) {
	if n.id == 1 || n.pins > 0 || n.children > 0 || n.handles > 0 {
		return
	}
	delete(t.byID, n.id)
	for i, x := range t.nodes {
		if x == n {
			t.nodes = append(t.nodes[:i], t.nodes[i+1:]...)
			break
		}
	}
	n.parent.children--
	t.k.Forget(n.id)
	t.done++
}

func (t *mtree) getattr(n *mnode) {
	a, st := t.k.GetAttr(n.id)
	if t.gone(st) {
		return
	}
	if st != real.OK {
		t.fail("attr", "attributes of %s: %v", n, st)
	}
	t.done++
	t.checkAttr(n, &a.Attr, "getattr")
}

// checkDirents compares a complete directory stream.
func (t *mtree) checkDirents(n *mnode, l []simfuse.Dirent) {
	t.c.Evals++
	want := t.dirNames(n)
	seen := map[string]bool{}
	for _, d := range l {
		if seen[d.Name] {
			t.fail("readdir", "%s lists %q twice", n, d.Name)
		}
		seen[d.Name] = true
		if d.Name == "." || d.Name == ".." {
			continue
		}
		e, ok := want[d.Name]
		if !ok {
			t.fail("readdir", "%s lists %q, which it does not have", n, d.Name)
		}
		if d.Type != typeOf(e.ft)>>12 && !t.ambiguous(n, d.Name) {
			t.fail("readdir", "%s lists %q with type %d, its entry has %d", n, d.Name, d.Type, e.ft)
		}
	}
	for name := range want {
		if !seen[name] {
			t.fail("readdir", "%s does not list %q", n, name)
		}
	}
}

// list reads a directory in buffers of random sizes, seeking back at times.
func (t *mtree) list(n *mnode, g simrt.Gen) {
	n.pins++
	defer func() { n.pins-- }()
	fh, st := t.k.OpenDir(n.id)
	if t.gone(st) {
		return
	}
	if st != real.OK {
		t.fail("opendir", "opening directory %s: %v", n, st)
	}
	n.handles++
	defer func() { t.k.ReleaseDir(n.id, fh); n.handles-- }()
	var all []simfuse.Dirent
	off := uint64(0)
	plus := g.Chance(1, 3)
	back := g.N(3)
	for {
		size := g.Pick(4096, 500+g.N(500), 500)
		var l []simfuse.Dirent
		if plus || g.Chance(1, 8) {
			l, st = t.k.ReadDirPlus(n.id, fh, off, size)
		} else {
			l, st = t.k.ReadDir(n.id, fh, off, size)
		}
		if t.gone(st) {
			return
		}
		if st != real.OK {
			t.fail("readdir", "reading directory %s at %d: %v", n, off, st)
		}
		for _, d := range l {
			if d.Entry == nil || d.Name == "." || d.Name == ".." {
				continue
			}
			e, ok := t.dirNames(n)[d.Name]
			if !ok {
				t.fail("readdir", "%s lists %q, which it does not have", n, d.Name)
			}
			if t.ambiguous(n, d.Name) {
				t.k.Forget(d.Entry.NodeId)
				continue
			}
			want := t.child(n, d.Name, e)
			t.checkAttr(&want, &d.Entry.Attr, "readdirplus")
			t.learn(want, d.Entry.NodeId)
		}
		t.done++
		if len(l) == 0 {
			break
		}
		all = append(all, l...)
		off = l[len(l)-1].Off
		if back > 0 && len(all) > 1 && g.Chance(1, 4) {
			// What is behind an offset stays the same.
			back--
			i := g.N(len(all) - 1)
			all = all[:i+1]
			off = all[i].Off
		}
	}
	t.checkDirents(n, all)
}

func (t *mtree) openFile(n *mnode, flags uint32) *mhandle {
	n.pins++
	defer func() { n.pins-- }()
	fh, st := t.k.Open(n.id, flags)
	if t.gone(st) {
		return nil
	}
	t.c.Evals++
	t.done++
	write := flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_TRUNC|syscall.O_APPEND) != 0
	if st != real.OK {
		if write {
			return nil
		}
		if n.kind == mTree {
			_, ok := t.m.Inode(n.owner, n.ino)
			segs, dam := t.m.Segments(n.owner, n.ino)
			if !ok && len(segs) == 0 {
				return nil // nothing is known about it
			}
			if len(dam) > 0 {
				return nil
			}
		}
		t.fail("open", "opening %s: %v", n, st)
		return nil
	}
	n.handles++
	h := &mhandle{n: n, fh: fh}
	t.open = append(t.open, h)
	return h
}

func (t *mtree) release(h *mhandle) {
	h.gone = true
	for i, x := range t.open {
		if x == h {
			t.open = append(t.open[:i], t.open[i+1:]...)
		}
	}
	t.k.Release(h.n.id, h.fh)
	h.n.handles--
	t.done++
}

// span is a range of a file and what it has to read as.
// may tells that it lies in a file about which not everything is known.
func (t *mtree) span(n *mnode, off, size uint64) (want []byte, bad, may bool, dev [][2]int64) {
	if n.kind == mMeta {
		b := t.db.ReadAll()
		if off >= uint64(len(b)) {
			return nil, false, false, nil
		}
		b = b[off:]
		if uint64(len(b)) > size {
			b = b[:size]
		}
		return b, false, false, nil
	}
	segs, dam := t.m.Segments(n.owner, n.ino)
	fs := t.fileSize(n.owner, n.ino)
	want, bad = t.m.content(segs, fs, off, size)
	// What a damaged extent item was for is not known, up to the next extent.
	for _, d := range dam {
		from, to := d.off, ^uint64(0)
		for _, s := range segs {
			if s.from <= from && from < s.to {
				if s.gen >= d.gen {
					to = from
				} else if s.to < to {
					to = s.to
				}
			} else if s.from > from && s.from < to {
				to = s.from
			}
		}
		if len(want) > 0 && from < off+uint64(len(want)) && to > off && from < to {
			bad = true
		}
		may = true
	}
	for _, s := range segs {
		a, b := s.from, s.to
		if a < off {
			a = off
		}
		if b > off+uint64(len(want)) {
			b = off + uint64(len(want))
		}
		if s.kind == sDev && a < b {
			dev = append(dev, [2]int64{int64(s.phys + a - s.from), int64(s.phys + b - s.from)})
		}
	}
	return
}

// read reads through a handle and checks the bytes.
func (t *mtree) read(h *mhandle, off uint64, size int) {
	t.c.Evals++
	n := h.n
	want, bad, excuse, dev := t.span(n, off, uint64(size))
	hard := 0
	if t.hard != nil {
		hard = t.hard()
	}
	if t.bad != nil {
		excuse = excuse || overlaps(dev, t.bad())
	}
	past := len(t.past)
	got, st := t.k.Read(n.id, h.fh, int64(off), size)
	if t.gone(st) {
		return
	}
	if t.hard != nil && t.hard() != hard && len(dev) > 0 {
		excuse = true
	}
	if t.bad != nil && overlaps(dev, append(t.bad(), t.past[past:]...)) {
		excuse = true
	}
	t.reads++
	t.done++
	if st != real.OK {
		t.eio++
		if len(got) > 0 {
			t.fail("read", "read of %s at %d: both data and %v", n, off, st)
		}
		if bad || excuse {
			return
		}
		t.fail("read", "read of %s at %d, %d bytes: %v although all of it is there", n, off, size, st)
	}
	if bad {
		t.fail("read", "read of %s at %d, %d bytes: %d bytes although some cannot be had", n, off, size, len(got))
	}
	if !bytes.Equal(got, want) {
		t.fail("bytes", "read of %s at %d, %d bytes: %s (%d bytes expected, file size %d)", n, off, size, diffBytes(got, want), len(want), t.fileSize(n.owner, n.ino))
	}
}

func diffBytes(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("got %d bytes", len(a))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("wrong from byte %d on (%#x, not %#x)", i, a[i], b[i])
		}
	}
	return "same"
}

// someRange picks a range with a preference for where something changes.
func (t *mtree) someRange(n *mnode, g simrt.Gen) (uint64, int) {
	size := uint64(t.db.Size)
	var marks []uint64
	if n.kind == mTree {
		size = t.fileSize(n.owner, n.ino)
		segs, _ := t.m.Segments(n.owner, n.ino)
		for _, s := range segs {
			marks = append(marks, s.from, s.to)
		}
	}
	marks = append(marks, 0, size)
	at := marks[g.N(len(marks))]
	if g.Chance(1, 3) && size > 0 {
		at = g.U64() % (size + 1)
	}
	at += uint64(g.Pick(0, 0, 1, 7, 511, 4096))
	if d := uint64(g.Pick(0, 0, 1, 9, 4095, 5000)); d <= at {
		at -= d
	}
	if g.Chance(1, 16) {
		at = uint64(g.Pick(1<<40, 1<<62, 1<<63-1, 1<<31))
	}
	return at, g.Pick(1, 2, 100, 511, 512, 4096, 4097, 10000, 65536, 131072)
}

func (t *mtree) readlink(n *mnode) {
	got, st := t.k.Readlink(n.id)
	if t.gone(st) {
		return
	}
	t.c.Evals++
	t.done++
	want, ok := "", false
	if n.kind == mTree {
		want, ok = t.m.Target(n.owner, n.ino)
	}
	if !ok {
		if st == real.OK && n.ft == ftLnk && len(got) > 0 {
			t.fail("readlink", "target of %s: %q, which is nowhere to be found", n, got)
		}
		return
	}
	if n.ft != ftLnk {
		return
	}
	if st != real.OK || string(got) != want {
		t.fail("readlink", "target of %s: %v %q, not %q", n, st, got, want)
	}
}

func (t *mtree) xattrs(n *mnode, g simrt.Gen) {
	var have map[string][]byte
	if n.kind == mTree {
		have = t.m.Xattrs(n.owner, n.ino)
	}
	names := make([]string, 0, len(have))
	total := 0
	for k := range have {
		names = append(names, k)
		total += len(k) + 1
	}
	sort.Strings(names)
	t.c.Evals++
	if n.kind == mTree && g.Chance(1, 2) {
		size := g.Pick(0, 65536, total, total-1, 1)
		if size < 0 {
			size = 0
		}
		b, num, st := t.k.ListXAttr(n.id, size)
		if t.gone(st) {
			return
		}
		t.done++
		if size == 0 {
			if st != real.OK || int(num) != total {
				t.fail("listxattr", "length of attribute names of %s: %v, %d, not %d", n, st, num, total)
			}
			return
		}
		if size < total {
			if st != real.ERANGE {
				t.fail("listxattr", "attribute names of %s in %d bytes: %v, they need %d", n, size, st, total)
			}
			return
		}
		got := strings.Split(strings.TrimSuffix(string(b), "\x00"), "\x00")
		if len(b) == 0 {
			got = nil
		}
		sort.Strings(got)
		if st != real.OK || strings.Join(got, "\x00") != strings.Join(names, "\x00") {
			t.fail("listxattr", "attribute names of %s: %v %q, not %q", n, st, got, names)
		}
		return
	}
	name := "user.none"
	if len(names) > 0 && g.Chance(7, 8) {
		name = names[g.N(len(names))]
	}
	want, ok := have[name]
	size := g.Pick(0, 65536, len(want), len(want)-1)
	if size < 0 {
		size = 0
	}
	b, num, st := t.k.GetXAttr(n.id, name, size)
	if t.gone(st) {
		return
	}
	t.done++
	switch {
	case !ok:
		if st == real.OK {
			t.fail("getxattr", "attribute %q of %s, which does not have it: %q", name, n, b)
		}
	case size == 0:
		if st != real.OK || int(num) != len(want) {
			t.fail("getxattr", "length of attribute %q of %s: %v, %d, not %d", name, n, st, num, len(want))
		}
	case size < len(want):
		if st != real.ERANGE {
			t.fail("getxattr", "attribute %q of %s in %d bytes: %v, it has %d", name, n, size, st, len(want))
		}
	default:
		if st != real.OK || !bytes.Equal(b, want) {
			t.fail("getxattr", "attribute %q of %s: %v %q, not %q", name, n, st, b, want)
		}
	}
}

func (t *mtree) modify(n *mnode, g simrt.Gen, h *mhandle) {
	name := "new"
	for k := range t.sortedNames(n) {
		if name = t.sortedNames(n)[k]; g.Chance(1, 2) {
			break
		}
	}
	t.c.Evals++
	if h != nil && g.Chance(1, 2) {
		k, st := t.k.Write(h.n.id, h.fh, int64(g.N(5000)), []byte("overwritten"))
		if st == real.OK || k > 0 && !t.gone(st) {
			t.fail("modified", "writing to %s: %v, %d bytes", h.n, st, k)
		}
		return
	}
	op := []string{"MKDIR", "MKNOD", "UNLINK", "RMDIR", "SYMLINK", "RENAME", "CREATE", "SETXATTR", "REMOVEXATTR", "TRUNCATE", "CHMOD"}[g.N(11)]
	st := t.k.Modify(op, n.id, name)
	t.done++
	if st == real.OK {
		t.fail("modified", "%s %q in %s is accepted", op, name, n)
	}
}

func (t *mtree) sortedNames(n *mnode) []string {
	var l []string
	for k := range t.dirNames(n) {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// pick takes a node of some kind.
func (t *mtree) pick(g simrt.Gen, ok func(n *mnode) bool) *mnode {
	var l []*mnode
	for _, n := range t.nodes {
		if ok == nil || ok(n) {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return nil
	}
	// Prefer new ones, to get deeper.
	if g.Chance(1, 2) {
		k := 1 + len(l)/4
		return l[len(l)-1-g.N(k)]
	}
	return l[g.N(len(l))]
}

func (n *mnode) isDir() bool { return n.ft == ftDir }
func (n *mnode) isFile() bool {
	return n.kind == mMeta || n.kind == mTree && (n.ft == ftReg || ftMode[n.ft] == 0)
}

// client sends random requests.
func (t *mtree) client(g simrt.Gen, steps int, change bool) {
	for i := 0; i < steps && (t.k.Alive() || !t.stopping); i++ {
		switch g.N(16) {
		case 0, 1, 2, 3:
			if n := t.pick(g, (*mnode).isDir); n != nil {
				name := []string{"rescue", "metadata", ".", "..", "nope", ""}[g.N(6)]
				if l := t.sortedNames(n); len(l) > 0 && g.Chance(15, 16) {
					name = l[g.N(len(l))]
				}
				if name != "" && name != "." && name != ".." { // the kernel does these
					t.lookup(n, name)
				}
			}
		case 4, 5:
			if n := t.pick(g, (*mnode).isDir); n != nil {
				t.list(n, g)
			}
		case 6:
			if n := t.pick(g, nil); n != nil {
				n.pins++
				t.getattr(n)
				n.pins--
			}
		case 7, 8:
			if n := t.pick(g, (*mnode).isFile); n != nil {
				fl := uint32(0)
				if change && g.Chance(1, 4) {
					fl = uint32(g.Pick(syscall.O_WRONLY, syscall.O_RDWR, syscall.O_TRUNC, syscall.O_RDWR|syscall.O_APPEND))
				}
				t.openFile(n, fl)
			}
		case 9, 10, 11:
			var h *mhandle
			if len(t.open) > 0 {
				h = t.open[g.N(len(t.open))]
			}
			if h != nil && !h.gone {
				h.users++
				if g.Chance(3, 4) { // sequentially, too
					off, size := t.someRange(h.n, g)
					for k := 1 + g.N(3); k > 0; k-- {
						t.read(h, off, size)
						off += uint64(size)
						if off >= 1<<63 {
							break
						}
					}
				} else if a, st := t.k.FGetAttr(h.n.id, h.fh); st == real.OK {
					t.checkAttr(h.n, &a.Attr, "getattr of an open file")
				} else if !t.gone(st) {
					t.fail("attr", "attributes of open %s: %v", h.n, st)
				}
				h.users--
			}
		case 12:
			if n := t.pick(g, func(n *mnode) bool { return n.ft == ftLnk }); n != nil {
				n.pins++
				t.readlink(n)
				n.pins--
			}
		case 13:
			if n := t.pick(g, func(n *mnode) bool { return n.kind == mTree }); n != nil {
				n.pins++
				t.xattrs(n, g)
				n.pins--
			}
		case 14:
			if n := t.pick(g, nil); n != nil {
				if g.Chance(1, 2) && change {
					var h *mhandle
					if len(t.open) > 0 {
						h = t.open[g.N(len(t.open))]
					}
					n.pins++
					if h == nil {
						t.modify(n, g, h)
					} else if !h.gone {
						h.users++
						t.modify(n, g, h)
						h.users--
					}
					n.pins--
				} else {
					t.forget(n)
				}
			}
		case 15:
			if len(t.open) > 3 || g.Chance(1, 3) && len(t.open) > 0 {
				h := t.open[g.N(len(t.open))]
				if h.users == 0 && !h.gone {
					t.release(h)
				}
			} else if n := t.pick(g, nil); n != nil {
				n.pins++
				if st := t.k.Access(n.id, uint32(g.N(8))); st != real.OK && st != real.ENOSYS && st != real.EACCES && st != real.EROFS && !t.gone(st) {
					t.fail("access", "access to %s: %v", n, st)
				}
				n.pins--
			}
		}
	}
}

// closeAll releases every handle, as the end of a client does.
func (t *mtree) closeAll() {
	for len(t.open) > 0 {
		h := t.open[0]
		if h.users > 0 {
			simrt.Block("busy handle", func() bool { return h.users == 0 || h.gone })
			continue
		}
		t.release(h)
	}
}

// walk visits everything there is: every name, attribute, byte, target.
func (t *mtree) walk(n *mnode, g simrt.Gen, left *int, depth int) {
	if *left--; *left < 0 || depth > 12 {
		return
	}
	t.getattr(n)
	switch {
	case n.isDir():
		if depth == 0 || g.Chance(1, 2) {
			t.list(n, g)
		}
		for _, name := range t.sortedNames(n) {
			if ch := t.lookup(n, name); ch != nil {
				ch.pins++
				t.walk(ch, g, left, depth+1)
				ch.pins--
			}
		}
	case n.ft == ftLnk:
		t.readlink(n)
	case n.isFile():
		h := t.openFile(n, 0)
		if h == nil {
			return
		}
		h.users++
		size := g.Pick(131072, 65536, 4096, 10000)
		fs := uint64(t.db.Size)
		if n.kind == mTree {
			fs = t.fileSize(n.owner, n.ino)
		}
		for off, i := uint64(0), 0; i < 40; i++ {
			t.read(h, off, size)
			if off += uint64(size); off > fs {
				break
			}
		}
		if h.users--; h.users == 0 && !h.gone {
			t.release(h)
		}
	}
	if n.kind == mTree && g.Chance(1, 3) {
		t.xattrs(n, g)
	}
}

// mounted starts a mount that has to come up.
func (c *Ctx) mounted(w *World, slot int, dev string) (*simrt.Proc, *simfuse.Conn) {
	p, k := c.startMount(w, slot, dbPath, dev, "/mnt")
	if k == nil || p.Exited {
		c.Fail("mount", "%s, %s, stderr %q", p.Outcome(), c.S.Blocked(p), tail(p.Stderr.String()))
	}
	return p, k
}

// finished fails unless all clients came to an end.
func (c *Ctx) finished(p *simrt.Proc, done []bool, what string) {
	c.Settle()
	for i, d := range done {
		if !d {
			c.Fail("hang", "%s: client %d gets no answer; %s", what, i, c.S.Blocked(p))
		}
	}
}

// stopMount ends a mount and checks that it ends well.
func (c *Ctx) stopMount(p *simrt.Proc, sig int) {
	p.Signal(sig)
	c.S.Run()
	c.MustSucceed(p, "unmounting")
	if c.S.Fuse.At("/mnt") != nil {
		c.Fail("mount", "still mounted after the end of mount")
	}
}

// mountWorld is a world with metadata and a model of it.
func (c *Ctx) mountWorld(g simrt.Gen, s *simrt.Sim, o WorldOpt) (*World, *Model) {
	o.Orphans, o.Special = true, true
	if o.BS == 0 {
		o.BS = g.Pick(4096, 4096, 16384, 0)
	}
	w := c.treeWorld(s, o)
	if g.Chance(1, 3) {
		w.lose(g, nil)
	}
	recs := c.gather(w, dbPath)
	if g.Chance(1, 4) {
		wide(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	if g.Chance(1, 4) {
		attrs(g, recs, false)
		c.rewrite(w, dbPath, recs)
	}
	if o.Thin && g.Chance(1, 4) {
		thin(g, recs)
		c.rewrite(w, dbPath, recs)
		c.Count("thin_metadata")
	}
	if o.Vast && g.Chance(1, 6) {
		c.vast(g, w, recs)
	}
	return w, NewModel(recs, w.img)
}

func runC15(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c15")
	w, m := c.mountWorld(g, s, WorldOpt{Xattrs: true, Compress: g.Chance(1, 4), BigFiles: g.Chance(1, 4), Vast: true})
	dev := imgPath
	if g.Chance(1, 8) {
		dev, m.img = "", nil
	}
	if g.Chance(1, 3) {
		c.okFaults("image")
	}
	db := s.FS.Lookup(dbPath)
	hash := db.Hash()
	p, k := c.mounted(w, 0, dev)
	t := c.newTree(k, m, w, db)
	done := make([]bool, 1)
	mode := g.N(3)
	c.Go("client", func() {
		if mode != 0 {
			left := 60 + g.N(60)
			t.walk(t.nodes[0], g, &left, 0)
		}
		if mode != 1 {
			t.client(g, 20+g.N(80), true)
		}
		if mode == 0 { // nothing was modified
			left := 30
			t.walk(t.nodes[0], g, &left, 0)
		}
		t.closeAll()
		done[0] = true
	})
	s.Run()
	c.Settle()
	if p.Exited {
		c.Fail("exited", "mount ended while serving: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
	}
	c.finished(p, done, "one client")
	s.Faults = nil
	c.stopMount(p, g.Pick(2, 15))
	if db.Hash() != hash {
		c.Fail("modified", "the metadata file changed")
	}
	c.Nontriv = t.reads > 0 && len(t.nodes) > 4
	s.Mark(mode, dev == "", bucket(len(t.nodes)), bucket(t.reads))
}

// races fails if two requests touched the tool's own data without
// synchronisation. bbolt counts its statistics that way.
func (c *Ctx) races() {
	for _, r := range c.S.Races {
		if benignRace(r) {
			continue
		}
		c.Fail("race", "%s", r)
	}
}

func benignRace(r string) bool {
	own := false
	for _, f := range strings.Split(strings.NewReplacer(" in ", "\x00", " races ", "\x00").Replace(r), "\x00") {
		for _, p := range []string{"cmd", "internal/", "pkg/"} {
			own = own || strings.HasPrefix(f, p)
		}
	}
	return !own
}

func runC16(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c16")
	w, m := c.mountWorld(g, s, WorldOpt{Xattrs: g.Chance(1, 2), Ops: 3 + g.N(8), NoSubs: g.Chance(1, 3)})
	dev := imgPath
	if g.Chance(1, 12) {
		dev, m.img = "", nil
	}
	if g.Chance(1, 4) {
		c.okFaults("image")
	}
	s.RaceTrack = true
	p, k := c.mounted(w, 0, dev)
	t := c.newTree(k, m, w, s.FS.Lookup(dbPath))
	if g.Chance(1, 3) { // some of it is known already
		c.Go("before", func() { t.client(c.Gen("before"), 15, false) })
		s.Run()
		c.Settle()
	}
	s.ChooseSched()
	if g.Chance(1, 4) {
		s.Latency = int64(g.Pick(1e6, 20e3))
	}
	n := 2 + g.N(4)
	mode := g.N(4)
	done := make([]bool, n)
	for i := 0; i < n; i++ {
		i := i
		c.Go("client"+u(i), func() {
			g := c.Gen("client" + u(i))
			switch {
			case mode == 0 || mode == 1 && i%2 == 0: // all in the same order
				left := 25
				t.walk(t.nodes[0], g, &left, 0)
			case mode == 2 && t.pick(g, (*mnode).isFile) != nil: // everyone reads
				for j := 0; j < 4; j++ {
					if n := t.pick(g, (*mnode).isFile); n != nil {
						t.openFile(n, 0)
					}
					if len(t.open) > 0 {
						if h := t.open[g.N(len(t.open))]; !h.gone {
							h.users++
							off, size := t.someRange(h.n, g)
							t.read(h, off, size)
							h.users--
						}
					}
				}
			default:
				t.client(g, 6+g.N(20), g.Chance(1, 4))
			}
			done[i] = true
		})
	}
	s.Run()
	c.Settle()
	if p.Exited {
		c.Fail("exited", "mount ended while serving %d clients: %s; stderr %q", n, p.Outcome(), tail(p.Stderr.String()))
	}
	c.finished(p, done, u(n)+" clients")
	c.races()
	c.Go("end", t.closeAll)
	s.Run()
	c.Settle()
	s.Faults = nil
	c.stopMount(p, 15)
	c.races()
	c.Nontriv = k.Overlaps > 0
	s.Mark(mode, n, bucket(k.Overlaps), bucket(t.done))
}

// runC17: the device fails while files are read.
func runC17(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c17")
	w, m := c.mountWorld(g, s, WorldOpt{BigFiles: g.Chance(1, 3), Compress: g.Chance(1, 4), NoSubs: g.Chance(1, 2), Vast: true, Thin: true})
	orig := w.img.Clone()
	m.img = orig
	var files [][2]int64
	nodes, _ := m.Walk()
	for i := range nodes {
		if nodes[i].FT == ftReg {
			files = append(files, m.DevRanges(nodes[i].Owner, nodes[i].Ino)...)
		}
	}
	p, k := c.mounted(w, 0, imgPath)
	t := c.newTree(k, m, w, s.FS.Lookup(dbPath))
	size := w.img.Size
	t.bad = func() (l [][2]int64) {
		for _, b := range w.img.Bad {
			l = append(l, [2]int64{b.From, b.To})
		}
		if w.img.Size < size {
			l = append(l, [2]int64{w.img.Size, 1 << 62})
		}
		return
	}
	healed := 0
	t.hard = func() (n int) {
		n = healed
		for _, f := range s.Faults {
			if f.Err != 0 && f.Err != syscall.EINTR {
				n += f.Hits
			}
		}
		return
	}
	spoil := func(g simrt.Gen) {
		switch {
		case len(files) > 0 && g.Chance(2, 3):
			r := files[g.N(len(files))]
			a := (r[0] + int64(g.N(int(r[1]-r[0])))) / 512 * 512
			if g.Chance(1, 5) {
				if w.img.Size == size {
					w.img.SetSize(a)
					c.Count("truncated_device")
				}
				return
			}
			times := -1
			if g.Chance(1, 3) {
				times = 1 + g.N(2)
			}
			w.img.Bad = append(w.img.Bad, simrt.BadRange{From: a, To: a + 512*int64(1+g.N(g.Pick(1, 8, 300))), Times: times, Err: syscall.EIO})
		default:
			s.Faults = append(s.Faults, &simrt.Fault{Tag: "image", Op: "pread", Skip: g.N(4), Count: g.Pick(1, 1, 2, 5), Err: []syscall.Errno{syscall.EIO, syscall.ENXIO, syscall.EINTR, 0, syscall.EINVAL, syscall.ENOMEM}[g.N(6)], Part: 1 + g.N(7)})
		}
	}
	heal := func() {
		t.past = append(t.past, t.bad()...)
		healed = t.hard()
		w.img.Bad, s.Faults = nil, nil
		if w.img.Size != size {
			w.img.SetSize(size)
			b := make([]byte, 4096)
			for _, pg := range orig.PageNumbers() {
				k := orig.Peek(b, pg*4096)
				w.img.Poke(b[:k], pg*4096)
			}
		}
	}
	n := 1
	if g.Chance(1, 2) {
		n = 2 + g.N(2)
		s.ChooseSched()
	}
	done := make([]bool, n)
	for i := 0; i < n; i++ {
		i := i
		c.Go("client"+u(i), func() {
			g := c.Gen("client" + u(i))
			left := 30
			t.walk(t.nodes[0], g, &left, 0) // opens lead to everything
			for j := 4 + g.N(20); j > 0; j-- {
				if g.Chance(1, 4) {
					spoil(g)
				}
				if g.Chance(1, 8) {
					heal()
				}
				var h *mhandle
				if len(t.open) > 0 {
					h = t.open[g.N(len(t.open))]
				}
				if h == nil || h.gone || g.Chance(1, 5) {
					t.client(g, 1+g.N(3), false)
					if f := t.pick(g, (*mnode).isFile); f != nil {
						t.openFile(f, 0)
					}
					continue
				}
				h.users++
				off, sz := t.someRange(h.n, g)
				t.read(h, off, sz)
				if g.Chance(1, 3) { // again
					t.read(h, off, sz)
				}
				h.users--
			}
			done[i] = true
		})
	}
	s.Run()
	if p.Exited {
		c.Fail("exited", "mount ended while serving: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
	}
	c.finished(p, done, u(n)+" clients with faults")
	eio := t.eio
	// All is well again, also for what is open.
	heal()
	t.bad, t.hard = nil, nil
	done = make([]bool, 1)
	c.Go("after", func() {
		g := c.Gen("after")
		for _, h := range append([]*mhandle{}, t.open...) {
			fs := uint64(0)
			if h.n.kind == mTree {
				fs = t.fileSize(h.n.owner, h.n.ino)
			}
			for off, i := uint64(0), 0; off <= fs && i < 20; off, i = off+65536, i+1 {
				t.read(h, off, 65536)
			}
		}
		left := 60
		t.walk(t.nodes[0], g, &left, 0)
		t.closeAll()
		done[0] = true
	})
	s.Run()
	c.finished(p, done, "after the faults")
	c.stopMount(p, 2)
	c.Nontriv = eio > 0
	s.Mark(n, bucket(eio), bucket(t.reads))
}

func bucket(n int) int {
	b := 0
	for ; n > 0; n /= 2 {
		b++
	}
	return b
}

func init() {
	register(&Check{ID: "C16", Run: runC16, MinRuns: 300, Faults: true,
		Rule:   "An oracle check is one answer to one of several clients whose requests overlap, compared with what the request alone has to be answered with; each run also ends with a check for conflicting accesses to the tool's data without happens-before order.",
		Assume: []string{"Races are detected on the accesses to struct fields, slices, maps and package variables of the tool's packages in the schedules that are run; the go-fuse and bbolt libraries run real code, but are not judged for races of their own."}})
	register(&Check{ID: "C17", Run: runC17, MinRuns: 300, Faults: true,
		Rule: "An oracle check is one read of the mounted file system while device reads fail: it has to deliver the true bytes, or an error if it needs bytes that cannot be read; and again after the faults."})
	register(&Check{ID: "C15", Run: runC15, MinRuns: 300,
		Rule:   "An oracle check is one answer of the mounted file system (lookup, attributes, directory stream, open, read, link target, extended attribute, refused modification) compared with an independent reading of the gathered records and the image.",
		Assume: []string{"Requests are those a Linux kernel sends to go-fuse (nodefs); the kernel's caches are not modelled beyond node references."}})
}
