package simrt

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"golang.org/x/sys/unix"
)

const (
	sIFMT  = 0170000
	sIFDIR = 0040000
	sIFREG = 0100000
	sIFLNK = 0120000
	pageSz = 4096
)

type BadRange struct {
	From, To int64
	Times    int // reads that fail before it heals; -1 = for ever
	Err      syscall.Errno
}

type undoRec struct {
	off     int64
	old     []byte
	new     []byte
	isTrunc bool
	oldSize int64
	newSize int64
}

type Inode struct {
	Ino     uint64
	Mode    uint32
	UID     uint32
	GID     uint32
	Nlink   int
	Mtime   int64
	Size    int64
	Tag     string
	pages   map[int64][]byte
	memfd   int // -1 unless mapped
	Target  string
	entries map[string]*Inode
	parent  *Inode
	Bad     []BadRange
	OnRead  func(off int64) // called before every read
	journal []undoRec
	synced  bool
	version int // counts content changes
	shLocks map[*OFD]bool
	exLock  *OFD
	fs      *FS
	NoTrack bool
	// WriteOpens counts opens for writing, Writes content changes.
	WriteOpens int
	MaxRead    int64 // highest byte read
	ReadRanges [][2]int64
	LogReads   bool
}

type FS struct {
	s       *Sim
	Root    *Inode
	nextIno uint64
	// Free is the number of bytes that can still be allocated; -1 = no limit.
	Free  int64
	Track bool // keep undo records for power loss
	all   []*Inode
}

// OFD is an open file description.
type OFD struct {
	ino    *Inode
	flags  int
	pos    int64
	path   string
	refs   int
	stdio  int
	dirPos int
	dirEnt []DirEnt
	proc   *Proc
}

type DirEnt struct {
	Name string
	Ino  *Inode
}

type mapping struct {
	b   []byte
	ino *Inode
}

type SysEvent struct {
	N    int
	Op   string
	Path string
	Ino  *Inode
	Arg  string
	Err  syscall.Errno
	Mut  bool
	// ParentTag is the tag of the directory a namespace change happened in.
	ParentTag string
	Tag       string
}

func newFS(s *Sim) *FS {
	fs := &FS{s: s, Free: -1}
	fs.Root = fs.newInode(sIFDIR|0755, nil)
	fs.Root.parent = fs.Root
	return fs
}

func (fs *FS) free() {
	for _, i := range fs.all {
		if i.memfd >= 0 {
			unix.Close(i.memfd)
			i.memfd = -1
		}
	}
}

func (fs *FS) newInode(mode uint32, parent *Inode) *Inode {
	fs.nextIno++
	i := &Inode{Ino: fs.nextIno, Mode: mode, Nlink: 1, memfd: -1, fs: fs, Mtime: fs.s.Now, parent: parent}
	if parent != nil {
		i.Tag = parent.Tag
	}
	switch mode & sIFMT {
	case sIFDIR:
		i.entries = map[string]*Inode{}
		i.Nlink = 2
	case sIFREG:
		i.pages = map[int64][]byte{}
	}
	fs.all = append(fs.all, i)
	return i
}

func (i *Inode) IsDir() bool  { return i.Mode&sIFMT == sIFDIR }
func (i *Inode) IsReg() bool  { return i.Mode&sIFMT == sIFREG }
func (i *Inode) IsLink() bool { return i.Mode&sIFMT == sIFLNK }

// Entries lists a directory in name order.
func (i *Inode) Entries() []DirEnt {
	var l []DirEnt
	for n, c := range i.entries {
		l = append(l, DirEnt{n, c})
	}
	sort.Slice(l, func(a, b int) bool { return l[a].Name < l[b].Name })
	return l
}

func (i *Inode) Child(name string) *Inode { return i.entries[name] }

// -------------------------------------------------------- content

func (i *Inode) toMem() syscall.Errno {
	if i.memfd >= 0 {
		return 0
	}
	fd, err := unix.MemfdCreate("simdb", unix.MFD_CLOEXEC)
	if err != nil {
		return syscall.ENOMEM
	}
	if err := unix.Ftruncate(fd, i.Size); err != nil {
		unix.Close(fd)
		return syscall.EFBIG
	}
	for n, p := range i.pages {
		e := (n + 1) * pageSz
		if e > i.Size {
			p = p[:i.Size-n*pageSz]
		}
		unix.Pwrite(fd, p, n*pageSz)
	}
	i.pages = nil
	i.memfd = fd
	return 0
}

func (i *Inode) readRaw(b []byte, off int64) int {
	if off >= i.Size {
		return 0
	}
	if int64(len(b)) > i.Size-off {
		b = b[:i.Size-off]
	}
	if i.memfd >= 0 {
		n, _ := unix.Pread(i.memfd, b, off)
		if n < 0 {
			n = 0
		}
		return n
	}
	n := 0
	for n < len(b) {
		pn, po := (off+int64(n))/pageSz, int((off+int64(n))%pageSz)
		c := pageSz - po
		if c > len(b)-n {
			c = len(b) - n
		}
		if p := i.pages[pn]; p != nil {
			copy(b[n:n+c], p[po:])
		} else {
			z := b[n : n+c]
			for k := range z {
				z[k] = 0
			}
		}
		n += c
	}
	return n
}

// writeRaw stores what fits into the free space.
func (i *Inode) writeRaw(b []byte, off int64) int {
	fs := i.fs
	if i.memfd >= 0 {
		if fs.Free >= 0 {
			grow := off + int64(len(b)) - i.Size
			if grow > 0 {
				if grow > fs.Free {
					b = b[:int64(len(b))-(grow-fs.Free)]
					grow = fs.Free
				}
				fs.Free -= grow
			}
		}
		n, _ := unix.Pwrite(i.memfd, b, off)
		if n < 0 {
			n = 0
		}
		if off+int64(n) > i.Size {
			i.Size = off + int64(n)
		}
		i.version++
		return n
	}
	n := 0
	for n < len(b) {
		pn, po := (off+int64(n))/pageSz, int((off+int64(n))%pageSz)
		c := pageSz - po
		if c > len(b)-n {
			c = len(b) - n
		}
		p := i.pages[pn]
		if p == nil {
			if fs.Free >= 0 {
				if fs.Free < pageSz {
					break
				}
				fs.Free -= pageSz
			}
			p = make([]byte, pageSz)
			i.pages[pn] = p
		}
		copy(p[po:], b[n:n+c])
		n += c
	}
	if n > 0 && off+int64(n) > i.Size {
		i.Size = off + int64(n)
	}
	i.version++
	return n
}

// allocate reserves space for a range of bytes.
func (i *Inode) allocate(off, n int64) syscall.Errno {
	if i.memfd >= 0 {
		return 0
	}
	for p := off / pageSz; p <= (off+n-1)/pageSz; p++ {
		if i.pages[p] != nil {
			continue
		}
		if i.fs.Free >= 0 {
			if i.fs.Free < pageSz {
				return syscall.ENOSPC
			}
			i.fs.Free -= pageSz
		} else if len(i.pages) > 1<<16 {
			return syscall.ENOSPC
		}
		i.pages[p] = make([]byte, pageSz)
	}
	return 0
}

func (i *Inode) truncRaw(size int64) {
	if i.memfd >= 0 {
		if i.fs.Free >= 0 && size < i.Size {
			i.fs.Free += i.Size - size
		}
		unix.Ftruncate(i.memfd, size)
	} else if size < i.Size {
		for n, p := range i.pages {
			if n*pageSz >= size {
				delete(i.pages, n)
				if i.fs.Free >= 0 {
					i.fs.Free += pageSz
				}
			} else if (n+1)*pageSz > size {
				z := p[size-n*pageSz:]
				for k := range z {
					z[k] = 0
				}
			}
		}
	}
	i.Size = size
	i.version++
}

func (i *Inode) track() bool { return i.fs.Track && !i.NoTrack }

func (i *Inode) write(b []byte, off int64) int {
	if i.track() && len(b) > 0 {
		old := make([]byte, len(b))
		i.readRaw(old, off)
		osz := i.Size
		n := i.writeRaw(b, off)
		i.journal = append(i.journal, undoRec{off: off, old: old[:n], new: append([]byte{}, b[:n]...), oldSize: osz, newSize: i.Size})
		return n
	}
	return i.writeRaw(b, off)
}

func (i *Inode) truncate(size int64) {
	if i.track() {
		r := undoRec{isTrunc: true, oldSize: i.Size, newSize: size}
		if size < i.Size {
			r.off = size
			r.old = make([]byte, i.Size-size)
			i.readRaw(r.old, size)
		}
		i.journal = append(i.journal, r)
	}
	i.truncRaw(size)
}

func (i *Inode) fsynced() {
	i.journal = nil
	i.synced = true
}

// PowerLoss makes every file what it may be after losing power: an arbitrary
// subset of the writes since the last sync, torn at 512-byte sectors.
func (fs *FS) PowerLoss(g Gen) {
	var walk func(d *Inode)
	walk = func(d *Inode) {
		for _, e := range d.Entries() {
			if e.Ino.IsDir() {
				walk(e.Ino)
				continue
			}
			if !e.Ino.IsReg() || e.Ino.NoTrack {
				continue
			}
			if !e.Ino.synced && g.Chance(1, 3) {
				delete(d.entries, e.Name)
				fs.s.Inject("powerloss_file_lost")
				continue
			}
			e.Ino.powerLoss(g)
		}
	}
	walk(fs.Root)
}

func (i *Inode) powerLoss(g Gen) {
	j := i.journal
	i.journal = nil
	if len(j) == 0 {
		return
	}
	tr := i.fs.Track
	i.fs.Track = false
	defer func() { i.fs.Track = tr }()
	for k := len(j) - 1; k >= 0; k-- {
		r := j[k]
		if r.isTrunc {
			i.truncRaw(r.oldSize)
		}
		if len(r.old) > 0 {
			i.writeRaw(r.old, r.off)
		}
		if i.Size != r.oldSize {
			i.truncRaw(r.oldSize)
		}
	}
	mode := g.N(4) // 0: all lost, 1: all kept, 2: prefix, 3: any subset
	cut := 0
	if mode == 2 {
		cut = g.N(len(j) + 1)
	}
	for k, r := range j {
		keep := mode == 1 || mode == 2 && k < cut || mode == 3 && g.N(2) == 1
		if !keep {
			if mode == 2 && k == cut && !r.isTrunc {
				// the write in flight is torn
				n := g.N(len(r.new)/512+1) * 512
				if n > 0 {
					i.writeRaw(r.new[:n], r.off)
					i.fs.s.Inject("powerloss_torn_write")
				}
			} else {
				i.fs.s.Inject("powerloss_lost_write")
			}
			continue
		}
		if r.isTrunc {
			i.truncRaw(r.newSize)
			continue
		}
		if mode == 3 && g.N(6) == 5 {
			for o := 0; o < len(r.new); o += 512 {
				e := o + 512
				if e > len(r.new) {
					e = len(r.new)
				}
				if g.N(2) == 1 {
					i.writeRaw(r.new[o:e], r.off+int64(o))
				}
			}
			i.fs.s.Inject("powerloss_torn_write")
			continue
		}
		i.writeRaw(r.new, r.off)
	}
}

// ReadAll returns the content of a file (for the harness).
func (i *Inode) ReadAll() []byte {
	b := make([]byte, i.Size)
	i.readRaw(b, 0)
	return b
}

// Peek reads at an offset (for the harness).
func (i *Inode) Peek(b []byte, off int64) int { return i.readRaw(b, off) }

// Poke writes without any accounting (for the harness).
func (i *Inode) Poke(b []byte, off int64) {
	f, tr := i.fs.Free, i.fs.Track
	i.fs.Free, i.fs.Track = -1, false
	i.writeRaw(b, off)
	i.fs.Free, i.fs.Track = f, tr
}

func (i *Inode) SetSize(n int64) { i.truncRaw(n) }

// Holds tells whether there is data at an offset of a sparse file.
func (i *Inode) Holds(off int64) bool {
	_, ok := i.pages[off/pageSz]
	return ok
}

// PageNumbers lists the pages that hold data.
func (i *Inode) PageNumbers() []int64 {
	var l []int64
	for n := range i.pages {
		l = append(l, n)
	}
	sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
	return l
}

// Hash identifies the content.
func (i *Inode) Hash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(b []byte) {
		for len(b) >= 8 {
			h = (h ^ *(*uint64)(unsafe.Pointer(&b[0]))) * 1099511628211
			h ^= h >> 29
			b = b[8:]
		}
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
	}
	// The same content gives the same value, in whichever way it is kept.
	page := func(n int64, b []byte) {
		for _, c := range b {
			if c != 0 {
				mix([]byte(fmt.Sprint(n)))
				mix(b)
				return
			}
		}
	}
	if i.memfd >= 0 {
		b := i.ReadAll()
		for len(b)%pageSz != 0 {
			b = append(b, 0)
		}
		for n := 0; n*pageSz < len(b); n++ {
			page(int64(n), b[n*pageSz:(n+1)*pageSz])
		}
	} else {
		for _, n := range i.PageNumbers() {
			page(n, i.pages[n])
		}
	}
	return h ^ uint64(i.Size)*31
}

// Clone makes an independent copy of a file as a new inode.
func (i *Inode) Clone() *Inode {
	n := i.fs.newInode(i.Mode, nil)
	n.Tag = i.Tag
	if i.memfd >= 0 {
		n.toMem()
		b := i.ReadAll()
		n.Poke(b, 0)
		return n
	}
	for k, p := range i.pages {
		n.pages[k] = append([]byte{}, p...)
	}
	n.Size = i.Size
	return n
}

// -------------------------------------------------------- harness access

func split(path string) []string {
	var l []string
	for _, c := range strings.Split(path, "/") {
		if c != "" && c != "." {
			l = append(l, c)
		}
	}
	return l
}

// Mk creates directories for the harness.
func (fs *FS) Mk(path, tag string) *Inode {
	d := fs.Root
	for _, c := range split(path) {
		n := d.entries[c]
		if n == nil {
			n = fs.newInode(sIFDIR|0755, d)
			d.entries[c] = n
			d.Nlink++
		}
		d = n
	}
	if tag != "" {
		d.Tag = tag
	}
	return d
}

// Put creates (or replaces) a regular file for the harness.
func (fs *FS) Put(path, tag string, data []byte) *Inode {
	l := split(path)
	d := fs.Mk(strings.Join(l[:len(l)-1], "/"), "")
	i := fs.newInode(sIFREG|0644, d)
	if tag != "" {
		i.Tag = tag
	}
	i.Poke(data, 0)
	i.synced = true
	d.entries[l[len(l)-1]] = i
	return i
}

// PutInode links an inode at a path for the harness.
func (fs *FS) PutInode(path string, i *Inode) {
	l := split(path)
	d := fs.Mk(strings.Join(l[:len(l)-1], "/"), "")
	d.entries[l[len(l)-1]] = i
}

func (fs *FS) PutLink(path, target string) *Inode {
	l := split(path)
	d := fs.Mk(strings.Join(l[:len(l)-1], "/"), "")
	i := fs.newInode(sIFLNK|0777, d)
	i.Target = target
	d.entries[l[len(l)-1]] = i
	return i
}

func (fs *FS) RemoveEntry(path string) {
	l := split(path)
	d := fs.Lookup(strings.Join(l[:len(l)-1], "/"))
	if d != nil {
		delete(d.entries, l[len(l)-1])
	}
}

// Lookup finds an inode without following symbolic links.
func (fs *FS) Lookup(path string) *Inode {
	d := fs.Root
	for _, c := range split(path) {
		if d == nil || !d.IsDir() {
			return nil
		}
		d = d.entries[c]
	}
	return d
}

// Snapshot describes a subtree: path -> kind, content identity.
func (fs *FS) Snapshot(root *Inode) map[string]string {
	m := map[string]string{}
	var walk func(p string, i *Inode)
	walk = func(p string, i *Inode) {
		switch {
		case i.IsDir():
			m[p+"/"] = fmt.Sprintf("dir %o", i.Mode&07777)
			for _, e := range i.Entries() {
				walk(p+"/"+e.Name, e.Ino)
			}
		case i.IsLink():
			m[p] = "link " + i.Target
		default:
			m[p] = fmt.Sprintf("file %d %o %d %x", i.Ino, i.Mode&07777, i.Size, i.Hash())
		}
	}
	walk("", root)
	return m
}

// SnapshotExcept is Snapshot without the subtrees of the given inodes.
func (fs *FS) SnapshotExcept(root *Inode, skip ...*Inode) map[string]string {
	m := map[string]string{}
	var walk func(p string, i *Inode)
	walk = func(p string, i *Inode) {
		for _, s := range skip {
			if s == i {
				return
			}
		}
		switch {
		case i.IsDir():
			m[p+"/"] = fmt.Sprintf("dir %o", i.Mode&07777)
			for _, e := range i.Entries() {
				walk(p+"/"+e.Name, e.Ino)
			}
		case i.IsLink():
			m[p] = "link " + i.Target
		default:
			m[p] = fmt.Sprintf("file %d %o %d %x", i.Ino, i.Mode&07777, i.Size, i.Hash())
		}
	}
	walk("", root)
	return m
}

// DiffSnap reports how two snapshots differ ("" if they do not).
func DiffSnap(a, b map[string]string) string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, fmt.Sprintf("%q gone", k))
		} else if v != w {
			l = append(l, fmt.Sprintf("%q changed from %s to %s", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, fmt.Sprintf("%q appeared", k))
		}
	}
	sort.Strings(l)
	if len(l) > 5 {
		l = append(l[:5], "...")
	}
	return strings.Join(l, "; ")
}

// -------------------------------------------------------- path resolution

func (fs *FS) resolve(base *Inode, path string, follow bool) (parent *Inode, name string, ino *Inode, err syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(path, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(path) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	links := 0
	d := base
	if path[0] == '/' {
		d = fs.Root
	}
	rest := path
	parent, ino = d.parent, d
	for {
		rest = strings.TrimLeft(rest, "/")
		if rest == "" {
			if name == "" {
				return d.parent, ".", d, 0
			}
			return parent, name, ino, 0
		}
		comp := rest
		if k := strings.IndexByte(rest, '/'); k >= 0 {
			comp, rest = rest[:k], rest[k:]
		} else {
			rest = ""
		}
		// a component follows: what we have so far must be a directory
		if ino == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if !ino.IsDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		d = ino
		if len(comp) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		switch comp {
		case ".":
			parent, name, ino = d.parent, ".", d
			continue
		case "..":
			parent, name, ino = d.parent.parent, "..", d.parent
			continue
		}
		c := d.entries[comp]
		last := strings.TrimLeft(rest, "/") == ""
		trailing := rest != ""
		if c != nil && c.IsLink() && (!last || follow || trailing) {
			links++
			if links > 40 {
				return nil, "", nil, syscall.ELOOP
			}
			if c.Target == "" {
				return nil, "", nil, syscall.ENOENT
			}
			rest = c.Target + rest
			if len(rest) >= 4096 {
				return nil, "", nil, syscall.ENAMETOOLONG
			}
			if rest[0] == '/' {
				d = fs.Root
			}
			parent, name, ino = d.parent, ".", d
			continue
		}
		parent, name, ino = d, comp, c
		if last && trailing {
			if c != nil && !c.IsDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			return parent, name, ino, 0
		}
	}
}

// PathOf reconstructs a path of a directory.
func (fs *FS) PathOf(i *Inode) string {
	if i == fs.Root {
		return "/"
	}
	var l []string
	for i != fs.Root && i != nil {
		p := i.parent
		if p == nil {
			return "?"
		}
		n := "?"
		for k, c := range p.entries {
			if c == i {
				n = k
			}
		}
		l = append([]string{n}, l...)
		i = p
	}
	return "/" + strings.Join(l, "/")
}
