//go:build go1.22

package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	simfuse "btrsim/shim/fuse"
	"btrsim/simrt"
)

// slotKey is what identifies an item, whatever its version.
type slotKey struct {
	owner uint64
	key   Key
}

// touched lists the items that differ.
func touched(a, b map[Rec][]byte) map[slotKey]bool {
	t := map[slotKey]bool{}
	for r, v := range a {
		if w, ok := b[r]; !ok || string(w) != string(v) {
			t[slotKey{r.Owner, r.Key}] = true
		}
	}
	for r := range b {
		if _, ok := a[r]; !ok {
			t[slotKey{r.Owner, r.Key}] = true
		}
	}
	return t
}

func put(d []byte, at, n int, v uint64) {
	for i := 0; i < n && at+i < len(d); i++ {
		d[at+i] = byte(v >> uint(8*i))
	}
}

// extreme is a number that damaged fields may hold.
func extreme(g simrt.Gen) uint64 {
	switch g.N(6) {
	case 0:
		return ^uint64(0) >> uint(g.N(64))
	case 1:
		return 1 << uint(g.N(64))
	case 2:
		return ^uint64(0) - uint64(g.N(5000))
	case 3:
		return 1<<63 + uint64(g.N(3)) - 1
	case 4:
		return uint64(g.N(300))
	}
	return g.U64()
}

// spoil damages the data of an item.
func spoil(g simrt.Gen, typ uint8, d []byte, recs map[Rec][]byte, all []Rec) []byte {
	d = append([]byte{}, d...)
	field := func(f ...int) { // pairs of offset and length
		i := g.N(len(f) / 2)
		v := extreme(g)
		if g.Chance(1, 4) && f[2*i]+f[2*i+1] <= len(d) { // nearly right
			old := uint64(0)
			for k := f[2*i+1] - 1; k >= 0; k-- {
				old = old<<8 | uint64(d[f[2*i]+k])
			}
			v = old + uint64(g.Pick(1, 2, 4096)) - uint64(g.Pick(0, 2, 8192))
		}
		put(d, f[2*i], f[2*i+1], v)
	}
	kind := g.N(8)
	if kind > 5 || len(d) == 0 {
		kind = 6
	}
	switch kind {
	case 0:
		d = d[:g.N(len(d)+1)]
	case 1:
		for k := g.N(g.Pick(2, 20)); k >= 0; k-- {
			d[g.N(len(d))] ^= 1 << uint(g.N(8))
		}
	case 2:
		from := g.N(len(d))
		for k := from; k < from+1+g.N(len(d)-from); k++ {
			d[k] = 0
		}
	case 3:
		if g.Chance(1, 2) {
			simrt.FillBytes(d, g.Seed64())
		} else {
			simrt.FillBytes(d[g.N(len(d)):], g.Seed64())
		}
	case 4:
		x := make([]byte, 1+g.N(200))
		simrt.FillBytes(x, g.Seed64())
		d = append(d, x...)
	case 5:
		d = append([]byte{}, itemData(recs[all[g.N(len(all))]])...)
	case 6:
		switch typ {
		case tInode:
			field(16, 8, 24, 8, 32, 8, 40, 4, 52, 4, 112, 8, 120, 4, 136, 8, 144, 4)
		case tDirItem, tXattr, tDirIndex:
			switch g.N(5) {
			case 0: // another entry than was meant
				if len(d) >= 17 {
					r := all[g.N(len(all))]
					put(d, 0, 8, r.Key.Obj)
					if g.Chance(1, 3) {
						d[8] = uint8(g.Pick(tRoot, tInode, 0, 255))
					}
				}
			case 1:
				put(d, 29, 1, uint64(g.N(256)))
			case 2:
				if len(d) > 30 {
					d[30+g.N(len(d)-30)] = byte(g.Pick('/', 0, '.', 255, '\n'))
				}
			default:
				field(0, 8, 8, 1, 9, 8, 25, 2, 27, 2, 29, 1)
			}
		case tExtent:
			field(0, 8, 8, 8, 16, 1, 17, 1, 18, 2, 20, 1, 21, 8, 29, 8, 37, 8, 45, 8)
		case tChunk:
			field(0, 8, 8, 8, 16, 8, 24, 8, 44, 2, 46, 2, 48, 8, 56, 8)
		case tRoot:
			field(160, 8, 168, 8, 176, 8, 208, 4, 216, 4, 238, 1)
		case tRootRef, tRootBack:
			field(0, 8, 8, 8, 16, 2)
		default:
			field(0, 8, 8, 8, 0, 4)
		}
	}
	return d
}

// mutate damages some items of a record set.
func mutate(g simrt.Gen, recs map[Rec][]byte, n int) map[Rec][]byte {
	out := map[Rec][]byte{}
	for r, v := range recs {
		out[r] = v
	}
	all := sortedRecs(recs)
	byType := map[uint8][]Rec{}
	var types []uint8
	for _, r := range all {
		if byType[r.Key.Type] == nil {
			types = append(types, r.Key.Type)
		}
		byType[r.Key.Type] = append(byType[r.Key.Type], r)
	}
	sort.Slice(types, func(i, j int) bool { return types[i] < types[j] })
	for ; n > 0; n-- {
		typ := types[g.N(len(types))]
		if g.Chance(2, 3) {
			if t := uint8(g.Pick(tInode, tDirItem, tDirItem, tExtent, tExtent, tXattr, tChunk, tRoot)); byType[t] != nil {
				typ = t
			}
		}
		l := byType[typ]
		r := l[g.N(len(l))]
		if _, ok := out[r]; !ok {
			continue
		}
		switch g.N(12) {
		case 0: // the key
			q := r
			switch g.N(5) {
			case 0:
				q.Key.Off = extreme(g)
			case 1:
				q.Key.Obj = extreme(g)
			case 2:
				q.Key.Type = uint8(g.Pick(tInode, tDirItem, tExtent, tXattr, tChunk, tRoot, tRootRef, tExtItem, 0, 255))
			case 3:
				q.Owner = []uint64{extreme(g), oFS, oRoot, oChunk, all[g.N(len(all))].Owner}[g.N(5)]
			case 4:
				q.Gen = extreme(g) % (^uint64(0) - 1)
			}
			if q.Owner == ^uint64(0) || q.Gen == ^uint64(0) {
				continue
			}
			d := itemData(out[r])
			if g.Chance(1, 2) {
				delete(out, r)
			}
			delete(out, q)
			setData(out, q, d)
		case 1:
			delete(out, r)
		default:
			setData(out, r, spoil(g, r.Key.Type, itemData(out[r]), recs, all))
		}
	}
	return out
}

// mutateImage damages items in leaves of the image and makes their checksums
// right.
func (w *World) mutateImage(g simrt.Gen, n int, recs map[Rec][]byte) {
	all := sortedRecs(recs)
	var live []*placed
	for _, p := range w.LeafBlocks() {
		if !p.dead {
			live = append(live, p)
		}
	}
	for ; n > 0 && len(live) > 0; n-- {
		p := live[g.N(len(live))]
		b := make([]byte, w.bs)
		w.img.Peek(b, p.off)
		cnt := int(le.Uint32(b[96:]))
		if b[100] != 0 || cnt < 1 || headerLen+cnt*itemLen > w.bs {
			continue
		}
		o := headerLen + g.N(cnt)*itemLen
		off, size := int(le.Uint32(b[o+17:])), int(le.Uint32(b[o+21:]))
		if off < 0 || size < 0 || headerLen+off+size > w.bs {
			continue
		}
		if g.Chance(1, 6) {
			if g.Chance(1, 2) {
				b[o+g.N(17)] ^= 1 << uint(g.N(8))
			} else {
				put(b, o+g.Pick(17, 21), 4, extreme(g))
			}
		} else {
			d := spoil(g, b[o+8], b[headerLen+off:headerLen+off+size], recs, all)
			copy(b[headerLen+off:headerLen+off+size], d)
			if len(d) < size {
				put(b, o+21, 4, uint64(len(d)))
			}
		}
		sealBlock(b)
		w.img.Poke(b, p.off)
	}
}

// intact judges what damage may cost.
type intact struct {
	m0, m1  *Model
	t       map[slotKey]bool
	chunk   bool
	objs    map[ownObj]bool
	nodes1  map[string]Node
	subs    map[uint64]bool // subvolumes whose root item is damaged
	twiceIn map[dirKey]map[string]int
	m0nodes []Node
	under   map[string]bool // paths that more than one entry leads to
}

func newIntact(m0, m1 *Model) *intact {
	x := &intact{m0: m0, m1: m1, t: touched(m0.recs, m1.recs), objs: map[ownObj]bool{}, nodes1: map[string]Node{}, subs: map[uint64]bool{}, twiceIn: map[dirKey]map[string]int{}, under: map[string]bool{}}
	for k := range x.t {
		x.objs[ownObj{k.owner, k.key.Type, k.key.Obj}] = true
		if k.owner == oChunk || k.key.Type == tChunk {
			x.chunk = true
		}
		if k.owner == oRoot {
			x.subs[k.key.Obj] = true
		}
	}
	refs := map[dirKey]int{}
	for o := range m1.dirs {
		if o.typ != tDirItem {
			continue
		}
		for _, d := range m1.Entries(o.owner, o.obj) {
			if d.ft == ftDir || d.isSub() {
				k, i := d.target(o.owner)
				refs[dirKey{k, i}]++
			}
		}
	}
	l, _ := m1.Walk()
	for _, n := range l {
		x.nodes1[n.Path] = n
		if n.FT == ftDir && refs[dirKey{n.Owner, n.Ino}] > 1 {
			x.under[n.Path] = true
		}
		if n.FT == ftDir && n.Dir == (dirKey{}) && refs[dirKey{n.Owner, n.Ino}] > 0 {
			x.under[n.Path] = true // found elsewhere, or not
		}
	}
	x.m0nodes, _ = m0.Walk()
	return x
}

func (x *intact) twice(k dirKey, name string) bool {
	if x.twiceIn[k] == nil {
		x.twiceIn[k] = map[string]int{}
		for _, d := range x.m1.Entries(k.owner, k.ino) {
			x.twiceIn[k][d.name]++
		}
	}
	return x.twiceIn[k][name] > 1
}

// there tells that a path has to be found, and that its contents have to be
// right.
func (x *intact) there(n *Node, node map[string]*Node) (there, whole bool) {
	for p := n.Path; ; p = path.Dir(p) {
		k := node[p]
		if k == nil {
			return false, false
		}
		if b := path.Base(p); k.Dir != (dirKey{}) {
			if x.t[slotKey{k.Dir.owner, Key{k.Dir.ino, tDirItem, nameHash(b)}}] || x.twice(k.Dir, b) {
				return false, false
			}
		} else if x.subs[k.Owner] {
			return false, false
		}
		if k.Ino == 256 && x.subs[k.Owner] {
			return false, false
		}
		if j, ok := x.nodes1[p]; !ok || j.Owner != k.Owner || j.Ino != k.Ino || j.FT != k.FT {
			return false, false
		}
		if !strings.Contains(p, "/") {
			break
		}
	}
	whole = !x.objs[ownObj{n.Owner, tInode, n.Ino}] && !x.objs[ownObj{n.Owner, tExtent, n.Ino}]
	if whole && x.chunk {
		segs, _ := x.m0.Segments(n.Owner, n.Ino)
		for _, s := range segs {
			if s.kind == sDev || s.kind == sUnmapped {
				whole = false
			}
		}
	}
	return true, whole
}

// plainLine tells that a name does not disturb a line of ls.
func plainLine(n string) bool {
	return !strings.ContainsAny(n, "\n\t\v\f\r\xff") && strings.TrimSpace(n) == n
}

func runC14(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c14")
	w := c.treeWorld(s, WorldOpt{Xattrs: true, Compress: g.Chance(1, 4), Special: true, Orphans: true, Ops: 3 + g.N(14), BS: g.Pick(4096, 4096, 16384)})
	var recs map[Rec][]byte
	n := g.Pick(1, 1, 1, 2, 3, 6, 20, 60)
	if g.Chance(1, 3) { // on the image
		c.Recon(w, "/m/first.db", imgPath)
		first := c.DB("/m/first.db", "undamaged").Recs
		w.mutateImage(g, n, first)
		q := c.Exec("recon", w.reconArgs(dbPath, imgPath)...)
		c.MustEnd(q, "on a damaged image")
		if q.Code != 0 {
			c.Count("recon_refused")
			return
		}
		recs = c.DB(dbPath, "damaged").Recs
		c.damaged(w, g, NewModel(first, w.img), NewModel(recs, w.img))
		return
	}
	first := c.gather(w, dbPath)
	recs = mutate(g, first, n)
	if g.Chance(1, 4) {
		hostile(g, recs)
	}
	c.rewrite(w, dbPath, recs)
	c.damaged(w, g, NewModel(first, w.img), NewModel(recs, w.img))
}

func (c *Ctx) damaged(w *World, g simrt.Gen, m0, m1 *Model) {
	s := c.S
	x := newIntact(m0, m1)
	s.HeapLimit = 256 << 20
	s.StepLimit = 60e6
	node := map[string]*Node{}
	for i := range x.m0nodes {
		node[x.m0nodes[i].Path] = &x.m0nodes[i]
	}
	found, whole := 0, 0
	for i := range x.m0nodes {
		t, ok := x.there(&x.m0nodes[i], node)
		if t {
			found++
		}
		if ok {
			whole++
		}
	}
	todo := g.N(16)
	if todo == 0 {
		todo = 15
	}
	if todo&1 != 0 {
		c.damagedLs(w, g, x, node)
	}
	if todo&2 != 0 {
		p := c.Exec("dump", dbArgs(dbPath, w.bs, "dump-index")...)
		c.MustEnd(p, "on damaged metadata")
		c.MustSucceed(p, "on damaged metadata")
		checkDump(c, p, m1.recs, "damaged metadata")
		c.Evals++
	}
	if todo&4 != 0 {
		c.damagedRecover(w, g, x, node)
	}
	if todo&8 != 0 {
		c.damagedMount(w, g, x, node)
	}
	c.Nontriv = len(x.t) > 0 && found > 0
	s.Mark(todo, bucket(len(x.t)), bucket(found), bucket(whole), x.chunk)
}

func (c *Ctx) damagedLs(w *World, g simrt.Gen, x *intact, node map[string]*Node) {
	p := c.Exec("ls", dbArgs(dbPath, w.bs, "ls", "--recursive")...)
	c.MustEnd(p, "ls --recursive on damaged metadata")
	c.Evals++
	lines := map[string]bool{}
	names := map[string]bool{}
	for _, l := range strings.Split(p.Stdout.String(), "\n") {
		for f := 6; f <= 8; f++ {
			q := squeeze(l, f)
			lines[q] = true
			if k := strings.IndexByte(q, '|'); k >= 0 {
				names[q[k+1:]] = true
			}
		}
	}
	for i := range x.m0nodes {
		n := &x.m0nodes[i]
		b := path.Base(n.Path)
		if t, _ := x.there(n, node); !t || !plainLine(b) {
			continue
		}
		d, owner, ok := x.m0.lookup(n.Path)
		if !ok || n.Dir == (dirKey{}) {
			continue // not to be seen from the top
		}
		c.Evals++
		if x.objs[ownObj{n.Owner, tInode, n.Ino}] {
			if !names[b] {
				c.Fail("lost", "ls does not list %q, whose entry is intact", n.Path)
			}
		} else if l := x.m0.lsLine(*d, owner, false); !lines[l] {
			c.Fail("lost", "ls has no line %q for %q, which is intact", l, n.Path)
		}
	}
	// Single paths, intact and damaged.
	var all []string
	for q := range x.nodes1 {
		all = append(all, q)
	}
	sort.Strings(all)
	for k := g.N(3); k > 0 && len(all) > 0; k-- {
		a := []string{"ls", "/" + all[g.N(len(all))]}
		if g.Chance(1, 2) {
			a = append(a, "--recursive")
		}
		if g.Chance(1, 2) {
			a = append(a, "--inode")
		}
		q := c.Exec("ls", dbArgs(dbPath, w.bs, a...)...)
		c.MustEnd(q, fmt.Sprintf("%q on damaged metadata", a))
		c.Evals++
	}
}

func (c *Ctx) damagedRecover(w *World, g simrt.Gen, x *intact, node map[string]*Node) {
	p := c.Exec("recover", c.recoverArgs(w, destPath)...)
	c.MustEnd(p, "recover from damaged metadata")
	c.Evals++
	dest := c.S.FS.Lookup(destPath)
	for i := range x.m0nodes {
		n := &x.m0nodes[i]
		t, whole := x.there(n, node)
		if !t {
			continue
		}
		skip := false
		for p := n.Path; strings.Contains(p, "/"); {
			p = path.Dir(p)
			skip = skip || x.under[p]
		}
		if skip || x.under[n.Path] {
			continue
		}
		got := below(dest, n.Path)
		c.Evals++
		switch n.FT {
		case ftDir:
			if got == nil || !got.IsDir() {
				c.Fail("lost", "recover does not restore the directory %q, whose entry is intact; stderr %q", n.Path, tail(p.Stderr.String()))
			}
		case ftReg:
			if !whole {
				continue
			}
			segs, dam := x.m0.Segments(n.Owner, n.Ino)
			comp := len(dam) > 0
			for _, s := range segs {
				comp = comp || s.kind == sComp || s.kind == sUnmapped
			}
			if comp {
				continue
			}
			if got == nil {
				c.Fail("lost", "recover does not restore %q, which is intact; stderr %q", n.Path, tail(p.Stderr.String()))
			}
			if d := x.m0.diffFile(got, n); d != "" {
				c.Fail("content", "%q is intact, but restored as: %s; stderr %q", n.Path, d, tail(p.Stderr.String()))
			}
		case ftLnk:
			if target, ok := x.m0.Target(n.Owner, n.Ino); ok && whole && target != "" && len(target) < 4096 && !strings.Contains(target, "\x00") {
				if got == nil || !got.IsLink() || got.Target != target {
					c.Fail("lost", "recover does not restore the symbolic link %q, which is intact; stderr %q", n.Path, tail(p.Stderr.String()))
				}
			}
		}
	}
}

func (c *Ctx) damagedMount(w *World, g simrt.Gen, x *intact, node map[string]*Node) {
	p, k := c.mounted(w, 0, imgPath)
	done := make([]bool, 1)
	c.Go("client", func() {
		c.roam(k, c.Gen("roam"))
		c.probe(k, x, node)
		done[0] = true
	})
	c.S.Run()
	c.Settle()
	if p.Exited {
		c.Fail("exited", "mount ended while serving damaged metadata: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
	}
	c.finished(p, done, "damaged metadata")
	c.stopMount(p, 2)
	c.Evals++
}

// roam looks at everything there is, whatever the answers.
func (c *Ctx) roam(k *simfuse.Conn, g simrt.Gen) {
	left := 150
	var visit func(n uint64, dir bool, depth int)
	visit = func(n uint64, dir bool, depth int) {
		if left--; left < 0 || depth > 8 || !k.Alive() {
			return
		}
		k.GetAttr(n)
		k.ListXAttr(n, 4096)
		if dir || g.Chance(1, 8) {
			if fh, st := k.OpenDir(n); st == 0 {
				var l []simfuse.Dirent
				for off, i := uint64(0), 0; i < 200; i++ {
					p, st := k.ReadDir(n, fh, off, 4096)
					if st != 0 || len(p) == 0 {
						break
					}
					l = append(l, p...)
					off = p[len(p)-1].Off
				}
				k.ReleaseDir(n, fh)
				sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
				for _, d := range l {
					if d.Name == "." || d.Name == ".." {
						continue
					}
					e, st := k.Lookup(n, d.Name)
					if st != 0 {
						continue
					}
					k.GetXAttr(e.NodeId, "user.x", 100)
					visit(e.NodeId, e.Attr.Mode&0170000 == 0040000, depth+1)
				}
			}
		}
		if !dir {
			k.Readlink(n)
			if fh, st := k.Open(n, 0); st == 0 {
				at := []int64{0, int64(g.N(100000)), 1 << 40, 1<<62 + 5, 1<<63 - 1, 4096}
				if a, st := k.GetAttr(n); st == 0 && int64(a.Attr.Size) > 10 {
					at = append(at, int64(a.Attr.Size)-10, int64(a.Attr.Size)/2)
				}
				for j := 0; j < 4; j++ {
					k.Read(n, fh, at[g.N(len(at))], g.Pick(1, 100, 4096, 131072, 1<<20))
				}
				k.Release(n, fh)
			}
		}
	}
	visit(1, true, 0)
}

// probe checks what is intact.
func (c *Ctx) probe(k *simfuse.Conn, x *intact, node map[string]*Node) {
	rescue, st := k.Lookup(1, "rescue")
	if st != 0 {
		c.Fail("lost", "the mount has no directory rescue: %v", st)
	}
	limit := 40
	for i := range x.m0nodes {
		n := &x.m0nodes[i]
		t, whole := x.there(n, node)
		if _, _, ok := x.m0.lookup(n.Path); !t || !ok || n.Dir == (dirKey{}) {
			continue
		}
		if limit--; limit < 0 {
			return
		}
		id := rescue.NodeId
		for _, name := range strings.Split(n.Path, "/") {
			e, st := k.Lookup(id, name)
			if st != 0 {
				c.Fail("lost", "looking up %q of %q in the mount, which is intact: %v", name, n.Path, st)
			}
			id = e.NodeId
		}
		c.Evals++
		if n.FT != ftReg || !whole {
			continue
		}
		it, ok := x.m0.Inode(n.Owner, n.Ino)
		if !ok {
			continue
		}
		a, st := k.GetAttr(id)
		if st != 0 || a.Attr.Size != it.size {
			c.Fail("attr", "attributes of %q, which is intact: %v, size %d, expected %d", n.Path, st, a.Attr.Size, it.size)
		}
		fh, st := k.Open(id, 0)
		if st != 0 {
			c.Fail("open", "opening %q, which is intact: %v", n.Path, st)
		}
		for off := uint64(0); off < it.size && off < 1<<20; off += 65536 {
			want, bad := x.m0.Content(n.Owner, n.Ino, off, 65536)
			got, st := k.Read(id, fh, int64(off), 65536)
			if bad {
				continue
			}
			if st != 0 || string(got) != string(want) {
				c.Fail("content", "reading %q at %d, which is intact: %v, %s", n.Path, off, st, diffBytes(got, want))
			}
			c.Evals++
		}
		k.Release(id, fh)
	}
}

func init() {
	register(&Check{ID: "C14", Run: runC14, MinRuns: 300, Faults: true,
		Rule:   "An oracle check is the end of one inspecting command (or of serving a mount) on metadata with damaged items without a crash, a hang, more than 60 million steps or more than 256 MiB, or the comparison of one intact entry (listed, restored, served) with the undamaged file system.",
		Assume: []string{"Damage is done to gathered items, in the metadata file or in leaves of the image whose checksum is made right; damage to the structure of the metadata file itself is the subject of C06.", "What depends on a damaged item: the entries of a directory item, a file on its inode and extent items and the chunks, a subvolume on its root items, and whatever is reachable by several entries afterwards."}})
}
