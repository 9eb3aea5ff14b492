//go:build go1.22

package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"btrsim/simrt"
)

// treeWorld makes a file system and gathers its metadata.
func (c *Ctx) treeWorld(s *simrt.Sim, o WorldOpt) *World {
	g := c.Gen("tree")
	if o.Ops == 0 {
		o.Ops = 4 + g.N(16)
	}
	o.Collide = g.Chance(2, 3)
	o.Orphans = o.Orphans && g.Chance(1, 2)
	o.Strays = g.Chance(1, 4)
	o.Noise = g.Chance(1, 5)
	w := c.NewWorld(s, o)
	w.Populate()
	return w
}

// lose removes leaves from the image, so that metadata is incomplete.
func (w *World) lose(g simrt.Gen, keep func(p *placed) bool) {
	num := 1 + g.N(4)
	for _, p := range w.LeafBlocks() {
		if g.Chance(num, 8) && (keep == nil || !keep(p)) {
			w.img.Poke(make([]byte, len(p.raw)), p.off)
			p.dead = true
		}
	}
}

// ------------------------------------------------------------- C09

var ftLetter = map[uint8]string{ftReg: "-", ftDir: "d", ftChr: "c", ftBlk: "b", ftFifo: "p", ftSock: "s", ftLnk: "l"}

func permString(mode uint32) string {
	b := []byte("rwxrwxrwx")
	for i := range b {
		if mode>>uint(8-i)&1 == 0 {
			b[i] = '-'
		}
	}
	return string(b)
}

// squeeze makes columns comparable, whatever their widths. The name at the end
// of a line keeps its spaces.
func squeeze(line string, fields int) string {
	rest := strings.TrimLeft(line, " \t")
	var l []string
	for i := 0; i < fields; i++ {
		n := strings.IndexAny(rest, " \t")
		if n < 0 {
			break
		}
		l = append(l, rest[:n])
		rest = rest[n:]
		if i < fields-1 {
			rest = strings.TrimLeft(rest, " \t")
		}
	}
	return strings.Join(l, " ") + "|" + strings.TrimLeft(rest, " \t")
}

// lsLine is the line that ls has to print for an entry.
func (m *Model) lsLine(d dirItemT, owner uint64, inode bool) string {
	var l []string
	o, i := d.target(owner)
	if inode {
		l = append(l, fmt.Sprint(i))
	}
	t := ftLetter[d.ft]
	if t == "" {
		t = "?"
	}
	it, ok := m.Inode(o, i)
	if !ok {
		l = append(l, t+"?????????", "?", "?", "?", "?", "?")
	} else {
		tm := time.Unix(it.ctime, int64(it.ctimen)).UTC()
		l = append(l, t+permString(it.mode), fmt.Sprint(it.nlink), fmt.Sprint(it.uid), fmt.Sprint(it.gid), fmt.Sprint(it.size))
		l = append(l, strings.Fields(tm.Format("Jan _2 15:04"))...)
	}
	return strings.Join(l, " ") + "|" + d.name
}

// lsDir is what ls prints for a directory.
func (m *Model) lsDir(k dirKey, recursive, inode bool, seen map[dirKey]bool) (l []string) {
	seen[k] = true
	es := m.Entries(k.owner, k.ino)
	sort.SliceStable(es, func(i, j int) bool {
		if a, b := es[i].ft == ftDir, es[j].ft == ftDir; a != b {
			return b
		}
		return es[i].name < es[j].name
	})
	for _, d := range es {
		l = append(l, m.lsLine(d, k.owner, inode))
	}
	if recursive {
		for _, d := range es {
			if d.ft != ftDir {
				continue
			}
			o, i := d.target(k.owner)
			if sub := (dirKey{o, i}); !seen[sub] {
				l = append(l, "heading "+d.name)
				l = append(l, m.lsDir(sub, true, inode, seen)...)
			}
		}
	}
	return
}

// lookup resolves a path. A name that is there twice is not resolved.
func (m *Model) lookup(p string) (d *dirItemT, owner uint64, ok bool) {
	owner = oFS
	k := dirKey{oFS, 256}
	for _, name := range strings.Split(strings.Trim(p, "/"), "/") {
		d = nil
		es := m.Entries(k.owner, k.ino)
		for i := range es {
			if es[i].name == name {
				d = &es[i]
				break
			}
		}
		if d == nil {
			return nil, 0, false
		}
		owner = k.owner
		o, i := d.target(k.owner)
		k = dirKey{o, i}
	}
	return d, owner, true
}

// paths lists the path of every entry that can be reached from the top.
func (m *Model) paths() (l []string) {
	ns, _ := m.Walk()
	for _, n := range ns {
		if d, _, ok := m.lookup(n.Path); ok && d.name == path.Base(n.Path) {
			l = append(l, n.Path)
		}
	}
	return
}

func runC09(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c09")
	w := c.treeWorld(s, WorldOpt{Printable: true, Special: true, Orphans: true, BS: g.Pick(0, 4096, 16384)})
	if g.Chance(1, 3) {
		w.lose(g, nil)
	}
	recs := c.gather(w, dbPath)
	if numbers, all := g.Chance(1, 4), g.Chance(1, 3); numbers || all {
		if numbers {
			wide(g, recs)
		}
		if all {
			attrs(g, recs, true)
		}
		c.rewrite(w, dbPath, recs)
	}
	m := NewModel(recs, nil)
	all := m.paths()
	for n := 2 + g.N(4); n > 0; n-- {
		c.lsOnce(w, m, g, all)
	}
	c.Nontriv = len(m.Entries(oFS, 256)) > 0
	s.Mark(len(all), len(m.subvolsSeen()))
}

func (m *Model) subvolsSeen() (l []uint64) {
	ns, _ := m.Walk()
	for _, n := range ns {
		if n.Ino == 256 && n.Owner != oFS {
			l = append(l, n.Owner)
		}
	}
	return
}

// lsOnce runs ls with random arguments and checks what it prints.
func (c *Ctx) lsOnce(w *World, m *Model, g simrt.Gen, all []string) {
	s := c.S
	recursive, inode := g.Chance(1, 2), g.Chance(1, 3)
	var args, want []string
	var missing []string
	var dirs []dirKey
	na := g.Pick(0, 1, 1, 2, 3)
	for i := 0; i < na; i++ {
		p := "/"
		if k := g.N(8); k > 0 && len(all) > 0 {
			p = "/" + all[g.N(len(all))]
			switch k {
			case 1: // something that is not there
				p += "/nope"
			case 2: // a name with the same hash
				d, b := path.Split(p)
				for _, x := range collisions {
					if x[0] == b {
						b = x[1]
					} else if x[1] == b {
						b = x[0]
					}
				}
				p = d + b
			case 3:
				p = path.Dir(p)
			case 4:
				p = p[:len(p)-1]
				if strings.HasSuffix(p, "/") || p == "" {
					p += "q"
				}
			}
		}
		a := p
		switch g.N(6) {
		case 1:
			a = p + "/"
		case 2:
			a = "/." + p
		case 3:
			a = "/" + p
		case 4:
			if p != "/" && !strings.HasPrefix(p, "/-") {
				a = p[1:]
			}
		case 5:
			a = p + "/x/.."
		}
		args = append(args, a)
		if p == "/" {
			dirs = append(dirs, dirKey{oFS, 256})
			continue
		}
		d, owner, ok := m.lookup(p)
		if !ok {
			missing = append(missing, path.Base(p))
			continue
		}
		if d.ft != ftDir {
			want = append(want, m.lsLine(*d, owner, inode))
			continue
		}
		o, i := d.target(owner)
		dirs = append(dirs, dirKey{o, i})
	}
	if na == 0 {
		dirs = append(dirs, dirKey{oFS, 256})
	}
	for _, k := range dirs {
		want = append(want, m.lsDir(k, recursive, inode, map[dirKey]bool{})...)
	}
	a := append([]string{"ls"}, args...)
	if recursive {
		a = append(a, "--recursive")
	}
	if inode {
		a = append(a, "--inode")
	}
	p := c.Exec("ls", dbArgs(dbPath, w.bs, a...)...)
	what := fmt.Sprintf("ls %q recursive %v inode %v", args, recursive, inode)
	c.MustEnd(p, what)
	if len(missing) == 0 {
		c.MustSucceed(p, what)
		if p.Stderr.Len() > 0 {
			c.Fail("message", "%s: %q on standard error", what, tail(p.Stderr.String()))
		}
	}
	for _, x := range missing {
		if !strings.Contains(p.Stderr.String(), x) {
			c.Fail("missing", "%s: %q is not there, but not reported: %q", what, x, tail(p.Stderr.String()))
		}
	}
	// Columns: mode, links, owner, group, size, three for the time or one "?"
	got := strings.Split(strings.TrimSuffix(p.Stdout.String(), "\n"), "\n")
	if p.Stdout.Len() == 0 {
		got = nil
	}
	for i, l := range got {
		if i >= len(want) {
			c.Fail("extra", "%s: line %d: %q, nothing expected", what, i+1, l)
		}
		c.lsCompare(what, i, l, want[i], inode)
		c.Evals++
	}
	if len(got) < len(want) {
		c.Fail("lost", "%s: %d lines, expected %d; the first that is not there: %q", what, len(got), len(want), want[len(got)])
	}
	s.Mark("ls", len(missing), len(dirs), recursive, inode)
}

func (c *Ctx) lsCompare(what string, i int, got, want string, inode bool) {
	if strings.HasPrefix(want, "heading ") {
		n := want[len("heading "):]
		if t := strings.TrimSpace(got); t != n+":" && !strings.HasSuffix(t, "/"+n+":") {
			c.Fail("line", "%s: line %d: %q, expected the heading of %q", what, i+1, got, n)
		}
		return
	}
	fields := len(strings.Fields(want[:strings.Index(want, "|")]))
	if g := squeeze(got, fields); g != want {
		c.Fail("line", "%s: line %d: %q, expected %q", what, i+1, got, want)
	}
}

// ------------------------------------------------------------- C10

// below finds a file without following links.
func below(i *simrt.Inode, rel string) *simrt.Inode {
	for _, n := range strings.Split(rel, "/") {
		if i == nil || !i.IsDir() {
			return nil
		}
		i = i.Child(n)
	}
	return i
}

// compareTree reports how a restored tree differs from what it has to be. skip tells
// what not to compare.
func (c *Ctx) compareTree(w *World, m *Model, dest *simrt.Inode, skip func(n *Node) bool, report func(n *Node, why string)) {
	nodes, _ := m.Walk()
	want := map[string]*Node{}
	for i := range nodes {
		n := &nodes[i]
		want[n.Path] = n
		if skip != nil && skip(n) {
			continue
		}
		got := below(dest, n.Path)
		switch n.FT {
		case ftDir:
			if got == nil {
				report(n, "directory not restored")
			} else if !got.IsDir() {
				report(n, "not a directory")
			}
		case ftReg:
			if got == nil {
				report(n, "file not restored")
			} else if !got.IsReg() {
				report(n, "not a regular file")
			} else if d := m.diffFile(got, n); d != "" {
				report(n, d)
			}
		case ftLnk:
			t, ok := m.Target(n.Owner, n.Ino)
			if !ok {
				continue
			}
			if got == nil {
				report(n, "symbolic link not restored")
			} else if !got.IsLink() {
				report(n, "not a symbolic link")
			} else if got.Target != t {
				report(n, fmt.Sprintf("link target %q, expected %q", head([]byte(got.Target)), head([]byte(t))))
			}
		}
		c.Evals++
	}
	// Nothing else.
	var walk func(i *simrt.Inode, p string)
	walk = func(i *simrt.Inode, p string) {
		for _, e := range i.Entries() {
			name := e.Name
			k := i.Child(name)
			q := p + name
			if want[q] == nil {
				if report != nil && (skip == nil || !skip(&Node{Path: q})) {
					report(&Node{Path: q}, "not in the file system")
				}
				continue
			}
			if k.IsDir() && want[q].FT == ftDir {
				walk(k, q+"/")
			}
		}
	}
	if dest != nil && dest.IsDir() {
		walk(dest, "")
	}
}

// diffFile compares a restored file.
func (m *Model) diffFile(f *simrt.Inode, n *Node) string {
	it, ok := m.Inode(n.Owner, n.Ino)
	size := int64(it.size)
	if ok && f.Size != size {
		return fmt.Sprintf("length %d, expected %d", f.Size, size)
	}
	if !ok {
		size = f.Size
	}
	// Pages without data in the file have to be zeros in the model, too.
	pages := map[int64]bool{}
	for _, p := range f.PageNumbers() {
		pages[p] = true
	}
	segs, dam := m.Segments(n.Owner, n.Ino)
	if len(dam) > 0 {
		return "has damaged extents"
	}
	for _, s := range segs {
		if s.kind == sZero || s.from >= uint64(size) {
			continue
		}
		to := s.to
		if to > uint64(size) {
			to = uint64(size)
		}
		if (to-s.from)/sector > 1<<20 {
			return "huge"
		}
		for p := s.from / sector; p*sector < to; p++ {
			pages[int64(p)] = true
		}
	}
	var l []int64
	for p := range pages {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	a := make([]byte, sector)
	for _, p := range l {
		for i := range a {
			a[i] = 0
		}
		off := p * sector
		b, bad := m.content(segs, uint64(size), uint64(off), sector)
		if bad {
			return fmt.Sprintf("some of it cannot be read, at offset %d", off)
		}
		k := f.Peek(a[:len(b)], off)
		if k < len(b) {
			return fmt.Sprintf("short at offset %d", off)
		}
		for i := range b {
			if a[i] != b[i] {
				return fmt.Sprintf("byte %d is %#x, expected %#x", off+int64(i), a[i], b[i])
			}
		}
	}
	return ""
}

func (c *Ctx) recoverArgs(w *World, dest string, extra ...string) []string {
	return append(dbArgs(dbPath, w.bs, "recover", imgPath, dest), extra...)
}

func runC10(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c10")
	w := c.treeWorld(s, WorldOpt{Special: true, Orphans: true, Xattrs: g.Chance(1, 4), BigFiles: g.Chance(1, 4), BS: g.Pick(0, 4096, 16384)})
	recs := c.gather(w, dbPath)
	if g.Chance(1, 4) {
		wide(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	if g.Chance(1, 5) {
		c.vast(g, w, recs)
	}
	links := g.Chance(1, 6)
	if links {
		c.bigLinks(g, w, recs)
		c.rewrite(w, dbPath, recs)
	}
	m := NewModel(recs, w.img)
	m.links = links
	dest, real := "/out/r", "/out/r"
	switch g.N(8) {
	case 1:
		dest, real = "/out/deep/er/r", "/out/deep/er/r"
	case 2:
		dest = "/out//r/"
	case 3:
		s.FS.Mk("/out/real", "")
		s.FS.PutLink("/out/link", "real")
		dest, real = "/out/link", "/out/real"
	case 4:
		s.FS.Mk("/out/r", "")
	case 5:
		dest = "/out/x/../r"
		s.FS.Mk("/out/x", "")
	}
	if g.Chance(1, 3) {
		c.okFaults("image")
	}
	var extra []string
	if g.Chance(1, 4) {
		extra = append(extra, "--clobber")
	}
	if g.Chance(1, 8) {
		extra = append(extra, "--verbose")
	}
	p := c.Exec("recover", c.recoverArgs(w, dest, extra...)...)
	s.Faults = nil
	c.MustSucceed(p, "undamaged source")
	c.compareTree(w, m, s.FS.Lookup(real), nil, func(n *Node, why string) {
		c.Fail("tree", "recover %s: %q: %s (stderr %q)", dest, n.Path, why, tail(p.Stderr.String()))
	})
	if len(extra) == 0 && p.Stderr.Len() > 0 && len(m.noInode()) == 0 {
		c.Fail("message", "everything could be restored, but it says %q", tail(p.Stderr.String()))
	}
	nodes, _ := m.Walk()
	c.Nontriv = len(nodes) > 0
	s.Mark(len(nodes), len(m.subvolsSeen()), len(extra))
}

func (m *Model) noInode() (l []Node) {
	ns, _ := m.Walk()
	for _, n := range ns {
		if !n.HasInode {
			l = append(l, n)
		}
	}
	return
}

func init() {
	register(&Check{ID: "C09", Run: runC09, Rule: "An oracle check is one line printed by ls; a run counts if the top-level directory is not empty."})
	register(&Check{ID: "C10", Run: runC10, Rule: "An oracle check is one object restored by recover; a run counts if there is one."})
}
