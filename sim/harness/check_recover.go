//go:build go1.22

package main

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"btrsim/simrt"
)

const destPath = "/out/r"

// named finds out which of the paths a text names. If one path is the beginning
// of another, only the longest one counts.
func named(text string, paths []string) map[string]bool {
	found := map[string]bool{}
	if len(paths) == 0 || text == "" {
		return found
	}
	l := append([]string{}, paths...)
	sort.Slice(l, func(i, j int) bool { return len(l[i]) > len(l[j]) })
	q := make([]string, len(l))
	for i, p := range l {
		q[i] = strconv.Quote(p)
		q[i] = q[i][1 : len(q[i])-1]
	}
	for at := 0; at < len(text); at++ {
		at2 := strings.Index(text[at:], destPath+"/")
		if at2 < 0 {
			break
		}
		at += at2
		for i := range l {
			if strings.HasPrefix(text[at:], l[i]) || strings.HasPrefix(text[at:], q[i]) {
				found[l[i]] = true
				break
			}
		}
	}
	return found
}

// excused tells whether a path or something it lies in is named.
func excused(p string, names map[string]bool) bool {
	for p != destPath && len(p) > len(destPath) {
		if names[p] {
			return true
		}
		p = path.Dir(p)
	}
	return false
}

// overlaps tells whether a list of device ranges has bytes of a bad one.
func overlaps(l [][2]int64, bad [][2]int64) bool {
	for _, a := range l {
		for _, b := range bad {
			if a[0] < b[1] && b[0] < a[1] {
				return true
			}
		}
	}
	return false
}

// affected tells whether a file cannot be restored because of its metadata.
func (m *Model) affected(n *Node) bool {
	if !n.HasInode && n.FT == ftReg {
		return true
	}
	if n.FT == ftLnk {
		t, ok := m.Target(n.Owner, n.Ino)
		return !ok || t == "" || len(t) >= 4096 || strings.IndexByte(t, 0) >= 0
	}
	if n.FT != ftReg {
		return false
	}
	segs, dam := m.Segments(n.Owner, n.Ino)
	it, _ := m.Inode(n.Owner, n.Ino)
	if len(dam) > 0 {
		return true
	}
	for _, s := range segs {
		if (s.kind == sComp || s.kind == sUnmapped) && s.from < it.size {
			return true
		}
	}
	return false
}

// thin makes metadata that lacks things: chunks, inodes, extents that cannot be
// understood.
func thin(g simrt.Gen, recs map[Rec][]byte) {
	l := sortedRecs(recs)
	num := 1 + g.N(5)
	kind := g.N(5)
	for _, r := range l {
		if !g.Chance(num, 16) {
			continue
		}
		switch {
		case r.Key.Type == tChunk && kind == 0:
			delete(recs, r)
		case r.Key.Type == tInode && kind == 1:
			delete(recs, r)
		case r.Key.Type == tExtent && kind == 2:
			d := itemData(recs[r])
			n := len(d)
			if n > 21 && d[20] == 0 {
				n = 21
			}
			setData(recs, r, d[:g.N(n)])
		case r.Key.Type == tExtent && kind == 3:
			delete(recs, r)
		case r.Key.Type == tDirItem && kind == 4:
			delete(recs, r)
		}
	}
}

func runC11(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c11")
	w := c.treeWorld(s, WorldOpt{Orphans: true, BigFiles: g.Chance(1, 3), Compress: g.Chance(1, 4), BS: g.Pick(0, 4096, 16384), NoSubs: g.Chance(1, 3)})
	recs := c.gather(w, dbPath)
	if g.Chance(1, 3) {
		thin(g, recs)
		c.rewrite(w, dbPath, recs)
		c.Count("thin_metadata")
	}
	if g.Chance(1, 6) {
		wide(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	if g.Chance(1, 8) {
		c.vast(g, w, recs)
	}
	var links [][2]int64
	if g.Chance(1, 5) {
		links = c.bigLinks(g, w, recs)
		c.rewrite(w, dbPath, recs)
	}
	orig := w.img.Clone()
	m := NewModel(recs, orig)
	m.links = links != nil
	nodes, _ := m.Walk()
	if s.FS.Lookup(destPath) == nil && g.Chance(3, 4) {
		s.FS.Mk(destPath, "dest")
	} else {
		s.FS.Lookup("/out").Tag = "dest"
	}
	var extra []string
	pre := map[string]bool{} // directories where something else has to be
	if g.Chance(1, 3) {
		extra = append(extra, "--clobber")
		s.FS.Mk(destPath, "dest")
		for i := g.N(4); i > 0 && len(nodes) > 0; i-- {
			n := nodes[g.N(len(nodes))]
			p := destPath + "/" + n.Path
			if s.FS.Lookup(p) != nil || !c.freePath(p) {
				continue
			}
			switch g.N(3) {
			case 0:
				s.FS.Put(p, "dest", []byte("something older that is longer than what replaces it, or not"))
			case 1:
				s.FS.PutLink(p, "/nowhere").Tag = "dest"
			case 2:
				s.FS.Mk(p, "dest")
				if n.FT != ftDir {
					pre[p] = true
				}
			}
		}
	}
	// The source.
	var files [][2]int64
	for i := range nodes {
		if nodes[i].FT == ftReg {
			files = append(files, m.DevRanges(nodes[i].Owner, nodes[i].Ino)...)
		}
	}
	if len(links) > 0 && g.Chance(1, 2) {
		files = links
	} else {
		files = append(files, links...)
	}
	var bad [][2]int64
	if len(files) > 0 && g.Chance(2, 3) {
		for i := 1 + g.N(3); i > 0; i-- {
			r := files[g.N(len(files))]
			a := r[0] + int64(g.N(int(r[1]-r[0])))
			switch g.N(4) {
			case 0: // the end of the device
				if i == 1 && a > w.size/3 {
					w.img.SetSize(a)
					bad = append(bad, [2]int64{a, 1 << 62})
					c.Count("truncated_device")
					continue
				}
				fallthrough
			default:
				a = a / 512 * 512
				b := a + 512*int64(1+g.N(g.Pick(1, 8, 300)))
				times := -1
				if g.Chance(1, 4) {
					times = 1 + g.N(2)
				}
				w.img.Bad = append(w.img.Bad, simrt.BadRange{From: a, To: b, Times: times, Err: syscall.EIO})
				bad = append(bad, [2]int64{a, b})
			}
		}
	}
	// The destination, and transient errors.
	budget := false
	if g.Chance(2, 3) {
		for i := 1 + g.N(2); i > 0; i-- {
			f := &simrt.Fault{Tag: "dest", Op: []string{"pwrite", "creat", "mkdir", "symlink", "truncate", "close", "lstat", "unlink", "stat", "anymod", "open", ""}[g.N(12)],
				Skip: g.N(3 + 2*len(nodes)), Count: g.Pick(1, 1, 2, 5, -1), Err: []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EDQUOT, syscall.EMFILE, syscall.EROFS, 0, syscall.EINTR}[g.N(8)], Part: g.N(8)}
			if f.Err == 0 {
				f.Op, f.Part = "pwrite", 1+g.N(7)
			}
			s.Faults = append(s.Faults, f)
		}
	}
	if g.Chance(1, 4) {
		s.Faults = append(s.Faults, &simrt.Fault{Tag: "image", Op: "anyread", Skip: g.N(3 + len(files)), Count: g.Pick(1, 1, 3, -1), Err: []syscall.Errno{syscall.EIO, syscall.ENXIO, syscall.EINTR, 0}[g.N(4)], Part: 1 + g.N(7)})
	}
	for _, f := range s.Faults {
		if f.Err == syscall.EINTR && f.Count < 0 {
			f.Count = 3 // always retried
		}
	}
	if g.Chance(1, 4) {
		s.FS.Free = int64(g.N(4096 * (2 + 3*len(nodes))))
		budget = true
	}
	if g.Chance(1, 8) {
		extra = append(extra, "--verbose")
	}
	full0 := s.Injected["disk_full"]
	p := c.Exec("recover", c.recoverArgs(w, destPath, extra...)...)
	hits := s.Injected["disk_full"] - full0
	for _, f := range s.Faults {
		hits += f.Hits
	}
	s.Faults, w.img.Bad, s.FS.Free = nil, nil, -1
	c.MustEnd(p, "with faults")
	dest := s.FS.Lookup(destPath)
	if p.Code != 0 {
		if hits == 0 && !budget {
			c.Fail("status", "recover gave up although nothing it needs has failed: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
		}
		if p.Stderr.Len() == 0 {
			c.Fail("message", "recover failed without a message")
		}
		if dest != nil && len(dest.Entries()) > 0 && len(pre) == 0 && len(extra) == 0 {
			c.Fail("aborted", "recover gave up on everything after it had restored something: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
		}
		c.Count("gave_up")
		return
	}
	var paths []string
	byPath := map[string]*Node{}
	for i := range nodes {
		q := destPath + "/" + nodes[i].Path
		paths = append(paths, q)
		byPath[q] = &nodes[i]
	}
	text := p.Stderr.String()
	names := named(text, paths)
	for _, id := range m.Subvols() {
		if strings.Contains(text, fmt.Sprintf("subvolume %d:", id)) {
			names[fmt.Sprintf("%s/subvol_%d", destPath, id)] = true
		}
	}
	wrong := 0
	c.compareTree(w, m, dest, nil, func(n *Node, why string) {
		if why == "not in the file system" {
			if strings.Contains(n.Path, "subvol_") { // reached another way if all went well
				return
			}
			c.Fail("extra", "%q: %s", n.Path, why)
		}
		wrong++
		if !excused(destPath+"/"+n.Path, names) && !strings.HasPrefix(n.Path, "subvol_") {
			c.Fail("silent", "%q: %s, but no message names it (stderr %q)", n.Path, why, tail(text))
		}
	})
	// What is named has a reason.
	blamed := 0
	first := ""
	for q := range names {
		n := byPath[q]
		if n == nil || pre[q] || m.affected(n) || n.FT == ftReg && overlaps(m.DevRanges(n.Owner, n.Ino), bad) || n.FT == ftLnk && overlaps(m.linkRange(n.Owner, n.Ino), bad) {
			continue
		}
		blamed++
		if first == "" || q < first {
			first = q
		}
	}
	if blamed > hits {
		c.Fail("spread", "%d objects are said not to be restored although only %d calls failed and the metadata and the device do have them, for example %q (stderr %q)", blamed, hits, first, tail(text))
	}
	c.Nontriv = wrong > 0
	s.Mark(len(nodes), wrong, blamed, hits)
}

// freePath tells whether everything above a path may be made a directory.
func (c *Ctx) freePath(p string) bool {
	for d := path.Dir(p); len(d) > len(destPath); d = path.Dir(d) {
		if i := c.S.FS.Lookup(d); i != nil && !i.IsDir() {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------- C12

// inside fails if a process changed anything that is not below the destination.
func (c *Ctx) inside(p *simrt.Proc, before map[string]string, dest *simrt.Inode, what string) {
	for _, e := range p.Log {
		if e.Err != 0 || !e.Mut {
			continue
		}
		switch e.Op {
		case "creat", "mkdir", "unlink", "rmdir", "symlink", "link", "rename":
			if e.ParentTag != "dest" {
				c.Fail("outside", "%s: %s %q %s, which is not below the destination", what, e.Op, e.Path, e.Arg)
			}
		default:
			if e.Ino != nil && e.Ino.Tag != "dest" {
				c.Fail("outside", "%s: %s %q %s changes what is not below the destination", what, e.Op, e.Path, e.Arg)
			}
		}
	}
	if d := simrt.DiffSnap(before, c.S.FS.SnapshotExcept(c.S.FS.Root, dest)); d != "" {
		c.Fail("outside", "%s: outside the destination: %s", what, d)
	}
}

// clutter puts things into the destination that are in the way.
func (c *Ctx) clutter(g simrt.Gen, nodes []Node, n int) {
	s := c.S
	for i := 0; i < n; i++ {
		name := "unrelated" + u(g.N(3))
		if len(nodes) > 0 && g.Chance(5, 6) {
			name = nodes[g.N(len(nodes))].Path
		}
		p := destPath + "/" + name
		if strings.ContainsAny(p, "\x00") || s.FS.Lookup(p) != nil || !c.freePath(p) {
			continue
		}
		switch g.N(6) {
		case 0:
			b := make([]byte, g.N(9000))
			simrt.FillBytes(b, g.Seed64())
			s.FS.Put(p, "dest", b)
		case 1, 2:
			t := []string{"/secret", "/secret/file", "/secret/new", "../../secret", ".", "..", "loop", "/out/r2", "/out/r", destPath + "/" + name, "/img/disk.img", "/m/meta.db"}[g.N(12)]
			s.FS.PutLink(p, t)
		case 3:
			s.FS.Mk(p, "")
		case 4: // another name of a file outside
			s.FS.PutInode(p, s.FS.Lookup("/secret/hard"))
		case 5:
			s.FS.Put(p, "dest", nil).Mode = 0100444
		}
	}
}

func runC12(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c12")
	w := c.treeWorld(s, WorldOpt{Orphans: true, Special: true, Ops: 3 + g.N(8), BS: g.Pick(4096, 16384)})
	recs := c.gather(w, dbPath)
	if g.Chance(5, 6) {
		hostile(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	m := NewModel(recs, w.img)
	nodes, _ := m.Walk()
	s.FS.Put("/secret/file", "", []byte("secret"))
	s.FS.Put("/secret/hard", "", []byte("hard link"))
	s.FS.Put("/out/r2/x", "", []byte("neighbour"))
	s.FS.PutLink("/out/lr", "r")
	dest := s.FS.Mk(destPath, "dest")
	if g.Chance(1, 2) {
		c.clutter(g, nodes, 1+g.N(6))
	}
	arg := destPath
	cwd := false
	switch g.N(8) {
	case 1:
		arg = "/out/lr"
	case 2:
		arg = destPath + "/"
	case 3:
		arg = "/out/r2/../r/."
	case 4:
		cwd = true
		arg = "r"
	case 5:
		cwd = true
		arg = "./r"
	}
	before := s.FS.SnapshotExcept(s.FS.Root, dest)
	n := 1 + g.N(3)
	for i := 0; i < n; i++ {
		var extra []string
		if g.Chance(1, 2) {
			extra = append(extra, "--clobber")
		}
		s.Faults = nil
		if g.Chance(1, 4) {
			s.Faults = append(s.Faults, &simrt.Fault{Tag: "dest", Op: []string{"pwrite", "creat", "mkdir", "symlink", "truncate", "close", "lstat", "unlink", "anymod", ""}[g.N(10)],
				Skip: g.N(3 + len(nodes)), Count: g.Pick(1, 2, 5, -1), Err: []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[g.N(3)], Part: g.N(8)})
		}
		p := s.Spawn(0, "recover", append([]string{"btrfscue"}, c.recoverArgs(w, arg, extra...)...)...)
		if cwd {
			p.Cwd = s.FS.Lookup("/out")
		}
		if g.Chance(1, 4) {
			p.KillSys = 1 + g.N(20+6*len(nodes))
			p.KillPart = g.N(9)
		}
		s.Run()
		if p.Killed == "" {
			c.MustEnd(p, "hostile metadata")
		}
		what := fmt.Sprintf("recover %s %v", arg, extra)
		c.inside(p, before, dest, what)
		c.Evals += len(p.Log)
	}
	c.Nontriv = len(nodes) > 0
	s.Mark(len(nodes), len(dest.Entries()), n)
}

// ------------------------------------------------------------- C13

func runC13(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c13")
	w := c.treeWorld(s, WorldOpt{Orphans: true, Special: true, BS: g.Pick(4096, 16384, 0)})
	recs := c.gather(w, dbPath)
	if g.Chance(1, 6) {
		wide(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	m := NewModel(recs, w.img)
	nodes, _ := m.Walk()
	s.FS.Put("/secret/file", "", []byte("secret"))
	s.FS.Put("/secret/hard", "", []byte("hard link"))
	dest := s.FS.Mk(destPath, "dest")
	if g.Chance(3, 4) {
		c.clutter(g, nodes, 1+g.N(8))
	}
	unrelated := func() map[string]string {
		known := map[string]bool{}
		for i := range nodes {
			known["/"+nodes[i].Path] = true
			known["/"+nodes[i].Path+"/"] = true
		}
		l := s.FS.Snapshot(dest)
		for p := range l {
			if known[p] {
				delete(l, p)
			}
		}
		return l
	}
	n := g.N(4)
	for i := 0; i < n; i++ {
		clob := g.Chance(1, 3)
		before := s.FS.Snapshot(dest)
		var extra []string
		if clob {
			extra = append(extra, "--clobber")
		}
		faulty := g.Chance(1, 2)
		if faulty {
			s.Faults = append(s.Faults, &simrt.Fault{Tag: "dest", Op: []string{"pwrite", "creat", "mkdir", "symlink", "truncate", "close", "lstat", "unlink", "anymod", ""}[g.N(10)],
				Skip: g.N(3 + 2*len(nodes)), Count: g.Pick(1, 2, 5, -1), Err: []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[g.N(3)], Part: g.N(8)})
		}
		if g.Chance(1, 4) {
			w.img.Bad = []simrt.BadRange{{From: 0, To: 1 << 60, Times: 1 + g.N(4), Err: syscall.EIO}}
			faulty = true
		}
		p := s.Spawn(0, "recover", append([]string{"btrfscue"}, c.recoverArgs(w, destPath, extra...)...)...)
		if g.Chance(1, 2) {
			p.KillSys = 1 + g.N(20+8*len(nodes))
			p.KillPart = g.N(9)
		}
		s.Run()
		s.Faults, w.img.Bad = nil, nil
		if p.Killed == "" {
			c.MustEnd(p, "repeated")
		}
		if clob {
			continue
		}
		after := s.FS.Snapshot(dest)
		for q, v := range before {
			if after[q] != v {
				c.Fail("overwritten", "recover without --clobber: %q was %q and is %q now", q, v, after[q])
			}
			c.Evals++
		}
		if p.Killed == "" && !faulty {
			// All the others are restored.
			c.compareTree(w, m, dest, func(x *Node) bool {
				q := "/" + x.Path
				for r := q; r != "/"; r = path.Dir(r) {
					if _, ok := before[r]; ok { // a file or link that was kept, or is in the way
						return true
					}
				}
				if _, ok := before[q+"/"]; ok {
					return true
				}
				return false
			}, func(x *Node, why string) {
				if x.FT == 0 && strings.HasPrefix(x.Path, "subvol_") {
					return // what leads to it was in the way
				}
				c.Fail("incomplete", "recover without --clobber, other things were there: %q: %s (stderr %q)", x.Path, why, tail(p.Stderr.String()))
			})
		}
	}
	before := s.FS.Snapshot(dest)
	other := unrelated()
	p := c.Exec("recover", c.recoverArgs(w, destPath, "--clobber")...)
	c.MustSucceed(p, "with --clobber")
	names := named(p.Stderr.String(), nodePaths(nodes))
	c.compareTree(w, m, dest, nil, func(x *Node, why string) {
		q := "/" + x.Path
		if why == "not in the file system" {
			if _, ok := other[q]; ok {
				return
			}
			if _, ok := other[q+"/"]; ok {
				return
			}
		}
		// A directory where a file has to be stays, but not silently.
		if _, ok := before[q+"/"]; ok && x.FT != ftDir && names[destPath+q] {
			return
		}
		c.Fail("clobber", "after %d runs, recover --clobber: %q: %s (stderr %q)", n, x.Path, why, tail(p.Stderr.String()))
	})
	if d := simrt.DiffSnap(other, unrelated()); d != "" {
		c.Fail("unrelated", "recover --clobber changed unrelated files: %s", d)
	}
	if f := s.FS.Lookup("/secret/hard"); f == nil || string(f.ReadAll()) != "hard link" {
		c.Fail("unrelated", "recover --clobber wrote through a hard link")
	}
	c.Nontriv = len(nodes) > 0 && len(before) > 1
	s.Mark(len(nodes), len(before), n)
}

func nodePaths(nodes []Node) (l []string) {
	for i := range nodes {
		l = append(l, destPath+"/"+nodes[i].Path)
	}
	return
}

func init() {
	register(&Check{ID: "C11", Run: runC11, Faults: true, Rule: "An oracle check is one object that recover has to restore or to name; a run counts if something could not be restored."})
	register(&Check{ID: "C12", Run: runC12, Rule: "An oracle check is one change recover made to a file system; a run counts if there was something to restore."})
	register(&Check{ID: "C13", Run: runC13, Rule: "An oracle check is one object in the destination; a run counts if there was something in it before the last recover."})
}
