//go:build go1.22

package main

import (
	"fmt"
	"path"
	"strings"

	"btrsim/simrt"
)

// placedObj is something another process has created in the destination.
type placedObj struct {
	ino  *simrt.Inode
	kind string
	hash uint64
}

// runC29: others use the destination while recover runs.
func runC29(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c29")
	w := c.treeWorld(s, WorldOpt{Orphans: true, Special: true, Ops: 3 + g.N(8), BS: g.Pick(4096, 16384, 0), BigFiles: g.Chance(1, 6)})
	recs := c.gather(w, dbPath)
	if g.Chance(1, 8) {
		wide(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	m := NewModel(recs, w.img)
	nodes, _ := m.Walk()
	s.FS.Put("/secret/file", "", []byte("secret"))
	s.FS.Put("/secret/hard", "", []byte("hard link"))
	paths := map[string]bool{}
	for i := range nodes {
		paths[destPath+"/"+nodes[i].Path] = true
	}
	// What --clobber may replace. A subvolume whose place in the tree is taken
	// comes to the top.
	known := func(p string) bool {
		return paths[p] || strings.HasPrefix(p, destPath+"/subvol_")
	}
	if g.Chance(1, 2) {
		s.FS.Mk(destPath, "dest")
		if g.Chance(1, 3) {
			c.clutter(g, nodes, 1+g.N(4))
		}
	}
	dest := s.FS.Lookup(destPath)
	before := map[string]string{}
	if dest != nil {
		before = s.FS.Snapshot(dest)
	}
	s.ChooseSched()
	s.Latency = int64(g.Pick(20e3, 1e3, 1e6))
	if g.Chance(1, 4) {
		c.okFaults("image")
	}
	n := 1 + g.N(4)
	anyClobber := g.Chance(1, 4)
	var ps []*simrt.Proc
	var clob []bool
	for i := 0; i < n; i++ {
		var extra []string
		x := anyClobber && g.Chance(1, 2)
		if x {
			extra = append(extra, "--clobber")
		}
		clob = append(clob, x)
		ps = append(ps, s.Spawn(i, fmt.Sprintf("recover%d", i), append([]string{"btrfscue"}, c.recoverArgs(w, destPath, extra...)...)...))
	}
	anyClobber = false
	for _, x := range clob {
		anyClobber = anyClobber || x
	}
	running := func() bool {
		for _, p := range ps {
			if !p.Exited {
				return true
			}
		}
		return false
	}

	// Another process.
	objs := map[string]*placedObj{}
	g2 := c.Gen("other")
	create := func(p string) {
		if s.FS.Lookup(p) != nil || len(objs) > 40 || !strings.HasPrefix(p, destPath+"/") {
			return
		}
		if d := s.FS.Lookup(path.Dir(p)); d == nil || !d.IsDir() {
			return
		}
		o := &placedObj{}
		switch g2.N(5) {
		case 0, 1:
			b := make([]byte, g2.N(g2.Pick(1, 100, 9000)))
			simrt.FillBytes(b, g2.Seed64())
			o.kind = "file"
			o.ino = s.FS.Put(p, "", b)
		case 2:
			t := []string{"/secret", "/secret/file", "/secret/new", "../../secret", ".", "loop", "/img/disk.img", "/m/meta.db"}[g2.N(8)]
			o.kind = "link"
			o.ino = s.FS.PutLink(p, t)
		case 3:
			o.kind = "dir"
			o.ino = s.FS.Mk(p, "")
		case 4:
			o.kind = "hard"
			o.ino = s.FS.Lookup("/secret/hard")
			s.FS.PutInode(p, o.ino)
		}
		if o.kind != "dir" {
			o.hash = o.ino.Hash()
		}
		objs[p] = o
		c.Count("created_" + o.kind)
	}
	if g.Chance(2, 3) {
		left, one := 1+g.N(4), g.Pick(1, 4, 20)
		s.OnProbe = func(p *simrt.Proc, dir *simrt.Inode, name string) {
			if left > 0 && g2.Chance(1, one) {
				left--
				create(s.FS.PathOf(dir) + "/" + name)
			}
		}
	}
	if g.Chance(1, 2) && len(nodes) > 0 {
		c.Go("other", func() {
			for i := 1 + g2.N(5); i > 0 && running(); i-- {
				for j := g2.N(g2.Pick(2, 30, 300)); j > 0; j-- {
					simrt.Enter("wait")
				}
				p := destPath + "/unrelated" + u(g2.N(9))
				if g2.Chance(5, 6) {
					p = destPath + "/" + nodes[g2.N(len(nodes))].Path
				}
				create(p)
			}
		})
	}
	victim := -1
	if n > 1 && g.Chance(1, 4) {
		victim = g.N(n)
		ps[victim].KillSys = 1 + g.N(20+8*len(nodes))
		ps[victim].KillPart = g.N(9)
	}
	s.Run()
	c.Settle()
	s.OnProbe, s.Faults = nil, nil
	what := fmt.Sprintf("%d recovers", n)
	if anyClobber {
		what += ", some with --clobber"
	}
	for _, p := range ps {
		if !p.Exited {
			c.Fail("hang", "%s: %s does not end: %s", what, p.Name, s.Blocked(p))
		}
		if p.Crash != "" || p.Killed == "" && p.Code != 0 {
			c.Fail("status", "%s: %s: %s; stderr %q", what, p.Name, p.Outcome(), tail(p.Stderr.String()))
		}
	}
	killed := victim >= 0 && ps[victim].Killed != ""
	dest = s.FS.Lookup(destPath)

	// What the others created is as they left it.
	for p, o := range objs {
		if o.kind != "dir" && o.ino.Hash() != o.hash {
			c.Fail("written", "%s: %q (%s), created by another process in the meantime, was written to", what, p, o.kind)
		}
		if anyClobber && known(p) {
			continue
		}
		if s.FS.Lookup(p) != o.ino {
			c.Fail("replaced", "%s: %q (%s), created by another process in the meantime, was replaced or removed", what, p, o.kind)
		}
		c.Evals++
	}
	if dest != nil {
		after := s.FS.Snapshot(dest)
		for q, v := range before {
			if (!anyClobber || !known(destPath+strings.TrimSuffix(q, "/"))) && after[q] != v {
				c.Fail("overwritten", "%s: %q was %q and is %q now", what, q, v, after[q])
			}
			c.Evals++
		}
	}
	if f := s.FS.Lookup("/secret/file"); f == nil || string(f.ReadAll()) != "secret" {
		c.Fail("outside", "%s: wrote through a symbolic link", what)
	}
	if f := s.FS.Lookup("/secret/hard"); f == nil || string(f.ReadAll()) != "hard link" {
		c.Fail("outside", "%s: wrote through a hard link", what)
	}
	if d := s.FS.Lookup("/secret"); len(d.Entries()) != 2 {
		c.Fail("outside", "%s: created something outside", what)
	}
	if !killed && dest != nil {
		// Everything else is complete, or each of them says that it is not.
		var names []map[string]bool
		for _, p := range ps {
			names = append(names, named(p.Stderr.String(), nodePaths(nodes)))
		}
		wrong := 0
		c.compareTree(w, m, dest, func(x *Node) bool {
			self := destPath + "/" + x.Path
			for p := self; len(p) > len(destPath); p = path.Dir(p) {
				there := func(dir bool) bool { // something else is there
					return !dir || !paths[p] || p == self && x.FT != ftDir
				}
				if o := objs[p]; o != nil && s.FS.Lookup(p) == o.ino && there(o.kind == "dir") {
					return true
				}
				q := strings.TrimPrefix(p, destPath)
				if _, ok := before[q]; ok && !(anyClobber && known(p)) {
					return true
				}
				if _, ok := before[q+"/"]; ok && there(true) {
					return true
				}
			}
			return false
		}, func(x *Node, why string) {
			if strings.HasPrefix(x.Path, "subvol_") {
				return // also if what leads to it was in the way
			}
			if why == "not in the file system" {
				c.Fail("extra", "%s: %q: %s", what, x.Path, why)
			}
			wrong++
			for i := range ps {
				if !excused(destPath+"/"+x.Path, names[i]) {
					c.Fail("silent", "%s: %q: %s, but %s does not say so (stderr %q)", what, x.Path, why, ps[i].Name, tail(ps[i].Stderr.String()))
				}
			}
		})
		c.Deep = c.Deep || wrong > 0
	}
	c.Nontriv = len(nodes) > 0 && (n > 1 || len(objs) > 0)
	kinds := map[string]int{}
	for _, o := range objs {
		kinds[o.kind]++
	}
	s.Mark(n, anyClobber, killed, kinds["file"], kinds["link"], kinds["dir"], kinds["hard"], bucket(len(nodes)), bucket(len(before)))
}

// runC30: restored files take the room of their data.
func runC30(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c30")
	w := c.treeWorld(s, WorldOpt{Orphans: true, BigFiles: g.Chance(1, 3), BS: g.Pick(0, 4096, 16384)})
	recs := c.gather(w, dbPath)
	if g.Chance(1, 4) {
		wide(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	if g.Chance(1, 4) {
		c.vast(g, w, recs)
	}
	m := NewModel(recs, w.img)
	nodes, _ := m.Walk()
	// The blocks of the destination that hold data.
	const block = 4096
	data := map[string]map[int64]bool{}
	need := int64(0)
	for i := range nodes {
		n := &nodes[i]
		if n.FT != ftReg {
			continue
		}
		it, ok := m.Inode(n.Owner, n.Ino)
		segs, _ := m.Segments(n.Owner, n.Ino)
		l := map[int64]bool{}
		for _, x := range segs {
			if x.kind == sZero {
				continue
			}
			to := x.to
			if ok && to > it.size {
				to = it.size
			}
			for p := x.from / block; p*block < to; p++ {
				l[int64(p)] = true
			}
		}
		data[n.Path] = l
		need += int64(len(l)) * block
	}
	exact := g.Chance(2, 3)
	s.FS.Mk(destPath, "dest")
	if exact {
		// Directories and symbolic links need a little, too.
		s.FS.Free = need + block
	}
	if g.Chance(1, 4) {
		c.okFaults("image")
	}
	var extra []string
	if g.Chance(1, 4) {
		extra = append(extra, "--clobber")
	}
	p := c.Exec("recover", c.recoverArgs(w, destPath, extra...)...)
	s.Faults, s.FS.Free = nil, -1
	what := "plenty of room"
	if exact {
		what = fmt.Sprintf("room for the %d bytes of data", need)
	}
	c.MustSucceed(p, what)
	dest := s.FS.Lookup(destPath)
	c.compareTree(w, m, dest, nil, func(n *Node, why string) {
		c.Fail("room", "recover, %s: %q: %s (stderr %q)", what, n.Path, why, tail(p.Stderr.String()))
	})
	holes := 0
	for q, l := range data {
		f := below(dest, q)
		if f == nil || !f.IsReg() {
			continue
		}
		if f.Size/block > int64(len(l)) {
			holes++
		}
		for _, b := range f.PageNumbers() {
			if !l[b] {
				c.Fail("hole", "%q takes room at offset %d, where it has no data (%d blocks of data, %d blocks in use)", q, b*block, len(l), len(f.PageNumbers()))
			}
		}
		c.Evals++
	}
	c.Nontriv = holes > 0
	s.Mark(bucket(len(nodes)), bucket(holes), bucket(int(need/block)), exact, len(extra))
}

func init() {
	register(&Check{ID: "C29", Run: runC29, MinRuns: 200, Faults: true,
		Rule:   "An oracle check is one object that another process created in the destination, or that was there before, compared with what it was, or one object of the reference tree compared with what one to four concurrent recovers left, each of which has to name what it did not restore.",
		Assume: []string{"Other processes only create new entries (O_EXCL, mkdir, symlink, link); they do not remove or replace directories that recover has made."}})
	register(&Check{ID: "C30", Run: runC30, MinRuns: 200,
		Rule:   "An oracle check is one restored file: compared with the reference tree, on a destination with just enough room for the data, and the blocks it takes compared with the blocks of its data.",
		Assume: []string{"The destination keeps holes (as all common file systems do) and allocates blocks of 4096 bytes; directories, symbolic links and inodes take no room."}})
}
