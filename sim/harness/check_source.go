//go:build go1.22

package main

import (
	"fmt"
	"path"
	"strings"
	"syscall"

	simfuse "btrsim/shim/fuse"
	"btrsim/simrt"
)

// ------------------------------------------------------------- mounts

// startMount starts a mount and returns once it waits for something.
func (c *Ctx) startMount(w *World, slot int, db, dev, point string) (*simrt.Proc, *simfuse.Conn) {
	args := []string{"mount"}
	if dev != "" {
		args = append(args, dev)
	}
	args = append(args, point)
	p := c.S.Spawn(slot, fmt.Sprintf("mount%d", slot), append([]string{"btrfscue"}, dbArgs(db, w.bs, args...)...)...)
	c.S.Run()
	m := c.S.Fuse.At(point)
	if m == nil {
		return p, nil
	}
	return p, m.Conn.(*simfuse.Conn)
}

// browse sends random requests to a mount without looking at the answers.
func browse(k *simfuse.Conn, g simrt.Gen, steps int) {
	type file struct{ node, fh uint64 }
	nodes := []uint64{1}
	names := map[uint64][]string{1: {"rescue", "metadata"}}
	var files []file
	for i := 0; i < steps && k.Alive(); i++ {
		n := nodes[g.N(len(nodes))]
		name := "x"
		if l := names[n]; len(l) > 0 {
			name = l[g.N(len(l))]
		}
		switch g.N(12) {
		case 0, 1, 2:
			if e, st := k.Lookup(n, name); st == 0 && names[e.NodeId] == nil {
				nodes = append(nodes, e.NodeId)
				names[e.NodeId] = []string{}
			}
		case 3, 4:
			if fh, st := k.OpenDir(n); st == 0 {
				l, _ := k.ReadDir(n, fh, 0, 4096)
				for _, d := range l {
					if d.Name != "." && d.Name != ".." {
						names[n] = append(names[n], d.Name)
					}
				}
				k.ReleaseDir(n, fh)
			}
		case 5:
			k.GetAttr(n)
		case 6:
			if fh, st := k.Open(n, uint32(g.Pick(0, 0, syscall.O_WRONLY, syscall.O_RDWR, syscall.O_TRUNC, syscall.O_RDWR|syscall.O_APPEND))); st == 0 {
				files = append(files, file{n, fh})
			}
		case 7:
			if len(files) > 0 {
				f := files[g.N(len(files))]
				k.Read(f.node, f.fh, int64(g.N(10000)), 1+g.N(9000))
			}
		case 8:
			if len(files) > 0 {
				f := files[g.N(len(files))]
				k.Write(f.node, f.fh, int64(g.N(10000)), []byte("overwritten"))
			}
		case 9:
			k.Readlink(n)
			k.ListXAttr(n, 100)
		default:
			k.Modify([]string{"MKDIR", "MKNOD", "UNLINK", "RMDIR", "SYMLINK", "RENAME", "CREATE", "SETXATTR", "REMOVEXATTR", "TRUNCATE", "CHMOD"}[g.N(11)], n, name)
		}
	}
	for _, f := range files {
		k.Release(f.node, f.fh)
	}
}

// ------------------------------------------------------------- C01, C08

// guarded is a file that no command may touch.
type guarded struct {
	what  string
	ino   *simrt.Inode
	hash  uint64
	opens int
	at    []string // where it has to be found
}

func (c *Ctx) guard(what string, i *simrt.Inode, at ...string) *guarded {
	return &guarded{what, i, i.Hash(), i.WriteOpens, at}
}

// untouched fails if a guarded file was changed in any way.
func (c *Ctx) untouched(gs []*guarded, ps []*simrt.Proc, what string) {
	for _, x := range gs {
		for _, p := range ps {
			for _, e := range p.Log {
				if e.Mut && e.Err == 0 && e.Ino == x.ino {
					c.Fail("modified", "%s: %s %s the %s: %q %s", what, p.Name, e.Op, x.what, e.Path, e.Arg)
				}
			}
		}
		if x.ino.WriteOpens != x.opens {
			c.Fail("modified", "%s opened the %s for writing", what, x.what)
		}
		if x.ino.Hash() != x.hash {
			c.Fail("modified", "%s changed the %s", what, x.what)
		}
		for _, p := range x.at {
			if c.S.FS.Lookup(p) != x.ino {
				c.Fail("modified", "%s: the %s is not at %s any more", what, x.what, p)
			}
		}
		c.Evals++
	}
}

// place moves a file to a path, links it there, or has a symbolic link there.
// It returns the path to use on the command line and where the inode is.
func (c *Ctx) place(g simrt.Gen, i *simrt.Inode, old, p string) (arg string, at []string) {
	switch g.N(4) {
	case 0: // it is there
		c.S.FS.RemoveEntry(old)
		c.S.FS.PutInode(p, i)
		return p, []string{p}
	case 1: // another name of it is there
		c.S.FS.PutInode(p, i)
		return old, []string{old, p}
	case 2: // and is what the command is given
		c.S.FS.PutInode(p, i)
		return p, []string{old, p}
	}
	c.S.FS.PutLink(p, old)
	return []string{old, p}[g.N(2)], []string{old}
}

// touchWorld makes a world in which the files that have to be kept are in the
// way of what is recovered.
func (c *Ctx) touchWorld(g simrt.Gen) (w *World, m *Model, recs map[Rec][]byte, img, db string, gs []*guarded) {
	s := c.S
	w = c.treeWorld(s, WorldOpt{Orphans: true, Ops: 3 + g.N(8), BS: g.Pick(4096, 16384)})
	recs = c.gather(w, dbPath)
	if g.Chance(1, 2) {
		hostile(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	m = NewModel(recs, w.img)
	nodes, _ := m.Walk()
	s.FS.Mk(destPath, "dest")
	meta := s.FS.Lookup(dbPath)
	img, db = imgPath, dbPath
	ia, da := []string{img}, []string{db}
	spot := func() string {
		if len(nodes) == 0 {
			return ""
		}
		n := nodes[g.N(len(nodes))]
		p := destPath + "/" + n.Path
		if strings.IndexByte(p, 0) >= 0 || len(path.Base(p)) > 255 || len(p) > 3000 || s.FS.Lookup(p) != nil || !c.freePath(p) {
			return ""
		}
		return p
	}
	if p := spot(); p != "" && g.Chance(2, 3) {
		img, ia = c.place(g, w.img, img, p)
	}
	if p := spot(); p != "" && g.Chance(2, 3) {
		db, da = c.place(g, meta, db, p)
	}
	gs = []*guarded{c.guard("image", w.img, ia...), c.guard("metadata file", meta, da...)}
	return
}

// touchFaults draws faults for one command.
func (c *Ctx) touchFaults(g simrt.Gen, p *simrt.Proc, n int) {
	s := c.S
	if g.Chance(1, 3) {
		s.Faults = append(s.Faults, &simrt.Fault{Op: []string{"pwrite", "creat", "mkdir", "symlink", "truncate", "close", "lstat", "stat", "unlink", "open", "anyread", ""}[g.N(12)],
			Skip: g.N(3 + n), Count: g.Pick(1, 2, 5, -1), Err: []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS}[g.N(4)], Part: g.N(8)})
	}
	if g.Chance(1, 3) {
		p.KillSys = 1 + g.N(20+6*n)
		p.KillPart = g.N(9)
	}
}

// arguments of recover that lead to the destination
func destArg(g simrt.Gen, s *simrt.Sim) string {
	switch g.N(6) {
	case 1:
		s.FS.PutLink("/out/lr", "r")
		return "/out/lr"
	case 2:
		return destPath + "/"
	}
	return destPath
}

func runC01(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c01")
	w, m, _, img, db, gs := c.touchWorld(g)
	image := gs[:1]
	nodes, _ := m.Walk()
	steps := 1 + g.N(3)
	for i := 0; i < steps; i++ {
		s.Faults = nil
		var p *simrt.Proc
		var ps []*simrt.Proc
		what := ""
		kind := g.N(8)
		switch kind {
		case 0, 1, 2, 3:
			a := dbArgs(db, w.bs, "recover", img, destArg(g, s))
			if g.Chance(2, 3) {
				a = append(a, "--clobber")
			}
			p = s.Spawn(0, "recover", append([]string{"btrfscue"}, a...)...)
			what = strings.Join(a, " ")
		case 4, 5:
			to := db
			switch g.N(3) {
			case 0:
				to = "/m/new.db"
			case 1:
				to = path.Dir(img) + "/new.db"
			}
			bs := w.bs
			if g.Chance(1, 4) {
				bs = g.Pick(4096, 8192, 65536)
			}
			p = s.Spawn(0, "recon", append([]string{"btrfscue"}, dbArgs(to, bs, "recon", img, "--id", w.FSID())...)...)
			what = "recon"
		case 6:
			p = s.Spawn(0, "identify", "btrfscue", "identify", img, "--block-size", u(w.bs), "--min-blocks", u(1+g.N(50)), "--max-blocks", u(60), "--progress=false")
			what = "identify"
		case 7:
			p = s.Spawn(0, "mount", append([]string{"btrfscue"}, dbArgs(db, w.bs, "mount", img, "/mnt")...)...)
			what = "mount"
		}
		c.touchFaults(g, p, len(nodes))
		s.Run()
		ps = append(ps, p)
		if f := s.Fuse.At("/mnt"); f != nil && !f.Stale {
			k := f.Conn.(*simfuse.Conn)
			for j := 1 + g.N(2); j > 0; j-- {
				c.Go("client", func() { browse(k, g, 30) })
			}
			s.Run()
			p.Signal(15)
			s.Run()
			if !p.Exited {
				p.Kill("SIGKILL")
				s.Run()
			}
			if f := s.Fuse.At("/mnt"); f != nil {
				s.Fuse.Unmount(f)
			}
		}
		if p.Killed == "" && kind != 7 {
			c.MustEnd(p, what)
		}
		c.untouched(image, ps, what)
		if p.Killed == "" {
			c.Count("ended_" + p.Name)
		} else {
			c.Count("killed_" + p.Name)
		}
		s.Mark(kind, p.Code, p.Killed != "", img != imgPath)
		if db != dbPath || kind == 4 || kind == 5 {
			// recon may have changed the metadata, which is not the point here.
			if f := s.FS.Lookup(db); f == nil || f.IsLink() {
				break
			}
		}
	}
	c.Nontriv = len(nodes) > 0
}

func init() {
	register(&Check{ID: "C01", Run: runC01, Rule: "An oracle check is one comparison of the image (bytes, opens for writing, directory entries, changing calls) after a command; a run counts if there was something to recover."})
	register(&Check{ID: "C08", Run: runC08, Rule: "An oracle check is one comparison of the metadata file after a command, or of a concurrent command with the same one run alone; a run counts if there was something to recover."})
}

// missing checks that no command creates metadata that is not there.
func (c *Ctx) missing(g simrt.Gen, w *World) {
	s := c.S
	for _, a := range readCommands("/m/none/../absent.db", w.bs) {
		s.FS.Mk("/m/none", "")
		if !g.Chance(1, 2) {
			continue
		}
		if g.Chance(1, 2) {
			s.FS.PutLink("/m/absent.db", "target.db")
		}
		p := c.Exec("missing", a...)
		what := a[0] + " without metadata"
		c.MustEnd(p, what)
		if p.Code == 0 || p.Stderr.Len() == 0 {
			c.Fail("missing", "%s: %s, stderr %q", what, p.Outcome(), tail(p.Stderr.String()))
		}
		for _, f := range []string{"/m/absent.db", "/m/target.db", "/m/none/absent.db"} {
			if i := s.FS.Lookup(f); i != nil && i.IsReg() {
				c.Fail("created", "%s created %s", what, f)
			}
		}
		c.Evals++
	}
}

type reader struct {
	kind string
	args []string // with %d for the slot
	dest string
	out  string
	err  string
	code int
	tree map[string]string
}

func runC08(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c08")
	if g.Chance(1, 2) {
		c.touchReaders(g)
	} else {
		c.concurrentReaders(g)
	}
	_ = s
}

// touchReaders runs commands, with faults and kills, on metadata that is in the
// way.
func (c *Ctx) touchReaders(g simrt.Gen) {
	s := c.S
	w, m, _, img, db, gs := c.touchWorld(g)
	nodes, _ := m.Walk()
	for i := 1 + g.N(3); i > 0; i-- {
		s.Faults = nil
		var a []string
		switch g.N(8) {
		case 0:
			a = dbArgs(db, w.bs, "ls", "/", "--recursive")
		case 1:
			a = dbArgs(db, w.bs, "dump-index")
		case 2:
			a = dbArgs(db, w.bs, "mount", img, "/mnt")
		case 3:
			a = dbArgs(db, w.bs, "mount", "/mnt")
		default:
			a = dbArgs(db, w.bs, "recover", img, destArg(g, s))
			if g.Chance(2, 3) {
				a = append(a, "--clobber")
			}
		}
		p := s.Spawn(0, a[0], append([]string{"btrfscue"}, a...)...)
		c.touchFaults(g, p, len(nodes))
		s.Run()
		if f := s.Fuse.At("/mnt"); f != nil && !f.Stale {
			k := f.Conn.(*simfuse.Conn)
			c.Go("client", func() { browse(k, g, 40) })
			s.Run()
			p.Signal(2)
			s.Run()
			if !p.Exited {
				p.Kill("SIGKILL")
				s.Run()
			}
			if f := s.Fuse.At("/mnt"); f != nil {
				s.Fuse.Unmount(f)
			}
		}
		if p.Killed == "" && a[0] != "mount" {
			c.MustEnd(p, a[0])
		}
		c.untouched(gs, []*simrt.Proc{p}, strings.Join(a, " "))
		c.Count("ran_" + a[0])
		s.Mark(a[0], p.Code, p.Killed != "")
	}
	s.Faults = nil
	if g.Chance(1, 4) {
		c.missing(g, w)
	}
	c.Nontriv = len(nodes) > 0
}

// concurrentReaders compares commands that run at the same time with the same
// ones run alone.
func (c *Ctx) concurrentReaders(g simrt.Gen) {
	s := c.S
	w := c.treeWorld(s, WorldOpt{Orphans: true, Ops: 3 + g.N(8), BS: g.Pick(4096, 16384)})
	recs := c.gather(w, dbPath)
	if g.Chance(1, 4) {
		hostile(g, recs)
		c.rewrite(w, dbPath, recs)
	}
	m := NewModel(recs, w.img)
	nodes, _ := m.Walk()
	gs := []*guarded{c.guard("image", w.img, imgPath), c.guard("metadata file", s.FS.Lookup(dbPath), dbPath)}
	all := m.paths()
	n := 2 + g.N(3)
	mount := -1
	var rs []*reader
	for i := 0; i < n; i++ {
		r := &reader{}
		switch g.N(5) {
		case 0:
			r.args = dbArgs(dbPath, w.bs, "dump-index")
		case 1:
			r.args = dbArgs(dbPath, w.bs, "ls", "/", "--recursive")
		case 2:
			p := "/nope"
			if len(all) > 0 {
				p = "/" + all[g.N(len(all))]
			}
			r.args = dbArgs(dbPath, w.bs, "ls", "--inode", p)
		case 3:
			if mount < 0 {
				mount = i
				r.args = dbArgs(dbPath, w.bs, "mount", imgPath, "/mnt")
				break
			}
			fallthrough
		case 4:
			r.dest = "/out/c" + u(i)
			r.args = dbArgs(dbPath, w.bs, "recover", imgPath, r.dest)
		}
		r.kind = r.args[0]
		rs = append(rs, r)
	}
	// Alone.
	for i, r := range rs {
		if r.kind == "mount" {
			continue
		}
		p := s.Spawn(i, r.kind, append([]string{"btrfscue"}, r.args...)...)
		s.Run()
		c.MustEnd(p, "alone")
		r.out, r.err, r.code = p.Stdout.String(), p.Stderr.String(), p.Code
		if r.dest != "" {
			if d := s.FS.Lookup(r.dest); d != nil {
				r.tree = noInodes(s.FS.Snapshot(d))
			}
			s.FS.RemoveEntry(r.dest)
		}
	}
	// Together.
	s.ChooseSched()
	ps := make([]*simrt.Proc, n)
	for i, r := range rs {
		ps[i] = s.Spawn(i, fmt.Sprint(r.kind, i), append([]string{"btrfscue"}, r.args...)...)
	}
	victim := -1
	if g.Chance(1, 4) {
		victim = g.N(n)
		ps[victim].KillSys = 1 + g.N(60)
		ps[victim].KillPart = g.N(9)
	}
	if g.Chance(1, 4) {
		s.Latency = int64(g.Pick(1e6, 20e3, 50e6))
	}
	s.Run()
	var names []string
	for _, p := range ps {
		names = append(names, p.Name)
	}
	what := strings.Join(names, " + ")
	for i, r := range rs {
		p := ps[i]
		if p.Killed != "" {
			continue
		}
		if r.kind == "mount" {
			if p.Exited {
				c.Fail("status", "%s: %s: %s, stderr %q", what, p.Name, p.Outcome(), tail(p.Stderr.String()))
			}
			if s.Fuse.At("/mnt") == nil {
				c.Fail("blocked", "%s: %s does not get to mount: %s", what, p.Name, s.Blocked(p))
			}
			p.Signal(15)
			s.Run()
			if p.Killed == "" {
				c.MustSucceed(p, "mount among "+what)
			}
			continue
		}
		c.MustEnd(p, what)
		if p.Code != r.code {
			c.Fail("differs", "%s: %s: exit %d, alone %d; stderr %q", what, p.Name, p.Code, r.code, tail(p.Stderr.String()))
		}
		if p.Stdout.String() != r.out {
			c.Fail("differs", "%s: %s: standard output differs from when run alone", what, p.Name)
		}
		if p.Stderr.String() != r.err {
			c.Fail("differs", "%s: %s: standard error is %q, alone %q", what, p.Name, tail(p.Stderr.String()), tail(r.err))
		}
		if r.dest != "" {
			d := s.FS.Lookup(r.dest)
			var t map[string]string
			if d != nil {
				t = noInodes(s.FS.Snapshot(d))
			}
			if x := simrt.DiffSnap(r.tree, t); x != "" {
				c.Fail("differs", "%s: %s restored something else than alone: %s", what, p.Name, x)
			}
		}
		c.Evals++
	}
	c.untouched(gs, ps, what)
	// Nobody is blocked by what is left.
	p := c.Exec("after", dbArgs(dbPath, w.bs, "dump-index")...)
	c.MustSucceed(p, "after "+what)
	c.Nontriv = len(nodes) > 0
	s.Mark(names, victim >= 0)
	c.Count("concurrent")
}

// noInodes drops the inode numbers from a snapshot.
func noInodes(m map[string]string) map[string]string {
	for k, v := range m {
		if strings.HasPrefix(v, "file ") {
			f := strings.Fields(v)
			m[k] = strings.Join(append([]string{"file"}, f[2:]...), " ")
		}
	}
	return m
}
