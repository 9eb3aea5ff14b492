//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"syscall"

	"btrsim/simrt"
)

// fdLimit is how many files a command may have open, whatever it works on.
const fdLimit = 64

// plenty adds more files, links and directories, and deeper ones, than a
// command may have open.
func plenty(g simrt.Gen, recs map[Rec][]byte) {
	ino := uint64(1 << 30)
	dir := uint64(256)
	mkdir := func(in uint64, name string) uint64 {
		ino++
		it := inodeT{mode: 040755, nlink: 1}
		setData(recs, Rec{oFS, Key{ino, tInode, 0}, 6}, it.bytes())
		addEntry(recs, oFS, in, dirItemT{loc: Key{ino, tInode, 0}, ft: ftDir, name: name})
		return ino
	}
	if g.Chance(1, 2) {
		for i := 70 + g.N(30); i > 0; i-- {
			dir = mkdir(dir, "d")
		}
	}
	if g.Chance(2, 3) {
		many := mkdir(dir, "many")
		for i := 70 + g.N(60); i > 0; i-- {
			ino++
			name := fmt.Sprint("n", i)
			switch g.N(8) {
			case 0:
				addLink(recs, oFS, many, ino, name, "target")
			case 1:
				mkdir(many, name)
			default:
				addFile(recs, oFS, many, ino, name, strings.Repeat("x", g.N(50)))
			}
		}
	} else {
		ino++
		addFile(recs, oFS, dir, ino, "last", "at the end")
	}
}

// runC31: open files and goroutines do not add up.
func runC31(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c31")
	if g.Chance(1, 2) {
		c.limitMount(g, s)
		return
	}
	w := c.treeWorld(s, WorldOpt{Ops: 3 + g.N(8), Orphans: true, BS: g.Pick(4096, 16384)})
	recs := c.gather(w, dbPath)
	plenty(g, recs)
	c.rewrite(w, dbPath, recs)
	m := NewModel(recs, w.img)
	nodes, _ := m.Walk()
	s.FS.Mk(destPath, "dest")
	run := func(name string, args ...string) *simrt.Proc {
		p := s.Spawn(0, name, append([]string{"btrfscue"}, args...)...)
		p.FDLimit = fdLimit
		s.Run()
		c.MustEnd(p, "with a limit of open files")
		if n := s.Injected["fd_limit"]; n > 0 {
			c.Fail("files", "%s of %d objects needs more than %d open files (stderr %q)", name, len(nodes), fdLimit, tail(p.Stderr.String()))
		}
		c.Evals++
		return p
	}
	rounds := g.N(3)
	for i := 0; i < rounds; i++ {
		// Failing calls: nothing that was opened may stay open.
		s.Faults = append(s.Faults, &simrt.Fault{Tag: []string{"dest", "dest", "image"}[g.N(3)], Op: []string{"pwrite", "truncate", "close", "symlink", "mkdir", "unlink", "anyread", "fsync"}[g.N(8)],
			Count: -1, Err: []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[g.N(3)], Part: g.N(2)})
		extra := []string{"--clobber"}
		if g.Chance(1, 4) {
			extra = nil
		}
		p := run("recover", c.recoverArgs(w, destPath, extra...)...)
		if p.Code != 0 {
			c.Fail("status", "recover with failing files: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
		}
		s.Faults = nil
	}
	p := run("recover", c.recoverArgs(w, destPath, "--clobber")...)
	if p.Code != 0 {
		c.Fail("status", "recover: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
	}
	c.compareTree(w, m, s.FS.Lookup(destPath), nil, func(n *Node, why string) {
		c.Fail("tree", "recover with a limit of %d open files: %q: %s (stderr %q)", fdLimit, n.Path, why, tail(p.Stderr.String()))
	})
	for _, a := range [][]string{{"ls", "--recursive"}, {"dump-index"}, {"recon", imgPath, "--id", w.FSID()}} {
		if g.Chance(1, 3) {
			if p := run(a[0], dbArgs(dbPath, w.bs, a...)...); p.Code != 0 {
				c.Fail("status", "%s: %s; stderr %q", a[0], p.Outcome(), tail(p.Stderr.String()))
			}
		}
	}
	c.Nontriv = len(nodes) > fdLimit
	s.Mark("recover", rounds, bucket(len(nodes)), bucket(p.MaxFDs))
}

func (c *Ctx) limitMount(g simrt.Gen, s *simrt.Sim) {
	w, m := c.mountWorld(g, s, WorldOpt{Ops: 3 + g.N(6), Xattrs: true})
	db := s.FS.Lookup(dbPath)
	p, k := c.mounted(w, 0, imgPath)
	p.FDLimit = fdLimit
	files, tasks := p.FDs(), p.Tasks()
	t := c.newTree(k, m, w, db)
	clients := 1 + g.N(3)
	done := make([]bool, clients)
	if g.Chance(1, 2) {
		s.ChooseSched()
	}
	opens := 0
	for i := 0; i < clients; i++ {
		i := i
		c.Go("client"+u(i), func() {
			g := c.Gen("client" + u(i))
			for j := 8 + g.N(g.Pick(8, 30)); j > 0; j-- {
				left := 3 + g.N(20)
				switch g.N(4) {
				case 0:
					t.walk(t.nodes[0], g, &left, 0)
				case 1:
					t.client(g, 5+g.N(10), true)
				default:
					var f *mnode
					if g.Chance(2, 3) {
						f = t.lookup(t.nodes[0], "metadata")
					} else {
						f = t.pick(g, (*mnode).isFile)
					}
					if f == nil {
						continue
					}
					f.pins++
					for x := 1 + g.N(9); x > 0; x-- {
						opens++
						h := t.openFile(f, 0)
						if h == nil {
							continue
						}
						h.users++
						if g.Chance(1, 2) {
							t.read(h, uint64(g.N(5000)), 1+g.N(5000))
						}
						if h.users--; h.users == 0 && !h.gone {
							t.release(h)
						}
					}
					f.pins--
				}
			}
			done[i] = true
			for _, d := range done {
				if !d {
					return
				}
			}
			t.closeAll()
		})
	}
	s.Run()
	c.Settle()
	if p.Exited {
		c.Fail("exited", "mount ended while serving: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
	}
	c.finished(p, done, u(clients)+" clients")
	if n := s.Injected["fd_limit"]; n > 0 {
		c.Fail("files", "the mount needs more than %d open files for %d clients", fdLimit, clients)
	}
	if n := p.FDs(); n > files+4 {
		c.Fail("files", "the mount had %d files open at first and %d after %d requests, although no client has any open", files, n, t.done)
	}
	if n := p.Tasks(); n > tasks+16 {
		c.Fail("goroutines", "the mount had %d goroutines at first and %d after %d requests: %s", tasks, n, t.done, s.Blocked(p))
	}
	c.Evals += 2
	c.stopMount(p, 15)
	c.Nontriv = opens > fdLimit
	s.Mark("mount", clients, bucket(t.done), bucket(opens))
}

func init() {
	register(&Check{ID: "C31", Run: runC31, MinRuns: 200, Faults: true,
		Rule:   "An oracle check is one command that had to do its work with at most 64 open files, one mount compared with how many files and goroutines it had before it served requests, or one answer or restored object as for C10 and C15.",
		Assume: []string{"A descriptor that is not closed stays open (the garbage collector may close it some time, and need not)."}})
}
