//go:build go1.22

package main

import (
	"fmt"
	"strings"

	simfuse "btrsim/shim/fuse"
	"btrsim/simrt"
)

// runC18: signals, failures and the end of mount.
func runC18(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c18")
	w, m := c.mountWorld(g, s, WorldOpt{Ops: 3 + g.N(6), NoSubs: g.Chance(1, 2)})
	db := s.FS.Lookup(dbPath)
	hash := db.Hash()
	if g.Chance(3, 4) {
		s.ChooseSched()
	}
	s.Latency = int64(g.Pick(20e3, 1e3, 1e6, 10e6))
	args := []string{"mount"}
	if g.Chance(5, 6) {
		args = append(args, imgPath)
	} else {
		m.img = nil
	}
	point := "/mnt"
	refused := ""
	if g.Chance(1, 6) {
		switch g.N(4) {
		case 0:
			s.Fuse.MountErr, refused = "fusermount exited with code 256", "mount"
		case 1:
			s.Fuse.MountErr, refused = "no FUSE mount helper found", "mount"
		case 2:
			point, refused = "/missing", "point"
		case 3:
			point, refused = imgPath, "point"
		}
	}
	verbose := g.Chance(1, 2)
	args = dbArgs(dbPath, w.bs, append(args, point)...)
	if verbose {
		args = append(args, "--verbose")
	}
	switch {
	case refused != "":
	case g.Chance(1, 8):
		s.Fuse.UnmountErrs = g.Pick(-1, 5, 7, 100)
	case g.Chance(1, 6):
		s.Fuse.UnmountErrs = g.Pick(1, 2, 4)
	}
	always := s.Fuse.UnmountErrs >= 0 && s.Fuse.UnmountErrs < 5

	p := s.Spawn(0, "mount0", append([]string{"btrfscue"}, args...)...)
	announced := func() bool {
		return strings.Contains(p.Stdout.String()+p.Stderr.String(), "mounted rescue FS on")
	}
	mounted := func() bool { return s.Fuse.Mounts > 0 }

	// When the signals arrive.
	n := g.Pick(1, 1, 1, 2, 3)
	early := g.Chance(1, 4)
	quiet := g.Chance(1, 3) // first wait for the clients
	var t *mtree
	sent, sentMounted, busy := 0, false, false
	clients := g.N(4)
	if g.Chance(1, 6) {
		clients = 0
	}
	done := make([]bool, clients)
	settled := func() bool {
		for _, d := range done {
			if !d {
				return false
			}
		}
		return true
	}
	c.Go("signals", func() {
		g := c.Gen("signals")
		for i := 0; i < n; i++ {
			if i == 0 && !early {
				switch {
				case verbose && g.Chance(1, 2):
					simrt.Block("announcement", func() bool { return announced() || p.Exited })
				default:
					simrt.Block("mount", func() bool { return mounted() || p.Exited })
				}
				if quiet {
					simrt.Block("clients", func() bool { return settled() || p.Exited })
				}
				if g.Chance(1, 6) {
					simrt.Sleep(int64(g.Pick(1, 60, 86400)) * 1e9)
					if p.Exited && refused == "" {
						c.Fail("exited", "mount ended without a signal: %s; stderr %q", p.Outcome(), tail(p.Stderr.String()))
					}
				}
			}
			for j := g.N(g.Pick(1, 3, 20, 200)); j > 0; j-- {
				simrt.Enter("wait")
			}
			if g.Chance(1, 4) {
				simrt.Sleep(int64(g.N(g.Pick(10, 200))) * 1e6)
			}
			if p.Exited {
				return
			}
			if sent == 0 {
				sentMounted = mounted()
				if t != nil {
					t.stopping = true
				}
				if sentMounted && refused == "" {
					k := s.Fuse.At(point)
					if k != nil && (k.Conn.(*simfuse.Conn).OpenFiles > 0 || k.Conn.(*simfuse.Conn).Waiting() > 0) {
						busy = true
					}
				}
			}
			sent++
			p.Signal(g.Pick(2, 15))
		}
	})
	for i := 0; i < clients && refused == ""; i++ {
		i := i
		c.Go("client"+u(i), func() {
			g := c.Gen("client" + u(i))
			simrt.Block("mount", func() bool { return mounted() || p.Exited })
			if k := s.Fuse.At(point); k != nil && !p.Exited {
				if t == nil {
					t = c.newTree(k.Conn.(*simfuse.Conn), m, w, db)
					t.stopping = sent > 0
				}
				for j := g.N(6); j >= 0 && t.k.Alive(); j-- {
					if g.Chance(1, 2) {
						simrt.Sleep(int64(g.N(40)) * 1e6)
					}
					t.client(g, 1+g.N(6), false)
				}
			}
			done[i] = true
			for j := range done {
				if !done[j] {
					return
				}
			}
			if t != nil && g.Chance(3, 4) {
				t.closeAll()
			}
		})
	}
	s.Run()
	c.Settle()
	out := p.Stderr.String()
	if refused != "" {
		if !p.Exited {
			c.Fail("hang", "mount does not end although the %s was refused; %s", refused, s.Blocked(p))
		}
		if s.Fuse.Mounts > 0 {
			c.Fail("mounted", "mounted on a bad mount point")
		}
		if p.Killed == "" {
			if p.Crash != "" || p.Code == 0 {
				c.Fail("status", "mounting failed: %s", p.Outcome())
			}
			if !strings.Contains(out, "btrfscue:") {
				c.Fail("status", "mounting failed without an error message; stderr %q", tail(out))
			}
		} else if sent == 0 {
			c.Fail("crash", "%s", p.Outcome())
		}
	} else {
		if sent == 0 {
			c.Fail("exited", "mount ended without a signal: %s; stderr %q", p.Outcome(), tail(out))
		}
		if !p.Exited {
			c.Fail("hang", "a signal does not end mount; %s", s.Blocked(p))
		}
		c.finished(p, done, u(clients)+" clients during unmounting")
		if p.Crash != "" {
			c.Fail("crash", "%s", p.Outcome())
		}
		if s.Fuse.Unmounts > 1 || s.Fuse.Mounts > 1 {
			c.Fail("unmounted", "%d mounts, %d unmounts", s.Fuse.Mounts, s.Fuse.Unmounts)
		}
		still := s.Fuse.At(point) != nil
		switch {
		case p.Killed != "":
			// Once unmounted, nothing is left to do, and the default action of
			// a further signal is as good an end as any.
			if (sentMounted || announced() || still) && (still || s.Fuse.Unmounts == 0) {
				c.Fail("killed", "a signal after mounting killed mount: %s, still mounted: %t", p.Outcome(), still)
			}
		case s.Fuse.Mounts == 0:
			if sent == 0 || sentMounted {
				c.Fail("exited", "never mounted: %s", p.Outcome())
			}
		case !still:
			if p.Code != 0 {
				c.Fail("status", "unmounted, but %s; stderr %q", p.Outcome(), tail(out))
			}
		default:
			if p.Code == 0 {
				c.Fail("status", "unmounting failed, but mount ends with status 0; stderr %q", tail(out))
			}
			if !strings.Contains(out, "btrfscue:") {
				c.Fail("status", "unmounting failed without an error message")
			}
			if s.Fuse.FailedUnmounts == 0 {
				c.Fail("unmounted", "mount ended without unmounting: %s; stderr %q", p.Outcome(), tail(out))
			}
			if always && !busy && clients == 0 {
				c.Fail("unmounted", "not unmounted although the mount is not in use; stderr %q", tail(out))
			}
		}
	}
	c.Evals++
	if db.Hash() != hash {
		c.Fail("modified", "the metadata file changed")
	}
	// The metadata file is free again.
	s.Fuse.MountErr, s.Fuse.UnmountErrs = "", 0
	s.Latency = 20e3
	q := c.Exec("recon", append(w.reconArgs(dbPath, imgPath), "--append")...)
	c.MustSucceed(q, "after the end of mount")
	c.Evals++
	c.Nontriv = s.Fuse.Mounts > 0
	s.Mark(refused, early, bucket(clients), n, s.Fuse.Unmounts, p.Code, p.Killed != "", quiet, bucket(s.Fuse.FailedUnmounts), s.Now > 1e9)
}

// runC28: somebody else unmounts the file system.
func runC28(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c28")
	w, m := c.mountWorld(g, s, WorldOpt{Ops: 3 + g.N(6), NoSubs: g.Chance(1, 2)})
	db := s.FS.Lookup(dbPath)
	hash := db.Hash()
	if g.Chance(3, 4) {
		s.ChooseSched()
	}
	s.Latency = int64(g.Pick(20e3, 1e3, 1e6, 10e6))
	args := []string{"mount"}
	if g.Chance(5, 6) {
		args = append(args, imgPath)
	} else {
		m.img = nil
	}
	args = dbArgs(dbPath, w.bs, append(args, "/mnt")...)
	if g.Chance(1, 2) {
		args = append(args, "--verbose")
	}
	p := s.Spawn(0, "mount0", append([]string{"btrfscue"}, args...)...)
	force := g.Chance(1, 4)
	signals := g.Pick(0, 0, 0, 1, 2)
	clients := g.N(4)
	done := make([]bool, clients)
	settled := func() bool {
		for _, d := range done {
			if !d {
				return false
			}
		}
		return true
	}
	gone, early, tries, sent := false, false, 0, 0
	var at int64
	var t *mtree
	mounted := func() bool { return s.Fuse.Mounts > 0 || p.Exited }
	c.Go("umount", func() {
		g := c.Gen("umount")
		simrt.Block("mount", mounted)
		if !force && g.Chance(3, 4) {
			simrt.Block("clients", func() bool { return settled() || p.Exited })
		}
		for j := g.N(g.Pick(1, 3, 20, 200, 2000)); j > 0; j-- {
			simrt.Enter("wait")
		}
		if g.Chance(1, 3) {
			simrt.Sleep(int64(g.N(g.Pick(10, 200, 100000))) * 1e6)
		}
		for !gone && !p.Exited && tries < 400 {
			k := s.Fuse.At("/mnt")
			if k == nil {
				return // the tool did it
			}
			early = sent == 0
			if t != nil && force {
				t.stopping = true
			}
			if gone = k.Conn.(*simfuse.Conn).UnmountOutside(force); gone {
				if t != nil {
					t.stopping = true
				}
				at = s.Now
				return
			}
			tries++
			simrt.Sleep(50e6)
		}
	})
	if signals > 0 {
		c.Go("signals", func() {
			g := c.Gen("signals")
			simrt.Block("mount", mounted)
			if g.Chance(1, 2) {
				simrt.Block("unmount", func() bool { return gone || p.Exited })
			}
			for i := 0; i < signals && !p.Exited; i++ {
				for j := g.N(g.Pick(1, 3, 20, 200)); j > 0; j-- {
					simrt.Enter("wait")
				}
				if p.Exited {
					return
				}
				if t != nil {
					t.stopping = true
				}
				sent++
				p.Signal(g.Pick(2, 15))
			}
		})
	}
	for i := 0; i < clients; i++ {
		i := i
		c.Go("client"+u(i), func() {
			g := c.Gen("client" + u(i))
			simrt.Block("mount", mounted)
			if k := s.Fuse.At("/mnt"); k != nil && !p.Exited {
				if t == nil {
					t = c.newTree(k.Conn.(*simfuse.Conn), m, w, db)
					t.stopping = sent > 0 || gone
				}
				for j := g.N(6); j >= 0 && t.k.Alive(); j-- {
					if g.Chance(1, 2) {
						simrt.Sleep(int64(g.N(40)) * 1e6)
					}
					t.client(g, 1+g.N(6), false)
				}
			}
			done[i] = true
			if settled() && t != nil {
				t.closeAll()
			}
		})
	}
	s.Run()
	c.Settle()
	out := p.Stderr.String()
	what := "unmounted from outside"
	if sent > 0 {
		what += fmt.Sprintf(" and %d signals", sent)
	}
	if !p.Exited {
		if gone || sent > 0 {
			c.Fail("hang", "%s %d s ago, mount does not end; %s", what, (s.Now-at)/1e9, s.Blocked(p))
		}
		c.Fail("busy", "clients are done, but the file system stays busy; %s", s.Blocked(p))
	}
	c.finished(p, done, what)
	if p.Crash != "" || p.Killed != "" && (s.Fuse.At("/mnt") != nil || sent == 0) {
		c.Fail("crash", "%s: %s", what, p.Outcome())
	}
	if s.Fuse.At("/mnt") != nil && p.Code == 0 {
		c.Fail("exited", "mount ended with status 0, but the file system is still mounted; stderr %q", tail(out))
	}
	if sent == 0 {
		if !gone {
			c.Fail("exited", "mount ended by itself: %s; stderr %q", p.Outcome(), tail(out))
		}
		if p.Code != 0 {
			c.Fail("status", "%s: %s; stderr %q", what, p.Outcome(), tail(out))
		}
	}
	c.Evals++
	if db.Hash() != hash {
		c.Fail("modified", "the metadata file changed")
	}
	s.Latency = 20e3
	q := c.Exec("recon", append(w.reconArgs(dbPath, imgPath), "--append")...)
	c.MustSucceed(q, "after the end of mount")
	c.Evals++
	c.Nontriv = gone
	s.Mark(force, gone, early, signals, sent, clients, p.Code, bucket(tries), s.Fuse.Unmounts, bucket(int(s.Latency)), m.img == nil)
}

func init() {
	register(&Check{ID: "C28", Run: runC28, MinRuns: 200, Faults: true,
		Rule:   "An oracle check is one end of a mount process whose file system was unmounted by somebody else (with clients, forced, before or after signals): it ends, with status 0 if there was no signal, and the metadata file is free; answers until then are checked as for C15.",
		Assume: []string{"The kernel refuses an ordinary unmount while files are open or requests are pending; a forced one aborts the requests; then the serve loop of go-fuse returns."}})

	register(&Check{ID: "C18", Run: runC18, MinRuns: 300, Faults: true,
		Rule:   "An oracle check is one end of a mount process (after signals at scheduler-chosen moments, or after a failed mount) compared with the required status, message, number of mounts and unmounts and freedom of the metadata file; answers during unmounting are checked as for C15.",
		Assume: []string{"The kernel refuses to unmount while files are open or requests are pending, and go-fuse tries five times, as fusermount does; a signal that arrives before the tool asks for signals ends the process by default."}})
}
