//go:build go1.22

package main

import (
	"strings"
	"syscall"

	"btrsim/simrt"
)

// runC32: a command that cannot do its work leaves no trace.
func runC32(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c32")
	w := c.treeWorld(s, WorldOpt{Ops: 2 + g.N(4), BS: g.Pick(4096, 16384)})
	c.Recon(w, dbPath, imgPath)
	other := "/m/other.db"
	s.FS.PutInode(other, s.FS.Lookup(dbPath).Clone())
	if g.Chance(1, 2) {
		s.FS.Mk(destPath, "dest")
		s.FS.Put(destPath+"/existing", "dest", []byte("existing"))
	}
	id := w.FSID()
	for round := 1 + g.N(3); round > 0; round-- {
		cmd := g.Pick(0, 1, 2, 3, 4, 5)
		name := []string{"recon", "identify", "ls", "dump-index", "recover", "mount"}[cmd]
		meta, img, bs := dbPath, imgPath, u(w.bs)
		if name == "recon" && g.Chance(1, 2) {
			meta = "/m/new.db" // does not exist
		}
		args := []string{}
		env := ""
		pos := []string{}
		switch name {
		case "recon":
			pos = []string{img}
			args = append(args, "--id", id)
		case "identify":
			pos = []string{img}
			args = append(args, "--progress=false", "--min-blocks", "50")
		case "ls":
			if g.Chance(1, 2) {
				pos = []string{"/"}
			}
		case "recover":
			pos = []string{img, destPath}
			if g.Chance(1, 2) {
				args = append(args, "--clobber")
			}
		case "mount":
			pos = []string{img, "/mnt"}
		}
		if g.Chance(1, 6) {
			args = append(args, "--verbose")
		}
		why := ""
		message := true // the tool's own, not that of the option parser
		useMeta := name != "identify"
		var faults []*simrt.Fault
		point := "/mnt"
		bad := func(l ...string) string { return l[g.N(len(l))] }
		switch g.N(9) {
		case 0: // no metadata file named
			if useMeta {
				why, useMeta = "no metadata file", false
				if g.Chance(1, 3) {
					args = append(args, "--metadata", "")
					env = other
				}
			}
		case 1: // filesystem id
			if name == "recon" {
				x := bad("", "-", "00000000-0000-0000-0000-000000000000", "xyz", id+"00", id[:len(id)-2], strings.Replace(id, "-", "", 1)+"zz", "g"+id[1:], id+" x")
				why = "filesystem id " + x
				args = append(args[2:], "--id", x)
				message = false
				if x == "-" {
					why, message = "no filesystem id", true
					args = args[:len(args)-2]
				}
			}
		case 2: // number of arguments
			message = false
			if len(pos) > 0 && name != "ls" && g.Chance(1, 2) {
				why = "too few arguments"
				pos = pos[:len(pos)-1]
				if name == "mount" {
					pos = nil
				}
			} else if name != "ls" {
				why = "too many arguments"
				pos = append(pos, "/out/extra", "/out/more")
			}
		case 3:
			why, message = "unknown option", false
			args = append(args, bad("--bogus", "--force", "-x", "--clobber=maybe", "--block-size", "--verbose=7"))
		case 4:
			if name == "recon" || name == "identify" {
				bs = bad("0", "1", "100", "125", "-1", "abc", "", "16k", "18446744073709551616", "1e4", "70000000", "9223372036854775808")
				why = "block size " + bs
				message = strings.Trim(bs, "0123456789") == "" && bs != "" && len(bs) < 20
				if bs == "125" { // one byte less than a leaf with one item needs
					meta = "/m/new.db"
				}
			}
		case 5: // the device
			if name == "ls" || name == "dump-index" {
				break
			}
			switch g.N(3) {
			case 0:
				img = "/img/none"
				why = "missing device"
			case 1:
				f := &simrt.Fault{Tag: "image", Op: "open", Count: -1, Err: []syscall.Errno{syscall.EACCES, syscall.EIO, syscall.ENXIO, syscall.ENOMEDIUM}[g.N(4)]}
				faults = append(faults, f)
				why = "device that cannot be opened"
			case 2:
				if name == "recover" || name == "mount" {
					img = "/img/none/x"
					why = "missing device"
					break
				}
				if g.Chance(1, 3) {
					faults = append(faults, &simrt.Fault{Tag: "image", Op: "lseek", Count: -1, Err: []syscall.Errno{syscall.EIO, syscall.ENXIO, syscall.ESPIPE}[g.N(3)]})
					why = "device without a size"
					break
				}
				img = "/img/small"
				s.FS.Put(img, "", nil).SetSize(int64(g.N(64 << 20)))
				why = "device that is too small"
			}
			if len(pos) > 0 {
				pos[0] = img
			}
		case 6: // the metadata file
			if !useMeta || name == "recon" {
				break
			}
			switch g.N(3) {
			case 0:
				meta, why = "/m/none.db", "missing metadata file"
			case 1:
				meta, why = "/missing/none.db", "missing metadata file"
			case 2:
				faults = append(faults, &simrt.Fault{Tag: "db", Op: bad("open", "flock", "mmap"), Count: -1, Err: []syscall.Errno{syscall.EACCES, syscall.EIO, syscall.ENOMEM}[g.N(3)]})
				s.FS.Lookup(dbPath).Tag = "db"
				why = "metadata file that cannot be opened"
			}
		case 7:
			if name == "recover" {
				switch g.N(2) {
				case 0:
					s.FS.Put("/out/file", "", []byte("a file"))
					pos[1] = bad("/out/file", "/out/file/x")
					why = "destination that is a file"
				case 1:
					s.FS.Mk("/out/locked", "locked")
					pos[1] = "/out/locked/new"
					faults = append(faults, &simrt.Fault{Tag: "locked", Op: "mkdir", Count: -1, Err: syscall.EACCES})
					why = "destination that cannot be created"
				}
			}
			if name == "mount" {
				point = bad("/missing", imgPath)
				pos[1] = point
				why = "bad mount point"
			}
		case 8:
			why, message = "unknown command", false
			name = bad("lst", "restore", "recon2", "dump", "Recover")
			useMeta = g.Chance(1, 2)
		}
		l := append([]string{"btrfscue", name}, pos...)
		l = append(l, "--block-size="+bs)
		if useMeta {
			switch g.N(3) {
			case 0:
				env = meta
			case 1:
				env = other
				fallthrough
			default:
				l = append(l, "--metadata", meta)
			}
		}
		l = append(l, args...)
		if why == "" {
			continue
		}
		before := s.FS.Snapshot(s.FS.Root)
		s.Faults = faults
		p := s.Spawn(0, name, l...)
		if env != "" {
			p.Env["BTRFSCUE_METADATA"] = env
		}
		s.Run()
		s.Faults = nil
		what := why + ": " + strings.Join(l, " ")
		if p.Crash != "" {
			c.Fail("crash", "%s: %s; %q", what, p.Outcome(), tail(p.Stderr.String()))
		}
		if !p.Exited {
			c.Fail("accepted", "%s: still running (%s)", what, s.Blocked(p))
		}
		if p.Code == 0 {
			c.Fail("accepted", "%s: not refused; stderr %q", what, tail(p.Stderr.String()))
		}
		if message && p.Stderr.Len() == 0 {
			c.Fail("message", "%s: refused without a message", what)
		}
		if d := simrt.DiffSnap(before, s.FS.Snapshot(s.FS.Root)); d != "" {
			c.Fail("trace", "%s (refused with %q) has left a trace: %s", what, tail(p.Stderr.String()), d)
		}
		if s.Fuse.Mounts > 0 {
			c.Fail("trace", "%s: mounted", what)
		}
		c.Evals++
		c.Nontriv = true
		c.Count(strings.ReplaceAll(strings.Fields(why)[0]+"_"+name, "-", "_"))
		s.Mark(why, name, p.Code)
	}

	// The environment names the metadata file, unless the option does.
	s.FS.Put("/m/bad.db", "", []byte("not a metadata file"))
	k := [][]string{{"ls", "--recursive"}, {"dump-index"}, {"ls", "/"}}[g.N(3)]
	a := append([]string{"btrfscue"}, k...)
	p1 := s.Spawn(0, k[0], append(a[:len(a):len(a)], "--block-size", u(w.bs), "--metadata", dbPath)...)
	if g.Chance(1, 2) {
		p1.Env["BTRFSCUE_METADATA"] = pick2(g, "/m/bad.db", "/m/none.db")
	}
	s.Run()
	p2 := s.Spawn(0, k[0], append(a[:len(a):len(a)], "--block-size", u(w.bs))...)
	p2.Env["BTRFSCUE_METADATA"] = dbPath
	s.Run()
	c.MustSucceed(p1, "with --metadata")
	c.MustSucceed(p2, "with BTRFSCUE_METADATA")
	if p1.Stdout.String() != p2.Stdout.String() {
		c.Fail("environment", "%s: %d bytes of output with --metadata, %d with BTRFSCUE_METADATA", k[0], p1.Stdout.Len(), p2.Stdout.Len())
	}
	c.Evals++
}

func pick2(g simrt.Gen, a, b string) string {
	if g.Chance(1, 2) {
		return a
	}
	return b
}

func init() {
	register(&Check{ID: "C32", Run: runC32, MinRuns: 200, Faults: true,
		Rule:   "An oracle check is one command that cannot do its work (missing or malformed options or arguments, unusable device, metadata file, destination or mount point), of which the exit status, the message and everything in the file system before and after are compared; or one report read with the metadata file named by the environment.",
		Assume: []string{"Messages of the option parser (cobra) are not seen, as it is not simulated; its exit status is."}})
}
