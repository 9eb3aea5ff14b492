//go:build go1.22

package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"btrsim/simrt"
)

// ------------------------------------------------------------- C26

// Names that the file system's documentation has for types and objects.
var typeNames = map[string]uint8{"INODEITEM": 1, "INODEREF": 12, "INODEEXTREF": 13, "XATTRITEM": 24, "ORPHANITEM": 48, "DIRLOGITEM": 60, "DIRLOGINDEX": 72,
	"DIRITEM": 84, "DIRINDEX": 96, "EXTENTDATA": 108, "EXTENTCSUM": 128, "ROOTITEM": 132, "ROOTBACKREF": 144, "ROOTREF": 156,
	"EXTENTITEM": 168, "METADATAITEM": 169, "TREEBLOCKREF": 176, "EXTENTDATAREF": 178, "SHAREDBLOCKREF": 182, "SHAREDDATAREF": 184,
	"BLOCKGROUPITEM": 192, "DEVEXTENT": 204, "DEVITEM": 216, "CHUNKITEM": 228}

var objNames = map[string]uint64{"ROOTTREE": 1, "EXTENTTREE": 2, "CHUNKTREE": 3, "DEVTREE": 4, "FSTREE": 5, "ROOTTREEDIR": 6, "CSUMTREE": 7,
	"ORPHAN": neg(5), "TREELOG": neg(6), "TREELOGFIXUP": neg(7), "TREERELOC": neg(8), "DATARELOCTREE": neg(9), "EXTENTCSUM": neg(10),
	"FREESPACE": neg(11), "FREEINO": neg(12), "FIRSTFREE": 256}

func neg(n uint64) uint64 { return -n }

var dumpLine = regexp.MustCompile(`^\W*(?:key\W+)?(-?\w+)\W+?(-?\w+)\W+?(-?\d+)\W+(\d+)\W*$`)
var ownerLine = regexp.MustCompile(`^owner\W+(\d+)\W*$`)

// dumped compares what dump-index printed with the records.
func (c *Ctx) dumped(out string, recs map[Rec][]byte, what string) {
	l := sortedRecs(recs)
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if out == "" {
		lines = nil
	}
	objs, types := map[string]uint64{}, map[string]uint8{}
	owner, has, n := uint64(0), false, 0
	for i, s := range lines {
		if f := ownerLine.FindStringSubmatch(s); f != nil {
			o, err := strconv.ParseUint(f[1], 10, 64)
			if err != nil || has && o == owner || n >= len(l) || l[n].Owner != o {
				c.Fail("heading", "%s: line %d: %q out of place", what, i+1, s)
			}
			owner, has = o, true
			continue
		}
		f := dumpLine.FindStringSubmatch(s)
		if f == nil {
			c.Fail("line", "%s: line %d: %q is neither an owner nor an item", what, i+1, s)
		}
		if n >= len(l) {
			c.Fail("extra", "%s: line %d: %q, but all %d items were printed", what, i+1, s, n)
		}
		r := l[n]
		n++
		if !has || owner != r.Owner {
			c.Fail("heading", "%s: line %d: %q, expected %v, is not below the heading of its owner", what, i+1, s, r)
		}
		ok := f[3] == fmt.Sprint(int64(r.Key.Off)) || f[3] == fmt.Sprint(r.Key.Off)
		ok = ok && f[4] == fmt.Sprint(r.Gen)
		if num(f[1]) {
			ok = ok && (f[1] == fmt.Sprint(r.Key.Obj) || f[1] == fmt.Sprint(int64(r.Key.Obj)))
		} else {
			if o, known := objNames[plainName(f[1])]; known {
				ok = ok && o == r.Key.Obj
			}
			if o, known := objs[f[1]]; known {
				ok = ok && o == r.Key.Obj
			}
			objs[f[1]] = r.Key.Obj
		}
		if num(f[2]) {
			ok = ok && f[2] == fmt.Sprint(r.Key.Type)
		} else {
			if t, known := typeNames[plainName(f[2])]; known {
				ok = ok && t == r.Key.Type
			}
			if t, known := types[f[2]]; known {
				ok = ok && t == r.Key.Type
			}
			types[f[2]] = r.Key.Type
		}
		if !ok {
			c.Fail("line", "%s: line %d: %q, expected %v", what, i+1, s, r)
		}
		c.Evals++
	}
	if n < len(l) {
		c.Fail("lost", "%s: %d of %d items printed; the first that is not there: %v", what, n, len(l), l[n])
	}
}

func num(s string) bool {
	return strings.Trim(s, "-0123456789") == ""
}

func plainName(s string) string { return strings.ReplaceAll(s, "_", "") }

// anyRecs makes records with keys from the whole range of each field.
func anyRecs(g simrt.Gen) map[Rec][]byte {
	field := func() uint64 {
		switch g.N(8) {
		case 0:
			return g.U64()
		case 1:
			return g.U64() >> uint(g.N(64))
		case 2:
			return neg(uint64(g.N(16)))
		case 3:
			return 1<<63 - 2 + uint64(g.N(4))
		case 4:
			return 250 + uint64(g.N(10))
		}
		return uint64(g.N(16))
	}
	types := []uint8{0, 1, 12, 13, 24, 48, 60, 72, 84, 96, 108, 128, 132, 144, 156, 168, 169, 176, 178, 180, 182, 184, 192, 198, 199, 200, 204, 216, 228, 240, 242, 244, 246, 248, 249, 250, 251, 252, 253, 254, 255}
	recs := map[Rec][]byte{}
	n := g.Pick(0, 1, 2, 5, 30, 200, 1500)
	owners := []uint64{field(), field(), field()}
	if g.Chance(1, 4) {
		owners = []uint64{^uint64(0)}
	}
	var prev Rec
	for i := 0; i < n; i++ {
		r := Rec{Owner: owners[g.N(len(owners))], Key: Key{field(), types[g.N(len(types))], field()}, Gen: field()}
		if g.Chance(1, 6) {
			r.Key.Type = uint8(g.N(256))
		}
		if i > 0 && g.Chance(1, 3) { // another version, or a neighbour
			r = prev
			switch g.N(4) {
			case 0:
				r.Key.Off = field()
			case 1:
				r.Key.Obj++
			default:
				r.Gen = field()
			}
		}
		prev = r
		if string(keyOf(r)) == string(metaKey) {
			continue
		}
		setData(recs, r, make([]byte, g.N(300)))
	}
	return recs
}

func runC26(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c26")
	bs := 16384
	var recs map[Rec][]byte
	what := "any keys"
	switch g.N(4) {
	case 0: // what is there after a recon that may have been interrupted
		w := c.treeWorld(s, WorldOpt{Special: true, Orphans: true, Xattrs: true, BS: g.Pick(0, 4096, 16384)})
		bs = w.bs
		p := s.Spawn(0, "recon", append([]string{"btrfscue"}, w.reconArgs(dbPath, imgPath)...)...)
		what = "after recon"
		if g.Chance(1, 2) {
			what = "after an interrupted recon"
			if g.Chance(1, 2) {
				p.KillSys = 20 + g.N(200)
			} else {
				s.Faults = append(s.Faults, &simrt.Fault{Tag: "db", Op: []string{"pwrite", "fdatasync", "truncate"}[g.N(3)], Skip: g.N(12), Count: 1, Err: syscall.EIO})
			}
		}
		s.Run()
		s.Faults = nil
		db := s.FS.Lookup(dbPath)
		if db == nil || db.Size < 4*4096 {
			s.Mark("nothing")
			return
		}
		d, err := readBolt(db.ReadAll())
		if err != nil || d.Meta == nil {
			s.Mark("no database")
			return
		}
		recs = d.Recs
	case 1:
		w := c.treeWorld(s, WorldOpt{Special: true, Orphans: true, Xattrs: true, Printable: g.Chance(1, 2), BS: g.Pick(0, 4096, 16384)})
		bs = w.bs
		recs = c.gather(w, dbPath)
		if g.Chance(1, 2) {
			wide(g, recs)
			c.rewrite(w, dbPath, recs)
		}
		what = "world"
	default:
		recs = anyRecs(g)
		var id [16]byte
		copy(id[:], "dump-index test.")
		s.FS.Put(dbPath, "", writeBolt(c.Gen("db"), recs, metaRecord(bs, id)))
	}
	for i := 1 + g.N(2); i > 0; i-- {
		if g.Chance(1, 3) {
			c.okFaults("db")
		}
		p := c.Exec("dump-index", dbArgs(dbPath, bs, "dump-index")...)
		c.MustSucceed(p, what)
		c.dumped(p.Stdout.String(), recs, what)
	}
	c.Nontriv = len(recs) > 0
	owners := map[uint64]bool{}
	for r := range recs {
		owners[r.Owner] = true
	}
	s.Mark(what, bucket(len(recs)), len(owners))
}

// ------------------------------------------------------------- C27

// outFault decides how standard output fails.
func outFault(g simrt.Gen, s *simrt.Sim, full int) (f func(int) (int, syscall.Errno), failed *int) {
	failed = new(int)
	errs := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG}
	e := errs[g.N(len(errs))]
	fail := func() (int, syscall.Errno) {
		*failed++
		s.Inject("stdout_" + e.Error())
		return 0, e
	}
	n := 0
	switch g.N(4) {
	case 0: // no more than so many bytes fit
		room := g.N(full + full/4 + 2)
		return func(k int) (int, syscall.Errno) {
			if room == 0 && k > 0 {
				return fail()
			}
			if k > room {
				s.Inject("short_write_stdout")
				k = room
			}
			room -= k
			return k, 0
		}, failed
	case 1: // some calls in a row
		from, count := g.Pick(0, 0, 1, 2, g.N(60)), g.Pick(1, 1, 2, 5)
		return func(k int) (int, syscall.Errno) {
			if n++; n > from && n <= from+count {
				return fail()
			}
			return k, 0
		}, failed
	case 2: // the one that has the last bytes
		room := g.N(full + 1)
		return func(k int) (int, syscall.Errno) {
			if n += k; n > room && *failed == 0 {
				return fail()
			}
			return k, 0
		}, failed
	}
	ints := g.N(3) // only what programs do not have to notice
	return func(k int) (int, syscall.Errno) {
		if ints > 0 {
			ints--
			s.Inject("EINTR_write_stdout")
			return 0, syscall.EINTR
		}
		if k > 1 {
			s.Inject("short_write_stdout")
			k = 1 + g.N(k)
		}
		return k, 0
	}, failed
}

func runC27(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c27")
	var args []string
	same := true
	switch g.N(4) {
	case 0:
		d := c.device(s, g)
		d.populate(g)
		args, same = append([]string{"identify"}, d.args...), false
	default:
		w := c.treeWorld(s, WorldOpt{Printable: true, Special: true, BS: g.Pick(0, 4096, 16384)})
		recs := c.gather(w, dbPath)
		m := NewModel(recs, nil)
		if g.Chance(1, 3) {
			args = dbArgs(dbPath, w.bs, "dump-index")
			break
		}
		a := []string{"ls"}
		if all := m.paths(); len(all) > 0 {
			for i := g.N(3); i > 0; i-- {
				a = append(a, "/"+all[g.N(len(all))])
			}
		}
		if g.Chance(1, 4) {
			a = append(a, "/nope", "/")
		}
		if g.Chance(1, 2) {
			a = append(a, "--recursive")
		}
		if g.Chance(1, 2) {
			a = append(a, "--inode")
		}
		args = dbArgs(dbPath, w.bs, a...)
	}
	ref := c.Exec(args[0], args...)
	c.MustEnd(ref, "with working output")
	if ref.Code != 0 {
		s.Mark("fails")
		return
	}
	for i := 1 + g.N(3); i > 0; i-- {
		p := s.Spawn(0, args[0], append([]string{"btrfscue"}, args...)...)
		f, failed := outFault(g, s, ref.Stdout.Len())
		p.OutFault = f
		s.Run()
		c.MustEnd(p, fmt.Sprintf("standard output failed %d times", *failed))
		if *failed > 0 {
			if p.Code == 0 {
				c.Fail("status", "%s exits with status 0 although %d writes of its output failed; %d of %d bytes were written; stderr %q",
					args[0], *failed, p.Stdout.Len(), ref.Stdout.Len(), tail(p.Stderr.String()))
			}
			if p.Stderr.Len() == 0 {
				c.Fail("message", "%s could not write its output, but there is no message", args[0])
			}
		} else {
			if p.Code != 0 {
				c.Fail("status", "%s fails although its output could be written: %s; stderr %q", args[0], p.Outcome(), tail(p.Stderr.String()))
			}
			if same && p.Stdout.String() != ref.Stdout.String() {
				c.Fail("output", "%s with short writes prints something else: %d bytes instead of %d", args[0], p.Stdout.Len(), ref.Stdout.Len())
			}
		}
		c.Evals++
		if ref.Stdout.Len() > 0 {
			c.Nontriv = true
		}
		s.Mark(args[0], *failed > 0, bucket(p.Stdout.Len()), bucket(ref.Stdout.Len()))
	}
}

func init() {
	register(&Check{ID: "C26", Run: runC26, Rule: "An oracle check is one line that dump-index printed for an item; a run counts if there are items."})
	register(&Check{ID: "C27", Run: runC27, Faults: true, Rule: "An oracle check is one run of identify, ls or dump-index whose writes to standard output fail, are short or are interrupted; a run counts if the command prints something."})
}
