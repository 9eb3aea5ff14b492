//go:build go1.22

package main

import (
	"fmt"
	"hash/crc32"
	"strings"
	"syscall"

	"btrsim/simrt"
)

const (
	dbPath  = "/m/meta.db"
	imgPath = "/img/disk.img"
)

// prepare makes the directories commands are run in.
func (c *Ctx) prepare() *simrt.Sim {
	s := c.NewSim()
	s.FS.Mk("/m", "")
	s.FS.Mk("/img", "")
	s.FS.Mk("/out", "")
	s.FS.Mk("/mnt", "")
	return s
}

func dbArgs(db string, bs int, a ...string) []string {
	return append(a, "--metadata", db, "--block-size", u(bs), "--progress=false")
}

func (w *World) reconArgs(db, img string, extra ...string) []string {
	return append(dbArgs(db, w.bs, "recon", img, "--id", w.FSID()), extra...)
}

// Recon gathers metadata; it has to succeed.
func (c *Ctx) Recon(w *World, db, img string) *simrt.Proc {
	p := c.Exec("recon", w.reconArgs(db, img)...)
	c.MustSucceed(p, "on a readable image")
	return p
}

// DB reads a metadata file, which has to be valid.
func (c *Ctx) DB(path, what string) *BoltDB {
	i := c.S.FS.Lookup(path)
	if i == nil {
		c.Fail("lost", "%s: no metadata file %s", what, path)
	}
	db, err := readBolt(i.ReadAll())
	if err != nil {
		c.Fail("corrupt", "%s: metadata file %s: %v", what, path, err)
	}
	return db
}

// RefScan is the reference for recon: what the intact leaves of an image hold
// and where the blocks are that look like leaves of the file system but are not
// intact.
type RefScan struct {
	recs  map[Rec][]byte
	odd   []int64
	whole int // blocks
}

func isSuper(b []byte) bool { return string(b[64:72]) == "_BHRfS_M" }

func refScan(img *simrt.Inode, bs int, fsid [16]byte) *RefScan {
	r := &RefScan{recs: map[Rec][]byte{}}
	// Blocks of which no page was ever written are all zeros.
	used := map[int64]bool{}
	for _, p := range img.PageNumbers() {
		used[p*sector/int64(bs)] = true
	}
	b := make([]byte, bs)
	for off := int64(super1 + bs); off+int64(bs) <= img.Size; off += int64(bs) {
		r.whole++
		if !used[off/int64(bs)] {
			continue
		}
		if img.Peek(b[:headerLen], off) < headerLen || string(b[32:48]) != string(fsid[:]) || b[100] != 0 || le.Uint32(b[96:]) == 0 || isSuper(b) {
			continue
		}
		img.Peek(b, off)
		if wellFormed(b) {
			raw := append([]byte{}, b...)
			addRecords(r.recs, raw, le.Uint64(b[88:]), le.Uint64(b[80:]))
		} else {
			r.odd = append(r.odd, off)
		}
	}
	return r
}

// wellFormed tells whether a leaf is intact.
func wellFormed(b []byte) bool {
	if crc32.Checksum(b[32:], castagnoli) != le.Uint32(b) {
		return false
	}
	n := int64(le.Uint32(b[96:]))
	if headerLen+n*itemLen > int64(len(b)) {
		return false
	}
	for i := int64(0); i < n; i++ {
		o := headerLen + i*itemLen
		if headerLen+int64(le.Uint32(b[o+17:]))+int64(le.Uint32(b[o+21:])) > int64(len(b)) {
			return false
		}
	}
	return true
}

// oddItem tells whether a record may come from a block that is not intact.
func oddItem(b []byte, r Rec, v []byte) bool {
	if le.Uint64(b[88:]) != r.Owner || le.Uint64(b[80:]) != r.Gen || len(v) < itemLen {
		return false
	}
	n := int(le.Uint32(b[96:]))
	if max := (len(b) - headerLen) / itemLen; n < 0 || n > max {
		n = max
	}
	for i := 0; i < n; i++ {
		o := headerLen + i*itemLen
		if string(b[o:o+itemLen]) != string(v[:itemLen]) {
			continue
		}
		d := v[itemLen:]
		s := int64(headerLen) + int64(le.Uint32(b[o+17:]))
		if int64(len(d)) > int64(le.Uint32(b[o+21:])) {
			continue
		}
		if len(d) == 0 {
			return true
		}
		if s+int64(len(d)) <= int64(len(b)) && string(b[s:s+int64(len(d))]) == string(d) {
			return true
		}
	}
	return false
}

// checkScan compares what recon found with the reference.
func (c *Ctx) checkScan(got map[Rec][]byte, ref *RefScan, img *simrt.Inode, bs int, what string) {
	if d := missingRecs(got, ref.recs); d != "" {
		c.Fail("items", "%s: %s", what, d)
	}
	c.checkGenuine(got, ref, img, bs, what)
}

// checkGenuine checks that every record comes from the image.
func (c *Ctx) checkGenuine(got map[Rec][]byte, ref *RefScan, img *simrt.Inode, bs int, what string) {
	b := make([]byte, bs)
next:
	for _, r := range sortedRecs(got) {
		if v, ok := ref.recs[r]; ok {
			if string(v) != string(got[r]) {
				c.Fail("items", "%s: %v has contents that are not those of its leaf", what, r)
			}
			continue
		}
		for _, off := range ref.odd {
			img.Peek(b, off)
			if oddItem(b, r, got[r]) {
				continue next
			}
		}
		c.Fail("items", "%s: %v (%d bytes %x..) is stored in no leaf of the file system", what, r, len(got[r]), head(got[r]))
	}
}

// ------------------------------------------------------------- C02

func reconWorld(c *Ctx, s *simrt.Sim, ops int) *World {
	g := c.Gen("opts")
	o := WorldOpt{Ops: ops, Noise: true, Strays: g.Chance(1, 2), Collide: true, Special: true, Xattrs: true, Orphans: true, Compress: true}
	if g.Chance(1, 12) {
		o.Dense = 9000 + g.N(3000)
	}
	far := g.Chance(1, 200)
	if far {
		o.BS, o.Ops, o.Dense = 65536, 2, 0
	}
	w := c.NewWorld(s, o)
	w.Populate()
	if far {
		w.farLeaves(g)
		c.Count("device_beyond_32_bits")
	}
	return w
}

// farLeaves extends the device to more than 4 GiB and puts leaves there.
func (w *World) farLeaves(g simrt.Gen) {
	bs := int64(w.bs)
	w.size = 1<<32 + bs*int64(1+g.N(9)) + int64(g.Pick(0, 0, 1, 4096))
	w.img.SetSize(w.size)
	last := w.size/bs*bs - bs
	for i, off := range []int64{1<<31 - bs, 1 << 31, 1<<32 - bs, 1 << 32, last} {
		if i == 3 && off == last || g.Chance(1, 4) {
			continue
		}
		it := []item{w.randItem(100)}
		it[0].key = Key{uint64(off), 201, g.Seed64()}
		w.putBlock(off, makeLeaf(w.bs, w.fsid, uint64(off), 7, 3001, it, 0), "stray", 3001, 7, 1)
		w.note("leaf far up @%d", off)
	}
}

// okFaults are faults a program has to cope with without failing.
func (c *Ctx) okFaults(tags ...string) {
	g := c.Gen("faults")
	for _, t := range tags {
		if g.Chance(1, 3) {
			c.S.Faults = append(c.S.Faults, &simrt.Fault{Op: "anyread", Tag: t, Skip: g.N(200), Count: 1 + g.N(20), Part: 1 + g.N(7)})
		}
		if g.Chance(1, 4) {
			c.S.Faults = append(c.S.Faults, &simrt.Fault{Op: "anyread", Tag: t, Skip: g.N(200), Count: 1 + g.N(5), Err: syscall.EINTR})
		}
	}
}

func runC02(c *Ctx) {
	s := c.prepare()
	if c.Gen("opts").Chance(1, 3) {
		s.ChooseSched()
	}
	w := reconWorld(c, s, 10)
	ref := refScan(w.img, w.bs, w.fsid)
	if d := diffRecs(ref.recs, w.Records()); d != "" {
		c.Fail("harness", "reference: %s", d)
	}
	if len(ref.odd) > 0 {
		c.Fail("harness", "reference: odd blocks %v", ref.odd)
	}
	h := w.img.Hash()
	c.okFaults("image")
	g := c.Gen("cli")
	var extra []string
	if g.Chance(1, 4) {
		extra = append(extra, "--verbose")
	}
	if g.Chance(1, 4) {
		extra = append(extra, "--append")
	}
	if g.Chance(1, 4) {
		extra = append(extra, "--progress=true")
	}
	id := w.FSID()
	if g.Chance(1, 4) {
		id = strings.ToUpper(id)
	}
	p := c.Exec("recon", append(dbArgs(dbPath, w.bs, "recon", imgPath, "--id", id), extra...)...)
	c.MustSucceed(p, "on a readable image")
	db := c.DB(dbPath, "after recon")
	if d := diffRecs(db.Recs, w.Records()); d != "" {
		c.Fail("items", "recon of %d leaves: %s", len(w.LeafBlocks()), d)
	}
	if w.img.Hash() != h {
		c.Fail("source", "recon changed the image")
	}
	c.Evals += len(db.Recs)
	c.Nontriv = len(db.Recs) > 0
	kinds := map[string]int{}
	for _, b := range w.blocks {
		if !b.dead {
			kinds[b.kind]++
		}
	}
	s.Mark(w.bs, len(w.chunks), len(db.Recs), kinds)
	for k := range kinds {
		c.Count("image_has_" + k)
	}
}

// ------------------------------------------------------------- damage

// Damage corrupts blocks of an image the way failing media and memory do.
func (w *World) Damage(g simrt.Gen, n int) (l []int64) {
	bs := int64(w.bs)
	var live []*placed
	for _, p := range w.blocks {
		if !p.dead {
			live = append(live, p)
		}
	}
	b := make([]byte, bs)
	for i := 0; i < n; i++ {
		p := live[g.N(len(live))]
		off := p.off
		if g.Chance(1, 10) {
			off = (super1/bs + 1 + int64(g.N(int((w.size-super1)/bs)-1))) * bs
			if off+bs > w.size || !w.outside(off) {
				continue
			}
			copy(b, makeLeaf(w.bs, w.fsid, uint64(off), 1+uint64(g.N(50)), uint64(g.Pick(5, 1, 7)), []item{w.randItemFrom(g, 50)}, 9))
		} else {
			if off%bs != 0 || off < super1+bs {
				continue
			}
			w.img.Peek(b, off)
		}
		kind := g.N(9)
		max := (w.bs - headerLen) / itemLen
		cnt := int(le.Uint32(b[96:]))
		if cnt > max || cnt < 1 {
			cnt = 1
		}
		switch kind {
		case 0: // torn
			k := (1 + g.N(int(bs/512)-1)) * 512
			switch g.N(3) {
			case 0:
				for j := k; j < len(b); j++ {
					b[j] = 0
				}
			case 1:
				simrt.FillBytes(b[k:], g.Seed64())
			case 2:
				o := make([]byte, bs)
				w.img.Peek(o, live[g.N(len(live))].off)
				copy(b[k:], o[k:])
			}
		case 1: // bit flips
			for j := 0; j <= g.N(8); j++ {
				at := g.N(len(b))
				if g.Chance(1, 2) {
					at = g.N(headerLen + 4*itemLen)
				}
				b[at] ^= 1 << uint(g.N(8))
			}
		case 2: // zeroed range
			from := g.N(len(b))
			to := from + 1 + g.N(len(b)-from)
			for j := from; j < to; j++ {
				b[j] = 0
			}
		case 3: // item count
			le.PutUint32(b[96:], uint32(g.Pick(cnt+1, max, max+1, max-1, 0xffffffff, 0x80000000, 0x7fffffff, cnt*2, 0x10000000+g.N(1<<28))))
		case 4: // item offsets and sizes
			for j := 0; j <= g.N(4); j++ {
				o := headerLen + g.N(cnt)*itemLen + g.Pick(17, 21)
				le.PutUint32(b[o:], uint32(g.Pick(0xffffffff, w.bs, w.bs-headerLen, w.bs-headerLen+1, 0x80000000, 0xffffffff-headerLen, 0x7fffffff, 0xffffffff-g.N(1<<20), g.N(1<<20))))
			}
		case 5: // header
			switch g.N(5) {
			case 0:
				b[100] = byte(g.Pick(0, 1, 255))
			case 1:
				le.PutUint64(b[88:], uint64(g.N(20)))
			case 2:
				le.PutUint64(b[80:], ^uint64(0)>>uint(g.N(64)))
			case 3:
				b[32+g.N(16)] ^= 0x10
			case 4:
				copy(b[32:48], w.fsid[:])
				b[100] = 0
			}
		case 6: // everything behind the header
			simrt.FillBytes(b[headerLen:], g.Seed64())
		case 7: // keys
			for j := 0; j <= g.N(3); j++ {
				o := headerLen + g.N(cnt)*itemLen
				simrt.FillBytes(b[o:o+17], g.Seed64())
			}
		case 8: // header and items have changed places with those of another block
			o := make([]byte, bs)
			w.img.Peek(o, live[g.N(len(live))].off)
			copy(b[:headerLen], o[:headerLen])
		}
		w.img.Poke(b, off)
		l = append(l, off)
	}
	return
}

// randItemFrom is randItem with an explicit source of choices.
func (w *World) randItemFrom(g simrt.Gen, max int) item {
	old := w.g
	w.g = g
	defer func() { w.g = old }()
	return w.randItem(max)
}

func runC03(c *Ctx) {
	s := c.prepare()
	w := reconWorld(c, s, 8)
	g := c.Gen("damage")
	offs := w.Damage(g, 1+g.N(12))
	ref := refScan(w.img, w.bs, w.fsid)
	// Blocks with valid checksums that are not well-formed must not stand in
	// for intact ones: a checksum was computed over damaged contents.
	c.okFaults("image")
	s.HeapLimit = 200 << 20
	p := c.Exec("recon", w.reconArgs(dbPath, imgPath)...)
	c.MustSucceed(p, fmt.Sprintf("on an image with damaged blocks at %v", offs))
	db := c.DB(dbPath, "after recon")
	c.checkScan(db.Recs, ref, w.img, w.bs, fmt.Sprintf("recon with damaged blocks at %v", offs))
	c.Evals += len(ref.recs) + len(ref.odd)
	c.Nontriv = len(ref.odd) > 0
	s.Mark(w.bs, len(offs), len(ref.odd), len(ref.recs))
	s.Injected["damaged_block"] += len(offs)
}

// ------------------------------------------------------------- C04

// clobberPlan interrupts a process that is about to be spawned.
type interruption struct {
	kind string // kill, step, power, fault
	sys  int
	part int
	step uint64
}

// muts lists the numbers of the system calls of a process that changed a file.
func muts(p *simrt.Proc, tag string) (l []int) {
	for _, e := range p.Log {
		if e.Mut && (tag == "" || e.Tag == tag) {
			l = append(l, e.N)
		}
	}
	return
}

func runC04(c *Ctx) {
	s := c.prepare()
	s.FS.Track = true
	g := c.Gen("c04")
	o := WorldOpt{Ops: 8, Noise: true, Strays: true}
	dense := g.Chance(1, 3)
	if dense {
		o.Dense = 10001 + g.N(2500)
		if g.Chance(1, 4) {
			o.Dense += 10000
		}
		o.BS = g.Pick(16384, 4096, 65536)
	}
	w := c.NewWorld(s, o)
	w.Populate()
	// An earlier recon may have completed, on a part of the device.
	before := map[Rec][]byte{}
	prior := g.Chance(1, 2)
	if prior {
		old := w.img.Clone()
		old.Tag = "image"
		s.FS.PutInode("/img/old.img", old)
		bl := w.LeafBlocks()
		for i := 0; i < len(bl)/2; i++ {
			p := bl[g.N(len(bl))]
			old.Poke(make([]byte, len(p.raw)), p.off)
		}
		c.Recon(w, dbPath, "/img/old.img")
		before = c.DB(dbPath, "after the first recon").Recs
		if d := diffRecs(before, refScan(old, w.bs, w.fsid).recs); d != "" {
			c.Fail("items", "first recon: %s", d)
		}
	}
	want := w.Records()
	for r, v := range before {
		want[r] = v
	}
	// Where an uninterrupted run changes the file.
	var ref *simrt.Proc
	s.FS.Mk("/ref", "")
	if prior {
		cl := s.FS.Lookup(dbPath).Clone()
		s.FS.PutInode("/ref/meta.db", cl)
	}
	ref = c.Exec("reference", w.reconArgs("/ref/meta.db", imgPath)...)
	c.MustSucceed(ref, "reference")
	m := muts(ref, "")
	if len(m) == 0 {
		c.Fail("harness", "no changes seen")
	}
	s.FS.RemoveEntry("/ref/meta.db")
	rounds := 1 + g.N(3)
	for round := 0; round < rounds; round++ {
		// The interrupted run.
		p := s.Spawn(0, "recon", append([]string{"btrfscue"}, w.reconArgs(dbPath, imgPath)...)...)
		power := false
		switch g.N(6) {
		case 5: // while the file is created
			p.KillSys = m[g.N(len(m))%3] + g.N(2)
			p.KillPart = g.N(9)
			power = g.Chance(1, 2)
		case 0: // kill at a change
			p.KillSys = m[g.N(len(m))] + g.N(2)
			p.KillPart = g.N(9)
		case 1:
			p.KillSys = 1 + g.N(ref.SysN)
			p.KillPart = g.N(9)
		case 2: // power loss
			p.KillSys = m[g.N(len(m))] + g.N(2)
			p.KillPart = g.N(9)
			power = true
		case 3: // a fault
			errs := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
			ops := []string{"anywrite", "anysync", "truncate", "anyread"}
			f := &simrt.Fault{Proc: "recon", Op: ops[g.N(len(ops))], Skip: g.N(40), Count: g.Pick(1, 3, -1), Err: errs[g.N(len(errs))], Part: g.N(8)}
			if f.Op == "anyread" {
				f.Skip = g.N(ref.SysN)
				f.Tag = "image"
			}
			s.Faults = append(s.Faults, f)
			power = g.Chance(1, 2)
		case 4: // none
			power = g.Chance(1, 2)
		}
		s.Run()
		s.Faults = nil
		if p.Crash != "" || !p.Exited {
			c.Fail("crash", "interrupted recon: %s", p.Outcome())
		}
		done := p.Exited && p.Killed == "" && p.Code == 0
		if power {
			s.Inject("power_loss")
			s.FS.PowerLoss(c.Gen("power"))
		}
		what := fmt.Sprintf("after %s (power loss %v)", p.Outcome(), power)
		f := s.FS.Lookup(dbPath)
		d := c.Exec("dump", dbArgs(dbPath, w.bs, "dump-index")...)
		c.MustEnd(d, what)
		if done {
			if f == nil || d.Code != 0 {
				c.Fail("lost", "%s: the result of a completed recon is lost: %s %q", what, d.Outcome(), tail(d.Stderr.String()))
			}
			before, prior = want, true
		}
		if d.Code == 0 {
			db := c.DB(dbPath, what)
			if x := missingRecs(db.Recs, before); x != "" {
				c.Fail("lost", "%s: lost what a completed recon had gathered: %s", what, x)
			}
			for r, v := range db.Recs {
				if string(want[r]) != string(v) || want[r] == nil {
					c.Fail("items", "%s: %v is not an item of the file system", what, r)
				}
			}
			checkDump(c, d, db.Recs, what)
			s.Mark(done, power, len(db.Recs) > len(before), prior)
		} else {
			if prior {
				c.Fail("lost", "%s: metadata of a completed recon is rejected: %q", what, tail(d.Stderr.String()))
			}
			if d.Stderr.Len() == 0 {
				c.Fail("message", "%s: rejected without a message", what)
			}
			s.Mark("rejected", power, f != nil)
		}
		c.Evals++
	}
	// Running it again completes; a rejected file has to go first.
	p := c.Exec("again", w.reconArgs(dbPath, imgPath)...)
	c.MustEnd(p, "again")
	if p.Code != 0 {
		if prior {
			c.Fail("again", "running recon again fails: %q", tail(p.Stderr.String()))
		}
		s.FS.RemoveEntry(dbPath)
		p = c.Exec("again", w.reconArgs(dbPath, imgPath)...)
		c.MustSucceed(p, "again, without the rejected file")
		c.Count("rejected_then_removed")
	}
	s.FS.PowerLoss(c.Gen("power"))
	if d := diffRecs(c.DB(dbPath, "after running recon again").Recs, want); d != "" {
		c.Fail("items", "after running recon again: %s", d)
	}
	c.Nontriv = true
}

// checkDump compares the output of dump-index with the records of the file.
func checkDump(c *Ctx, p *simrt.Proc, recs map[Rec][]byte, what string) {
	n := strings.Count(p.Stdout.String(), "@")
	if n != len(recs) {
		c.Fail("dump", "%s: dump-index prints %d items instead of %d", what, n, len(recs))
	}
}

// ------------------------------------------------------------- C05

// injected tells whether a kind of fault was delivered.
func injected(s *simrt.Sim, part string) bool {
	for k := range s.Injected {
		if strings.Contains(k, part) {
			return true
		}
	}
	return false
}

func runC05(c *Ctx) {
	s := c.prepare()
	s.FS.Track = true
	g := c.Gen("c05")
	if g.Chance(1, 4) {
		s.ChooseSched()
	}
	o := WorldOpt{Ops: 8, Noise: g.Chance(1, 2), Strays: true}
	if g.Chance(1, 6) {
		o.Dense = 10001 + g.N(3000)
		o.BS = 16384
	}
	w := c.NewWorld(s, o)
	w.Populate()
	want := w.Records()
	if g.Chance(1, 4) {
		c.Recon(w, dbPath, imgPath) // the file exists
	}
	scanned := w.size / int64(w.bs) * int64(w.bs)
	first := int64(super1 + w.bs)
	permanent := false
	shrunk := false
	var plan []*simrt.Fault
	n := 1 + g.N(2)
	for i := 0; i < n; i++ {
		switch k := g.N(9); k {
		case 0, 1: // bad sectors
			from := first + int64(g.N(int((scanned-first)/512)))*512
			if bl := w.LeafBlocks(); k == 1 && len(bl) > 0 {
				from = bl[g.N(len(bl))].off + int64(g.N(w.bs/512))*512
			}
			r := simrt.BadRange{From: from, To: from + 512*int64(1+g.N(64)), Err: syscall.EIO, Times: g.Pick(-1, -1, 1, 2)}
			w.img.Bad = append(w.img.Bad, r)
			if r.Times < 0 && r.From < scanned {
				permanent = true
			}
		case 2: // the device gets smaller
			at := first + int64(g.N(int((scanned-first)/int64(w.bs))))*int64(w.bs)
			to := first + int64(g.N(int(scanned-first)))
			if bl := w.LeafBlocks(); len(bl) > 0 && g.Chance(1, 2) {
				to = bl[g.N(len(bl))].off + int64(g.N(w.bs))
			}
			w.img.OnRead = func(off int64) {
				if off >= at && !shrunk {
					shrunk = true
					if to < w.img.Size {
						w.img.SetSize(to)
					}
					s.Inject("device_shrinks")
					simrt.Event("device now has %d bytes", w.img.Size)
				}
			}
		default:
			ops := []string{"open", "flock", "anywrite", "truncate", "anysync", "mmap", "fstat", "anyread", "lseek", "close", "munmap"}
			errs := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.ENOMEM, syscall.ENOLCK, syscall.EMFILE, syscall.EINTR, 0}
			f := &simrt.Fault{Op: ops[g.N(len(ops))], Skip: g.N(3), Count: g.Pick(1, 1, 2, -1), Err: errs[g.N(len(errs))], Part: g.N(8)}
			if f.Op == "anywrite" || f.Op == "anysync" || f.Op == "truncate" {
				f.Skip = g.N(30)
			}
			if f.Op == "anyread" && g.Chance(2, 3) {
				f.Skip = g.N(int(scanned / int64(w.bs)))
				f.Tag = "image"
			}
			if f.Err == syscall.EINTR && f.Count < 0 {
				f.Count = 3
			}
			if f.Err == 0 && f.Count < 0 {
				f.Count = 1 + g.N(40)
			}
			if f.Op == "flock" && f.Count < 0 && f.Err == syscall.EAGAIN {
				f.Count = 5
			}
			plan = append(plan, f)
		}
	}
	s.Faults = plan
	p := c.Exec("recon", w.reconArgs(dbPath, imgPath)...)
	s.Faults = nil
	c.MustEnd(p, "with I/O errors")
	hit := shrunk
	for _, f := range plan {
		if f.Hits > 0 {
			hit = true
			c.Nontriv = true
		}
	}
	for k := range s.Injected {
		if strings.HasPrefix(k, "bad_") {
			hit = true
			c.Nontriv = true
		}
	}
	c.Evals++
	s.Mark(p.Code, s.Injected)
	if p.Code != 0 {
		if p.Stderr.Len() == 0 {
			c.Fail("message", "recon failed without a message (status %d)", p.Code)
		}
		if !hit && !permanent {
			c.Fail("status", "recon failed although nothing went wrong: %q", tail(p.Stderr.String()))
		}
		return
	}
	if permanent || shrunk {
		c.Fail("status", "recon claims success although part of the device cannot be read")
	}
	s.FS.PowerLoss(c.Gen("power"))
	s.Inject("power_loss")
	if d := diffRecs(c.DB(dbPath, "after a successful recon and a power loss").Recs, want); d != "" {
		c.Fail("items", "recon claims success, but %s", d)
	}
}

func init() {
	register(&Check{ID: "C02", Run: runC02, Rule: "An oracle check is one record compared with the leaf it came from; a run counts if the image had any"})
	register(&Check{ID: "C03", Run: runC03, Rule: "An oracle check is one record of an intact leaf or one damaged block; a run counts if at least one block still looks like a leaf but is damaged"})
	register(&Check{ID: "C04", Run: runC04, Faults: true, Rule: "An oracle check is one interrupted recon followed by inspection; every run has at least one"})
	register(&Check{ID: "C05", Run: runC05, Faults: true, Rule: "An oracle check is one recon under an I/O fault plan; a run counts if a fault was delivered"})
}
