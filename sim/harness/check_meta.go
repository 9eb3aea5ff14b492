//go:build go1.22

package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"btrsim/simrt"
)

// ------------------------------------------------------------- C06

// emptyBolt is a valid database file without any bucket.
func emptyBolt() []byte {
	const ps = 4096
	b := make([]byte, 4*ps)
	for i := 0; i < 2; i++ {
		p := b[i*ps:]
		le.PutUint64(p, uint64(i))
		le.PutUint16(p[8:], 4)
		m := p[16:]
		le.PutUint32(m, 0xED0CDAED)
		le.PutUint32(m[4:], 2)
		le.PutUint32(m[8:], ps)
		le.PutUint64(m[16:], 3)
		le.PutUint64(m[32:], 2)
		le.PutUint64(m[40:], 4)
		le.PutUint64(m[48:], uint64(i))
		h := fnv.New64a()
		h.Write(m[:56])
		le.PutUint64(m[56:], h.Sum64())
	}
	le.PutUint64(b[2*ps:], 2)
	le.PutUint16(b[2*ps+8:], 0x10)
	le.PutUint64(b[3*ps:], 3)
	le.PutUint16(b[3*ps+8:], 2)
	return b
}

// readers are the commands that only read the metadata file.
func readCommands(db string, bs int) [][]string {
	return [][]string{
		dbArgs(db, bs, "dump-index"),
		dbArgs(db, bs, "ls"),
		dbArgs(db, bs, "ls", "/", "--recursive"),
		dbArgs(db, bs, "recover", imgPath, "/out/r"),
		dbArgs(db, bs, "mount", imgPath, "/mnt"),
	}
}

// refused checks that a command was refused in an orderly way.
func (c *Ctx) refused(p *simrt.Proc, what string) {
	if p.Crash != "" {
		c.Fail("crash", "%s: %s; %q", what, p.Outcome(), tail(p.Stderr.String()))
	}
	if !p.Exited {
		c.Fail("accepted", "%s: still running (%s)", what, c.S.Blocked(p))
	}
	if p.Code == 0 {
		c.Fail("accepted", "%s: not refused; stderr %q", what, tail(p.Stderr.String()))
	}
	if p.Stderr.Len() == 0 {
		c.Fail("message", "%s: refused without a message", what)
	}
}

// same fails if the records of the file have changed.
func (c *Ctx) sameDB(a, b *BoltDB, what string) {
	if d := diffRecs(b.Recs, a.Recs); d != "" {
		c.Fail("changed", "%s: %s", what, d)
	}
	if string(a.Meta) != string(b.Meta) {
		c.Fail("changed", "%s: the file's id changed from %x to %x", what, a.Meta, b.Meta)
	}
}

func runC06(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c06")
	w := c.NewWorld(s, WorldOpt{Ops: 5, Noise: true, Strays: g.Chance(1, 2), BS: g.Pick(16384, 4096, 8192, 32768)})
	w.Populate()
	if g.Chance(1, 4) { // a leaf of the other file system is there to be taken
		off := int64(3 << 20)
		if w.outside(off) {
			w.putBlock(off, makeLeaf(w.bs, w.fsid2, uint64(off), 9, oFS, []item{w.randItemFrom(g, 50)}, 0), "foreign", oFS, 9, 1)
		}
	}
	other := fsidString(w.fsid2)
	if g.Chance(1, 3) {
		s.ChooseSched()
	}
	c.Recon(w, dbPath, imgPath)
	f := s.FS.Lookup(dbPath)
	base := c.DB(dbPath, "after recon")
	if base.Meta == nil {
		c.Fail("unbound", "the metadata file does not say what it belongs to")
	}
	n := 1 + g.N(4)
	for i := 0; i < n; i++ {
		what := ""
		var p *simrt.Proc
		f = s.FS.Lookup(dbPath)
		now := c.DB(dbPath, "before a refused command")
		switch k := g.N(6); k {
		case 0: // other id
			what = "recon with another filesystem id"
			p = c.Exec("refused", append(dbArgs(dbPath, w.bs, "recon", imgPath, "--id", other), pick(g, "--append", "--verbose")...)...)
			c.refused(p, what)
			c.sameDB(base, c.DB(dbPath, what), what)
		case 1: // other block size
			bs := w.bs
			for bs == w.bs {
				bs = g.Pick(4096, 8192, 16384, 32768, 65536, w.bs+4096, w.bs*2, 512)
			}
			what = fmt.Sprintf("recon with block size %d instead of %d", bs, w.bs)
			p = c.Exec("refused", append(dbArgs(dbPath, bs, "recon", imgPath, "--id", w.FSID()), pick(g, "--append", "--verbose")...)...)
			c.refused(p, what)
			c.sameDB(base, c.DB(dbPath, what), what)
		case 2: // both
			what = "recon with another filesystem id and block size"
			p = c.Exec("refused", dbArgs(dbPath, w.bs*2, "recon", imgPath, "--id", other)...)
			c.refused(p, what)
			c.sameDB(base, c.DB(dbPath, what), what)
		case 3: // other version
			v := uint64(g.Pick(20161109, 20190808, 20190810, 20230101, 0, 1))
			if g.Chance(1, 6) {
				v = ^uint64(0) - uint64(g.N(2))
			}
			cl := f.Clone()
			cl.Poke(le64(v), now.MetaOff)
			c.oddFile(w, cl, fmt.Sprintf("metadata version %d", v), g)
			what = "file with another version"
		case 4: // no index
			var b []byte
			switch g.N(4) {
			case 0:
				b = emptyBolt()
			case 1:
				b = []byte{}
			case 2:
				b = make([]byte, 4096*g.N(10)+g.N(4096))
				simrt.FillBytes(b, g.Seed64())
			case 3:
				b = f.ReadAll()
				b = b[:g.N(4096)]
			}
			i := s.FS.Put("/m/odd.db", "", b)
			what = fmt.Sprintf("file of %d bytes without an index", len(b))
			for _, a := range readCommands("/m/odd.db", w.bs) {
				if g.Chance(1, 2) {
					continue
				}
				h := i.Hash()
				c.refused(c.Exec("refused", a...), a[0]+" on a "+what)
				if x := s.FS.Lookup("/m/odd.db"); x != i || x.Hash() != h {
					c.Fail("changed", "%s changed a %s", a[0], what)
				}
			}
			s.FS.RemoveEntry("/m/odd.db")
		case 5: // the record that binds the file is cut short
			cl := f.Clone()
			cl.Poke(le32(uint32(g.N(len(now.Meta)))), now.MetaHdr+12)
			c.oddFile(w, cl, "truncated metadata record", g)
			what = "file with a truncated metadata record"
		}
		s.Mark(what, n)
		c.Evals++
		// Whoever comes next is served.
		p = c.Exec("dump", dbArgs(dbPath, w.bs, "dump-index")...)
		c.MustSucceed(p, "after "+what)
		checkDump(c, p, base.Recs, "after "+what)
		if g.Chance(1, 2) {
			p = c.Exec("recon", w.reconArgs(dbPath, imgPath)...)
			c.MustSucceed(p, "after "+what)
			c.sameDB(base, c.DB(dbPath, what), "recon again after "+what)
		}
	}
	if apiRefuse != nil && g.Chance(1, 2) {
		apiRefuse(c, w, base)
	}
	if g.Chance(1, 2) {
		c.rivals(w, g, base)
	}
	c.Nontriv = true
}

// rivals runs recon for several file systems or block sizes on one metadata
// file at the same time. It is bound to one of them.
func (c *Ctx) rivals(w *World, g simrt.Gen, base *BoltDB) {
	s := c.S
	s.ChooseSched()
	type config struct {
		bs   int
		fsid [16]byte
	}
	db := "/m/rivals.db"
	bound := config{}
	if g.Chance(1, 3) {
		db, bound = dbPath, config{w.bs, w.fsid}
	}
	all := []config{{w.bs, w.fsid}, {w.bs, w.fsid2}, {w.bs / 2, w.fsid}}
	type runT struct {
		config
		p *simrt.Proc
	}
	var rs []runT
	for i := 2 + g.N(3); i > 0; i-- {
		k := all[g.N(len(all))]
		slot := len(rs)
		rs = append(rs, runT{k, s.Spawn(slot, "rival"+u(slot), append([]string{"btrfscue"}, dbArgs(db, k.bs, "recon", imgPath, "--id", fsidString(k.fsid))...)...)})
	}
	if g.Chance(1, 4) {
		p := rs[g.N(len(rs))].p
		p.KillSys, p.KillPart = 1+g.N(40), g.N(9)
	}
	s.Run()
	what, killed := "concurrent recons", false
	for _, r := range rs {
		what += fmt.Sprintf(" (%x.. %d: %s)", r.fsid[:2], r.bs, r.p.Outcome())
		killed = killed || r.p.Killed != ""
	}
	ended := false
	for _, r := range rs {
		if r.p.Killed == "" {
			c.MustEnd(r.p, what)
			ended = ended || r.p.Code == 0
		}
	}
	if !ended && bound.bs == 0 {
		if !killed {
			c.Fail("status", "%s: all have failed: %q", what, tail(rs[0].p.Stderr.String()))
		}
		return // the one that was killed has left something without an index
	}
	got := c.DB(db, what)
	winner := config{}
	for _, k := range all {
		if string(got.Meta) == string(metaRecord(k.bs, k.fsid)) {
			winner = k
		}
	}
	if winner.bs == 0 || bound.bs != 0 && winner != bound {
		c.Fail("unbound", "%s: the file is bound to %x", what, got.Meta)
	}
	for _, r := range rs {
		if r.p.Killed != "" {
			continue
		}
		if r.config == winner {
			if r.p.Code != 0 {
				c.Fail("status", "%s: %s failed: %q", what, r.p.Name, tail(r.p.Stderr.String()))
			}
		} else {
			c.refused(r.p, what)
		}
		c.Evals++
	}
	if db == dbPath {
		c.sameDB(base, got, what)
	} else {
		c.checkScan(got.Recs, refScan(w.img, winner.bs, winner.fsid), w.img, winner.bs, what)
	}
	s.Mark("rivals", len(rs), killed, winner.bs == w.bs, winner.fsid == w.fsid)
}

// apiRefuse, if built in, opens the file through the package.
var apiRefuse func(c *Ctx, w *World, base *BoltDB)

func fsidString(f [16]byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", f[0:4], f[4:6], f[6:8], f[8:10], f[10:16])
}

func pick(g simrt.Gen, a ...string) []string {
	k := g.N(len(a) + 1)
	if k == 0 {
		return nil
	}
	return []string{a[k-1]}
}

// oddFile runs commands on a metadata file that has to be refused.
func (c *Ctx) oddFile(w *World, f *simrt.Inode, what string, g simrt.Gen) {
	s := c.S
	s.FS.PutInode("/m/odd.db", f)
	h := f.Hash()
	want, err := readBolt(f.ReadAll())
	if err != nil {
		c.Fail("harness", "odd file: %v", err)
	}
	for _, a := range append(readCommands("/m/odd.db", w.bs), w.reconArgs("/m/odd.db", imgPath)) {
		if g.Chance(1, 2) {
			continue
		}
		c.refused(c.Exec("refused", a...), a[0]+" on a file with "+what)
		x := s.FS.Lookup("/m/odd.db")
		if a[0] != "recon" && (x != f || x.Hash() != h) {
			c.Fail("changed", "%s changed the file with %s", a[0], what)
		}
		got, err := readBolt(x.ReadAll())
		if err != nil {
			c.Fail("changed", "%s damaged the file with %s: %v", a[0], what, err)
		}
		c.sameDB(want, got, a[0]+" on a file with "+what)
		c.Evals++
	}
	s.FS.RemoveEntry("/m/odd.db")
}

// ------------------------------------------------------------- C22

// variants makes images of the same file system that differ.
func (w *World) variants(g simrt.Gen, s *simrt.Sim, n int, damage bool, tag string) (paths []string) {
	for i := 0; i < n; i++ {
		cl := w.img.Clone()
		cl.NoTrack = true
		bl := w.LeafBlocks()
		switch g.N(4) {
		case 0: // the same
		case 1, 2: // some leaves are not there
			for k := 0; k < len(bl); k++ {
				if g.Chance(1, 2) {
					cl.Poke(make([]byte, len(bl[k].raw)), bl[k].off)
				}
			}
		case 3: // older: leaves of late transactions are not there yet
			lim := uint64(g.N(int(w.gen) + 1))
			for _, p := range bl {
				if p.gen > lim && p.kind != "stray" {
					cl.Poke(make([]byte, len(p.raw)), p.off)
				}
			}
		}
		if g.Chance(1, 4) { // shifted by whole blocks
			last := cl.Size / int64(w.bs) * int64(w.bs)
			for _, p := range bl {
				b := make([]byte, w.bs)
				cl.Peek(b, p.off)
				off := last - int64(1+g.N(40))*int64(w.bs)
				if off > super2+65536 {
					cl.Poke(b, off)
				}
			}
		}
		if damage && g.Chance(2, 3) {
			old := w.img
			w.img = cl
			w.Damage(g, 1+g.N(6))
			w.img = old
		}
		path := fmt.Sprintf("/img/%s%d.img", tag, i)
		s.FS.PutInode(path, cl)
		cl.Tag = "image"
		paths = append(paths, path)
	}
	return
}

func runC22(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c22")
	o := WorldOpt{Ops: 8, Noise: true, Strays: true}
	if g.Chance(1, 15) {
		o.Dense = 10001 + g.N(2000)
		o.BS = 16384
	}
	w := c.NewWorld(s, o)
	w.Populate()
	damage := g.Chance(1, 2)
	paths := w.variants(g, s, 2+g.N(2), damage, "v")
	refs := map[string]*RefScan{}
	odd := false
	for _, p := range paths {
		refs[p] = refScan(s.FS.Lookup(p), w.bs, w.fsid)
		odd = odd || len(refs[p].odd) > 0
	}
	s.Mark(len(paths), damage, len(refs[paths[0]].recs))
	// Intact leaves that damaged checksums make contradict each other are not
	// what this property is about.
	union := map[Rec][]byte{}
	for _, p := range paths {
		for r, v := range refs[p].recs {
			if old, ok := union[r]; ok && string(old) != string(v) {
				return
			}
			union[r] = v
		}
	}
	// Two orders, with repetitions, give the same.
	order := func() (l []string) {
		l = append(l, paths...)
		for k := g.N(3); k > 0; k-- {
			l = append(l, paths[g.N(len(paths))])
		}
		for i := len(l) - 1; i > 0; i-- {
			j := g.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		return
	}
	run := func(db string, l []string) *BoltDB {
		have := map[Rec][]byte{}
		var prev *BoltDB
		done := map[string]bool{}
		for i, p := range l {
			what := fmt.Sprintf("recon %d (%s) of %v", i, p, l)
			c.MustSucceed(c.Exec("recon", append(w.reconArgs(db, p), pick(g, "--append")...)...), what)
			for r, v := range refs[p].recs {
				have[r] = v
			}
			got := c.DB(db, what)
			if d := missingRecs(got.Recs, have); d != "" {
				c.Fail("items", "%s: %s", what, d)
			}
			if prev != nil {
				for r, v := range prev.Recs {
					n, ok := got.Recs[r]
					if !ok {
						c.Fail("removed", "%s removed %v", what, r)
					}
					if string(n) != string(v) {
						// only an intact leaf may replace an item of a damaged one
						if string(have[r]) != string(n) {
							c.Fail("changed", "%s changed %v", what, r)
						}
					}
				}
				if done[p] && diffRecs(got.Recs, prev.Recs) != "" {
					c.Fail("changed", "%s: repeating changed something: %s", what, diffRecs(got.Recs, prev.Recs))
				}
			}
			done[p] = true
			prev = got
			c.Evals++
		}
		return prev
	}
	a := run("/m/a.db", order())
	b := run("/m/b.db", order())
	if !odd {
		if d := diffRecs(a.Recs, union); d != "" {
			c.Fail("items", "all runs together: %s", d)
		}
	} else {
		for r, v := range a.Recs {
			if _, ok := union[r]; ok {
				continue
			}
			ok := false
			blk := make([]byte, w.bs)
			for _, p := range paths {
				for _, off := range refs[p].odd {
					s.FS.Lookup(p).Peek(blk, off)
					ok = ok || oddItem(blk, r, v)
				}
			}
			if !ok {
				c.Fail("items", "%v is in none of the images", r)
			}
		}
	}
	if len(a.Recs) != len(b.Recs) {
		c.Fail("order", "the result depends on the order: %d and %d records", len(a.Recs), len(b.Recs))
	}
	for r := range a.Recs {
		if _, ok := b.Recs[r]; !ok {
			c.Fail("order", "the result depends on the order: %v", r)
		}
	}
	c.Nontriv = true
}

// ------------------------------------------------------------- C21

func runC21(c *Ctx) {
	s := c.prepare()
	s.FS.Track = true
	g := c.Gen("c21")
	s.ChooseSched()
	o := WorldOpt{Ops: 3, Gens: 2, Strays: true, Noise: false, BS: g.Pick(65536, 65536, 16384)}
	if g.Chance(1, 4) {
		o.Dense = 10001 + g.N(2000)
	}
	w := c.NewWorld(s, o)
	w.Populate()
	paths := w.variants(g, s, 2, false, "v")
	refs := map[string]map[Rec][]byte{}
	for _, p := range paths {
		refs[p] = refScan(s.FS.Lookup(p), w.bs, w.fsid).recs
	}
	init := map[Rec][]byte{}
	exists := g.Chance(1, 2)
	if exists {
		first := w.variants(g, s, 1, false, "init")[0]
		init = refScan(s.FS.Lookup(first), w.bs, w.fsid).recs
		c.Recon(w, dbPath, first)
	}
	nr := g.N(3) // recons
	type runT struct {
		p    *simrt.Proc
		img  string
		kind string
	}
	var rs []*runT
	for slot := 0; slot < 4; slot++ {
		if slot < nr {
			img := paths[g.N(2)]
			rs = append(rs, &runT{img: img, kind: "recon", p: s.Spawn(slot, fmt.Sprintf("recon%d", slot), append([]string{"btrfscue"}, w.reconArgs(dbPath, img)...)...)})
		} else if g.Chance(2, 3) {
			k := [][]string{dbArgs(dbPath, w.bs, "dump-index"), dbArgs(dbPath, w.bs, "ls", "--recursive"), dbArgs(dbPath, w.bs, "recover", imgPath, fmt.Sprintf("/out/r%d", slot))}[g.N(3)]
			rs = append(rs, &runT{kind: k[0], p: s.Spawn(slot, fmt.Sprintf("%s%d", k[0], slot), append([]string{"btrfscue"}, k...)...)})
		}
	}
	victim := -1
	if len(rs) > 1 && g.Chance(1, 3) {
		victim = g.N(len(rs))
		rs[victim].p.KillSys = 1 + g.N(g.Pick(60, 2000))
		rs[victim].p.KillPart = g.N(9)
	}
	if g.Chance(1, 3) { // a stalled lock holder or slow disk
		s.Latency = int64(g.Pick(1e6, 20e3, 50e6))
	}
	s.Run()
	var names []string
	for _, r := range rs {
		names = append(names, r.p.Name)
	}
	what := strings.Join(names, " + ")
	for _, r := range rs {
		if r.p.Crash != "" {
			c.Fail("crash", "%s: %s %s; %q", what, r.p.Name, r.p.Outcome(), tail(r.p.Stderr.String()))
		}
		if !r.p.Exited {
			c.Fail("deadlock", "%s: %s does not end: %s", what, r.p.Name, s.Blocked(r.p))
		}
		if r.kind == "recon" && r.p.Killed == "" && r.p.Code != 0 {
			c.Fail("status", "%s: %s failed: %q", what, r.p.Name, tail(r.p.Stderr.String()))
		}
	}
	// The possible indexes: those after any subset of the recons.
	final := copyRecs(init)
	maybe := map[Rec][]byte{}
	bound := exists
	for _, r := range rs {
		if r.kind != "recon" {
			continue
		}
		for k, v := range refs[r.img] {
			if r.p.Killed == "" {
				final[k] = v
			} else {
				maybe[k] = v
			}
		}
		bound = bound || r.p.Killed == ""
	}
	if f := s.FS.Lookup(dbPath); f != nil && bound {
		got := c.DB(dbPath, what)
		if d := missingRecs(got.Recs, final); d != "" {
			c.Fail("items", "%s: %s", what, d)
		}
		for _, k := range sortedRecs(got.Recs) {
			if final[k] == nil && string(maybe[k]) != string(got.Recs[k]) {
				c.Fail("items", "%s: %v is in none of the images", what, k)
			}
		}
	} else if bound {
		c.Fail("lost", "%s: no metadata file", what)
	}
	// What every reader saw is the index before or after a recon.
	killedRecon := victim >= 0 && rs[victim].kind == "recon" && rs[victim].p.Killed != ""
	for _, r := range rs {
		if r.kind == "recon" || r.p.Killed != "" {
			continue
		}
		if r.p.Code != 0 {
			if exists {
				c.Fail("status", "%s: %s failed although there is an index: %q", what, r.p.Name, tail(r.p.Stderr.String()))
			}
			if r.p.Stderr.Len() == 0 {
				c.Fail("message", "%s: %s failed without a message", what, r.p.Name)
			}
			continue
		}
		if killedRecon || r.kind == "recover" {
			continue
		}
		outs := map[string]bool{}
		var imgs []string
		for _, x := range rs {
			if x.kind == "recon" {
				imgs = append(imgs, x.img)
			}
		}
		for m := 0; m < 1<<uint(len(imgs)); m++ {
			if m == 0 && !exists {
				continue
			}
			outs[c.readerOutput(w, r.kind, init, m, imgs, refs)] = true
		}
		if !outs[r.p.Stdout.String()] {
			c.Fail("partial", "%s: %s saw an index that is neither that before nor that after a recon (%d bytes of output, %d possible ones)", what, r.p.Name, r.p.Stdout.Len(), len(outs))
		}
		c.Evals++
	}
	// The next one is not blocked, whatever happened.
	p := c.Exec("after", w.reconArgs(dbPath, paths[0])...)
	if !bound && p.Exited && p.Code != 0 && p.Crash == "" {
		// a killed recon left a file that was never completed
		c.Count("rejected")
		return
	}
	c.MustSucceed(p, "after "+what)
	for k, v := range refs[paths[0]] {
		final[k] = v
	}
	if d := missingRecs(c.DB(dbPath, "after "+what).Recs, final); d != "" {
		c.Fail("items", "%s, then recon: %s", what, d)
	}
	sort.Strings(names)
	var outcomes []string
	for _, r := range rs {
		outcomes = append(outcomes, fmt.Sprint(r.kind, r.p.Code, r.p.Killed != ""))
	}
	s.Mark(outcomes, exists)
	c.Evals++
	c.Nontriv = len(rs) > 1
}

func copyRecs(m map[Rec][]byte) map[Rec][]byte {
	n := make(map[Rec][]byte, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// readerOutput is what a reader prints after some of the recons. The index is
// built by running them alone.
func (c *Ctx) readerOutput(w *World, kind string, init map[Rec][]byte, m int, imgs []string, refs map[string]map[Rec][]byte) string {
	s := c.S
	key := fmt.Sprint(m)
	db := "/m/ref" + key + ".db"
	if s.FS.Lookup(db) == nil {
		img := s.FS.Put("/img/ref"+key+".img", "image", nil)
		img.NoTrack = true
		img.SetSize(w.size)
		// One leaf per record is enough for an equal index.
		recs := copyRecs(init)
		for i, p := range imgs {
			if m>>uint(i)&1 == 1 {
				for k, v := range refs[p] {
					recs[k] = v
				}
			}
		}
		off := int64(super1 + w.bs)
		var its []item
		var last Rec
		used := headerLen
		flush := func() {
			if len(its) > 0 {
				img.Poke(makeLeaf(w.bs, w.fsid, uint64(off), last.Gen, last.Owner, its, 0), off)
				off += int64(w.bs)
			}
			its, used = nil, headerLen
		}
		l := sortedRecs(recs)
		sort.SliceStable(l, func(i, j int) bool {
			if l[i].Owner != l[j].Owner {
				return l[i].Owner < l[j].Owner
			}
			return l[i].Gen < l[j].Gen
		})
		for _, r := range l {
			d := itemData(recs[r])
			if len(its) > 0 && (r.Owner != last.Owner || r.Gen != last.Gen) || used+itemLen+len(d) > w.bs {
				flush()
			}
			last = r
			its = append(its, item{r.Key, d})
			used += itemLen + len(d)
		}
		flush()
		c.MustSucceed(c.Exec("refrecon", w.reconArgs(db, "/img/ref"+key+".img")...), "reference")
	}
	var p *simrt.Proc
	if kind == "ls" {
		p = c.Exec("ref", dbArgs(db, w.bs, "ls", "--recursive")...)
	} else {
		p = c.Exec("ref", dbArgs(db, w.bs, "dump-index")...)
	}
	c.MustSucceed(p, "reference")
	return p.Stdout.String()
}

func init() {
	register(&Check{ID: "C06", Run: runC06, Rule: "An oracle check is one refused command, followed by an accepted one"})
	register(&Check{ID: "C22", Run: runC22, Rule: "An oracle check is one recon run in a sequence of runs"})
	register(&Check{ID: "C21", Run: runC21, Rule: "An oracle check is one concurrent reader or one set of concurrent processes; a run counts if at least two processes ran"})
}
