//go:build go1.22 && api

package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"
	"syscall"

	"btrsim/simrt"

	os0 "btrsim/shim/os"
	bt "btrsim/slot0/pkg/btrfs"
	ix0 "btrsim/slot0/pkg/btrfs/index"
	iou0 "btrsim/slot0/pkg/ioutil"
	uuid0 "btrsim/slot0/pkg/uuid"
)

// The checks in this file use the packages of /repo directly. They run as
// processes of the simulation, on its file system.

// ------------------------------------------------------------- C07

// ordLess is the order of items in the index.
func ordLess(a, b Key) bool {
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	if a.Obj != b.Obj {
		return a.Obj < b.Obj
	}
	return a.Off < b.Off
}

func btKey(k Key) bt.Key { return bt.Key{ObjectID: k.Obj, Type: k.Type, Offset: k.Off} }
func ofKey(k bt.Key) Key { return Key{Obj: k.ObjectID, Type: k.Type, Off: k.Offset} }

// isMetaKey tells whether a record would replace the one that binds the file.
func isMetaKey(r Rec) bool {
	return r.Owner == math.MaxUint64 && r.Gen == math.MaxUint64 &&
		r.Key == Key{Obj: bt.LastFreeObjectID, Type: 255, Off: math.MaxUint64}
}

// version is the model's lookup: which version of a key is valid at gen.
type ixModel struct {
	recs map[Rec][]byte
	all  []Rec // sorted; nil if it has to be made again
}

func (m *ixModel) sorted() []Rec {
	if m.all == nil {
		m.all = []Rec{}
		for r := range m.recs {
			m.all = append(m.all, r)
		}
		sort.Slice(m.all, func(i, j int) bool { return recLess(m.all[i], m.all[j]) })
	}
	return m.all
}

// lookup returns the version of a key that is valid at a generation.
func (m *ixModel) lookup(owner uint64, k Key, gen uint64) (Rec, bool) {
	a := m.sorted()
	i := sort.Search(len(a), func(i int) bool { return !recLess(a[i], Rec{owner, k, 0}) })
	var best Rec
	ok := false
	for ; i < len(a) && a[i].Owner == owner && a[i].Key == k; i++ {
		if !ok || a[i].Gen <= gen {
			best, ok = a[i], true
		}
	}
	return best, ok
}

// keys returns the valid versions of all keys between two bounds, or nil if one
// of them is the key that the record has which binds the file.
func (m *ixModel) keys(owner uint64, first, last Key, gen uint64) []Rec {
	if meta := (Key{bt.LastFreeObjectID, 255, math.MaxUint64}); owner == math.MaxUint64 && !ordLess(meta, first) && !ordLess(last, meta) {
		return nil
	}
	out := []Rec{}
	a := m.sorted()
	i := sort.Search(len(a), func(i int) bool { return !recLess(a[i], Rec{owner, first, 0}) })
	for i < len(a) && a[i].Owner == owner && !ordLess(last, a[i].Key) {
		r, _ := m.lookup(owner, a[i].Key, gen)
		out = append(out, r)
		k := a[i].Key
		for i < len(a) && a[i].Owner == owner && a[i].Key == k {
			i++
		}
	}
	return out
}

// ixRun is one history.
type ixRun struct {
	c       *Ctx
	g       simrt.Gen
	owners  []uint64
	types   []uint8
	objs    []uint64
	offs    []uint64
	gens    []uint64
	maxData int

	m       ixModel // what the open index holds
	durable map[Rec][]byte
	since   []ixIns // inserted since the last commit
	known   bool    // durable is what the file has if nothing else is open
	broken  bool    // a fault hit; the process gives up
	doing   string
	depth   int
	list    []Rec  // inserted at some time
	gen     uint64 // the index was opened with
}

type ixIns struct {
	r Rec
	v []byte
}

func (h *ixRun) fail(kind, format string, a ...interface{}) {
	h.c.Fail(kind, "%s: %s", h.doing, fmt.Sprintf(format, a...))
}

func (h *ixRun) u64(pool []uint64) uint64 {
	v := pool[h.g.N(len(pool))]
	switch h.g.N(12) {
	case 0:
		v++
	case 1:
		v--
	}
	return v
}

func (h *ixRun) key() Key {
	return Key{Obj: h.u64(h.objs), Type: h.types[h.g.N(len(h.types))], Off: h.u64(h.offs)}
}

// near is a key that is or might be in the index.
func (h *ixRun) near() (uint64, Key, uint64) {
	if a := h.list; len(a) > 0 && h.g.Chance(3, 4) {
		r := a[h.g.N(len(a))]
		switch h.g.N(8) {
		case 0:
			r.Key.Off++
		case 1:
			r.Key.Off--
		case 2:
			r.Key.Obj++
		case 3:
			r.Key.Type++
		case 4:
			r.Owner++
		}
		return r.Owner, r.Key, r.Gen
	}
	return h.owners[h.g.N(len(h.owners))], h.key(), h.u64(h.gens)
}

func (h *ixRun) insert(ix *ix0.Index) bool {
	g := h.g
	r := Rec{Owner: h.owners[g.N(len(h.owners))], Key: h.key(), Gen: h.u64(h.gens)}
	if g.Chance(1, 3) {
		var gen uint64
		r.Owner, r.Key, gen = h.near() // another version
		if g.Chance(1, 2) {
			r.Gen = gen + uint64(g.N(3)) - 1
		}
	}
	if g.Chance(1, 150) {
		r = Rec{math.MaxUint64, Key{bt.LastFreeObjectID, 255, math.MaxUint64}, math.MaxUint64}
	}
	data := make([]byte, g.N(1+h.maxData))
	simrt.FillBytes(data, g.Seed64())
	if r.Key.Type == tInode && g.Chance(3, 4) {
		data = (&inodeT{gen: r.Gen, size: g.Seed64()}).bytes()
	}
	hdr := make([]byte, headerLen)
	blockHeader(hdr, [16]byte{1}, 0, r.Gen, r.Owner, 1, 0)
	it := make([]byte, itemLen)
	copy(it, keyBytes(r.Key))
	le.PutUint32(it[17:], uint32(g.N(16384)))
	le.PutUint32(it[21:], uint32(len(data)))
	h.doing = fmt.Sprintf("inserting %v", r)
	had := append([]byte{}, data...)
	// The attempt counts: whether it is in the file is unclear if it fails.
	v := cat(it, data)
	if !isMetaKey(r) {
		h.since = append(h.since, ixIns{r, v})
	}
	if err := ix.InsertItem(btKey(r.Key), bt.Header(hdr), it, data); err != nil {
		return h.faulty(err)
	}
	if !bytes.Equal(had, data) {
		h.fail("items", "InsertItem changed its argument")
	}
	simrt.FillBytes(data, 7) // belongs to the caller
	simrt.FillBytes(it, 8)
	if !isMetaKey(r) {
		if _, ok := h.m.recs[r]; !ok {
			h.m.all = nil
			h.list = append(h.list, r)
		}
		h.m.recs[r] = v
	}
	return true
}

// faulty reports an error that there was no reason for.
func (h *ixRun) faulty(err error) bool {
	for _, f := range h.c.S.Faults {
		if f.Hits > 0 {
			h.broken = true
			return false
		}
	}
	h.fail("error", "%v", err)
	return false
}

func (h *ixRun) committed() {
	h.since = nil
	h.durable = map[Rec][]byte{}
	for r, v := range h.m.recs {
		h.durable[r] = v
	}
}

// item compares the result of a lookup.
func (h *ixRun) item(what string, got []byte, r Rec, ok bool, data bool) {
	h.c.Evals++
	switch {
	case !ok && got != nil:
		h.fail("lookup", "%s: returned %d bytes for a key that is not in the index", what, len(got))
	case ok && got == nil:
		h.fail("lookup", "%s: %v is not found", what, r)
	case ok:
		want := h.m.recs[r]
		if data {
			want = itemData(want)
		}
		if !bytes.Equal(got, want) {
			other := "something else"
			for x, v := range h.m.recs {
				if x.Owner == r.Owner && x.Key == r.Key && (bytes.Equal(v, got) || data && bytes.Equal(itemData(v), got)) {
					other = x.String()
				}
			}
			h.fail("lookup", "%s: got %s instead of %v", what, other, r)
		}
	}
}

// ixRange is a range query of either kind.
type ixRange interface {
	HasNext() bool
	Next() []byte
	Owner() uint64
	Key() bt.Key
	Generation() uint64
	Item() bt.Item
}

// scan compares what a range yields.
func (h *ixRun) scan(ix *ix0.Index, what string, r ixRange, data []byte, want []Rec) {
	h.doing = what
	if want == nil {
		return // has the record that binds the file
	}
	g := h.g
	stop := -1
	if g.Chance(1, 8) {
		stop = g.N(len(want) + 1)
	}
	if h.depth > 0 && stop < 0 {
		stop = 20
	}
	h.depth++
	defer func() { h.depth-- }()
	nested := 3
	i := 0
	for ; r.HasNext(); data = r.Next() {
		if i == stop {
			return
		}
		x := Rec{r.Owner(), ofKey(r.Key()), r.Generation()}
		if i >= len(want) {
			h.fail("range", "yields %v after all of its %d items", x, len(want))
		}
		if x != want[i] {
			h.fail("range", "item %d of %d is %v instead of %v", i, len(want), x, want[i])
		}
		h.item(what, r.Item(), x, true, false)
		h.item(what, data, x, true, true)
		if g.Chance(1, 40) { // queries do not disturb each other
			h.find(ix)
			h.doing = what
		}
		if h.depth == 1 && nested > 0 && g.Chance(1, 60) {
			nested--
			h.ranges(ix, false)
			h.doing = what
		}
		i++
	}
	if i < len(want) {
		h.fail("range", "ends after %d of %d items; %v is missing", i, len(want), want[i])
	}
	if g.Chance(1, 10) && (r.HasNext() || len(want) == 0 && data != nil) {
		h.fail("range", "does not end")
	}
	h.c.S.Mark(what[:min(len(what), 5)], bucket(len(want)))
}

func (h *ixRun) find(ix *ix0.Index) {
	owner, k, gen := h.near()
	h.doing = fmt.Sprintf("lookup at generation %d", h.gen)
	what := fmt.Sprintf("(owner %d key %d/%d/%d)", owner, k.Obj, k.Type, k.Off)
	switch {
	case h.g.Chance(1, 6):
		_, ok := h.m.recs[Rec{owner, k, gen}]
		if isMetaKey(Rec{owner, k, gen}) {
			return
		}
		h.c.Evals++
		if ix.HasItem(owner, btKey(k), gen) != ok {
			h.fail("lookup", "HasItem(%v) is %v", Rec{owner, k, gen}, !ok)
		}
	case k.Type == tInode && k.Off == 0 && h.g.Chance(1, 2):
		r, ok := h.m.lookup(owner, k, h.gen)
		ok = ok && len(itemData(h.m.recs[r])) >= 160
		h.item(what+" inode", ix.FindInodeItem(owner, k.Obj), r, ok, true)
	default:
		if owner == math.MaxUint64 && k == (Key{bt.LastFreeObjectID, 255, math.MaxUint64}) {
			return // shares its key with the record that binds the file
		}
		r, ok := h.m.lookup(owner, k, h.gen)
		h.item(what, ix.FindItem(owner, btKey(k)), r, ok, false)
		h.c.S.Mark("find", ok, r.Gen > h.gen, r.Gen == h.gen)
	}
}

const maxKey = math.MaxUint64

// ranges runs one range query.
func (h *ixRun) ranges(ix *ix0.Index, full bool) {
	g := h.g
	at := fmt.Sprintf(" at generation %d", h.gen)
	last := uint64(bt.LastFreeObjectID)
	all := func(owner uint64, t uint8, id uint64) []Rec {
		return h.m.keys(owner, Key{id, t, 0}, Key{id, t, maxKey}, h.gen)
	}
	owner, k, _ := h.near()
	switch n := g.N(12); {
	case n == 0 && full:
		h.doing = "full range"
		r, d := ix.FullRange()
		h.scan(ix, "full range", &r, d, h.m.sorted())
	case n == 1:
		h.doing = "all of a key" + at
		r, d := ix.RangeAll(owner, k.Type, k.Obj)
		h.scan(ix, fmt.Sprintf("all of %d/%d of owner %d%s", k.Obj, k.Type, owner, at), &r, d, all(owner, k.Type, k.Obj))
	case n == 2:
		h.doing = "subvolumes" + at
		r, d := ix.Subvolumes()
		h.scan(ix, "subvolumes"+at, &r, d, h.m.keys(1, Key{256, 132, 0}, Key{last, 132, maxKey}, h.gen))
	case n == 3:
		h.doing = "chunks" + at
		r, d := ix.Chunks()
		h.scan(ix, "chunks"+at, &r, d, all(3, 228, 256))
		r, d2 := ix.DevItems()
		h.scan(ix, "device items"+at, &r, d2, all(3, 216, 1))
	case n == 4:
		h.doing = "directory items" + at
		r, d := ix.DirItems(owner, k.Obj)
		h.scan(ix, "directory items"+at, &r, d, all(owner, 84, k.Obj))
		r, d = ix.XAttrItems(owner, k.Obj)
		h.scan(ix, "attributes"+at, &r, d, all(owner, 24, k.Obj))
		r, e := ix.FileExtentItems(owner, k.Obj)
		h.scan(ix, "file extents"+at, &r, e, all(owner, 108, k.Obj))
	case n == 5:
		h.doing = "owner" + at
		r, d := ix.Range(owner, ix0.KF(), bt.Key{ObjectID: maxKey, Type: 255, Offset: maxKey})
		h.scan(ix, fmt.Sprintf("owner %d%s", owner, at), &r, d, h.m.keys(owner, Key{}, Key{maxKey, 255, maxKey}, h.gen))
	case n == 6:
		h.doing = "type" + at
		r, d := ix.Range(owner, ix0.KF(uint64(k.Type)), ix0.KL(uint64(k.Type)))
		h.scan(ix, fmt.Sprintf("type %d of owner %d%s", k.Type, owner, at), &r, d, h.m.keys(owner, Key{0, k.Type, 0}, Key{last, k.Type, maxKey}, h.gen))
	default:
		_, k2, _ := h.near()
		if g.Chance(4, 5) && ordLess(k2, k) {
			k, k2 = k2, k
		}
		h.doing = "range" + at
		r, d := ix.Range(owner, btKey(k), btKey(k2))
		what := fmt.Sprintf("range (owner %d key %d/%d/%d to %d/%d/%d)%s", owner, k.Obj, k.Type, k.Off, k2.Obj, k2.Type, k2.Off, at)
		h.scan(ix, what, &r, d, h.m.keys(owner, k, k2, h.gen))
	}
}

func (h *ixRun) query(ix *ix0.Index) {
	if len(h.m.recs) > 3000 {
		for i := 0; i < 20; i++ {
			h.find(ix)
		}
		h.ranges(ix, h.g.Chance(1, 3))
		return
	}
	for n := 1 + h.g.N(6); n > 0; n-- {
		h.find(ix)
	}
	for n := 1 + h.g.N(3); n > 0; n-- {
		h.ranges(ix, true)
	}
}

// guarded runs fn, which must not panic.
func (h *ixRun) guarded(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failAbort); ok {
				panic(r)
			}
			if h.injected() {
				h.broken = true
				return
			}
			h.fail("crash", "panic: %v", r)
		}
	}()
	fn()
}

func (h *ixRun) injected() bool {
	for _, f := range h.c.S.Faults {
		if f.Hits > 0 {
			return true
		}
	}
	return false
}

func runC07(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c07")
	h := &ixRun{c: c, g: g, durable: map[Rec][]byte{}}
	h.m.recs = map[Rec][]byte{}
	h.owners = []uint64{1, 3, 5, 256, 257}
	if g.Chance(1, 3) {
		h.owners = append(h.owners, 0, 2, 4, 7, 255, bt.LastFreeObjectID, maxKey-4, maxKey-8, maxKey)
	}
	h.types = []uint8{1, 24, 84, 108, 132, 228, 216}
	if g.Chance(1, 3) {
		h.types = append(h.types, 0, 12, 96, 128, 168, 254, 255)
	}
	h.objs = []uint64{256, 257, 258, 1}
	for n := g.Pick(0, 4, 40); n > 0; n-- {
		h.objs = append(h.objs, uint64(259+n))
	}
	if g.Chance(1, 3) {
		h.objs = append(h.objs, 0, 1<<32, 1<<63, bt.LastFreeObjectID, maxKey)
	}
	h.offs = []uint64{0, 4096, 255, 256, 65535}
	for n := g.Pick(0, 10, 100); n > 0; n-- {
		h.offs = append(h.offs, uint64(n*g.Pick(1, 4096, 1<<20)))
	}
	if g.Chance(1, 3) {
		h.offs = append(h.offs, 1<<31, 1<<32, 1<<63, maxKey)
	}
	h.gens = []uint64{1, 2, 3, 5, 8, 255, 256}
	if g.Chance(1, 3) {
		h.gens = append(h.gens, 0, 1<<32, 1<<63, maxKey)
	}
	if g.Chance(1, 10) { // the end of the key space
		h.owners = []uint64{maxKey, maxKey - 1}
		h.types = []uint8{255, 254}
		h.objs = []uint64{bt.LastFreeObjectID, maxKey, maxKey - 1}
		h.offs = []uint64{maxKey, 0, maxKey - 1}
		h.gens = []uint64{5, 1, 3, 8, maxKey, 0}
	}
	h.maxData = g.Pick(200, 20, 0, 1500, 5000)
	big := g.Chance(1, 20)
	if g.Chance(1, 4) {
		s.ChooseSched()
	}
	gen := func() uint64 {
		if g.Chance(1, 2) {
			return maxKey
		}
		return h.u64(h.gens)
	}
	fsid := uuid0.UUID{}
	simrt.FillBytes(fsid[:], g.Seed64())
	const bs = 16384
	exists := false
	rounds := 2 + g.N(5)
	for round := 0; round < rounds; round++ {
		ro := exists && g.Chance(1, 3)
		kill, at := false, 0
		if !ro && !big && g.Chance(1, 3) {
			kill, at = true, 1+g.N(g.Pick(6, 25, 100))
		}
		s.Faults = nil
		if !ro && !kill && g.Chance(1, 6) {
			ops := []string{"anywrite", "anysync", "truncate"}
			errs := []syscall.Errno{syscall.EIO, syscall.ENOSPC}
			s.Faults = append(s.Faults, &simrt.Fault{Op: ops[g.N(len(ops))], Skip: g.N(20), Count: g.Pick(1, -1), Err: errs[g.N(2)], Part: g.N(8)})
		}
		closed := false
		h.broken = false
		p := c.Go("history", func() {
			h.guarded(func() {
				h.doing = "opening"
				var ix *ix0.Index
				var err error
				switch {
				case ro && g.Chance(1, 3):
					h.gen = maxKey
					ix, err = ix0.OpenReadOnly(dbPath)
				case ro:
					h.gen = gen()
					ix, err = ix0.Open(dbPath, 0644, &ix0.Options{ReadOnly: true, Generation: h.gen})
				default:
					h.gen = gen()
					ix, err = ix0.Open(dbPath, 0644, &ix0.Options{BlockSize: bs, FSID: fsid, Generation: h.gen})
				}
				if err != nil {
					h.faulty(err)
					return
				}
				exists = true
				steps := 1 + g.N(12)
				for i := 0; i < steps; i++ {
					switch k := g.N(6); {
					case ro || k < 2:
						h.query(ix)
					case k < 5:
						n := g.N(g.Pick(3, 12, 60, 300))
						if big && g.Chance(1, 3) {
							n, big = 10001+g.N(3000), false
							c.Count("automatic_commit")
						}
						for ; n > 0; n-- {
							if !h.insert(ix) {
								return
							}
						}
					default:
						h.doing = "commit"
						if err := ix.Commit(); err != nil {
							h.faulty(err)
							return
						}
						h.committed()
					}
				}
				h.query(ix)
				if !ro && g.Chance(1, 8) {
					return // the process ends without closing it
				}
				h.doing = "close"
				ix.Close()
				if h.injected() {
					h.broken = true
					return
				}
				if !ro {
					h.committed()
				}
				closed = true
			})
		})
		if kill {
			p.KillSys, p.KillPart = at, g.N(9)
		}
		s.Run()
		c.Settle()
		if p.Crash != "" && !h.broken || !p.Exited {
			c.Fail("crash", "%s: %s %s", h.doing, p.Outcome(), s.Blocked(p))
		}
		h.doing = fmt.Sprintf("after %q (%s, closed %v)", h.doing, p.Outcome(), closed)
		s.Faults = nil
		c.Evals++
		f := s.FS.Lookup(dbPath)
		var db *BoltDB
		var err error
		if f == nil {
			err = fmt.Errorf("no file")
		} else {
			db, err = readBolt(f.ReadAll())
		}
		if err != nil || db.Meta == nil {
			if exists || closed {
				h.fail("lost", "the index cannot be read: %v", err)
			}
			if f != nil {
				s.FS.RemoveEntry(dbPath) // killed while it was created
			}
			h.since, h.m.recs, h.m.all = nil, map[Rec][]byte{}, nil
			continue
		}
		if !ro {
			h.resume(db)
		}
	}
	c.Nontriv = len(h.m.recs) > 0
}

// resume takes the contents of the file, which have to be those of the last
// commit and a prefix of what was inserted afterwards.
func (h *ixRun) resume(db *BoltDB) {
	cur := map[Rec][]byte{}
	bad := map[Rec]bool{}
	check := func(r Rec) {
		v, ok := cur[r]
		x, got := db.Recs[r]
		if ok != got || !bytes.Equal(v, x) {
			bad[r] = true
		} else {
			delete(bad, r)
		}
	}
	for r, v := range h.durable {
		cur[r] = v
		check(r)
	}
	for r := range db.Recs {
		check(r)
	}
	n := 0
	for len(bad) > 0 && n < len(h.since) {
		cur[h.since[n].r] = h.since[n].v
		check(h.since[n].r)
		n++
	}
	if len(bad) > 0 {
		for r := range bad {
			if _, ok := db.Recs[r]; !ok {
				h.fail("lost", "%v is missing from %d records (%d committed, %d inserted since)", first(bad), len(db.Recs), len(h.durable), len(h.since))
			}
		}
		h.fail("items", "%v is not what was inserted", first(bad))
	}
	h.m.recs, h.m.all = cur, nil
	h.committed()
}

func first(m map[Rec]bool) Rec {
	var l []Rec
	for r := range m {
		l = append(l, r)
	}
	sort.Slice(l, func(i, j int) bool { return recLess(l[i], l[j]) })
	return l[0]
}

// ------------------------------------------------------------- C06

func init() {
	apiRefuse = func(c *Ctx, w *World, base *BoltDB) {
		s := c.S
		g := c.Gen("api")
		right := ix0.Options{BlockSize: uint(w.bs), FSID: uuid0.UUID(w.fsid), Generation: maxKey}
		p := c.Go("package", func() {
			for n := 1 + g.N(4); n > 0; n-- {
				o, what := right, ""
				switch g.N(3) {
				case 0:
					o.FSID, what = uuid0.UUID(w.fsid2), "with another filesystem id"
				case 1:
					o.BlockSize, what = uint(g.Pick(512, w.bs*2, w.bs+1)), "with another block size"
				case 2:
					o.FSID, o.BlockSize, what = uuid0.UUID(w.fsid2), uint(w.bs/2), "with another filesystem id and block size"
				}
				if ix, err := ix0.Open(dbPath, 0644, &o); err == nil {
					ix.Close()
					c.Fail("accepted", "opening the index %s is not refused", what)
				}
				c.Evals++
				// The same process is not blocked by what was refused.
				var ix *ix0.Index
				var err error
				if g.Chance(1, 2) {
					ix, err = ix0.OpenReadOnly(dbPath)
				} else {
					o := right
					ix, err = ix0.Open(dbPath, 0644, &o)
				}
				if err != nil {
					c.Fail("refused", "opening the index after one was refused %s: %v", what, err)
				}
				ix.Close()
			}
		})
		s.Run()
		c.Settle()
		if p.Crash != "" || !p.Exited {
			c.Fail("hang", "opening the index through the package: %s %s", p.Outcome(), s.Blocked(p))
		}
		c.sameDB(base, c.DB(dbPath, "after opening it through the package"), "opening the index through the package")
	}
}

// ------------------------------------------------------------- C23

// oddReader is a device whose data start at base. It delivers what the contract
// of io.ReaderAt allows, and short counts without an error.
type oddReader struct {
	g     simrt.Gen
	base  uint64
	data  []byte
	full  bool // the last read delivered everything
	reads int
	log   string
}

var errDevice = fmt.Errorf("device error")

func (r *oddReader) ReadAt(p []byte, o int64) (n int, err error) {
	r.reads++
	g := r.g
	defer func() {
		r.full = n == len(p)
		r.log += fmt.Sprintf(" ReadAt(%d, %d)=%d,%v", len(p), o, n, err)
	}()
	if r.reads > 1000 {
		return 0, errDevice
	}
	if o < 0 {
		return 0, syscall.EINVAL
	}
	off := uint64(o)
	end := r.base + uint64(len(r.data))
	have := 0
	if off < end {
		have = int(min(end-off, uint64(len(p))))
	}
	src := make([]byte, have) // a hole before the data
	if off >= r.base && have > 0 {
		copy(src, r.data[off-r.base:])
	} else if r.base-off < uint64(have) {
		copy(src[r.base-off:], r.data)
	}
	// The buffer may be used as scratch space, also where nothing is read.
	if g.Chance(1, 6) {
		simrt.FillBytes(p, g.Seed64())
	}
	switch k := g.N(9); {
	case k == 0: // fails after some of it
		errs := []error{errDevice, syscall.EIO, io.ErrUnexpectedEOF, syscall.EINTR, io.ErrNoProgress, io.EOF}
		n = 0
		if have > 0 {
			n = g.N(have)
		}
		copy(p, src[:n])
		return n, errs[g.N(len(errs))]
	case k == 1 && have > 0: // fails just before the end
		n = have - 1
		copy(p, src[:n])
		return n, errDevice
	case k == 2 && have > 0: // is not what a reader should do
		n = g.N(have)
		copy(p, src[:n])
		return n, nil
	}
	copy(p, src)
	if have < len(p) {
		return have, io.EOF
	}
	if off+uint64(have) == end && g.Chance(1, 2) {
		return have, io.EOF // at the end of the input
	}
	return have, nil
}

func runC23(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c23")
	size := g.Pick(4096, 1000, 16384, 1, 100000)
	data := make([]byte, size)
	simrt.FillBytes(data, g.Seed64())
	for i := range data {
		data[i] |= 1 // differs from a hole
	}
	s.FS.Put(imgPath, "image", data)
	for n := 1 + g.N(30); n > 0; n-- {
		bs := g.Pick(512, 4096, 16384, 1, 100, size, size+1)
		off := uint64(g.N(size + 1))
		switch g.N(8) {
		case 0, 1: // ends where the input ends
			if size >= bs {
				off = uint64(size - bs)
			}
		case 2:
			if size >= bs {
				off = uint64(size - bs + 1)
			}
		case 3:
			off = uint64(size)
		case 4:
			off = uint64(size) + g.U64()%(1<<40)
		case 5:
			off = uint64(g.N(size/bs+1) * bs)
		}
		if g.Chance(1, 40) {
			off = maxKey - uint64(g.N(1<<20))
		}
		block := make([]byte, bs)
		simrt.FillBytes(block, g.Seed64())
		var err error
		why := ""
		must := false // the whole block has been delivered
		avail := off <= uint64(size) && uint64(size)-off >= uint64(bs)
		at := off
		if g.Chance(2, 3) {
			r := &oddReader{g: g, data: data}
			if off < 1<<62 && g.Chance(1, 2) {
				r.base = []uint64{1 << 31, 1 << 32, 1 << 40, 1 << 62, 5}[g.N(5)]
				at += r.base
			}
			err = iou0.ReadBlockAt(r, block, at)
			why = r.log
			must = r.reads == 1 && r.full
		} else {
			s.Faults = nil
			hit := 0
			if g.Chance(1, 2) {
				f := &simrt.Fault{Op: "anyread", Tag: "image", Skip: g.N(3), Count: g.Pick(1, 2), Part: g.N(8)}
				if g.Chance(1, 2) {
					f.Err = syscall.EIO
				}
				s.Faults = append(s.Faults, f)
			}
			p := c.Go("reader", func() {
				f, e := os0.Open(imgPath)
				if e != nil {
					c.Fail("harness", "open: %v", e)
				}
				err = iou0.ReadBlockAt(f, block, off)
				f.Close()
			})
			s.Run()
			c.Settle()
			if p.Crash != "" || !p.Exited {
				c.Fail("crash", "reading a file: %s", p.Outcome())
			}
			for _, f := range s.Faults {
				if f.Err != 0 {
					hit += f.Hits
				}
			}
			must = hit == 0 && avail
			why = fmt.Sprintf(" (a file, %d faults)", hit)
			s.Faults = nil
		}
		c.Evals++
		what := fmt.Sprintf("reading %d bytes at %d, with %d bytes at %d:%s", bs, at, size, at-off, why)
		if err == nil {
			if !avail {
				c.Fail("short", "%s: success, although the input does not have them", what)
			}
			if !bytes.Equal(block, data[off:off+uint64(bs)]) {
				c.Fail("short", "%s: success, but the block is not what the input has", what)
			}
		} else if must {
			c.Fail("error", "%s: all of it was read, but the result is %v", what, err)
		}
		s.Mark(err == nil, must, bucket(bs), off+uint64(bs) == uint64(size), at != off, fmt.Sprint(err))
	}
	c.Nontriv = true
}

func init() {
	register(&Check{ID: "C07", Run: runC07, MinRuns: 300, Faults: true,
		Rule: "An oracle check is one item returned by a lookup or a range, or one file compared with the history; a run counts if the index is not empty at its end."})
	register(&Check{ID: "C23", Run: runC23, MinRuns: 300, Faults: true,
		Rule: "An oracle check is one block read; every run has some."})
}
