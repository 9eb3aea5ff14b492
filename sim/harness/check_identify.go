//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"btrsim/simrt"
)

var superOffs = []int64{64 << 10, 64 << 20, 256 << 30, 1 << 50}

// idRun is one run of identify on one device.
type idRun struct {
	img              *simrt.Inode
	bs, size, blocks int64
	frac             float64
	min, max, occ    uint64
	machine          bool
	args             []string
	aligned          bool
}

// device makes an image of some size and the options to identify it with.
func (c *Ctx) device(s *simrt.Sim, g simrt.Gen) *idRun {
	d := &idRun{}
	d.bs = int64(g.Pick(4096, 4096, 16384, 16384, 16384, 8192, 32768, 65536, 1024, 512, 2048, 126, 131072, 24576, 3000, 1<<20))
	d.size = 64<<20 + 100*d.bs
	switch g.N(8) {
	case 0: // the smallest
	case 1:
		d.size += d.bs * int64(g.N(300))
	case 2:
		d.size = 256<<30 + 4096 + int64(g.N(1<<20)) + d.bs*int64(g.N(700))
	case 3:
		d.size = 1<<50 + 4096 + d.bs*int64(g.N(500))
	case 4:
		d.size = 1<<60 + int64(g.N(1<<30))
	case 5:
		d.size += int64(g.U64() % (1 << 38))
	default:
		d.size += int64(g.N(128 << 20))
	}
	if g.Chance(1, 2) {
		d.size += int64(g.N(int(d.bs)))
	}
	d.blocks = d.size / d.bs
	d.aligned = (64<<10)%d.bs == 0
	d.img = s.FS.Put(imgPath, "image", nil)
	d.img.SetSize(d.size)
	d.img.LogReads = true
	d.occ = uint64(g.Pick(4, 4, 1, 0, 2, 3, 10))
	d.frac = []float64{0.0001, 0, 1e-5, 0.01, 0.5, 1, 2}[g.N(7)]
	few := uint64(g.Pick(50, 300, 500, 1000, 3000))
	d.min, d.max = uint64(g.N(int(few))), few
	switch {
	case d.blocks < 30000 && g.Chance(1, 2): // everything
		d.min = uint64(d.blocks)
		if g.Chance(1, 2) {
			d.min += uint64(g.N(1 << 20))
		}
		d.max = d.min
	case g.Chance(1, 4):
		d.min, d.max = 1000, 1000
	case g.Chance(1, 40) && c.Deep:
		d.min, d.max = 1000, 1000000
	}
	d.machine = g.Chance(1, 2)
	d.args = []string{imgPath, "--block-size", u(int(d.bs)), "--min-occurrence", u(int(d.occ)), "--sample-fraction", strconv.FormatFloat(d.frac, 'g', -1, 64),
		"--min-blocks", u(int(d.min)), "--max-blocks", u(int(d.max)), "--progress=" + strconv.FormatBool(g.Chance(1, 4))}
	if d.machine {
		d.args = append(d.args, "--machine")
	}
	return d
}

// want is the least number of blocks the options ask for.
func (d *idRun) want() int64 {
	f := d.frac * float64(d.blocks)
	n := uint64(math.Floor(f))
	if f-math.Floor(f) < 1e-6 && n > 0 {
		n-- // as may be rounded
	}
	if n < d.min {
		n = d.min
	} else if n > d.max {
		n = d.max
	}
	if n > uint64(d.blocks) {
		n = uint64(d.blocks)
	}
	return int64(n)
}

// near lists what the tool reads near the superblock copies, by copy.
func (d *idRun) near() (l [4][]int64) {
	for k, start := range superOffs {
		for i := 0; i < 100; i++ {
			if o := start + int64(i+k*100)*d.bs; o+d.bs <= d.size {
				l[k] = append(l[k], o)
			}
		}
	}
	return
}

// samples works out which blocks were read, and fails for reads of anything
// else.
func (d *idRun) samples(c *Ctx) []int64 {
	r := append([][2]int64{}, d.img.ReadRanges...)
	sort.SliceStable(r, func(a, b int) bool { return r[a][0] < r[b][0] })
	starts := map[int64]bool{}
	var union [][2]int64
	for _, x := range r {
		if x[0] < 0 || x[0]+x[1] > d.size {
			c.Fail("outside", "identify reads %d bytes at %d of a device of %d", x[1], x[0], d.size)
		}
		starts[x[0]] = true
		if k := len(union) - 1; k >= 0 && x[0] <= union[k][1] {
			if x[0]+x[1] > union[k][1] {
				union[k][1] = x[0] + x[1]
			}
		} else {
			union = append(union, [2]int64{x[0], x[0] + x[1]})
		}
	}
	fixed := map[int64]bool{}
	for _, l := range d.near() {
		for _, o := range l {
			fixed[o] = true
		}
	}
	has := func(o int64) bool {
		k := sort.Search(len(union), func(k int) bool { return union[k][1] > o })
		return k < len(union) && union[k][0] <= o && union[k][1] >= o+d.bs
	}
	set := map[int64]bool{}
	total := int64(0)
	for _, x := range union {
		total += x[1] - x[0]
		for o := (x[0] + d.bs - 1) / d.bs * d.bs; o+d.bs <= x[1]; o += d.bs {
			if d.aligned || starts[o] {
				set[o] = true
			}
		}
	}
	for o := range fixed {
		if has(o) && (d.aligned || starts[o]) {
			set[o] = true
		}
	}
	var l []int64
	for o := range set {
		l = append(l, o)
	}
	sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
	cov, end := int64(0), int64(0)
	for _, o := range l {
		b := o
		if b < end {
			b = end
		}
		if end = o + d.bs; end > b {
			cov += end - b
		}
	}
	if cov != total {
		c.Fail("partial", "identify reads %d bytes, but only %d of them in whole blocks of %d", total, cov, d.bs)
	}
	return l
}

// complete checks that enough was sampled.
func (d *idRun) complete(c *Ctx, l []int64) {
	if want := d.want(); int64(len(l)) < want {
		c.Fail("few", "identify samples %d of %d blocks, %d are asked for", len(l), d.blocks, want)
	}
	for k, fixed := range d.near() {
		from, to := superOffs[k], superOffs[k]+int64(k+1)*100*d.bs
		a := sort.Search(len(l), func(i int) bool { return l[i] >= from })
		b := sort.Search(len(l), func(i int) bool { return l[i] >= to })
		if b-a < len(fixed) {
			c.Fail("superblock", "identify samples only %d blocks near superblock copy %d at %d", b-a, k, from)
		}
	}
}

type idRow struct {
	fsid    string
	count   int
	entropy string
	bs      int64
}

func (d *idRun) parse(c *Ctx, out string) (l []idRow) {
	lines := strings.Split(out, "\n")
	if lines[len(lines)-1] != "" {
		c.Fail("output", "no newline at the end of %q", tail(out))
	}
	lines = lines[:len(lines)-1]
	if !d.machine {
		if len(lines) == 0 || strings.Join(strings.Fields(lines[0]), " ") != "fsid count entropy block size" {
			c.Fail("output", "no heading in %q", tail(out))
		}
		lines = lines[1:]
	}
	for _, x := range lines {
		var f []string
		if d.machine {
			f = strings.FieldsFunc(x, func(r rune) bool { return r == '\t' }) // tabs may fill columns
			if strings.Contains(x, " ") {
				c.Fail("output", "line %q is not tab-separated", x)
			}
		} else {
			f = strings.Fields(x)
		}
		if len(f) != 4 {
			c.Fail("output", "line %q", x)
		}
		n, e1 := strconv.Atoi(f[1])
		b, e2 := strconv.ParseInt(f[3], 10, 64)
		if e1 != nil || e2 != nil {
			c.Fail("output", "line %q", x)
		}
		l = append(l, idRow{f[0], n, f[2], b})
	}
	return
}

type idHist struct {
	n, full int
	sum     uint64
}

// histogram is what the samples hold.
func (d *idRun) histogram(l []int64) map[[16]byte]*idHist {
	used := map[int64]bool{} // pages
	for _, p := range d.img.PageNumbers() {
		used[p] = true
	}
	h := map[[16]byte]*idHist{}
	b := make([]byte, headerLen+itemLen)
	for _, o := range l {
		if !used[o/4096] && !used[(o+int64(len(b)))/4096] {
			continue
		}
		d.img.Peek(b, o)
		var id, zero, ff [16]byte
		copy(id[:], b[32:])
		for i := range ff {
			ff[i] = 255
		}
		if b[100] != 0 || isSuper(b) || id == zero || id == ff {
			continue
		}
		e := h[id]
		if e == nil {
			e = &idHist{}
			h[id] = e
		}
		e.n++
		if le.Uint32(b[96:]) > 0 {
			e.full++
			e.sum += uint64(le.Uint32(b[headerLen+17:]))
		}
	}
	return h
}

// judge compares the table with the samples.
func (d *idRun) judge(c *Ctx, l []int64, rows []idRow) {
	h := d.histogram(l)
	seen := map[string]bool{}
	for i, r := range rows {
		c.Evals++
		if seen[r.fsid] {
			c.Fail("twice", "%s is printed twice", r.fsid)
		}
		seen[r.fsid] = true
		var e *idHist
		for id, x := range h {
			if uuidText(id) == r.fsid {
				e = x
			}
		}
		if e == nil {
			c.Fail("invented", "%s is printed, but no leaf among the samples has it", r.fsid)
		}
		if uint64(e.n) < d.occ {
			c.Fail("rare", "%s is printed with %d, the minimum is %d", r.fsid, e.n, d.occ)
		}
		if r.count != e.n {
			c.Fail("count", "%s is counted %d times, %d samples have it", r.fsid, r.count, e.n)
		}
		if i > 0 && rows[i-1].count < r.count {
			c.Fail("order", "count %d comes after %d", r.count, rows[i-1].count)
		}
		if e.full > 0 {
			if want := int64(uint32(e.sum/uint64(e.full)+4096) / 4096 * 4096); r.bs != want {
				c.Fail("blocksize", "%s has block size %d, its %d leaves with items make it %d", r.fsid, r.bs, e.full, want)
			}
		}
	}
	for id, e := range h {
		if uint64(e.n) >= d.occ && !seen[uuidText(id)] {
			c.Fail("missing", "%s is not printed although %d samples have it", uuidText(id), e.n)
		}
	}
}

func uuidText(id [16]byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", id[0:4], id[4:6], id[6:8], id[8:10], id[10:16])
}

// populate writes blocks to where samples may fall. It returns the id whose
// leaves are all regular, and their block size.
func (d *idRun) populate(g simrt.Gen) {
	ids := make([][16]byte, 1+g.N(5))
	for i := range ids {
		simrt.FillBytes(ids[i][:], g.U64())
		if g.Chance(1, 8) {
			ids[i] = [16]byte{15: byte(1 + i)}
		}
		if g.Chance(1, 8) {
			for k := range ids[i] {
				ids[i][k] = 255
			}
			ids[i][g.N(16)] = byte(g.N(255))
		}
		if i > 0 && g.Chance(1, 6) {
			ids[i] = ids[i-1]
			ids[i][15] ^= 1
		}
	}
	ids = append(ids, [16]byte{}, [16]byte{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255})
	nodeSize := make([]int, len(ids))
	for i := range nodeSize {
		nodeSize[i] = g.Pick(4096, 16384, 16384, 32768, 65536)
	}
	var near []int64
	for _, l := range d.near() {
		near = append(near, l...)
	}
	n := g.N(g.Pick(10, 60, 200))
	if d.bs > 1<<17 {
		n = g.N(40)
	}
	b := make([]byte, 4096)
	for i := 0; i < n; i++ {
		var o int64
		switch g.N(8) {
		case 0:
			o = int64(g.U64()%uint64(d.blocks)) * d.bs
		case 1: // the last ones, or what is left of one
			o = d.size/d.bs*d.bs - d.bs*int64(g.N(3))
		case 2:
			o = d.size - d.bs
		case 3:
			o = int64(g.N(4)) * d.bs
		default:
			o = near[g.N(len(near))]
		}
		if o < 0 || o+int64(headerLen+itemLen) > d.size {
			continue
		}
		k := g.N(len(ids))
		if g.Chance(1, 2) {
			k = 0
		}
		level, items := 0, 1+g.N(20)
		if g.Chance(1, 6) {
			level = g.Pick(1, 2, 7, 255)
		}
		if g.Chance(1, 6) {
			items = 0
		}
		for j := range b {
			b[j] = 0
		}
		blockHeader(b, ids[k], uint64(o), 5, 5, items, level)
		first := nodeSize[k] - headerLen - 1 - g.N(3900)
		if g.Chance(1, 12) {
			first = g.Pick(0, 1, 1<<31, 1<<32-65536, 4095, 4096)
		}
		le.PutUint32(b[headerLen+17:], uint32(first))
		le.PutUint32(b[headerLen+21:], 100)
		if g.Chance(1, 3) {
			sealBlock(b)
		}
		if g.Chance(1, 8) {
			copy(b[64:], "_BHRfS_M")
		}
		if g.Chance(1, 10) {
			simrt.FillBytes(b, g.U64())
			if g.Chance(1, 2) {
				b[100] = 0
			}
		}
		k4 := int64(len(b))
		if o+k4 > d.size {
			k4 = d.size - o
		}
		if k4 > d.bs {
			k4 = d.bs
		}
		d.img.Poke(b[:k4], o)
	}
}

func runC19(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c19")
	d := c.device(s, g)
	d.populate(g)
	if d.aligned && g.Chance(1, 2) {
		c.okFaults("image")
	}
	h := d.img.Hash()
	p := c.Exec("identify", append([]string{"identify"}, d.args...)...)
	c.MustSucceed(p, "on a readable device")
	l := d.samples(c)
	rows := d.parse(c, p.Stdout.String())
	d.judge(c, l, rows)
	d.img.LogReads, s.Faults = false, nil
	if d.aligned && int64(len(l)) >= d.blocks { // all of it: the other form has to say the same
		d.machine = !d.machine
		again := append([]string{"identify"}, d.args...)
		if d.machine {
			again = append(again, "--machine")
		} else {
			again = again[:len(again)-1]
		}
		q := c.Exec("identify", again...)
		c.MustSucceed(q, "on a readable device")
		other := d.parse(c, q.Stdout.String())
		text := func(r []idRow) string {
			var t []string
			for _, x := range r {
				t = append(t, fmt.Sprintf("%s %d %s %d", x.fsid, x.count, x.entropy, x.bs))
			}
			sort.Strings(t)
			return strings.Join(t, "\n")
		}
		if text(rows) != text(other) {
			c.Fail("forms", "two runs over all blocks differ:\n%s\n%s", text(rows), text(other))
		}
		c.Evals++
		c.Count("all_blocks")
	}
	if d.img.Hash() != h {
		c.Fail("modified", "the device was modified")
	}
	c.Evals++
	c.Nontriv = len(rows) > 0
	s.Mark(d.bs, bucket(len(l)), bucket(len(rows)), d.occ, d.machine)
}

func runC20(c *Ctx) {
	s := c.prepare()
	g := c.Gen("c20")
	d := c.device(s, g)
	d.populate(g)
	hard := func() (n int) {
		for _, f := range s.Faults {
			if f.Err != 0 && f.Err != syscall.EINTR {
				n += f.Hits
			}
		}
		return n + s.Injected["bad_sector_read"]
	}
	switch g.N(6) {
	case 0: // something the tool need not take
		switch g.N(3) {
		case 0:
			d.size = int64(g.N(64<<20 + 100*int(d.bs)))
		case 1:
			d.size = int64(g.Pick(0, 1, 125, 126, 4096, 65536, 64<<20, 64<<20-1))
		case 2:
			d.args[2] = []string{"0", "1", "100", "101", "125", "-1", "x", "18446744073709551615"}[g.N(8)]
		}
		d.img.SetSize(d.size)
		p := c.Exec("identify", append([]string{"identify"}, d.args...)...)
		c.MustEnd(p, "on an odd device")
		_, e := strconv.ParseUint(d.args[2], 10, 64) // otherwise cobra has the word
		if p.Code != 0 && p.Stderr.Len() == 0 && e == nil {
			c.Fail("message", "identify fails without a message")
		}
		if p.Code == 0 {
			for _, x := range d.img.ReadRanges {
				if x[0] < 0 || x[0]+x[1] > d.size {
					c.Fail("outside", "identify reads %d bytes at %d of a device of %d", x[1], x[0], d.size)
				}
			}
		}
		c.Evals++
		s.Mark("odd", p.Code)
		return
	case 1, 2: // bad sectors
		for i := 1 + g.N(3); i > 0; i-- {
			var o int64
			switch l := d.near(); g.N(4) {
			case 0:
				o = int64(g.U64()%uint64(d.blocks)) * d.bs
			case 1:
				o = d.size - 1 - int64(g.N(int(d.bs)))
			default:
				if k := l[g.N(4)]; len(k) > 0 {
					o = k[g.N(len(k))] + int64(g.N(int(d.bs)))
				}
			}
			o = o / 512 * 512
			d.img.Bad = append(d.img.Bad, simrt.BadRange{From: o, To: o + 512*int64(1+g.N(200)), Times: g.Pick(-1, -1, 1), Err: syscall.EIO})
		}
	case 3: // failing calls
		f := &simrt.Fault{Tag: "image", Op: []string{"pread", "pread", "open", "lseek"}[g.N(4)], Skip: g.N(g.Pick(1, 20, 400)), Count: 1 + g.N(2),
			Err: []syscall.Errno{syscall.EIO, syscall.ENXIO, syscall.ENOMEM, syscall.EACCES}[g.N(4)]}
		if f.Op != "pread" {
			f.Skip = 0
		}
		s.Faults = append(s.Faults, f)
	case 4:
		if d.aligned {
			c.okFaults("image")
		}
	}
	p := c.Exec("identify", append([]string{"identify"}, d.args...)...)
	c.MustEnd(p, fmt.Sprintf("with %v", d.args))
	c.Evals++
	l := 0
	if n := hard(); n > 0 {
		if p.Code == 0 {
			c.Fail("ignored", "identify succeeds although %d calls failed; stderr %q", n, tail(p.Stderr.String()))
		}
		if p.Stderr.Len() == 0 {
			c.Fail("message", "identify fails without a message")
		}
	} else {
		c.MustSucceed(p, "on a readable device")
		k := d.samples(c)
		d.complete(c, k)
		l = len(k)
		c.Evals += 2
	}
	c.Nontriv = l > 0 || hard() > 0
	s.Mark(d.bs, bucket(int(d.size>>20)), bucket(l), p.Code, d.frac, hard() > 0)
}

func init() {
	register(&Check{ID: "C19", Run: runC19, MinRuns: 300,
		Rule:   "An oracle check is one line of the table compared with a histogram computed from the blocks the simulated device saw being read (all blocks of the device in a third of the runs), a comparison of both output forms, or the absence of a line that is due.",
		Assume: []string{"For ids all of whose leaves are empty the block size is not judged."}})
	register(&Check{ID: "C20", Run: runC20, MinRuns: 300, Faults: true,
		Rule:   "An oracle check is one run of identify whose device reads are compared with the blocks of the device, the number of samples asked for and the places of the superblock copies, or which has to fail because a call failed.",
		Assume: []string{"Device sizes from 64 MiB and 100 blocks to 2^60 bytes; the neighbourhood of a superblock copy is as many blocks as the tool reads there today.", "Numbers of samples of more than a few thousand are only asked for in thorough runs and on small devices."}})
}
