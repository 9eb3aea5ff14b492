//go:build go1.22

package main

import (
	"hash/fnv"
	"sort"

	"btrsim/simrt"
)

// A writer for metadata files, independent of the library that reads them.

func keyOf(r Rec) []byte {
	b := make([]byte, 33)
	be.PutUint64(b, r.Owner)
	b[8] = r.Key.Type
	be.PutUint64(b[9:], r.Key.Obj)
	be.PutUint64(b[17:], r.Key.Off)
	be.PutUint64(b[25:], r.Gen)
	return b
}

func metaRecord(bs int, fsid [16]byte) []byte {
	return cat(le64(20190809), le32(uint32(bs)), fsid[:], le64(^uint64(0)))
}

// writeBolt makes a metadata file.
func writeBolt(g simrt.Gen, recs map[Rec][]byte, meta []byte) []byte {
	const ps = 4096
	type kv struct{ k, v []byte }
	var l []kv
	for _, r := range sortedRecs(recs) {
		l = append(l, kv{keyOf(r), recs[r]})
	}
	if meta != nil {
		l = append(l, kv{metaKey, meta})
	}
	sort.SliceStable(l, func(i, j int) bool { return string(l[i].k) < string(l[j].k) })
	fill := g.Pick(2048, 4096, 700, 3500)
	out := make([]byte, 3*ps)
	page := func(flags, count int, body []byte) uint64 {
		id := uint64(len(out) / ps)
		n := (16 + len(body) + ps - 1) / ps
		p := make([]byte, n*ps)
		le.PutUint64(p, id)
		le.PutUint16(p[8:], uint16(flags))
		le.PutUint16(p[10:], uint16(count))
		le.PutUint32(p[12:], uint32(n-1))
		copy(p[16:], body)
		out = append(out, p...)
		return id
	}
	leaf := func(es []kv, flag uint32) []byte {
		body := make([]byte, 16*len(es))
		for i, e := range es {
			le.PutUint32(body[16*i:], flag)
			le.PutUint32(body[16*i+4:], uint32(len(body)-16*i))
			le.PutUint32(body[16*i+8:], uint32(len(e.k)))
			le.PutUint32(body[16*i+12:], uint32(len(e.v)))
			body = append(append(body, e.k...), e.v...)
		}
		return body
	}
	type ref struct {
		k  []byte
		id uint64
	}
	var level []ref
	for i := 0; i < len(l) || i == 0; {
		j, used := i, 16
		for j < len(l) && (j == i || used+16+len(l[j].k)+len(l[j].v) <= fill) {
			used += 16 + len(l[j].k) + len(l[j].v)
			j++
		}
		var k []byte
		if i < len(l) {
			k = l[i].k
		}
		level = append(level, ref{k, page(2, j-i, leaf(l[i:j], 0))})
		i = j
		if len(l) == 0 {
			break
		}
	}
	for len(level) > 1 {
		var up []ref
		per := 2 + g.N(60)
		for i := 0; i < len(level); i += per {
			j := i + per
			if j > len(level) {
				j = len(level)
			}
			if len(level)-j == 1 { // no branch with one child
				j++
			}
			es := level[i:j]
			body := make([]byte, 16*len(es))
			for x, e := range es {
				le.PutUint32(body[16*x:], uint32(len(body)-16*x))
				le.PutUint32(body[16*x+4:], uint32(len(e.k)))
				le.PutUint64(body[16*x+8:], e.id)
				body = append(body, e.k...)
			}
			up = append(up, ref{es[0].k, page(1, len(es), body)})
			if j > i+per {
				break
			}
		}
		level = up
	}
	root := page(2, 1, leaf([]kv{{[]byte("index"), cat(le64(level[0].id), le64(0))}}, 1))
	le.PutUint64(out[2*ps:], 2)
	le.PutUint16(out[2*ps+8:], 0x10)
	for i := 0; i < 2; i++ {
		p := out[i*ps:]
		le.PutUint64(p, uint64(i))
		le.PutUint16(p[8:], 4)
		m := p[16:]
		le.PutUint32(m, 0xED0CDAED)
		le.PutUint32(m[4:], 2)
		le.PutUint32(m[8:], ps)
		le.PutUint64(m[16:], root)
		le.PutUint64(m[32:], 2)
		le.PutUint64(m[40:], uint64(len(out)/ps))
		le.PutUint64(m[48:], uint64(i))
		h := fnv.New64a()
		h.Write(m[:56])
		le.PutUint64(m[56:], h.Sum64())
	}
	return out
}

// gather provides the metadata file for commands that use one: mostly made
// directly, sometimes by recon.
func (c *Ctx) gather(w *World, db string) map[Rec][]byte {
	g := c.Gen("gather")
	if g.Chance(1, 16) {
		c.Recon(w, db, imgPath)
		return c.DB(db, "after recon").Recs
	}
	recs := refScan(w.img, w.bs, w.fsid).recs
	c.S.FS.Put(db, "", writeBolt(g, recs, metaRecord(w.bs, w.fsid)))
	if got := c.DB(db, "made directly"); diffRecs(got.Recs, recs) != "" {
		panic("writeBolt: " + diffRecs(got.Recs, recs))
	}
	return recs
}
