//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
)

// A reader for metadata files, independent of the library that writes them.

var be = binary.BigEndian

// BoltDB is what a metadata file holds.
type BoltDB struct {
	Recs    map[Rec][]byte
	Meta    []byte // the record that binds the file to a file system
	MetaOff int64  // where it lies in the file
	MetaHdr int64  // where its element header lies
	TxID    uint64
	HasIdx  bool
	Keys    int
}

type boltFile struct {
	b    []byte
	ps   int
	root uint64
	tx   uint64
}

func openBolt(b []byte) (*boltFile, error) {
	var best *boltFile
	for _, ps := range []int{4096} {
		for i := 0; i < 2; i++ {
			o := i*ps + 16
			if o+64 > len(b) {
				continue
			}
			m := b[o:]
			if le.Uint32(m) != 0xED0CDAED || le.Uint32(m[4:]) != 2 {
				continue
			}
			h := fnv.New64a()
			h.Write(m[:56])
			if h.Sum64() != le.Uint64(m[56:]) {
				continue
			}
			f := &boltFile{b: b, ps: int(le.Uint32(m[8:])), root: le.Uint64(m[16:]), tx: le.Uint64(m[48:])}
			if best == nil || f.tx > best.tx {
				best = f
			}
		}
	}
	if best == nil {
		return nil, fmt.Errorf("no valid meta page")
	}
	return best, nil
}

func (f *boltFile) page(id uint64) ([]byte, int64, error) {
	o := int64(id) * int64(f.ps)
	if o < 0 || o+16 > int64(len(f.b)) {
		return nil, 0, fmt.Errorf("page %d beyond the file", id)
	}
	n := int64(f.ps) * (1 + int64(le.Uint32(f.b[o+12:])))
	if o+n > int64(len(f.b)) {
		return nil, 0, fmt.Errorf("page %d beyond the file", id)
	}
	return f.b[o : o+n], o, nil
}

type boltElem struct {
	flags    uint32
	key, val []byte
	valOff   int64
	hdrOff   int64
}

func (f *boltFile) walkPage(p []byte, base int64, depth int, fn func(e boltElem) error) error {
	if depth > 20 {
		return fmt.Errorf("too deep")
	}
	flags, n := le.Uint16(p[8:]), int(le.Uint16(p[10:]))
	for i := 0; i < n; i++ {
		o := 16 + 16*i
		if o+16 > len(p) {
			return fmt.Errorf("truncated page")
		}
		if flags&1 != 0 {
			c, off, err := f.page(le.Uint64(p[o+8:]))
			if err != nil {
				return err
			}
			if err := f.walkPage(c, off, depth+1, fn); err != nil {
				return err
			}
			continue
		}
		if flags&2 == 0 {
			return fmt.Errorf("page flags %#x", flags)
		}
		pos, ks, vs := int64(le.Uint32(p[o+4:])), int64(le.Uint32(p[o+8:])), int64(le.Uint32(p[o+12:]))
		s := int64(o) + pos
		if s+ks+vs > int64(len(p)) {
			return fmt.Errorf("element beyond its page")
		}
		if err := fn(boltElem{le.Uint32(p[o:]), p[s : s+ks], p[s+ks : s+ks+vs], base + s + ks, base + int64(o)}); err != nil {
			return err
		}
	}
	return nil
}

func (f *boltFile) walk(root uint64, fn func(e boltElem) error) error {
	p, off, err := f.page(root)
	if err != nil {
		return err
	}
	return f.walkPage(p, off, 0, fn)
}

// metaKey is the key of the record that binds a file to a file system.
var metaKey = func() []byte {
	b := make([]byte, 33)
	for i := range b {
		b[i] = 255
	}
	b[16] = 0 // the last object id there can be
	return b
}()

// parseKey splits an index key.
func parseKey(k []byte) (r Rec, ok bool) {
	if len(k) != 33 {
		return r, false
	}
	return Rec{be.Uint64(k), Key{be.Uint64(k[9:]), k[8], be.Uint64(k[17:])}, be.Uint64(k[25:])}, true
}

// readBolt reads a whole metadata file.
func readBolt(b []byte) (db *BoltDB, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("damaged: %v", r)
		}
	}()
	f, err := openBolt(b)
	if err != nil {
		return nil, err
	}
	db = &BoltDB{Recs: map[Rec][]byte{}, TxID: f.tx}
	item := func(e boltElem) error {
		db.Keys++
		if string(e.key) == string(metaKey) {
			db.Meta, db.MetaOff, db.MetaHdr = append([]byte{}, e.val...), e.valOff, e.hdrOff
			return nil
		}
		r, ok := parseKey(e.key)
		if !ok {
			return fmt.Errorf("key %x", e.key)
		}
		if _, dup := db.Recs[r]; dup {
			return fmt.Errorf("key %v twice", r)
		}
		db.Recs[r] = append([]byte{}, e.val...)
		return nil
	}
	err = f.walk(f.root, func(e boltElem) error {
		if string(e.key) != "index" || e.flags&1 == 0 {
			return nil
		}
		db.HasIdx = true
		if len(e.val) < 16 {
			return fmt.Errorf("bucket header")
		}
		if root := le.Uint64(e.val); root != 0 {
			return f.walk(root, item)
		}
		return f.walkPage(e.val[16:], e.valOff+16, 0, item)
	})
	if err != nil {
		return nil, err
	}
	return db, nil
}

// diffRecs compares record sets; "" if they are the same.
func diffRecs(got, want map[Rec][]byte) string {
	if s := missingRecs(got, want); s != "" {
		return s
	}
	for _, r := range sortedRecs(got) {
		if _, ok := want[r]; !ok {
			return fmt.Sprintf("%v is in the metadata, but in no leaf of the file system (%d instead of %d records)", r, len(got), len(want))
		}
	}
	return ""
}

// missingRecs reports a record that is missing or differs.
func missingRecs(got, want map[Rec][]byte) string {
	for _, r := range sortedRecs(want) {
		g, ok := got[r]
		if !ok {
			return fmt.Sprintf("%v is missing (%d instead of %d records)", r, len(got), len(want))
		}
		if string(g) != string(want[r]) {
			return fmt.Sprintf("%v has wrong contents (%d bytes %x.., expected %d bytes %x..)", r, len(g), head(g), len(want[r]), head(want[r]))
		}
	}
	return ""
}

func head(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

func recLess(a, b Rec) bool {
	if a.Owner != b.Owner {
		return a.Owner < b.Owner
	}
	if a.Key.Type != b.Key.Type {
		return a.Key.Type < b.Key.Type
	}
	if a.Key.Obj != b.Key.Obj {
		return a.Key.Obj < b.Key.Obj
	}
	if a.Key.Off != b.Key.Off {
		return a.Key.Off < b.Key.Off
	}
	return a.Gen < b.Gen
}
