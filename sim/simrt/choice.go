package simrt

import (
	"fmt"
	"hash/fnv"
)

// A choice stream is a named source of bounded integers. In search mode the
// values come from a PRNG seeded with (seed, stream name) and are recorded; in
// replay mode they come from a recorded list, with 0 once that is used up.
type stream struct {
	name   string
	s      uint64
	rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Choices holds all streams of one execution.
type Choices struct {
	Seed    uint64
	streams map[string]*stream
	order   []string
	replay  map[string][]uint32
}

func NewChoices(seed uint64, replay map[string][]uint32) *Choices {
	return &Choices{Seed: seed, streams: map[string]*stream{}, replay: replay}
}

func (c *Choices) get(name string) *stream {
	st := c.streams[name]
	if st == nil {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s", c.Seed, name)
		st = &stream{name: name, s: h.Sum64()}
		if c.replay != nil {
			st.isRep = true
			st.replay = c.replay[name]
		}
		c.streams[name] = st
		c.order = append(c.order, name)
	}
	return st
}

// N returns a value in [0, n).
func (c *Choices) N(name string, n int) int {
	if n <= 1 {
		return 0
	}
	st := c.get(name)
	var v uint32
	if st.isRep {
		if st.pos < len(st.replay) {
			v = st.replay[st.pos]
			if v >= uint32(n) {
				v %= uint32(n)
			}
		}
	} else {
		v = uint32(splitmix(&st.s) % uint64(n))
	}
	st.pos++
	st.rec = append(st.rec, v)
	return int(v)
}

func (c *Choices) Record() map[string][]uint32 {
	m := map[string][]uint32{}
	for n, s := range c.streams {
		r := s.rec
		for len(r) > 0 && r[len(r)-1] == 0 {
			r = r[:len(r)-1]
		}
		m[n] = append([]uint32{}, r...)
	}
	return m
}

// Gen is a convenience view of one stream.
type Gen struct {
	C    *Choices
	Name string
}

func (g Gen) N(n int) int { return g.C.N(g.Name, n) }

// Range returns a value in [a, b].
func (g Gen) Range(a, b int) int {
	if b <= a {
		return a
	}
	return a + g.N(b-a+1)
}

// Chance is true with probability num/den; it is false when the choice is 0.
func (g Gen) Chance(num, den int) bool { return g.N(den) >= den-num }

// Pick returns one of the values; the first is the simplest.
func (g Gen) Pick(v ...int) int { return v[g.N(len(v))] }

// U64 draws a full-width value.
func (g Gen) U64() uint64 {
	return uint64(g.N(1<<22)) | uint64(g.N(1<<21))<<22 | uint64(g.N(1<<21))<<43
}

// Seed64 draws a small value used to seed bulk pseudo-random bytes.
func (g Gen) Seed64() uint64 { return uint64(g.N(1<<30)) + 1 }

// FillBytes fills b with bytes derived from seed.
func FillBytes(b []byte, seed uint64) {
	x := seed
	for i := 0; i < len(b); i += 8 {
		v := splitmix(&x)
		for j := 0; j < 8 && i+j < len(b); j++ {
			b[i+j] = byte(v >> (8 * uint(j)))
		}
	}
}
