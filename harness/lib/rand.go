package lib

import (
	crand "crypto/rand"
	"encoding/binary"
	"hash/fnv"
	"io"
)

// detReader is a deterministic replacement for the operating system's
// randomness: every random choice of the code under test becomes a function
// of (VERIF_SEED, case id), so every case replays identically.
type detReader struct{ s [4]uint64 }

func (d *detReader) next() uint64 {
	// xoshiro256**
	s := &d.s
	r := rotl(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = rotl(s[3], 45)
	return r
}

func rotl(x uint64, k uint) uint64 { return x<<k | x>>(64-k) }

func (d *detReader) Read(p []byte) (int, error) {
	n := len(p)
	var b [8]byte
	for len(p) > 0 {
		binary.LittleEndian.PutUint64(b[:], d.next())
		k := copy(p, b[:])
		p = p[k:]
	}
	return n, nil
}

func newDet(label string, seed uint64) *detReader {
	h := fnv.New64a()
	io.WriteString(h, label)
	x := h.Sum64() ^ (seed * 0x9E3779B97F4A7C15)
	d := &detReader{}
	for i := range d.s {
		x += 0x9E3779B97F4A7C15
		z := x
		z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
		z = (z ^ z>>27) * 0x94D049BB133111EB
		d.s[i] = z ^ z>>31
	}
	return d
}

var fieldRand = newDet("field", 1)

func defaultRand() uint64 { return fieldRand.next() }

// Reseed fixes every source of randomness for one case.
func Reseed(label string, seed int) {
	crand.Reader = newDet("sys/"+label, uint64(seed))
	fieldRand = newDet("field/"+label, uint64(seed))
	RandTape = nil
}

// Rng is a small deterministic generator for filler values of a case.
type Rng struct{ d *detReader }

func NewRng(label string, seed int) *Rng { return &Rng{newDet("rng/"+label, uint64(seed))} }

func (r *Rng) Uint64() uint64             { return r.d.next() }
func (r *Rng) N(n uint64) uint64          { return r.d.next() % n }
func (r *Rng) Read(p []byte) (int, error) { return r.d.Read(p) }

// MixWord is a fixed bijection on words.
func MixWord(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

// Env returns a function that installs the named source of all randomness
// (one per thread of a schedule).
func Env(label string, seed int) func() {
	a, b := newDet("sys/"+label, uint64(seed)), newDet("field/"+label, uint64(seed))
	return func() { crand.Reader, fieldRand = a, b }
}
