// Package vk is a small property-based-testing engine. Every random decision of a case is
// drawn from a G, which records the decisions as a sequence of integers. A failing case is shrunk
// by editing that sequence, and the shrunk sequence is what a replay file holds.
package vk

import (
	"fmt"
	"math"
)

type exhausted struct{}

// G is the source of all choices of one case.
type G struct {
	rec    []uint64 // choices made so far
	replay []uint64 // choices to play back, if isReplay
	isRep  bool
	s      uint64 // splitmix64 state
	onDraw func(v uint64)
	limit  int
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h)
}

func newG(seed uint64) *G         { return &G{s: seed, limit: 1 << 22} }
func replayG(choices []uint64) *G { return &G{replay: choices, isRep: true, limit: 1 << 22} }

func (g *G) next() uint64 {
	g.s += 0x9e3779b97f4a7c15
	return mix(g.s)
}

// draw returns a choice in [0,n), or any uint64 if n==0.
func (g *G) draw(n uint64) uint64 {
	if len(g.rec) >= g.limit {
		panic(exhausted{})
	}
	var v uint64
	if g.isRep {
		if len(g.rec) < len(g.replay) {
			v = g.replay[len(g.rec)]
		}
	} else {
		v = g.next()
	}
	if n != 0 {
		if g.isRep {
			if v >= n {
				v %= n
			}
		} else {
			// multiply-shift on the high bits is biased by < 2^-32 for the ranges used here
			v %= n
		}
	}
	g.rec = append(g.rec, v)
	if g.onDraw != nil {
		g.onDraw(v)
	}
	return v
}

// Int returns an integer in [lo,hi]; lo is the simplest.
func (g *G) Int(lo, hi int) int {
	if hi < lo {
		panic(fmt.Sprintf("vk: bad range %d..%d", lo, hi))
	}
	return lo + int(g.draw(uint64(hi-lo)+1))
}

// Size returns an integer in [lo,hi] where small values are much more frequent.
func (g *G) Size(lo, hi int) int {
	span := hi - lo
	if span <= 0 {
		return lo
	}
	bits := 0
	for (1 << uint(bits)) <= span {
		bits++
	}
	b := int(g.draw(uint64(bits) + 1))
	m := (1 << uint(b)) - 1
	if m > span {
		m = span
	}
	return lo + int(g.draw(uint64(m)+1))
}

func (g *G) Bool() bool { return g.draw(2) == 1 }

// Chance is true with probability num/den; false is the simplest.
func (g *G) Chance(num, den int) bool { return int(g.draw(uint64(den))) >= den-num }

func (g *G) U64() uint64 { return g.draw(0) }
func (g *G) U32() uint32 { return uint32(g.draw(1 << 32)) }

// Unit returns a float in [0,1) with 24 bits.
func (g *G) Unit() float64 { return float64(g.draw(1<<24)) / (1 << 24) }

// Float returns a float64 in [lo,hi).
func (g *G) Float(lo, hi float64) float64 { return lo + (hi-lo)*g.Unit() }

// F32 returns a float32 in [lo,hi].
func (g *G) F32(lo, hi float64) float32 {
	v := float32(g.Float(lo, hi))
	if v < float32(lo) {
		v = float32(lo)
	}
	if v > float32(hi) {
		v = float32(hi)
	}
	return v
}

// LogFloat returns a float in [lo,hi) uniformly distributed on a log scale, lo>0.
func (g *G) LogFloat(lo, hi float64) float64 {
	return math.Exp(g.Float(math.Log(lo), math.Log(hi)))
}

// Pick returns an index chosen with the given integer weights; index 0 is the simplest.
func (g *G) Pick(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := int(g.draw(uint64(sum)))
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// Perm returns a permutation of 0..n-1; the identity is the simplest.
func (g *G) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + int(g.draw(uint64(n-i)))
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Large replaces the given extents in one of den cases by large ones of up to maxPix pixels:
// a big rectangle, or a few very long or very tall lines.
func (g *G) Large(w, h, den, maxPix int) (int, int) {
	if !g.Chance(1, den) {
		return w, h
	}
	k := g.Int(1, 5)
	switch g.Pick(2, 1, 1) {
	case 0:
		w = g.Int(64, int(math.Sqrt(float64(maxPix)*2)))
		return w, g.Int(1+maxPix/w/2, maxPix/w)
	case 1:
		return g.Int(1000, maxPix/k), k
	default:
		return k, g.Int(1000, maxPix/k)
	}
}

// OneOf picks one of the given values; the first is the simplest.
func OneOf[X any](g *G, xs ...X) X { return xs[g.Int(0, len(xs)-1)] }

// Stream draws one choice and expands it into a fast deterministic stream, for bulk data
// (big images, noise) that would be pointless to shrink value by value.
func (g *G) Stream() *Stream { return &Stream{s: mix(g.draw(1<<32) + 0x1234567)} }

// Stream is a deterministic pseudo-random stream.
type Stream struct {
	s     uint64
	spare float64
	has   bool
}

func NewStream(seed uint64) *Stream { return &Stream{s: mix(seed + 99)} }

func (r *Stream) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func (r *Stream) Unit() float64                { return float64(r.U64()>>11) / (1 << 53) }
func (r *Stream) Float(lo, hi float64) float64 { return lo + (hi-lo)*r.Unit() }
func (r *Stream) Int(lo, hi int) int           { return lo + int(r.U64()%uint64(hi-lo+1)) }
func (r *Stream) Norm() float64 {
	if r.has {
		r.has = false
		return r.spare
	}
	for {
		u, v := 2*r.Unit()-1, 2*r.Unit()-1
		s := u*u + v*v
		if s > 0 && s < 1 {
			f := math.Sqrt(-2 * math.Log(s) / s)
			r.spare, r.has = v*f, true
			return u * f
		}
	}
}
