// N02: 3x3 median filter and neighbourhood gathering.
package main

import (
	"math"

	"github.com/klauspost/cpuid"
	"github.com/mlnoga/nightlight/internal/median"
	"github.com/mlnoga/nightlight/verif/vk"
)

var features = cpuid.CPU.Features

func setAVX2(on bool) {
	if on {
		cpuid.CPU.Features = features
	} else {
		cpuid.CPU.Features = features &^ cpuid.AVX2
	}
}

// pixels draws an image of w*h values.
func pixels(g *vk.G, n int) ([]float32, string) {
	if n <= 64 {
		return vk.FloatVec(g, n)
	}
	s := g.Stream()
	a := make([]float32, n)
	switch g.Pick(3, 2, 2) {
	case 0:
		for i := range a {
			a[i] = float32(s.Float(-1, 1))
		}
		return a, "uniform"
	case 1:
		k := g.Int(1, 5)
		for i := range a {
			a[i] = float32(s.Int(0, k))
		}
		return a, "few values"
	default:
		for i := range a {
			a[i] = float32(s.Norm() * math.Pow(10, float64(s.Int(-20, 20))))
		}
		return a, "wide range"
	}
}

func extent(g *vk.G) int {
	if g.Chance(1, 3) {
		return g.Int(1, 12)
	}
	return g.Int(1, 70)
}

func main() {
	vk.Main("N02", []string{"values are finite"},
		&vk.Law{Name: "median3x3", Quick: 12000, Thorough: 400000, Rule: "image extents 1..70 x 1..70 (all widths modulo the vector width), value shapes, both CPU paths; non-trivial if there is an interior pixel",
			Run: func(g *vk.G, t *vk.T) {
				w, h := g.Large(extent(g), extent(g), 300, 150000)
				a, kind := pixels(g, w*h)
				t.Desc("median3x3 %dx%d %s %s", w, h, kind, vk.Show(a))
				t.Class("%s", kind)
				t.Class("width%%8=%d", w%8)
				if w < 3 || h < 3 {
					t.Trivial()
				}
				want := make([]float32, w*h)
				nb := make([]float32, 9)
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						i := y*w + x
						if x == 0 || y == 0 || x == w-1 || y == h-1 {
							want[i] = a[i]
							continue
						}
						n := 0
						for dy := -1; dy <= 1; dy++ {
							for dx := -1; dx <= 1; dx++ {
								nb[n] = a[i+dy*w+dx]
								n++
							}
						}
						for p := 1; p < 9; p++ { // insertion sort
							v, q := nb[p], p
							for q > 0 && nb[q-1] > v {
								nb[q] = nb[q-1]
								q--
							}
							nb[q] = v
						}
						want[i] = nb[4]
					}
				}
				for _, avx := range []bool{true, false} {
					setAVX2(avx)
					in := append([]float32{}, a...)
					const guard = 16
					buf := make([]float32, w*h+2*guard)
					for i := range buf {
						buf[i] = -12345
					}
					out := buf[guard : guard+w*h : guard+w*h]
					median.MedianFilter3x3(out, in, int32(w))
					setAVX2(true)
					for i := range want {
						if out[i] != want[i] {
							t.Fail("vectorised path allowed=%v: pixel (%d,%d) is %g, want %g", avx, i%w, i/w, out[i], want[i])
						}
					}
					for i := 0; i < guard; i++ {
						if buf[i] != -12345 || buf[guard+w*h+i] != -12345 {
							t.Fail("vectorised path allowed=%v: wrote outside the output", avx)
						}
					}
					if i, ok := vk.SameBits(in, a); !ok {
						t.Fail("input modified at %d", i)
					}
				}
			}},
		&vk.Law{Name: "gather", Quick: 20000, Thorough: 500000, Rule: "images, offset masks and series of positions with one reused buffer; non-trivial if some mask entry falls outside",
			Run: func(g *vk.G, t *vk.T) {
				w, h := g.Int(1, 8), g.Int(1, 8)
				a, _ := vk.FloatVec(g, w*h)
				nm := g.Int(1, 12)
				mask := make([]int32, nm)
				mask[0] = 0
				for i := 1; i < nm; i++ {
					mask[i] = int32(g.Int(-2, 2)*w + g.Int(-2, 2))
				}
				buf := make([]float32, nm)
				t.Desc("gather %dx%d mask %v of %s", w, h, mask, vk.Show(a))
				outside := false
				for k := g.Int(1, 6); k > 0; k-- {
					idx := g.Int(0, w*h-1)
					var in []float32
					for _, o := range mask {
						if j := idx + int(o); j >= 0 && j < len(a) {
							in = append(in, a[j])
						} else {
							outside = true
						}
					}
					got := median.GatherAndMedian(a, int32(idx), mask, buf)
					want := vk.MedianOf(in)
					s := vk.SortedCopy(in)
					tol := 3e-7 * (math.Abs(float64(s[0])) + math.Abs(float64(s[len(s)-1])))
					if len(in)%2 == 1 {
						tol = 0
					}
					if math.Abs(float64(got)-want) > tol {
						t.Fail("median of neighbours %v of index %d is %g, want %g", in, idx, got, want)
					}
				}
				if !outside {
					t.Trivial()
				}
			}},
	)
}
