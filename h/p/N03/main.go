// N03: basic statistics.
package main

import (
	"math"

	"github.com/klauspost/cpuid"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

var features = cpuid.CPU.Features

func setAVX2(on bool) {
	if on {
		cpuid.CPU.Features = features
	} else {
		cpuid.CPU.Features = features &^ cpuid.AVX2
	}
}

// sample draws n values; returns values, class name and the largest magnitude.
func sample(g *vk.G, n int) ([]float32, string) {
	if n <= 40 && g.Chance(2, 3) {
		a := make([]float32, n)
		switch g.Pick(3, 2, 2) {
		case 0:
			for i := range a {
				a[i] = g.F32(-1, 1)
			}
			return a, "uniform"
		case 1:
			k := g.Int(0, 4)
			for i := range a {
				a[i] = float32(g.Int(-k, k))
			}
			return a, "few values"
		default:
			for i := range a {
				a[i] = float32(g.Int(0, 65535))
			}
			return a, "16 bit"
		}
	}
	a := make([]float32, n)
	s := g.Stream()
	switch g.Pick(3, 2, 2, 2) {
	case 0:
		for i := range a {
			a[i] = float32(s.Float(-1, 1))
		}
		return a, "uniform"
	case 1:
		off, sc := s.Float(-1000, 60000), s.Float(0.1, 500)
		for i := range a {
			a[i] = float32(off + sc*s.Norm())
		}
		return a, "background"
	case 2:
		for i := range a {
			a[i] = float32(s.Norm() * math.Pow(10, float64(s.Int(-6, 6))))
		}
		return a, "wide range"
	default: // one spike
		for i := range a {
			a[i] = float32(s.Float(0, 0.1))
		}
		a[s.Int(0, n-1)] = float32(s.Float(-100, 100))
		return a, "spike"
	}
}

func check(t *vk.T, st *stats.Stats, a []float32, label string) {
	mn, mx, sum, amax := math.Inf(1), math.Inf(-1), 0.0, 0.0
	for _, v := range a {
		f := float64(v)
		mn, mx, sum = math.Min(mn, f), math.Max(mx, f), sum+f
		amax = math.Max(amax, math.Abs(f))
	}
	mean := sum / float64(len(a))
	vs := 0.0
	for _, v := range a {
		d := float64(v) - mean
		vs += d * d
	}
	sd := math.Sqrt(vs / float64(len(a)))
	if float64(st.Min()) != mn {
		t.Fail("%s: minimum %g want %g", label, st.Min(), mn)
	}
	if float64(st.Max()) != mx {
		t.Fail("%s: maximum %g want %g", label, st.Max(), mx)
	}
	if !vk.Close(float64(st.Mean()), mean, 3e-7*amax, 3e-7) {
		t.Fail("%s: mean %g want %g", label, st.Mean(), mean)
	}
	// the mean is rounded to float32 before differences are formed, which can add eps*amax
	if !vk.Close(float64(st.StdDev()), sd, 5e-7*amax, 1e-5) {
		t.Fail("%s: standard deviation %g want %g", label, st.StdDev(), sd)
	}
}

func main() {
	vk.Main("N03", []string{"values are finite, arrays non-empty; the noise estimate needs at least 3x3 pixels"},
		&vk.Law{Name: "min-mean-max-stddev", Quick: 40000, Thorough: 800000, Rule: "lengths 1..4000 and sub-slice offsets (all alignments), value shapes, both CPU paths, read orders; non-trivial if length >= 2",
			Run: func(g *vk.G, t *vk.T) {
				n := 0
				switch g.Pick(4, 2, 1) {
				case 0:
					n = g.Int(1, 40)
				case 1:
					n = g.Int(1, 300)
				default:
					n = g.Int(1, 4000)
				}
				if g.Chance(1, 600) {
					n = g.Int(10000, 1000000)
				}
				off := g.Int(0, 9)
				a, kind := sample(g, n)
				t.Desc("stats of %d values (offset %d) %s %s", n, off, kind, vk.Show(a))
				t.Class("%s", kind)
				t.Class("n%%8=%d", n%8)
				if n < 2 {
					t.Trivial()
				}
				buf := make([]float32, off+n+9)
				for i := range buf {
					buf[i] = 1e30
					if i%2 == 1 {
						buf[i] = -1e30
					}
				}
				copy(buf[off:], a)
				d := buf[off : off+n]
				sdFirst := g.Bool()
				for _, avx := range []bool{true, false} {
					setAVX2(avx)
					st := stats.NewStats(d, int32(n))
					if sdFirst {
						st.StdDev()
					}
					check(t, st, a, map[bool]string{true: "default path", false: "portable path"}[avx])
					setAVX2(true)
				}
				if i, ok := vk.SameBits(d, a); !ok {
					t.Fail("data modified at %d", i)
				}
			}},
		&vk.Law{Name: "channel", Quick: 8000, Thorough: 200000, Rule: "planar multi-channel data; statistics of one channel; all non-trivial",
			Run: func(g *vk.G, t *vk.T) {
				nc := g.Int(1, 4)
				w, h := g.Large(g.Int(1, 12), g.Int(1, 12), 300, 100000)
				a, kind := sample(g, nc*w*h)
				c := g.Int(0, nc-1)
				t.Desc("channel %d of %d, %dx%d %s", c, nc, w, h, kind)
				st := stats.NewStatsForChannel(a, int32(w), c, nc)
				check(t, st, a[c*w*h:(c+1)*w*h], "channel")
			}},
		&vk.Law{Name: "noise", Quick: 12000, Thorough: 300000, Rule: "image extents 3..70 (all widths modulo vector width), value shapes, both CPU paths; non-trivial if noise is not zero",
			Run: func(g *vk.G, t *vk.T) {
				e := func() int {
					if g.Chance(1, 2) {
						return g.Int(3, 12)
					}
					return g.Int(3, 70)
				}
				w, h := e(), e()
				if w, h = g.Large(w, h, 300, 300000); w < 3 || h < 3 {
					w, h = max(w, 3), max(h, 3)
				}
				a, kind := sample(g, w*h)
				t.Desc("noise of %dx%d %s %s", w, h, kind, vk.Show(a))
				t.Class("width%%8=%d", w%8)
				wts := [9]float64{1, -2, 1, -2, 4, -2, 1, -2, 1}
				sum, amax := 0.0, 0.0
				for _, v := range a {
					amax = math.Max(amax, math.Abs(float64(v)))
				}
				for y := 1; y < h-1; y++ {
					for x := 1; x < w-1; x++ {
						c, j := 0.0, 0
						for dy := -1; dy <= 1; dy++ {
							for dx := -1; dx <= 1; dx++ {
								c += wts[j] * float64(a[(y+dy)*w+x+dx])
								j++
							}
						}
						sum += math.Abs(c)
					}
				}
				tol := 5e-5 + 6e-8*float64(w+h) // rounding when adding up a row and the rows
				want := sum * math.Sqrt(0.5*math.Pi) / (6 * float64(w-2) * float64(h-2))
				if want == 0 {
					t.Trivial()
				}
				for _, avx := range []bool{true, false} {
					setAVX2(avx)
					got := float64(stats.EstimateNoise(a, int32(w)))
					got2 := float64(stats.NewStats(a, int32(w)).Noise())
					setAVX2(true)
					if !vk.Close(got, want, 2e-6*amax, tol) || !vk.Close(got2, want, 2e-6*amax, tol) {
						t.Fail("vectorised path allowed=%v: noise %g (via stats %g) want %g", avx, got, got2, want)
					}
				}
			}},
		&vk.Law{Name: "missing", Quick: 4000, Thorough: 100000, Rule: "images with missing pixels (NaN; single, rows, borders or many): the noise estimate is that of the complete 3x3 neighbourhoods, and zero if there are none; non-trivial if some are complete and some are not",
			Run: func(g *vk.G, t *vk.T) {
				w, h := g.Int(3, 30), g.Int(3, 30)
				a, kind := sample(g, w*h)
				nan := float32(math.NaN())
				how := vk.OneOf(g, "single", "row", "column", "border", "half", "share")
				s := g.Stream()
				switch how {
				case "single":
					a[s.Int(0, w*h-1)] = nan
				case "row":
					y := s.Int(0, h-1)
					for x := 0; x < w; x++ {
						a[y*w+x] = nan
					}
				case "column":
					x := s.Int(0, w-1)
					for y := 0; y < h; y++ {
						a[y*w+x] = nan
					}
				case "border":
					for x := 0; x < w; x++ {
						for y := 0; y < h; y++ {
							if x < 2 || y == h-1 {
								a[y*w+x] = nan
							}
						}
					}
				case "half":
					for i := range a[:w*h/2] {
						a[i] = nan
					}
				case "share":
					share := g.Float(0, 0.5)
					for i := range a {
						if s.Float(0, 1) < share {
							a[i] = nan
						}
					}
				}
				t.Desc("noise of %dx%d %s with missing %s %s", w, h, kind, how, vk.Show(a))
				t.Class(how)
				wts := [9]float64{1, -2, 1, -2, 4, -2, 1, -2, 1}
				sum, amax, n, missing := 0.0, 0.0, 0, 0
				for _, v := range a {
					if v == v {
						amax = math.Max(amax, math.Abs(float64(v)))
					} else {
						missing++
					}
				}
				for y := 1; y < h-1; y++ {
					for x := 1; x < w-1; x++ {
						c, j := 0.0, 0
						for dy := -1; dy <= 1; dy++ {
							for dx := -1; dx <= 1; dx++ {
								c += wts[j] * float64(a[(y+dy)*w+x+dx])
								j++
							}
						}
						if c == c {
							sum += math.Abs(c)
							n++
						}
					}
				}
				want := 0.0
				if n > 0 {
					want = sum * math.Sqrt(0.5*math.Pi) / 6 / float64(n)
				}
				if n == 0 || missing == 0 || n == (w-2)*(h-2) {
					t.Trivial()
				}
				for _, avx := range []bool{true, false} {
					setAVX2(avx)
					got := float64(stats.NewStats(a, int32(w)).Noise())
					setAVX2(true)
					if !vk.Close(got, want, 2e-6*amax, 5e-5) {
						t.Fail("vectorised path allowed=%v: noise %g with %d of %d neighbourhoods complete, want %g", avx, got, n, (w-2)*(h-2), want)
					}
				}
			}},
	)
}
