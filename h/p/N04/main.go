// N04: robust location and scale estimators.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

var modeNames = []string{"MeanStdDev", "MedianMAD", "IKSS", "SCMedianQn", "Histogram"}

// values draws n values of some shape; all are multiples of 1/64 (or plain reals for "real" shapes).
func values(g *vk.G, n int) ([]float32, string) {
	a := make([]float32, n)
	s := g.Stream()
	kind := g.Pick(3, 3, 2, 2, 2, 2, 1)
	switch kind {
	case 0:
		c, sd := s.Float(100, 20000), s.Float(5, 500)
		for i := range a {
			a[i] = float32(math.Round((c+sd*s.Norm())*64) / 64)
		}
		return a, "normal"
	case 1: // quantised: many equal values
		k := s.Int(1, 12)
		for i := range a {
			a[i] = float32(s.Int(0, k))
		}
		return a, "few values"
	case 2: // two clusters of nearly the same size
		k := n/2 + s.Int(-1, 1)
		lo, hi := s.Float(0, 10), s.Float(500, 1000)
		w := float64(s.Int(0, 2))
		for i := range a {
			v := lo
			if i < k {
				v = hi
			}
			a[i] = float32(math.Round((v+w*s.Norm())*64) / 64)
		}
		shuffle(s, a)
		return a, fmt.Sprintf("two clusters width %g", w)
	case 3: // mostly one value
		for i := range a {
			a[i] = 7
			if s.Int(0, 9) < 3 {
				a[i] = float32(s.Int(0, 100))
			}
		}
		return a, "mostly equal"
	case 4:
		for i := range a {
			a[i] = float32(i) * 0.5
		}
		return a, "ramp"
	case 5:
		for i := range a {
			a[i] = float32(math.Round(math.Exp(3*s.Norm())*64) / 64)
		}
		return a, "log-normal"
	default:
		v := float32(s.Int(-3, 100))
		for i := range a {
			a[i] = v
		}
		return a, "constant"
	}
}

func shuffle(s *vk.Stream, a []float32) {
	for i := len(a) - 1; i > 0; i-- {
		j := s.Int(0, i)
		a[i], a[j] = a[j], a[i]
	}
}

func rangeOf(a []float32) (lo, hi float64) {
	lo, hi = float64(a[0]), float64(a[0])
	for _, v := range a {
		lo, hi = math.Min(lo, float64(v)), math.Max(hi, float64(v))
	}
	return
}

// rankBand returns the values at fraction q-d and q+d of the sorted slice.
func rankBand(s []float64, q, d float64) (lo, hi float64) {
	n := len(s)
	at := func(f float64, dir int) float64 {
		i := int(math.Floor(f * float64(n)))
		i += dir
		if i < 0 {
			i = 0
		}
		if i > n-1 {
			i = n - 1
		}
		return s[i]
	}
	return at(q-d, -1), at(q+d, 1)
}

func sorted64(a []float32) []float64 {
	b := make([]float64, len(a))
	for i, v := range a {
		b[i] = float64(v)
	}
	sort.Float64s(b)
	return b
}

func sampleErr(m int) float64 { return 6.5 * math.Sqrt(0.25/float64(m)) }

// pairDiffs returns all (or many random) sorted absolute pair differences and the rank uncertainty of doing so
func pairDiffs(a []float32, s *vk.Stream) ([]float64, float64) {
	n := len(a)
	var d []float64
	if n <= 400 {
		for i := range a {
			for j := 0; j < i; j++ {
				d = append(d, math.Abs(float64(a[i])-float64(a[j])))
			}
		}
		sort.Float64s(d)
		return d, 0
	}
	m := 60000
	for k := 0; k < m; k++ {
		i := s.Int(0, n-1)
		j := s.Int(0, n-2)
		if j >= i {
			j++
		}
		d = append(d, math.Abs(float64(a[i])-float64(a[j])))
	}
	sort.Float64s(d)
	return d, 5 * math.Sqrt(0.1875/float64(m))
}

func estimate(mode int, a []float32) (float64, float64) {
	stats.LSEstimator = stats.LSEstimatorMode(mode)
	st := stats.NewStats(a, int32(len(a)))
	return float64(st.Location()), float64(st.Scale())
}

func phiInv(p float64) float64 { return math.Sqrt2 * math.Erfinv(2*p-1) }

func main() {
	vk.Main("N04", []string{"values are finite; the iterative estimator (IKSS) treats spreads below 1e-6 as zero by design; sampled estimators are compared by rank with a 6.5 sigma sampling band"},
		&vk.Law{Name: "every-estimator-range", Quick: 1500, Thorough: 40000, Rule: "each of the five location/scale estimators on 1..3000 values of every shape (constant, quantised, two clusters, a core of next to no width, ...): terminates, location within the data range, scale finite, non-negative and at most 2.3x the range; data untouched; non-trivial if n >= 2",
			Run: func(g *vk.G, t *vk.T) {
				n := 0
				if g.Chance(1, 3) {
					n = g.Int(1, 3000)
				} else {
					n = g.Size(1, 60)
				}
				a, kind := values(g, n)
				if g.Chance(1, 6) { // spread over many orders of magnitude, around a core of next to no width
					s := g.Stream()
					kind = "tiny core"
					core, width, share := s.Float(-1, 1), math.Exp(s.Float(-40, -5)), s.Float(0.3, 0.95)
					if s.Int(0, 1) == 0 {
						core = 0
					}
					for i := range a {
						if s.Float(0, 1) < share {
							a[i] = float32(core + width*s.Norm())
						}
					}
				}
				mode := g.Int(0, 4)
				t.Desc("%s of %d values, %s: %s", modeNames[mode], n, kind, vk.Show(a))
				t.Class("%s", modeNames[mode])
				t.Class("%s", kind)
				if n < 2 {
					t.Trivial()
				}
				b := append([]float32{}, a...)
				loc, sc := estimate(mode, b)
				if i, ok := vk.SameBits(a, b); !ok {
					t.Fail("data changed at %d", i)
				}
				lo, hi := rangeOf(a)
				tol := 0.0
				if mode == 0 || mode == 4 { // the mean and bin centres are rounded
					tol = 2e-6 * math.Max(math.Abs(lo), math.Abs(hi))
				}
				if !(loc >= lo-tol && loc <= hi+tol) {
					t.Fail("location %g outside data range [%g,%g]", loc, lo, hi)
				}
				if !(sc >= 0 && sc <= 2.3*(hi-lo)+1e-6*math.Max(math.Abs(lo), math.Abs(hi))) {
					t.Fail("scale %g for data range [%g,%g]", sc, lo, hi)
				}
				if lo == hi && (loc < lo-1e-6*math.Abs(lo) || loc > lo+1e-6*math.Abs(lo)) {
					t.Fail("location %g of constant %g", loc, lo)
				}
			}},
		&vk.Law{Name: "sampled-median-and-qn", Quick: 6000, Thorough: 200000, Rule: "sampled median, MAD and Qn lie between the exact data quantiles at their nominal rank +- the sampling error of the number of samples, for data in any order (ramps included); non-trivial if n >= 3 and not constant",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Int(1, 60)
				if g.Chance(1, 4) {
					n = g.Int(61, 2000)
				}
				a, kind := values(g, n)
				m := vk.OneOf(g, 2000, 4000, 8000, 4001)
				t.Desc("%d values %s, %d samples: %s", n, kind, m, vk.Show(a))
				t.Class("%s", kind)
				lo, hi := rangeOf(a)
				if n < 3 || lo == hi {
					t.Trivial()
				}
				s := g.Stream()
				samples := make([]float32, m)
				srt := sorted64(a)
				med := float64(stats.FastApproxMedian(a, samples))
				l, h := rankBand(srt, 0.5, sampleErr(m))
				if med < l || med > h {
					t.Fail("sampled median %g outside [%g,%g]", med, l, h)
				}
				around := float32(s.Float(lo, hi+1e-9))
				dev := make([]float64, n)
				for i, v := range a {
					dev[i] = math.Abs(float64(v - around))
				}
				sort.Float64s(dev)
				mad := float64(stats.FastApproxMAD(a, around, samples))
				l, h = rankBand(dev, 0.5, sampleErr(m))
				if !(mad >= l*1.4826*(1-1e-5) && mad <= h*1.4826*(1+1e-5)) {
					t.Fail("sampled MAD around %g is %g outside [%g,%g]*1.4826", around, mad, l, h)
				}
				qn := float64(stats.FastApproxQn(a, samples))
				if n == 1 {
					if qn != 0 {
						t.Fail("Qn of one value is %g", qn)
					}
					return
				}
				d, e := pairDiffs(a, s)
				l, h = rankBand(d, 0.25, 6.5*math.Sqrt(0.1875/float64(m))+e)
				if !(qn >= l*2.21914*(1-1e-5) && qn <= h*2.21914*(1+1e-5)) {
					t.Fail("sampled Qn %g = 2.21914*%g, pair difference quartile in [%g,%g]", qn, qn/2.21914, l, h)
				}
			}},
		&vk.Law{Name: "clipped-median-qn", Quick: 4000, Thorough: 120000, Rule: "sigma-clipped median with Qn on a normal majority plus up to 20% outliers on one side, any clip bounds: location within the expected band of the majority's centre, scale between 0.8x and the Qn inflation expected for that share; shifting and scaling by powers of two maps results accordingly; non-trivial if there are outliers",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Int(200, 3000)
				s := g.Stream()
				f := g.Float(0, 0.2)
				if g.Chance(1, 5) {
					f = 0
				}
				sd := math.Pow(2, float64(g.Int(-10, 10)))
				c := sd * g.Float(-20, 20)
				side := float64(1 - 2*g.Int(0, 1))
				far := g.Float(6, 200)
				sl, sh := g.Float(1.5, 4), g.Float(1.5, 4)
				a := make([]float32, n)
				no := int(f * float64(n))
				for i := range a {
					if i < no {
						a[i] = float32(c + side*sd*(far+s.Float(0, far)))
					} else {
						a[i] = float32(c + sd*s.Norm())
					}
				}
				shuffle(s, a)
				fr := float64(no) / float64(n)
				t.Desc("normal(%g,%g) n=%d with %d outliers at %g..%g sigma, clip %g/%g", c, sd, n, no, side*far, 2*side*far, sl, sh)
				t.Class("outliers %d%%", int(fr*100)/5*5)
				if no == 0 {
					t.Trivial()
				}
				lo, hi := rangeOf(a)
				m := 8192
				l64, s64 := stats.FastApproxSigmaClippedMedianAndQn(a, float32(sl), float32(sh), float32((hi-lo)/65535), m)
				loc, sc := float64(l64), float64(s64)
				asym := 0.4 * math.Abs(sl-sh)
				bias := phiInv(math.Min(0.95, 0.5/(1-fr)))
				if far >= 12 { // clipping removes all outliers
					bias = 0
				}
				band := bias + asym + 8*1.2533/math.Sqrt(float64(n)) + 8*1.2533/math.Sqrt(float64(m))
				if math.Abs(loc-c) > band*sd {
					t.Fail("location %g, %g sigma from the centre %g; allowed %g", loc, (loc-c)/sd, c, band)
				}
				d, e := pairDiffs(a, s)
				l, h := rankBand(d, 0.25, 6.5*math.Sqrt(0.1875/float64(m))+e)
				if sc < l*2.21914*0.9999 || sc > h*2.21914*1.0001 {
					t.Fail("scale %g, Qn of the data in [%g,%g]", sc, l*2.21914, h*2.21914)
				}
				infl := phiInv(0.5+0.5*math.Min(0.9, 0.25/((1-fr)*(1-fr))))/phiInv(0.625) + 8/math.Sqrt(float64(n))
				if sc > sd*(infl+0.15) || sc < sd*(1-8/math.Sqrt(float64(n))-0.1) {
					t.Fail("scale %g for sigma %g, expected up to %gx", sc, sd, infl)
				}
			}},
		&vk.Law{Name: "iterative-clipping", Quick: 600, Thorough: 12000, Rule: "IKSS of a normal majority with up to 30% outliers, all on one side and at least 15 sigma away: as all outliers get clipped, location and scale are those of the majority within statistical error; non-trivial if there are outliers",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Int(500, 10000)
				s := g.Stream()
				f := g.Float(0, 0.3)
				sd := math.Pow(2, float64(g.Int(-16, 9)))
				c := sd * g.Float(-60, 60)
				side := float64(1 - 2*g.Int(0, 1))
				far := g.Float(15, 100)
				a := make([]float32, n)
				no := int(f * float64(n))
				for i := range a {
					if i < no {
						a[i] = float32(c + side*sd*far*(1+s.Unit()))
					} else {
						a[i] = float32(c + sd*s.Norm())
					}
				}
				shuffle(s, a)
				t.Desc("normal(%g,%g) n=%d with %d outliers from %g sigma", c, sd, n, no, side*far)
				if no == 0 {
					t.Trivial()
				}
				loc, sc := estimate(2, a)
				if e := 7 / math.Sqrt(float64(n-no)); math.Abs(loc-c) > 1.2533*e*sd {
					t.Fail("location %g is %g sigma from the centre %g", loc, (loc-c)/sd, c)
				} else if math.Abs(sc/sd-1) > e+0.03 {
					t.Fail("scale %g is %g times sigma %g", sc, sc/sd, sd)
				}
			}},
		&vk.Law{Name: "large-sample", Quick: 60, Thorough: 1500, Rule: "each estimator but the histogram's on 400000 normal values, in any order: location and scale are centre and sigma within 7 standard errors (some 1%), so that frames measured by either compare; all non-trivial",
			Run: func(g *vk.G, t *vk.T) {
				s := g.Stream()
				n := 400000
				mode := g.Int(0, 3)
				sd := math.Pow(2, float64(g.Int(-16, 9)))
				c := sd * float64(g.Int(-60, 60))
				a := make([]float32, n)
				for i := range a {
					a[i] = float32(c + sd*s.Norm())
				}
				t.Desc("%s of %d values, normal(%g,%g)", modeNames[mode], n, c, sd)
				t.Class("%s", modeNames[mode])
				loc, sc := estimate(mode, a)
				le, se := []float64{0.0016, 0.0041, 0.0019, 0.0042}[mode], []float64{0.0012, 0.0046, 0.0013, 0.0057}[mode] // standard errors, measured
				if math.Abs(loc-c) > (7*le+1e-5)*sd+2e-6*math.Abs(c) {
					t.Fail("location %g is %g sigma from the centre %g", loc, (loc-c)/sd, c)
				}
				if math.Abs(sc/sd-1) > 6*se+0.001 {
					t.Fail("scale %g is %g times sigma %g", sc, sc/sd, sd)
				}
			}},
		&vk.Law{Name: "robust-recovery", Quick: 800, Thorough: 16000, Rule: "image statistics under each robust estimator (median/MAD, IKSS, clipped median/Qn, histogram) of a normal background with up to 15% stars recover centre and sigma; non-trivial if there are stars",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Int(1000, 20000)
				s := g.Stream()
				f := g.Float(0, 0.15)
				if g.Chance(1, 5) {
					f = 0
				}
				mode := g.Int(1, 4)
				sd := math.Pow(2, float64(g.Int(-16, 9)))
				c := sd * g.Float(6, 60)
				far := g.Float(5, 40)
				a := make([]float32, n)
				no := int(f * float64(n))
				for i := range a {
					if i < no {
						a[i] = float32(c + sd*far*(1+s.Unit()))
					} else {
						a[i] = float32(c + sd*s.Norm())
					}
				}
				shuffle(s, a)
				fr := float64(no) / float64(n)
				t.Desc("%s of normal(%g,%g) n=%d with %d stars from %g sigma", modeNames[mode], c, sd, n, no, far)
				t.Class("%s", modeNames[mode])
				if no == 0 {
					t.Trivial()
				}
				loc, sc := estimate(mode, a)
				band := phiInv(0.5/(1-fr)) + 10/math.Sqrt(float64(n)) + 0.03
				smin, smax := 0.85-8/math.Sqrt(float64(n)), 1.15+8/math.Sqrt(float64(n))
				switch mode {
				case 1:
					smax *= phiInv(0.5+0.5*0.5/(1-fr))/phiInv(0.75) + band
				case 2:
					smax += 2 * fr
				case 3:
					smax *= phiInv(0.5+0.5*0.25/((1-fr)*(1-fr))) / phiInv(0.625)
				case 4: // the mode of a sparse histogram is a noisy estimate
					band = 2.2
					smin, smax = 0.4, 3.2+far*fr
				}
				if math.Abs(loc-c) > band*sd {
					t.Fail("location %g is %g sigma from the background %g; allowed %g", loc, (loc-c)/sd, c, band)
				}
				if sc < smin*sd || sc > smax*sd {
					t.Fail("scale %g is %g times the background sigma %g; allowed %g..%g", sc, sc/sd, sd, smin, smax)
				}
			}},
		&vk.Law{Name: "affine-equivariance", Quick: 4000, Thorough: 100000, Rule: "deterministic estimators (mean/std, IKSS, histogram, sigma-clipped median+MAD) under multiplication by 2^k and an exactly representable shift: location maps along, scale is multiplied; non-trivial if not constant and k or shift non-zero",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Size(1, 2000)
				s := g.Stream()
				a := make([]float32, n)
				c, sd := s.Int(100, 2000), s.Float(1, 100)
				for i := range a {
					v := math.Round(float64(c) + sd*s.Norm())
					if s.Int(0, 19) == 0 {
						v += float64(s.Int(0, 4000))
					}
					a[i] = float32(v)
				}
				k := math.Pow(2, float64(g.Int(-8, 8)))
				shift := float64(g.Int(-1000, 1000))
				b := make([]float32, n)
				for i, v := range a {
					b[i] = float32((float64(v) + shift) * k)
				}
				mode := vk.OneOf(g, 2, 0, 4, 9)
				t.Desc("n=%d centre %d sigma %g, (x%+g)*%g, estimator %d", n, c, sd, shift, k, mode)
				t.Class("estimator %d", mode)
				lo, hi := rangeOf(a)
				if lo == hi || (k == 1 && shift == 0) {
					t.Trivial()
				}
				var l1, s1, l2, s2 float64
				if mode == 9 {
					x, y := stats.SigmaClippedMedianAndMAD(a, 2.5, 3)
					l1, s1 = float64(x), float64(y)
					x, y = stats.SigmaClippedMedianAndMAD(b, 2.5, 3)
					l2, s2 = float64(x), float64(y)
				} else {
					l1, s1 = estimate(mode, a)
					l2, s2 = estimate(mode, b)
				}
				if mode == 4 { // rounding can move values across a bin edge: compare when the result is stable
					if !stableHistogram(a) {
						t.Discard("histogram peak not unique enough")
					}
				}
				amp := hi - lo
				tolL, tolS := 2e-5*amp+1e-6*(math.Abs(hi)+math.Abs(shift)), 2e-5*amp+1e-6*(math.Abs(hi)+math.Abs(shift))
				if mode == 2 || mode == 9 { // a value at the clip bound may fall either side
					tolS += 2e-3 * s1
					if len(a) < 200 {
						tolS += 0.1 * s1
						tolL += 0.1 * s1
					}
				}
				if mode == 4 {
					tolL += 1.01 * amp / 4095
					tolS += 2.02 * amp / 4095
				}
				if math.Abs(l2/k-shift-l1) > tolL {
					t.Fail("location %g, of transformed data %g, expected %g (tolerance %g)", l1, l2, (l1+shift)*k, tolL*k)
				}
				if math.Abs(s2/k-s1) > tolS {
					t.Fail("scale %g, of transformed data %g, expected %g (tolerance %g)", s1, s2, s1*k, tolS*k)
				}
			}},
		&vk.Law{Name: "histogram-mode", Quick: 4000, Thorough: 100000, Rule: "data placed inside known histogram bins: location is the centre of a most populated inner bin, scale half the width of the smallest symmetric interval around it holding 68.27% (or reaching the edge); non-trivial if an inner bin is populated",
			Run: func(g *vk.G, t *vk.T) {
				nb := vk.OneOf(g, 4096, 16, 64, 257, 1024)
				w := math.Pow(2, float64(g.Int(-6, 6)))
				base := float64(g.Int(-1000, 1000)) * w
				n := g.Int(2, 800)
				s := g.Stream()
				cnt := make([]int, nb)
				a := make([]float32, 0, n+2)
				put := func(k int, jitter float64) {
					if k < 0 || k >= nb {
						return
					}
					if k == 0 || k == nb-1 {
						jitter = 0
					}
					a = append(a, float32(base+w*(float64(k)+jitter)))
					cnt[k]++
				}
				put(0, 0)
				put(nb-1, 0)
				c, sd := s.Int(0, nb-1), s.Float(0.3, float64(nb)/6)
				for i := 0; i < n; i++ {
					put(int(math.Round(float64(c)+sd*s.Norm())), s.Float(-0.25, 0.25))
				}
				if float64(float32(base+w*float64(nb))) == float64(float32(base+w*float64(nb)+w*0.25)) {
					t.Discard("not representable")
				}
				shuffle(s, a)
				t.Desc("%d bins of width %g from %g, %d values around bin %d", nb, w, base, len(a), c)
				loc, sc := stats.HistogramScaleLoc(a, float32(base), float32(base+w*float64(nb-1)), uint32(nb))
				peak := 0
				for k := 1; k < nb-1; k++ {
					if cnt[k] > peak {
						peak = cnt[k]
					}
				}
				if peak == 0 {
					t.Trivial()
					return
				}
				k := int(math.Round((float64(loc) - base) / w))
				if k < 1 || k > nb-2 || cnt[k] != peak {
					t.Fail("location %g is not the centre of a most populated inner bin", loc)
				}
				if math.Abs(float64(loc)-base-w*float64(k)) > 0.01*w+1e-6*math.Abs(base) {
					t.Fail("location %g is not a bin centre", loc)
				}
				lim := k
				if nb-1-k < lim {
					lim = nb - 1 - k
				}
				thr := 0.6827 * float64(len(a))
				ok := false
				cum := cnt[k]
				for i := 0; i <= lim; i++ {
					if i > 0 {
						cum += cnt[k-i] + cnt[k+i]
					}
					want := 0.5 * float64(2*i+1) * w
					if vk.Close(float64(sc), want, 1e-5*w, 1e-5) && (i == lim || float64(cum) >= thr-1) {
						ok = true
					}
					if float64(cum) >= thr+1 {
						break
					}
				}
				if !ok {
					t.Fail("scale %g = %g bins is not the smallest interval around bin %d holding 68.27%% of %d values", sc, float64(sc)/w, k, len(a))
				}
			}},
		&vk.Law{Name: "sigma-clipped-median", Quick: 8000, Thorough: 300000, Rule: "sigma-clipped median and MAD equal a float64 reference model; cases with a value within 1e-4 of a clip bound are left out; non-trivial if the model rejects something",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Size(1, 300)
				a, kind := values(g, n)
				sl, sh := g.Float(0.5, 5), g.Float(0.5, 5)
				t.Desc("%d values %s sigma %g/%g: %s", n, kind, sl, sh, vk.Show(a))
				rem := sorted64(a)
				rejected := 0
				med := 0.0
				for {
					med = median64(rem)
					v := 0.0
					for _, r := range rem {
						v += (r - med) * (r - med)
					}
					sd := math.Sqrt(v/float64(len(rem))) * 1.134
					lo, hi := med-sl*sd, med+sh*sd
					var kept []float64
					for _, r := range rem {
						if sd > 0 && (math.Abs(r-lo) < 1e-4*sd+1e-6*math.Abs(r) || math.Abs(r-hi) < 1e-4*sd+1e-6*math.Abs(r)) {
							t.Discard("on the bound")
						}
						if r >= lo && r <= hi {
							kept = append(kept, r)
						}
					}
					rej := len(rem) - len(kept)
					rejected += rej
					rem = kept
					if rej == 0 || len(rem) <= 3 {
						break
					}
				}
				if rejected == 0 {
					t.Trivial()
				}
				dev := make([]float64, n)
				for i, v := range a {
					dev[i] = math.Abs(float64(v) - med)
				}
				sort.Float64s(dev)
				mad := median64(dev) * 1.4826
				b := append([]float32{}, a...)
				m1, m2 := stats.SigmaClippedMedianAndMAD(b, float32(sl), float32(sh))
				if i, ok := vk.SameBits(a, b); !ok {
					t.Fail("data changed at %d", i)
				}
				if !vk.Close(float64(m1), med, 1e-6, 1e-6) || !vk.Close(float64(m2), mad, 1e-5, 1e-5) {
					t.Fail("got median %g MAD %g, want %g %g", m1, m2, med, mad)
				}
			}},
		&vk.Law{Name: "linear-regression", Quick: 10000, Thorough: 300000, Rule: "points on an exact line, constant ys, or noisy points against a float64 least squares fit; also mean and standard deviation of both; non-trivial if n >= 3 and slope non-zero",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Size(2, 200)
				s := g.Stream()
				xs, ys := make([]float32, n), make([]float32, n)
				slope, icpt := g.Float(-20, 20), g.Float(-100, 1000)
				if g.Chance(1, 8) {
					slope = 0
				}
				noise := 0.0
				if g.Bool() {
					noise = g.Float(0, 5)
				}
				kind := g.Int(0, 1)
				for i := range xs {
					x := float64(i)
					if kind == 1 {
						x = s.Float(-50, 50)
					}
					xs[i] = float32(x)
					ys[i] = float32(icpt + slope*float64(xs[i]) + noise*s.Norm())
				}
				t.Desc("n=%d slope %g intercept %g noise %g x-kind %d", n, slope, icpt, noise, kind)
				if n < 3 || slope == 0 {
					t.Trivial()
				}
				sl, ic, xm, xsd, ym, ysd := stats.LinearRegression(xs, ys)
				mx, my := 0.0, 0.0
				for i := range xs {
					mx += float64(xs[i])
					my += float64(ys[i])
				}
				mx /= float64(n)
				my /= float64(n)
				sxx, sxy, syy := 0.0, 0.0, 0.0
				for i := range xs {
					dx, dy := float64(xs[i])-mx, float64(ys[i])-my
					sxx += dx * dx
					sxy += dx * dy
					syy += dy * dy
				}
				if sxx < 1e-3 {
					t.Discard("degenerate xs")
				}
				ws := sxy / sxx
				wi := my - ws*mx
				amp := math.Abs(icpt) + 60*math.Abs(slope) + 250*math.Abs(slope)*float64(1-kind) + 20*noise
				tol := 2e-5 * amp
				tolS := tol / math.Sqrt(sxx/float64(n))
				if !(math.Abs(float64(sl)-ws) <= tolS+2e-5*math.Abs(ws)) {
					t.Fail("slope %g want %g", sl, ws)
				}
				if !(math.Abs(float64(ic)-wi) <= tol+tolS*(math.Abs(mx)+1)) {
					t.Fail("intercept %g want %g", ic, wi)
				}
				if !vk.Close(float64(xm), mx, 1e-3, 1e-4) || !vk.Close(float64(ym), my, tol, 1e-4) {
					t.Fail("means %g %g want %g %g", xm, ym, mx, my)
				}
				if !vk.Close(float64(xsd), math.Sqrt(sxx/float64(n)), 1e-3, 1e-4) || !vk.Close(float64(ysd), math.Sqrt(syy/float64(n)), tol, 1e-3) {
					t.Fail("standard deviations %g %g want %g %g", xsd, ysd, math.Sqrt(sxx/float64(n)), math.Sqrt(syy/float64(n)))
				}
			}},
	)
}

func median64(s []float64) float64 {
	n := len(s)
	if n == 0 {
		return math.NaN()
	}
	if n%2 == 1 {
		return s[n/2]
	}
	return 0.5 * (s[n/2-1] + s[n/2])
}

// stableHistogram tells if the largest inner bin (4096 bins) leads by a margin, also if edge values move.
func stableHistogram(a []float32) bool {
	lo, hi := rangeOf(a)
	if lo == hi {
		return true
	}
	cnt := make([]int, 4097)
	near := make([]int, 4097)
	for _, v := range a {
		x := (float64(v) - lo) * 4095 / (hi - lo)
		b := int(math.Floor(x + 0.5))
		cnt[b]++
		if math.Abs(x+0.5-math.Round(x+0.5)) < 0.01 {
			near[b]++
			if b > 0 {
				near[b-1]++
			}
		}
	}
	best, second := 0, 0
	bi := -1
	for k := 1; k < 4095; k++ {
		if cnt[k] > best {
			best, bi = cnt[k], k
		}
	}
	for k := 1; k < 4095; k++ {
		if k != bi && cnt[k]+near[k] > second {
			second = cnt[k] + near[k]
		}
	}
	return bi >= 0 && best-near[bi] > second
}
