// C06: debanding.
package main

import (
	"io"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

func ctx() *ops.Context { return ops.NewContext(io.Discard, 1000, stats.LSEstimator) }

func transpose(d []float32, w, h int) []float32 {
	r := make([]float32, len(d))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			r[x*h+y] = d[y*w+x]
		}
	}
	return r
}

// deband applies the horizontal or vertical operator such that lines are rows of the given data.
func deband(t *vk.T, d []float32, w, h int, vert bool, pct float32, win int32, sigma float32) []float32 {
	in := append([]float32{}, d...)
	fw, fh := w, h
	if vert {
		in = transpose(in, w, h)
		fw, fh = h, w
	}
	f := fits.NewImageFromNaxisn([]int32{int32(fw), int32(fh)}, in)
	var r *fits.Image
	var err error
	if vert {
		r, err = pre.NewOpDebandVert(pct, win, sigma).Apply(f, ctx())
	} else {
		r, err = pre.NewOpDebandHoriz(pct, win, sigma).Apply(f, ctx())
	}
	if err != nil {
		t.Fail("%v", err)
	}
	if len(r.Data) != w*h || int(r.Naxisn[0]) != fw || int(r.Naxisn[1]) != fh {
		t.Fail("dimensions changed to %v", r.Naxisn)
	}
	mx := math.Inf(-1)
	for _, v := range r.Data {
		mx = math.Max(mx, float64(v))
	}
	if float64(r.Stats.Max()) != mx {
		t.Fail("the maximum is reported as %g, it is %g", r.Stats.Max(), mx)
	}
	if vert {
		return transpose(r.Data, fw, fh)
	}
	return r.Data
}

func mstd(d []float32) (m, sd float64) {
	for _, v := range d {
		m += float64(v)
	}
	m /= float64(len(d))
	for _, v := range d {
		sd += (float64(v) - m) * (float64(v) - m)
	}
	return m, math.Sqrt(sd / float64(len(d)))
}

// levels gives for each row the lowest and highest admissible percentile (rank k or a neighbour, threshold within rounding).
func levels(d []float32, w, h int, pct, sigma float64) (lo, hi []float64, empty []bool) {
	m, sd := mstd(d)
	if stats.LSEstimator != stats.LSEMeanStdDev {
		st := stats.NewStats(append([]float32{}, d...), int32(w))
		m, sd = float64(st.Location()), float64(st.Scale())
	}
	lo, hi, empty = make([]float64, h), make([]float64, h), make([]bool, h)
	for y := 0; y < h; y++ {
		row := vk.SortedCopy(d[y*w : y*w+w])
		lo[y], hi[y] = math.Inf(1), math.Inf(-1)
		thr := m + sigma*sd
		tol := 1e-4*(math.Abs(m)+math.Abs(sigma*sd)) + 1e-30
		nmin, nmax := w, w
		if sigma != 0 {
			nmin = sort.Search(w, func(i int) bool { return float64(row[i]) > thr-tol })
			nmax = sort.Search(w, func(i int) bool { return float64(row[i]) > thr+tol })
		}
		for n := nmin; n <= nmax; n++ {
			k := n
			if n == 0 {
				k, empty[y] = w, true
			}
			r := int(float64(k) * pct / 100)
			for q := r - 1; q <= r; q++ { // 0-based rank of the percentile
				j := q
				if j < 0 {
					j = 0
				}
				if j >= k {
					j = k - 1
				}
				lo[y], hi[y] = math.Min(lo[y], float64(row[j])), math.Max(hi[y], float64(row[j]))
			}
		}
	}
	return
}

func med(a []float64) float64 {
	b := append([]float64{}, a...)
	sort.Float64s(b)
	n := len(b)
	if n%2 == 1 {
		return b[n/2]
	}
	return 0.5 * (b[n/2-1] + b[n/2])
}

func lawRows(g *vk.G, t *vk.T) {
	w, h := g.Int(1, 60), g.Size(1, 80)
	w, h = g.Large(w, h, 200, 100000)
	pct := vk.OneOf(g, 50, g.F32(0.5, 99.5), 10, 90)
	win := int32(vk.OneOf(g, g.Size(1, 100), 128, g.Int(1, 20)))
	sigma := vk.OneOf(g, 3, 0, g.F32(0.5, 6))
	vert := g.Bool()
	stats.LSEstimator = stats.LSEMeanStdDev
	if g.Chance(1, 4) && w*h >= 100 {
		stats.LSEstimator = vk.OneOf(g, stats.LSEHistogram, stats.LSEIKSS)
	}
	s := g.Stream()
	lvl, noise, band := g.LogFloat(0.01, 10000), g.LogFloat(1e-4, 0.1), g.LogFloat(1e-3, 0.5)
	d := make([]float32, w*h)
	neg := g.Chance(1, 8)
	dead := g.Chance(1, 5)
	for y := 0; y < h; y++ {
		b := 1 + band*s.Float(-1, 1)
		if s.Int(0, 15) == 0 {
			b = s.Float(1, 10)
		}
		if dead && s.Int(0, 8) == 0 {
			b = 0
		}
		for x := 0; x < w; x++ {
			v := lvl * b * (1 + noise*s.Norm())
			if s.Int(0, 40) == 0 {
				v *= s.Float(1, 30)
			}
			if neg {
				v -= lvl
			}
			d[y*w+x] = float32(v)
		}
	}
	t.Desc("%d lines of %d, vertical %v, percentile %g window %d sigma %g, around zero %v dead lines %v", h, w, vert, pct, win, sigma, neg, dead)
	t.Class("vertical %v", vert)
	t.Class("location and scale estimator %d", stats.LSEstimator)
	if h < 3 {
		t.Trivial()
	}
	r := deband(t, d, w, h, vert, pct, win, sigma)
	// each line is multiplied by one positive finite factor
	fac := make([]float64, h)
	for y := 0; y < h; y++ {
		big := 0
		for x := 0; x < w; x++ {
			if math.Abs(float64(d[y*w+x])) > math.Abs(float64(d[y*w+big])) {
				big = x
			}
		}
		fac[y] = math.NaN()
		if a := float64(d[y*w+big]); a != 0 {
			fac[y] = float64(r[y*w+big]) / a
			if !(fac[y] > 0) || math.IsInf(fac[y], 0) {
				t.Fail("line %d is multiplied by %g", y, fac[y])
			}
		}
		for x := 0; x < w; x++ {
			a, b := float64(d[y*w+x]), float64(r[y*w+x])
			if a == 0 && b != 0 || a != 0 && !vk.Close(b, a*fac[y], math.Abs(a*fac[y])*3e-6+1e-30, 0) {
				t.Fail("line %d is not multiplied by one factor: %g becomes %g, with factor %g of the brightest pixel %g", y, a, b, fac[y], a*fac[y])
			}
		}
	}
	lo, hi, _ := levels(d, w, h, float64(pct), float64(sigma))
	// away from the edges the line level moves to the median level of the window
	wr := int(win)
	if wr > h {
		wr = h
	}
	inner := 0
	for y := wr / 2; y-wr/2+wr <= h; y++ {
		ml, mh := med(lo[y-wr/2:y-wr/2+wr]), med(hi[y-wr/2:y-wr/2+wr])
		if math.IsNaN(fac[y]) {
			continue
		}
		if ml <= 0 || lo[y] <= 0 {
			if mh <= 0 != (hi[y] <= 0) && mh*lo[y] < 0 && ml*hi[y] < 0 && fac[y] != 1 {
				t.Fail("line %d with level %g below the median %g of other sign is multiplied by %g", y, hi[y], mh, fac[y])
			}
			continue
		}
		inner++
		fl, fh := ml/hi[y], mh/lo[y]
		if fac[y] < fl*(1-1e-5) || fac[y] > fh*(1+1e-5) {
			t.Fail("line %d of level %g..%g is multiplied by %g, its window has median level %g..%g", y, lo[y], hi[y], fac[y], ml, mh)
		}
	}
	if inner > 0 {
		t.Class("inner lines")
	}
	if !neg && !dead {
		// scaling the image scales the result (exactly, by a power of two)
		e := make([]float32, len(d))
		for i := range d {
			e[i] = 4 * d[i]
		}
		q := deband(t, e, w, h, vert, pct, win, sigma)
		for i := range q {
			if !vk.Close(float64(q[i]), 4*float64(r[i]), 0, 1e-5) {
				t.Fail("the image at four times the level yields %g instead of %g", q[i], 4*r[i])
			}
		}
	}
	// both directions agree
	q := deband(t, d, w, h, !vert, pct, win, sigma)
	for i := range q {
		if !vk.Close(float64(q[i]), float64(r[i]), 1e-30, 1e-4) {
			t.Fail("line %d pixel %d: horizontal and vertical debanding of the transposed image disagree, %g and %g", i/w, i%w, r[i], q[i])
		}
	}
}

// lawGradient debands noiseless frames without bands, but with a linear gradient across the lines.
func lawGradient(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	w, h := g.Size(1, 30), g.Int(4, 120)
	win := g.Int(2, h)
	pct := vk.OneOf(g, 50, g.F32(1, 99))
	vert := g.Bool()
	lvl, slope := g.LogFloat(0.01, 10000), g.Float(-1.8, 1.8)
	s := g.Stream()
	pat := make([]float64, w)
	for x := range pat {
		pat[x] = s.Float(0.5, 2)
	}
	at := func(y float64) float64 { return lvl * (1 + slope*((y+0.5)/float64(h)-0.5)) }
	d := make([]float32, w*h)
	for y := 0; y < h; y++ {
		for x := range pat {
			d[y*w+x] = float32(at(float64(y)) * pat[x])
		}
	}
	t.Desc("%d lines of %d, vertical %v, percentile %g window %d, gradient %.3f", h, w, vert, pct, win, slope)
	t.Class("odd window %v", win%2 == 1)
	r := deband(t, d, w, h, vert, pct, int32(win), 0)
	for y := 0; y < h; y++ {
		k := float64(r[y*w]) / float64(d[y*w])
		// even windows have no middle line, which moves the level by half a step; the continuation of small
		// windows beyond the border by another half
		lo, hi := at(float64(y)-1)/at(float64(y)), at(float64(y)+1)/at(float64(y))
		if lo > hi {
			lo, hi = hi, lo
		}
		if k < lo-1e-5 || k > hi+1e-5 {
			t.Fail("line %d on a linear gradient is multiplied by %g, lines next to it have %g and %g times its level", y, k, at(float64(y)-1)/at(float64(y)), at(float64(y)+1)/at(float64(y)))
		}
	}
}

func lawFlat(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	w, h := g.Int(100, 250), g.Int(20, 160)
	pct := g.F32(20, 80)
	win := int32(g.Int(8, 100))
	sigma := vk.OneOf[float32](g, 3, 4, 0)
	vert := g.Bool()
	s := g.Stream()
	lvl := g.LogFloat(0.01, 10000)
	noise := g.LogFloat(1e-4, 0.03)
	band := 0.0
	kind := g.Pick(2, 1, 1)
	slope := 0.0
	switch kind {
	case 0:
		band = noise * g.Float(1, 10)
	case 2:
		slope = g.Float(-0.5, 0.5)
	}
	lines := make([]float64, h)
	d := make([]float32, w*h)
	for y := 0; y < h; y++ {
		lines[y] = lvl * (1 + slope*(float64(y)/float64(h)-0.5)) * (1 + band*s.Float(-1, 1))
		for x := 0; x < w; x++ {
			d[y*w+x] = float32(lines[y] * (1 + noise*s.Norm()))
		}
	}
	stars := g.Int(0, 10)
	for i := 0; i < stars; i++ {
		x, y := s.Int(0, w-4), s.Int(0, h-4)
		for j := 0; j < 9; j++ {
			d[(y+j/3)*w+x+j%3] += float32(lvl * s.Float(1, 30))
		}
	}
	t.Desc("%d lines of %d, vertical %v, percentile %g window %d sigma %g, noise %.4f banding %.4f slope %.2f, %d stars", h, w, vert, pct, win, sigma, noise, band, slope, stars)
	t.Class("%s", []string{"banded", "unbanded", "gradient across lines"}[kind])
	r := deband(t, d, w, h, vert, pct, win, sigma)
	// deviation of line levels from the underlying smooth level, before and after
	eff := noise*2.2/math.Sqrt(float64(w)) + 0.2*float64(stars)/float64(w)*noise
	edgeTol := 0.0
	if kind == 2 || band > 0 {
		edgeTol = 2*math.Abs(slope)/float64(h) + 2*band // windows at the edges are continued linearly from few levels
	}
	half := float64(win) / 2
	for y := 0; y < h; y++ {
		k := float64(r[y*w]) / float64(d[y*w])
		after := lines[y] * k / (lvl * (1 + slope*(float64(y)/float64(h)-0.5)))
		tol := 6*eff + 1.5*math.Abs(slope)/float64(h) + math.Min(1, 6/math.Sqrt(math.Min(float64(win), float64(h))))*band
		edge := float64(y) < half+1 || float64(y) > float64(h)-half-1
		if edge {
			tol += edgeTol + 6*eff
		}
		if math.Abs(after-1) > tol {
			t.Fail("line %d ends at %g of the smooth level (before %g), want 1 +- %g", y, after, lines[y]/(lvl*(1+slope*(float64(y)/float64(h)-0.5))), tol)
		}
	}
}

func lawOff(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	w, h := g.Size(1, 20), g.Size(1, 20)
	d := make([]float32, w*h)
	for i := range d {
		d[i] = g.F32(0, 1)
	}
	pct, win := float32(50), int32(8)
	if g.Bool() {
		pct = vk.OneOf[float32](g, 0, -1, 100, 150)
	} else {
		win = vk.OneOf[int32](g, 0, -1, -128)
	}
	vert := g.Bool()
	t.Desc("%dx%d vertical %v percentile %g window %d", w, h, vert, pct, win)
	r := deband(t, d, w, h, vert, pct, win, 3)
	if i, ok := vk.SameBits(r, d); !ok {
		t.Fail("turned off, but pixel %d changes from %g to %g", i, d[i], r[i])
	}
}

func main() {
	vk.Main("C06", []string{"mono frames", "the percentile of n values is the value of rank n*p/100, give or take one rank"},
		&vk.Law{Name: "lines", Quick: 60000, Thorough: 1500000, Rule: "1..60 x 1..80 images with random bands, outliers, dead lines and levels around zero, all settings; each line is multiplied by one positive factor, inner lines by median level of the window over own level; scale equivariance; agreement of the two directions on transposed images; location and scale of the threshold by mean, histogram or IKSS; non-trivial from 3 lines on", Run: lawRows},
		&vk.Law{Name: "flatten", Quick: 6000, Thorough: 150000, Rule: "banded, unbanded and sloped noisy backgrounds with stars; every line ends at the smooth level within the statistical error; all non-trivial", Run: lawFlat},
		&vk.Law{Name: "gradient", Quick: 5000, Thorough: 100000, Rule: "noiseless linear gradients without bands, any window: every line up to the borders keeps its level within one step between lines; all non-trivial", Run: lawGradient},
		&vk.Law{Name: "off", Quick: 500, Thorough: 5000, Rule: "percentile or window out of range change nothing; all non-trivial", Run: lawOff},
	)
}
