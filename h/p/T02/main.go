// T02: iterative stretching reaches the requested background location and scale.
package main

import (
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

// medianMAD measures location and scale of the pixels.
func medianMAD(d []float32) (loc, scale float64) {
	s := make([]float64, len(d))
	for i, v := range d {
		s[i] = float64(v)
	}
	med := func() float64 {
		sort.Float64s(s)
		n := len(s)
		if n%2 == 1 {
			return s[n/2]
		}
		return (s[n/2-1] + s[n/2]) / 2
	}
	loc = med()
	for i, v := range d {
		s[i] = math.Abs(float64(v) - loc)
	}
	return loc, 1.4826 * med()
}

// draw yields an image of noisy background and stars, a copy of its pixels, and the start of the channel to stretch.
func draw(g *vk.G, color bool) (f *fits.Image, orig []float32, lo int) {
	planes := 1
	if color {
		planes = 3
	}
	w, h := g.Int(20, 90), g.Int(20, 90)
	n := w * h
	s := g.Stream()
	lvl := g.LogFloat(0.001, 0.5)
	rel := g.LogFloat(0.002, 0.25)
	stars := g.Float(0, 0.05)
	d := make([]float32, n*planes)
	if color {
		lo = 2 * n
	}
	for i := range d {
		v := lvl * (1 + rel*s.Norm())
		if s.Unit() < stars {
			v += math.Pow(s.Unit(), 3)
		}
		d[i] = float32(math.Max(0, math.Min(1, v)))
	}
	nx := []int32{int32(w), int32(h)}
	if color {
		nx = append(nx, 3)
	}
	return fits.NewImageFromNaxisn(nx, d), append([]float32{}, d...), lo
}

// lawReach: the background ends up at the requested location and scale if a stretch can get it there.
func lawReach(g *vk.G, t *vk.T) {
	color := g.Bool()
	f, orig, lo := draw(g, color)
	L, S := g.LogFloat(0.01, 0.4), g.LogFloat(0.0005, 0.05)
	if S > L/4 {
		S = L / 4
	}
	if g.Chance(1, 10) {
		L, S = 0, 0
	}
	stats.LSEstimator = stats.LSEMedianMAD
	l0, s0 := medianMAD(orig[lo:])
	t.Desc("%v, location %.4g scale %.4g to location %.4g scale %.4g", f.Naxisn, l0, s0, L, S)
	var op ops.OperatorUnary = stretch.NewOpStretchIterative(float32(L), float32(S))
	if color {
		op = hsl.NewOpHSLStretchIterative(float32(L), float32(S))
	}
	r, err := op.Apply(f, ops.NewContext(io.Discard, 1000, stats.LSEMedianMAD))
	if err != nil {
		t.Fail("%v", err)
	}
	if i, ok := vk.SameBits(orig[:lo], r.Data[:lo]); !ok {
		t.Fail("pixel %d of the other channels changes", i)
	}
	if L == 0 {
		t.Class("off")
		if i, ok := vk.SameBits(orig, r.Data); !ok {
			t.Fail("pixel %d changes although turned off", i)
		}
		return
	}
	ordered(t, orig[lo:], r.Data[lo:])
	l1, s1 := medianMAD(r.Data[lo:])
	if s0 > S*0.97 && s0 < S*1.03 {
		t.Discard("scale about at the target")
	}
	if s0 >= S {
		t.Class("scale above target already")
		if i, ok := vk.SameBits(orig, r.Data); !ok {
			t.Fail("pixel %d changes although the scale is above the target", i)
		}
		return
	}
	// scale a stretch to the target location comes with, for narrow distributions
	need := s0 / (1 - l0) * (1 - L)
	if l0 < L {
		need = L * s0 / l0 * math.Log(L) / math.Log(l0)
	}
	if l1 > 1.015*L {
		t.Fail("location %.4g afterwards, scale %.4g", l1, s1)
	}
	if s1 < 0.9*S {
		t.Fail("scale %.4g afterwards, location %.4g", s1, l1)
	}
	if need < 0.7*S {
		t.Class("reachable")
		if l1 < 0.985*L || s1 > 1.06*S {
			t.Fail("location %.4g and scale %.4g afterwards", l1, s1)
		}
	} else {
		t.Class("location cannot be reached at this scale")
		t.Trivial()
	}
}

// lawBlack: shifting the black point moves the location down to the target.
func lawBlack(g *vk.G, t *vk.T) {
	color := g.Bool()
	f, orig, lo := draw(g, color)
	L := g.LogFloat(0.002, 0.3)
	l0, _ := medianMAD(orig[lo:])
	t.Desc("%v location %.4g to %.4g", f.Naxisn, l0, L)
	stats.LSEstimator = stats.LSEMedianMAD
	var op ops.OperatorUnary = stretch.NewOpScaleBlack(float32(L))
	target := L
	if color {
		op = hsl.NewOpHSLScaleBlack(float32(L))
		target = lightness(L)
	}
	r, err := op.Apply(f, ops.NewContext(io.Discard, 1000, stats.LSEMedianMAD))
	if err != nil {
		t.Fail("%v", err)
	}
	if i, ok := vk.SameBits(orig[:lo], r.Data[:lo]); !ok {
		t.Fail("pixel %d of the other channels changes", i)
	}
	if l0 < target*0.95 {
		t.Class("below")
		t.Trivial()
		if i, ok := vk.SameBits(orig, r.Data); !ok {
			t.Fail("pixel %d changes although the location is below the target", i)
		}
		return
	}
	if l0 < target*1.05 {
		t.Discard("location about at the target")
	}
	t.Class("above")
	ordered(t, orig[lo:], r.Data[lo:])
	sorted := vk.SortedCopy(r.Data[lo:])
	n := len(sorted)
	// the estimator samples pixels, so its median is one of the middle values
	if lower, upper := float64(sorted[n*47/100]), float64(sorted[n*53/100]); lower > target+1e-5 || upper < target-1e-5 {
		t.Fail("median %g afterwards, and %g to %g around it", sorted[n/2], lower, upper)
	}
	// white stays white, and the map is affine down to black
	dimmest, k := 2.0, 1.0
	for i, x := range orig[lo:] {
		if y := float64(r.Data[lo+i]); y > 0 && float64(x) < dimmest {
			dimmest, k = float64(x), (1-y)/(1-float64(x))
		}
	}
	for i, x := range orig[lo:] {
		want := math.Max(0, 1-(1-float64(x))*k)
		if y := float64(r.Data[lo+i]); !vk.Close(y, want, 1e-5, 0) {
			t.Fail("%g becomes %g instead of %g", x, y, want)
		}
	}
}

// lightness is the HSLuv (CIE L*u*v*) lightness of a linear gray value, in [0,1].
func lightness(y float64) float64 {
	if y > 216.0/24389 {
		return 1.16*math.Cbrt(y) - 0.16
	}
	return y * 24389 / 27 / 100
}

// lawAny: whatever the image and the estimator, stretching ends and keeps order and range.
func lawAny(g *vk.G, t *vk.T) {
	color := g.Bool()
	w, h := g.Int(1, 30), g.Int(1, 30)
	planes := 1
	if color {
		planes = 3
	}
	n := w * h
	d := make([]float32, n*planes)
	s := g.Stream()
	kind := g.Int(0, 5)
	a, b := float32(g.Unit()), float32(g.Unit())
	p := g.Unit()
	for i := range d {
		switch kind {
		case 0:
			d[i] = a
		case 1:
			if s.Unit() < p {
				d[i] = b
			} else {
				d[i] = a
			}
		case 2:
			if s.Unit() > p {
				d[i] = b * float32(s.Unit())
			}
		case 3:
			d[i] = float32(s.Unit())
		case 4:
			d[i] = float32(math.Exp(-12 * s.Unit()))
		case 5:
			d[i] = float32(math.Max(0, math.Min(1, float64(a)+float64(b)*s.Norm())))
		}
	}
	lo := (planes - 1) * n
	est := []stats.LSEstimatorMode{stats.LSEMeanStdDev, stats.LSEMedianMAD, stats.LSEIKSS, stats.LSESCMedianQn, stats.LSEHistogram}[g.Int(0, 4)]
	if est == stats.LSEHistogram && n*planes < 10 {
		est = stats.LSEMedianMAD
	}
	if est == stats.LSESCMedianQn && kind != 3 {
		est = stats.LSEMedianMAD // the default estimator terminates, but slowly so on clusters, see N04
	}
	L, S := g.LogFloat(0.002, 0.6), g.LogFloat(0.0001, 0.2)
	stats.LSEstimator = est
	nx := []int32{int32(w), int32(h)}
	if color {
		nx = append(nx, 3)
	}
	orig := append([]float32{}, d...)
	f := fits.NewImageFromNaxisn(nx, d)
	t.Desc("%v kind %d %g %g %g estimator %v to %g %g", nx, kind, a, b, p, est, L, S)
	t.Class(fmt.Sprintf("kind %d", kind))
	var op ops.OperatorUnary = stretch.NewOpStretchIterative(float32(L), float32(S))
	if color {
		op = hsl.NewOpHSLStretchIterative(float32(L), float32(S))
	}
	r, err := op.Apply(f, ops.NewContext(io.Discard, 1000, est))
	if err != nil {
		t.Fail("%v", err)
	}
	if i, ok := vk.SameBits(orig[:lo], r.Data[:lo]); !ok {
		t.Fail("pixel %d of the other channels changes", i)
	}
	if _, ok := vk.SameBits(orig, r.Data); ok {
		t.Trivial()
	}
	ordered(t, orig[lo:], r.Data[lo:])
}

func ordered(t *vk.T, before, after []float32) {
	ix := make([]int, len(before))
	for i := range ix {
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return before[ix[a]] < before[ix[b]] })
	for k := 1; k < len(ix); k++ {
		i, j := ix[k-1], ix[k]
		if before[i] == before[j] && after[i] != after[j] {
			t.Fail("%g becomes %g at pixel %d and %g at pixel %d", before[i], after[i], i, after[j], j)
		}
		if !(after[i] <= after[j]+1e-5) {
			t.Fail("%g becomes %g, but %g becomes %g", before[i], after[i], before[j], after[j])
		}
		if !(after[j] >= 0 && after[j] <= 1.00001) {
			t.Fail("%g becomes %g", before[j], after[j])
		}
	}
}

func main() {
	vk.Main("T02", []string{
		"Targets: location 0.01 to 0.4, scale 0.0005 to 0.05 and at most a quarter of the location; the background is near normal, with median and MAD as estimators of location and scale.",
		"A scale above its target beforehand leaves the image alone. Where reaching the location by a gamma curve alone overshoots the scale, the seek ends at the scale with a lower location.",
	},
		&vk.Law{Name: "reach", Quick: 1500, Thorough: 150000, Rule: "the target combination is reachable or the stretch is off", Run: lawReach},
		&vk.Law{Name: "black-point", Quick: 2000, Thorough: 300000, Rule: "the location is above the target", Run: lawBlack},
		&vk.Law{Name: "any-image", Quick: 3000, Thorough: 600000, Rule: "the image changes", Run: lawAny})
}
