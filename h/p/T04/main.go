// T04: histogram matching gives every frame the reference's location and scale.
package main

import (
	"fmt"
	"io"
	"math"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

func moments(d []float32) (loc, scale float64) {
	for _, v := range d {
		loc += float64(v)
	}
	loc /= float64(len(d))
	for _, v := range d {
		scale += (float64(v) - loc) * (float64(v) - loc)
	}
	return loc, math.Sqrt(scale / float64(len(d)))
}

func clone(f *fits.Image) *fits.Image {
	r := fits.NewImageFromNaxisn(f.Naxisn, append([]float32{}, f.Data...))
	r.ID = f.ID
	return r
}

func frame(g *vk.G, id int, unit bool) *fits.Image {
	w, h := g.Large(g.Int(1, 40), g.Int(1, 40), 300, 60000)
	nx := []int32{int32(w), int32(h)}
	n := int(nx[0] * nx[1])
	if g.Chance(1, 6) {
		nx = append(nx, 3)
		n *= 3
	}
	d := make([]float32, n)
	s := g.Stream()
	base, amp := g.LogFloat(1e-3, 1e4), g.LogFloat(1e-3, 0.5)
	kind := g.Int(0, 3)
	if unit {
		base = g.LogFloat(1e-3, 0.7)
	}
	for i := range d {
		switch kind {
		case 0:
			d[i] = float32(base * (1 + amp*s.Norm()))
		case 1:
			d[i] = float32(base * (1 + amp*s.Norm()))
			if s.Unit() < 0.05 {
				d[i] += float32(base * 20 * s.Unit())
			}
		case 2:
			d[i] = float32(base)
		case 3:
			d[i] = float32(base * (s.Unit() - 0.3))
		}
		if unit {
			d[i] = float32(math.Max(0, math.Min(1, float64(d[i]))))
		}
	}
	f := fits.NewImageFromNaxisn(nx, d)
	f.ID = id
	return f
}

func lawMatch(g *vk.G, t *vk.T) {
	mode := vk.OneOf(g, post.HNMLocation, post.HNMLocScale, post.HNMLocBlack, post.HNMNone)
	unit := mode == post.HNMLocBlack
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	n := g.Int(1, 6)
	frames := make([]*fits.Image, n)
	orig := make([]*fits.Image, n)
	for i := range frames {
		frames[i] = frame(g, i, unit)
		if g.Chance(1, 3) { // some statistics may be known already
			frames[i].Stats.Max()
		}
		orig[i] = clone(frames[i])
	}
	refIx := g.Int(0, n-1)
	if g.Chance(1, 5) {
		refIx = -1 // from elsewhere
		c.MatchHisto = frame(g, -1, unit).Stats
	} else {
		c.MatchHisto = clone(frames[refIx]).Stats // as taken from the reference frame before the steps modify it
	}
	// statistics are calculated when first asked for, so do it once before frames share them
	c.MatchHisto.Max()
	c.MatchHisto.StdDev()
	refLoc, refScale := float64(c.MatchHisto.Location()), float64(c.MatchHisto.Scale())
	t.Desc("mode %d, %d frames, reference %d with location %g scale %g", mode, n, refIx, refLoc, refScale)
	t.Class(fmt.Sprintf("mode %d", mode))
	op := post.NewOpMatchHistogram(post.HistoNormMode(mode))
	errs := make([]error, n)
	outs := make([]*fits.Image, n)
	order := g.Perm(n)
	if mode != post.HNMLocBlack && g.Bool() {
		var wg sync.WaitGroup
		for _, i := range order {
			wg.Add(1)
			go func(i int) { defer wg.Done(); outs[i], errs[i] = op.Apply(frames[i], c) }(i)
		}
		wg.Wait()
	} else {
		for _, i := range order {
			outs[i], errs[i] = op.Apply(frames[i], c)
		}
	}
	for i, f := range outs {
		before := orig[i].Data
		loc, scale := moments(before)
		spread := 0.0 // magnitude of the values involved
		for _, v := range before {
			spread = math.Max(spread, math.Abs(float64(v)))
		}
		if mode == post.HNMLocation && float64(orig[i].Stats.Location()) == 0 {
			if errs[i] == nil {
				t.Fail("frame %d: no error on location zero", i)
			}
			continue
		}
		if mode == post.HNMLocation && math.Abs(loc) < 1e-3*spread {
			continue // ill-conditioned
		}
		if errs[i] != nil {
			t.Fail("frame %d: %v", i, errs[i])
		}
		if f.ID != i || len(f.Data) != len(before) {
			t.Fail("frame %d becomes frame %d of %d pixels", i, f.ID, len(f.Data))
		}
		if mode == post.HNMNone || i == refIx {
			if k, ok := vk.SameBits(before, f.Data); !ok {
				t.Fail("frame %d, pixel %d changes", i, k)
			}
			continue
		}
		a, b := 1.0, 0.0
		switch mode {
		case post.HNMLocation:
			a = refLoc / loc
		case post.HNMLocScale:
			if float64(orig[i].Stats.Scale()) != 0 {
				if scale < 1e-4*spread {
					continue // scale is all rounding error
				}
				a = refScale / scale
			}
			b = refLoc - a*loc
		case post.HNMLocBlack:
			if loc > 0.999 || refLoc > 0.999 {
				continue
			}
			a = (1 - refLoc) / (1 - loc)
			b = 1 - a
		}
		tol := 1e-4*(math.Abs(a)*spread+math.Abs(b)) + 1e-30
		clipped := false
		for k, x := range before {
			want := a*float64(x) + b
			if mode == post.HNMLocBlack && want < 0 {
				clipped = clipped || want < -tol
				want = 0
			}
			if y := float64(f.Data[k]); !vk.Close(y, want, tol, 0) {
				t.Fail("frame %d, pixel %d: %g becomes %g instead of %g", i, k, x, y, want)
			}
		}
		newLoc, newScale := moments(f.Data)
		if !clipped && !vk.Close(newLoc, refLoc, tol, 1e-4) {
			t.Fail("frame %d: location %g afterwards", i, newLoc)
		}
		if mode == post.HNMLocScale && a != 1 && !vk.Close(newScale, refScale, tol, 1e-4) {
			t.Fail("frame %d: scale %g afterwards", i, newScale)
		}
		if !vk.Close(float64(f.Stats.Location()), newLoc, tol, 1e-4) || !vk.Close(float64(f.Stats.Scale()), newScale, tol, 1e-3) {
			t.Fail("frame %d: reports location %g and scale %g, has %g and %g", i, f.Stats.Location(), f.Stats.Scale(), newLoc, newScale)
		}
	}
	if mode == post.HNMNone || n == 1 && refIx == 0 {
		t.Trivial()
	}
}

// lawEstimators: with any estimator, the statistics reported afterwards match the reference, and so does a new measurement.
func lawEstimators(g *vk.G, t *vk.T) {
	est := vk.OneOf(g, stats.LSEMedianMAD, stats.LSESCMedianQn, stats.LSEIKSS, stats.LSEMeanStdDev)
	stats.LSEstimator = est
	mode := vk.OneOf(g, post.HNMLocation, post.HNMLocScale, post.HNMLocBlack)
	draw := func() *fits.Image {
		d := make([]float32, 900+g.Int(0, 2000))
		s := g.Stream()
		base, amp := g.LogFloat(0.01, 0.5), g.LogFloat(0.01, 0.1)
		for i := range d {
			d[i] = float32(base * (1 + amp*s.Norm()))
			if s.Unit() < 0.01 {
				d[i] = float32(base + (1-base)*s.Unit())
			}
		}
		return fits.NewImageFromNaxisn([]int32{int32(len(d)), 1}, d)
	}
	ref, f := draw(), draw()
	c := ops.NewContext(io.Discard, 1000, est)
	c.MatchHisto = ref.Stats
	l, s := float64(ref.Stats.Location()), float64(ref.Stats.Scale())
	t.Desc("estimator %d mode %d: location %g scale %g to %g %g", est, mode, f.Stats.Location(), f.Stats.Scale(), l, s)
	t.Class(fmt.Sprintf("estimator %d mode %d", est, mode))
	if mode == post.HNMLocBlack && l < 5*float64(f.Stats.Scale())/(1-float64(f.Stats.Location())) {
		t.Discard("background clipped")
	}
	r, err := post.NewOpMatchHistogram(post.HistoNormMode(mode)).Apply(f, c)
	if err != nil {
		t.Fail("%v", err)
	}
	fresh := stats.NewStats(r.Data, r.Naxisn[0])
	for what, st := range map[string]*stats.Stats{"reported": r.Stats, "measured": fresh} {
		spread := float64(st.Scale())
		if math.Abs(float64(st.Location())-l) > 0.1*spread+1e-6 {
			t.Fail("%s location %g afterwards", what, st.Location())
		}
		if mode == post.HNMLocScale && math.Abs(float64(st.Scale())/s-1) > 0.05 {
			t.Fail("%s scale %g afterwards", what, st.Scale())
		}
	}
}

func lawRefuse(g *vk.G, t *vk.T) {
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	mode := g.Int(0, 3)
	op := post.NewOpMatchHistogram(post.HistoNormMode(mode))
	t.Desc("mode %d", mode)
	f := frame(g, 0, true)
	before := clone(f)
	r, err := op.Apply(f, c)
	if (err != nil) != (mode != post.HNMNone) {
		t.Fail("error %v without reference", err)
	}
	if err == nil && r != f {
		t.Fail("other frame")
	}
	if k, ok := vk.SameBits(before.Data, f.Data); !ok {
		t.Fail("pixel %d changes", k)
	}
	c.MatchHisto = before.Stats
	if r, err := op.Apply(nil, c); r != nil || err != nil {
		t.Fail("a dropped frame becomes %v, %v", r, err)
	}
}

func main() {
	vk.Main("T04", []string{
		"Mean and standard deviation serve as location and scale where results are compared pixel by pixel; the other estimators, which sample, are checked to a tenth of the scale.",
		"Black-point matching is for values in [0,1], and clips at zero.",
	},
		&vk.Law{Name: "match-raced", Quick: 300, Thorough: 30000, Timeout: 300 * time.Second, Race: true,
			Rule: "the same under Go's race detector, which fails on unsynchronised access to shared data: " + "some frame is mapped to another's statistics", Run: lawMatch},
		&vk.Law{Name: "match", Quick: 20000, Thorough: 5000000, Rule: "some frame is mapped to another's statistics", Run: lawMatch},
		&vk.Law{Name: "estimators", Quick: 300, Thorough: 40000, Rule: "all", Run: lawEstimators},
		&vk.Law{Name: "refuse", Quick: 100, Thorough: 10000, Rule: "all", Run: lawRefuse})
}
