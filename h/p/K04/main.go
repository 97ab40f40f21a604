// K04: outlier rejection keeps trails out of the stack and keeps the noise reduction.
package main

import (
	"io"
	"math"
	"runtime"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/stk"
	"github.com/mlnoga/nightlight/verif/vk"
)

var modeNames = []string{"median", "mean", "sigma", "winsor", "MAD", "linear fit", "auto"}

// tolerated is the number of gross outliers among n values each mode must cope with at sigma 2..2.75.
func tolerated(mode, n int) int {
	switch mode {
	case stk.Median, stk.MAD:
		return (n - 1) / 2
	case stk.Sigma:
		if n >= 8 && n < 10 {
			return 1
		}
		return n / 10
	case stk.Winsor:
		if n >= 8 {
			return n / 4
		}
	case stk.LinFit:
		return n / 14
	case stk.Auto:
		return tolerated(stk.AutoMode(n), n)
	}
	return 0
}

func law(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	mode := vk.OneOf(g, stk.Median, stk.Sigma, stk.Winsor, stk.MAD, stk.LinFit, stk.Auto)
	n := g.Int(3, 60)
	for tolerated(mode, n) == 0 {
		n++
	}
	w, h := g.Int(12, 30), g.Int(12, 30)
	px := w * h
	s := g.Stream()
	noise := g.LogFloat(1e-3, 10)
	sky := noise * g.LogFloat(1, 1000)
	sig := g.F32(2, 2.75)
	if g.Chance(1, 4) {
		sig = -1 // the default, as on the command line
		t.Class("default sigma")
	}
	uniform := g.Chance(1, 3)
	weighted := mode != stk.Median && mode != stk.MAD && mode != stk.LinFit && n < 25 && g.Chance(1, 3)
	scene := make([]float64, px)
	for p := range scene {
		scene[p] = sky * (1 + 0.5*s.Unit())
	}
	f := make([]*fits.Image, n)
	for i := range f {
		f[i] = fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, nil)
		f[i].ID = i
		f[i].Exposure = 30
		if weighted {
			f[i].Exposure = float32(s.Float(20, 40))
		}
		for p := range f[i].Data {
			e := s.Norm()
			if uniform {
				e = s.Float(-1.7, 1.7)
			}
			f[i].Data[p] = float32(scene[p] + noise*e)
		}
	}
	clean := make([][]float32, n)
	for i := range f {
		clean[i] = append([]float32{}, f[i].Data...)
	}
	// trails: lines across single frames, and isolated hits, never more per pixel than the mode tolerates
	maxHits := tolerated(mode, n)
	if maxHits > 1 && g.Bool() {
		maxHits = g.Int(1, maxHits)
	}
	hits := make([]int, px)
	total := 0
	hit := func(i, p int, v float64) {
		if hits[p] < maxHits && f[i].Data[p] == clean[i][p] {
			hits[p]++
			total++
			f[i].Data[p] += float32(v)
		}
	}
	oneSided := g.Bool()
	mag := func() float64 {
		m := noise * math.Exp(s.Float(math.Log(60), math.Log(1e5)))
		if !oneSided && s.Int(0, 1) == 0 {
			m = -m
		}
		return m
	}
	for i := range f {
		for k := s.Int(0, 2); k > 0; k-- {
			y, dy, m := s.Float(0, float64(h)), s.Float(-0.5, 0.5), mag()
			for x := 0; x < w; x++ {
				if yy := int(y + dy*float64(x)); yy >= 0 && yy < h {
					hit(i, yy*w+x, m)
				}
			}
		}
		for k := s.Int(0, px/4); k > 0; k-- {
			hit(i, s.Int(0, px-1), mag())
		}
	}
	t.Desc("%s stacking of %d frames of %dx%d, sigma %g, noise %.3g, sky %.3g, up to %d of %d values hit at a pixel, %d hits, weighted %v", modeNames[mode], n, w, h, sig, noise, sky, maxHits, n, total, weighted)
	t.Class("mode %s", modeNames[mode])
	old := runtime.GOMAXPROCS(vk.OneOf(g, 1, 4, 8))
	defer runtime.GOMAXPROCS(old)
	wt := stack.StWeightNone
	if weighted {
		wt = stack.StWeightExposure
		t.Class("weighted")
	}
	r, err := stack.NewOpStack(stack.StackMode(mode), wt, sig, sig).Apply(f, ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev))
	if err != nil {
		t.Fail("stacking failed: %v", err)
	}
	ss, unhit := 0.0, 0.0
	for p := range r.Data {
		lo, hi := math.Inf(1), math.Inf(-1)
		for i := range f {
			if f[i].Data[p] == clean[i][p] {
				lo, hi = math.Min(lo, float64(clean[i][p])), math.Max(hi, float64(clean[i][p]))
			}
		}
		v := float64(r.Data[p])
		tol := 1e-5 * math.Max(math.Abs(lo), math.Abs(hi))
		if !(v >= lo-tol && v <= hi+tol) {
			t.Fail("pixel %d,%d hit in %d of %d frames becomes %g, outside the range %g..%g of the frames not hit", p%w, p/w, hits[p], n, v, lo, hi)
		}
		if hits[p] == 0 {
			ss += (v - scene[p]) * (v - scene[p])
			unhit++
		}
	}
	if rms := math.Sqrt(ss / unhit); unhit >= 50 && rms > 2.2*noise/math.Sqrt(float64(n))+1e-5*sky {
		t.Fail("pixels not hit deviate from the scene by %g rms, %g times what averaging %d values of noise %g gives", rms, rms/noise*math.Sqrt(float64(n)), n, noise)
	}
	if total < px/20 {
		t.Trivial()
	}
}

func main() {
	vk.Main("K04", []string{"sigma bounds 2..2.75, or negative for the default of 2.75; gross outliers (60 times the noise or more) in at most: under half the frames for median and MAD, a quarter (8+ frames) for winsor, a tenth for sigma (or one of 8+), a fourteenth for linear fit"},
		&vk.Law{Name: "trails", Quick: 12000, Thorough: 300000, Rule: "3..60 noisy frames of one scene with trails and hits in single frames, modes with rejection incl. automatic, exposure weights in some; each pixel stays within its frames not hit, and noise at pixels not hit falls about as for averaging; non-trivial if 5% of the pixels are hit", Run: law},
	)
}
