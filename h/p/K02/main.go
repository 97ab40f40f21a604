// K02: weighted stacking honours frame weights, value by value.
package main

import (
	"io"
	"math"
	"runtime"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/stk"
	"github.com/mlnoga/nightlight/verif/vk"
	"time"
)

var modeNames = []string{"median", "mean", "sigma", "winsor"}

// frames makes n frames whose pixel values are nearly distinct, so that a swapped weight shows.
func frames(g *vk.G, n, px int) (data [][]float32) {
	s := g.Stream()
	base := g.LogFloat(0.01, 1e4)
	noise := base * g.LogFloat(1e-3, 0.5)
	nanP := []float64{0, 0, 0.1, 0.6}[g.Int(0, 3)]
	outP := []float64{0, 0.05, 0.2}[g.Int(0, 2)]
	digits := g.Chance(1, 5)
	data = make([][]float32, n)
	for i := range data {
		data[i] = make([]float32, px)
		for p := range data[i] {
			v := base + noise*s.Norm()
			if digits {
				v = float64(s.Int(0, 9))
			}
			if s.Unit() < outP {
				v += noise * s.Float(-100, 100)
			}
			data[i][p] = float32(v)
			if s.Unit() < nanP {
				data[i][p] = float32(math.NaN())
			}
		}
	}
	return
}

func sigmas(g *vk.G) (lo, hi float32) {
	f := func() float32 {
		if g.Bool() {
			return g.F32(1, 4)
		}
		return g.F32(0.1, 2)
	}
	return f(), f()
}

func column(data [][]float32, w []float32, p int) ([]stk.V, float64) {
	c := make([]stk.V, len(data))
	amax := 0.0
	for i := range data {
		c[i] = stk.V{X: float64(data[i][p]), W: float64(w[i])}
		if !math.IsNaN(c[i].X) {
			amax = math.Max(amax, math.Abs(c[i].X))
		}
	}
	return c, amax
}

func check(t *vk.T, mode int, data [][]float32, w []float32, ref, sl, sh float32, res []float32) (strict, low, high int, exact bool) {
	exact = true
	for p := range res {
		col, amax := column(data, w, p)
		r := stk.Pixel(mode, col, float64(sl), float64(sh))
		got := float64(res[p])
		if r.None {
			if got != float64(ref) {
				t.Fail("pixel %d is missing in all frames and becomes %g, not the reference level %g", p, got, ref)
			}
			continue
		}
		tol := 2e-6 * amax * math.Sqrt(float64(1+len(data)))
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, v := range col {
			if !math.IsNaN(v.X) {
				lo, hi = math.Min(lo, v.X), math.Max(hi, v.X)
			}
		}
		if !(got >= lo-tol && got <= hi+tol) {
			t.Fail("pixel %d becomes %g outside the range %g..%g of its values", p, got, lo, hi)
		}
		if r.Close {
			exact = false
			continue
		}
		strict++
		low += r.Low
		high += r.High
		if !vk.Close(got, r.Val, tol, 1e-6) {
			t.Fail("pixel %d with values and weights %v becomes %g, the weighted mean of the values within %g/%g sigma is %g", p, col, got, sl, sh, r.Val)
		}
	}
	return
}

func lawFunctions(g *vk.G, t *vk.T) {
	mode := g.Int(1, 3)
	n := g.Size(1, 40)
	px := g.Size(1, 30)
	data := frames(g, n, px)
	w := make([]float32, n)
	for i := range w {
		w[i] = float32(g.LogFloat(0.05, 20))
	}
	sl, sh := sigmas(g)
	ref := g.F32(-10, 10)
	t.Desc("weighted %s stacking of %d frames of %d pixels, weights %v, sigma %g/%g", modeNames[mode], n, px, w, sl, sh)
	t.Class("mode %s", modeNames[mode])
	orig := make([][]float32, n)
	for i := range data {
		orig[i] = append([]float32{}, data[i]...)
	}
	wOrig := append([]float32{}, w...)
	res := make([]float32, px)
	var cl, ch int32
	switch mode {
	case stk.Mean:
		stack.StackMeanWeighted(data, w, ref, res)
	case stk.Sigma:
		cl, ch = stack.StackSigmaWeighted(data, w, ref, sl, sh, res)
	case stk.Winsor:
		cl, ch = stack.StackWinsorSigmaWeighted(data, w, ref, sl, sh, res)
	}
	for i := range data {
		if j, ok := vk.SameBits(data[i], orig[i]); !ok {
			t.Fail("stacking changed pixel %d of frame %d", j, i)
		}
	}
	if j, ok := vk.SameBits(w, wOrig); !ok {
		t.Fail("stacking changed weight %d", j)
	}
	strict, low, high, exact := check(t, mode, data, w, ref, sl, sh, res)
	if exact && mode >= stk.Sigma && (int(cl) != low || int(ch) != high) {
		t.Fail("%d low and %d high values reported as clipped, but %d and %d are", cl, ch, low, high)
	}
	if low+high > 0 {
		t.Class("with rejection")
	}
	if strict == 0 || n < 2 {
		t.Trivial()
	}
}

var weightNames = []string{"none", "exposure", "inverse noise", "inverse HFR"}

func lawOperator(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	mode := vk.OneOf(g, stk.Mean, stk.Sigma, stk.Winsor, stk.Auto)
	wt := g.Int(0, 3)
	n := g.Size(1, 22)
	ax := []int32{int32(g.Int(4, 24)), int32(g.Int(4, 24))}
	px := int(ax[0] * ax[1])
	data := frames(g, n, px)
	sl, sh := sigmas(g)
	equal := g.Chance(1, 4)
	s := g.Stream()
	f := make([]*fits.Image, n)
	for i := range f {
		if wt == int(stack.StWeightInverseNoise) { // noise estimation wants complete frames
			amp := s.Float(0.1, 5)
			for p := range data[i] {
				v := s.Float(1, 2) + amp*s.Norm()
				if equal {
					v = float64(p % 3)
				}
				data[i][p] = float32(v)
			}
		}
		f[i] = fits.NewImageFromNaxisn(ax, data[i])
		f[i].ID = i
		f[i].Exposure = float32(s.Float(0.5, 600))
		f[i].HFR = float32(s.Float(0.5, 8))
		if equal {
			f[i].Exposure, f[i].HFR = f[0].Exposure, f[0].HFR
		}
	}
	t.Desc("mode %d weighted by %s, %d frames of %v, sigma %g/%g, equal quality: %v", mode, weightNames[wt], n, ax, sl, sh, equal)
	t.Class("weights by %s", weightNames[wt])
	if equal {
		t.Class("equal weights")
	}
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	old := runtime.GOMAXPROCS(vk.OneOf(g, 1, 2, 8))
	defer runtime.GOMAXPROCS(old)
	r, err := stack.NewOpStack(stack.StackMode(mode), stack.StackWeighting(wt), sl, sh).Apply(f, c)
	if err != nil {
		t.Fail("stacking failed: %v", err)
	}
	// weights as documented: exposure time; 1 for the best and 1/5 for the worst frame by noise or star size
	q := make([]float64, n)
	lo, hi, exp := math.Inf(1), math.Inf(-1), 0.0
	for i := range f {
		exp += float64(f[i].Exposure)
		switch wt {
		case 1:
			q[i] = float64(f[i].Exposure)
		case 2:
			q[i] = float64(stats.NewStats(append([]float32{}, data[i]...), ax[0]).Noise())
		case 3:
			q[i] = float64(f[i].HFR)
		}
		lo, hi = math.Min(lo, q[i]), math.Max(hi, q[i])
	}
	w := make([]float32, n)
	for i := range w {
		switch {
		case wt == 1:
			w[i] = float32(q[i])
		case wt == 0 || hi == lo:
			w[i] = 1
		default:
			w[i] = float32(1 / (1 + 4*(q[i]-lo)/(hi-lo)))
		}
	}
	if hi > lo && (hi-lo) < 1e-4*hi {
		t.Discard("qualities almost equal")
	}
	if !vk.Close(float64(r.Exposure), exp, 0, 1e-5) {
		t.Fail("exposure of the stack is %g, the frames add up to %g", r.Exposure, exp)
	}
	m := mode
	if m == stk.Auto {
		m = stk.AutoMode(n)
	}
	strict, _, _, _ := check(t, m, data, w, 0, sl, sh, r.Data)
	if equal {
		u, err := stack.NewOpStack(stack.StackMode(mode), stack.StWeightNone, sl, sh).Apply(f, c)
		if err != nil {
			t.Fail("unweighted stacking failed: %v", err)
		}
		for p := range u.Data {
			_, amax := column(data, w, p)
			if !vk.Close(float64(r.Data[p]), float64(u.Data[p]), 4e-6*amax*math.Sqrt(float64(1+n)), 0) {
				t.Fail("pixel %d becomes %g with equal weights, %g without weights", p, r.Data[p], u.Data[p])
			}
		}
	}
	if strict == 0 || n < 2 || wt == 0 {
		t.Trivial()
	}
}

func lawRefuse(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	n := g.Size(1, 8)
	ax := []int32{int32(g.Int(3, 10)), int32(g.Int(3, 10))}
	f := make([]*fits.Image, n)
	s := g.Stream()
	for i := range f {
		f[i] = fits.NewImageFromNaxisn(ax, nil)
		for p := range f[i].Data {
			f[i].Data[p] = float32(s.Unit())
		}
		f[i].Exposure, f[i].HFR = float32(i+1), float32(i+1)
	}
	mode, wt := stack.StackMode(g.Int(1, 3)), stack.StWeightExposure
	bad := f[g.Int(0, n-1)]
	switch g.Int(0, 4) {
	case 4:
		bad.HFR = 0
		wt = stack.StWeightInverseHFR
		t.Class("missing star size")
	case 0:
		bad.Exposure = 0
		t.Class("missing exposure")
	case 1:
		wt = stack.StWeightInverseNoise
		bad.Stats = nil
		t.Class("missing statistics")
	case 2:
		wt = stack.StackWeighting(vk.OneOf(g, -1, 4, 99))
		t.Class("unknown weighting")
	default:
		mode = stack.StMADSigma
		wt = stack.StackWeighting(g.Int(1, 3))
		t.Class("mode without weights")
	}
	t.Desc("%d frames, mode %d, weighting %d", n, mode, wt)
	if _, err := stack.NewOpStack(mode, wt, 2, 2).Apply(f, c); err == nil {
		t.Fail("stacking succeeds although it cannot honour the weights asked for")
	}
}

func main() {
	vk.Main("K02", []string{"weights apply in modes mean, sigma and winsor; median and linear fit do not use weights"},
		&vk.Law{Name: "functions", Quick: 100000, Thorough: 3000000, Rule: "weighted mean, sigma and winsor functions on 1..40 frames with missing values, outliers and random weights, against a double precision reference that keeps each value with its weight; non-trivial if >1 frame and a pixel is decided", Run: lawFunctions},
		&vk.Law{Name: "operator", Quick: 8000, Thorough: 200000, Rule: "the stack operator weighted by exposure, noise or star size (also all equal, then compared with unweighted), exposure is the sum; non-trivial if weighted and >1 frame", Run: lawOperator},
		&vk.Law{Name: "refusals", Quick: 2000, Thorough: 20000, Rule: "missing exposure, statistics or star size, unknown weighting, weights in a mode without them: error, no crash", Run: lawRefuse},
		&vk.Law{Name: "operator-raced", Quick: 150, Thorough: 15000, Timeout: 300 * time.Second, Race: true,
			Rule: "as operator, with Go's race detector", Run: lawOperator},
	)
}
