// K01: each stacking mode computes its documented per-pixel estimator.
package main

import (
	"io"
	"math"
	"runtime"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/stk"
	"github.com/mlnoga/nightlight/verif/vk"
	"time"
)

var modeNames = []string{"median", "mean", "sigma", "winsor", "MAD", "linear fit", "auto"}

// frames makes n aligned frames with noise, outliers and missing values.
func frames(g *vk.G, n, px int) (data [][]float32, kind string) {
	s := g.Stream()
	data = make([][]float32, n)
	for i := range data {
		data[i] = make([]float32, px)
	}
	base := g.LogFloat(0.01, 1e4)
	noise := base * g.LogFloat(1e-4, 0.3)
	nanP := []float64{0, 0, 0.05, 0.4, 0.95}[g.Int(0, 4)]
	outP := []float64{0, 0.03, 0.15}[g.Int(0, 2)]
	mag := g.LogFloat(3, 1000)
	k := g.Pick(4, 2, 1, 1)
	off := 0.0
	if g.Chance(1, 4) {
		off = -base * g.Float(0.5, 3)
	}
	for p := 0; p < px; p++ {
		sky := base * (1 + 0.3*s.Norm())
		for i := range data {
			v := sky + noise*s.Norm()
			switch k {
			case 1:
				v = float64(s.Int(0, 9))
			case 2:
				v = sky
			case 3:
				v = base * math.Exp(s.Norm())
			}
			if s.Unit() < outP {
				if s.Int(0, 1) == 0 {
					v += mag * noise * s.Unit()
				} else {
					v -= mag * noise * s.Unit()
				}
			}
			data[i][p] = float32(v + off)
			if s.Unit() < nanP {
				data[i][p] = float32(math.NaN())
			}
		}
	}
	return data, []string{"noise", "digits", "uniform", "skewed"}[k]
}

func sigmas(g *vk.G) (lo, hi float32) {
	f := func() float32 {
		switch g.Pick(3, 3, 2) {
		case 0:
			return 2.75
		case 1:
			return g.F32(1, 4)
		}
		return g.F32(0.05, 1)
	}
	return f(), f()
}

func numFrames(g *vk.G) int {
	switch g.Pick(3, 3, 2) {
	case 0:
		return g.Size(1, 8)
	case 1:
		return g.Int(5, 27)
	}
	return g.Int(1, 70)
}

func column(data [][]float32, p int) []stk.V {
	c := make([]stk.V, len(data))
	for i := range data {
		c[i] = stk.V{X: float64(data[i][p]), W: 1}
	}
	return c
}

func run(mode int, data [][]float32, ref, lo, hi float32, res []float32) (cl, ch int32) {
	switch mode {
	case stk.Median:
		stack.StackMedian(data, ref, res)
	case stk.Mean:
		stack.StackMean(data, ref, res)
	case stk.Sigma:
		return stack.StackSigma(data, ref, lo, hi, res)
	case stk.Winsor:
		return stack.StackWinsorSigma(data, ref, lo, hi, res)
	case stk.MAD:
		return stack.StackMADSigma(data, ref, lo, hi, res)
	case stk.LinFit:
		return stack.StackLinearFit(data, ref, lo, hi, res)
	}
	return 0, 0
}

// span returns range and magnitude of the valid values of a pixel.
func span(data [][]float32, p int) (lo, hi, amax float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for i := range data {
		v := float64(data[i][p])
		if !math.IsNaN(v) {
			lo, hi, amax = math.Min(lo, v), math.Max(hi, v), math.Max(amax, math.Abs(v))
		}
	}
	return
}

// check compares stacked pixels with the reference and returns number of pixels compared strictly.
func check(t *vk.T, mode int, data [][]float32, ref, sl, sh float32, res []float32, what string) (strict, rejected int, low, high int, exact bool) {
	exact = true
	for p := range res {
		r := stk.Pixel(mode, column(data, p), float64(sl), float64(sh))
		got := float64(res[p])
		if r.None {
			if got != float64(ref) {
				t.Fail("%s: pixel %d is missing in all frames and becomes %g, not the reference level %g", what, p, got, ref)
			}
			continue
		}
		lo, hi, amax := span(data, p)
		tol := 2e-6 * amax * math.Sqrt(float64(1+len(data)))
		if !(got >= lo-tol && got <= hi+tol) {
			t.Fail("%s: pixel %d becomes %g outside the range %g..%g of its values", what, p, got, lo, hi)
		}
		if r.Close {
			exact = false
			continue
		}
		if r.CloseNum {
			exact = false
		}
		low += r.Low
		high += r.High
		strict++
		rejected += r.Low + r.High
		if !vk.Close(got, r.Val, tol, 1e-6) {
			t.Fail("%s: pixel %d becomes %g, the %s estimator of %v is %g (%d low and %d high values rejected)", what, p, got, modeNames[mode], column(data, p), r.Val, r.Low, r.High)
		}
	}
	return
}

func lawModes(g *vk.G, t *vk.T) {
	mode := g.Int(0, 5)
	n := numFrames(g)
	px := g.Size(1, 40)
	data, kind := frames(g, n, px)
	sl, sh := sigmas(g)
	ref := g.F32(-10, 10)
	orig := make([][]float32, n)
	for i := range data {
		orig[i] = append([]float32{}, data[i]...)
	}
	t.Desc("%s stacking of %d frames of %d pixels (%s), sigma %g/%g", modeNames[mode], n, px, kind, sl, sh)
	t.Class("mode %s", modeNames[mode])
	t.Class("data %s", kind)
	res := make([]float32, px)
	cl, ch := run(mode, data, ref, sl, sh, res)
	for i := range data {
		if j, ok := vk.SameBits(data[i], orig[i]); !ok {
			t.Fail("stacking changed pixel %d of frame %d", j, i)
		}
	}
	strict, rejected, low, high, exact := check(t, mode, data, ref, sl, sh, res, modeNames[mode])
	if exact && mode >= stk.Sigma && (int(cl) != low || int(ch) != high) {
		t.Fail("%s: %d low and %d high values reported as clipped, but %d and %d are", modeNames[mode], cl, ch, low, high)
	}
	if rejected > 0 {
		t.Class("with rejection")
	}
	if strict == 0 || n == 1 {
		t.Trivial()
	}
}

func images(data [][]float32, ax []int32) []*fits.Image {
	f := make([]*fits.Image, len(data))
	for i := range data {
		f[i] = fits.NewImageFromNaxisn(ax, data[i])
		f[i].ID = i
		f[i].Exposure = float32(i + 1)
	}
	return f
}

func lawOperator(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	mode := g.Int(0, 6)
	n := numFrames(g)
	ax := []int32{int32(g.Size(1, 40)), int32(g.Size(1, 30))}
	if g.Chance(1, 4) {
		ax = append(ax, 3)
	}
	px := 1
	for _, a := range ax {
		px *= int(a)
	}
	data, kind := frames(g, n, px)
	sl, sh := sigmas(g)
	procs := vk.OneOf(g, 1, 2, 3, 8)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = procs
	var refData []float32
	for k := 0; k < 9; k++ {
		refData = append(refData, g.F32(-10, 10))
	}
	c.MatchHisto = stats.NewStats(refData, 3)
	op := stack.NewOpStack(stack.StackMode(mode), stack.StWeightNone, sl, sh)
	f := images(data, ax)
	t.Desc("%s stacking of %d frames of %v (%s), sigma %g/%g, %d threads", modeNames[mode], n, ax, kind, sl, sh, procs)
	t.Class("mode %s", modeNames[mode])
	if px < 64 {
		t.Class("fewer pixels than work packages")
	}
	r, err := op.Apply(f, c)
	if err != nil {
		t.Fail("stacking failed: %v", err)
	}
	if !fits.EqualInt32Slice(r.Naxisn, ax) || len(r.Data) != px {
		t.Fail("stack of %v frames has size %v with %d pixels", ax, r.Naxisn, len(r.Data))
	}
	m := mode
	if m == stk.Auto {
		m = stk.AutoMode(n)
	}
	strict, _, _, _, _ := check(t, m, data, c.MatchHisto.Location(), sl, sh, r.Data, "operator")
	if want := float64(n) * float64(n+1) / 2; !vk.Close(float64(r.Exposure), want, 0, 1e-6) {
		t.Fail("exposure of the stack is %g, the frames add up to %g", r.Exposure, want)
	}
	// order of frames and number of threads must not matter
	perm := g.Perm(n)
	f2 := make([]*fits.Image, n)
	for i, j := range perm {
		f2[i] = f[j]
	}
	runtime.GOMAXPROCS(vk.OneOf(g, 1, 8))
	r2, err := op.Apply(f2, c)
	if err != nil {
		t.Fail("stacking in another order failed: %v", err)
	}
	for p := range r2.Data {
		_, _, amax := span(data, p)
		if res := stk.Pixel(m, column(data, p), float64(sl), float64(sh)); res.Close {
			continue
		}
		if a, b := float64(r.Data[p]), float64(r2.Data[p]); !vk.Close(a, b, 3e-6*amax*math.Sqrt(float64(1+n)), 0) {
			t.Fail("pixel %d becomes %g, but %g when the frames come in order %v", p, a, b, perm)
		}
	}
	if strict == 0 || n == 1 {
		t.Trivial()
	}
}

// lawAffine: the stack of scaled and shifted frames is the scaled and shifted stack.
func lawAffine(g *vk.G, t *vk.T) {
	mode := g.Int(0, 5)
	n := numFrames(g)
	px := g.Size(1, 30)
	data, kind := frames(g, n, px)
	sl, sh := sigmas(g)
	scale := float32(g.LogFloat(0.01, 100))
	shift := 0.0
	amax := 0.0
	for p := 0; p < px; p++ {
		_, _, a := span(data, p)
		amax = math.Max(a, amax)
	}
	if g.Bool() {
		shift = amax * float64(scale) * g.Float(-2, 2)
	}
	t.Desc("%s stacking of %d frames of %d pixels (%s), sigma %g/%g, mapped by x*%g%+g", modeNames[mode], n, px, kind, sl, sh, scale, shift)
	t.Class("mode %s", modeNames[mode])
	mapped := make([][]float32, n)
	for i := range data {
		mapped[i] = make([]float32, px)
		for p, v := range data[i] {
			mapped[i][p] = v*scale + float32(shift)
		}
	}
	a, b := make([]float32, px), make([]float32, px)
	run(mode, data, 0, sl, sh, a)
	run(mode, mapped, 0, sl, sh, b)
	compared := 0
	for p := range a {
		r, r2 := stk.Pixel(mode, column(data, p), float64(sl), float64(sh)), stk.Pixel(mode, column(mapped, p), float64(sl), float64(sh))
		if r.None || r.Close || r2.Close || r.Low != r2.Low || r.High != r2.High {
			continue
		}
		compared++
		want := float64(a[p])*float64(scale) + shift
		if !vk.Close(float64(b[p]), want, 4e-6*math.Sqrt(float64(n+1))*(amax*float64(scale)+math.Abs(shift)), 1e-6) {
			t.Fail("pixel %d becomes %g, after mapping values it becomes %g instead of %g", p, a[p], b[p], want)
		}
	}
	if compared == 0 {
		t.Trivial()
	}
}

// lawMissing: frames without a value at a pixel do not influence it.
func lawMissing(g *vk.G, t *vk.T) {
	mode := g.Int(0, 5)
	n := numFrames(g)
	px := g.Size(1, 30)
	data, kind := frames(g, n, px)
	sl, sh := sigmas(g)
	extra := g.Int(1, 4)
	t.Desc("%s stacking of %d frames of %d pixels (%s), with %d empty frames mixed in", modeNames[mode], n, px, kind, extra)
	t.Class("mode %s", modeNames[mode])
	all := append([][]float32{}, data...)
	for i := 0; i < extra; i++ {
		e := make([]float32, px)
		for p := range e {
			e[p] = float32(math.NaN())
		}
		k := g.Int(0, len(all))
		all = append(all[:k], append([][]float32{e}, all[k:]...)...)
	}
	a, b := make([]float32, px), make([]float32, px)
	run(mode, data, 7, sl, sh, a)
	run(mode, all, 7, sl, sh, b)
	if p, ok := vk.SameBits(a, b); !ok {
		t.Fail("pixel %d becomes %g, with empty frames it becomes %g", p, a[p], b[p])
	}
}

func lawRefuse(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	mode := stack.StackMode(g.Int(0, 6))
	n := g.Size(0, 6)
	var f []*fits.Image
	w, h := int32(g.Int(1, 12)), int32(g.Int(1, 12))
	for i := 0; i < n; i++ {
		f = append(f, fits.NewImageFromNaxisn([]int32{w, h}, nil))
	}
	what := g.Int(0, 2)
	if n < 2 && what == 1 {
		what = 0
	}
	switch what {
	case 0:
		f = nil
		t.Class("no frames")
	case 1:
		ax := []int32{w + int32(g.Int(-1, 1)), h + int32(g.Int(-1, 1))}
		if g.Chance(1, 3) {
			ax = []int32{h, w}
		}
		if ax[0] < 1 || ax[1] < 1 || ax[0] == w && ax[1] == h {
			ax = []int32{w + 1, h}
		}
		f[g.Int(1, n-1)] = fits.NewImageFromNaxisn(ax, nil)
		t.Class("different size")
	default:
		mode = stack.StackMode(vk.OneOf(g, -1, 7, 100))
		if n == 0 {
			f = []*fits.Image{fits.NewImageFromNaxisn([]int32{w, h}, nil)}
		}
		t.Class("unknown mode")
	}
	t.Desc("mode %d with %d frames, case %d", mode, len(f), what)
	if r, err := stack.NewOpStack(mode, stack.StWeightNone, 2, 2).Apply(f, c); err == nil {
		t.Fail("stacking succeeds with an image of %v", r.Naxisn)
	}
}

// lawManyFrames: so many values that the work is divided into more packages than processors ask for.
func lawLarge(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	ax := []int32{int32(g.Int(300, 700)), int32(g.Int(300, 500))}
	px := int(ax[0] * ax[1])
	s := g.Stream()
	distinct := g.Int(2, 5)
	base := make([][]float32, distinct)
	for i := range base {
		base[i] = make([]float32, px)
		for p := range base[i] {
			base[i][p] = float32(s.Int(0, 1000))
		}
	}
	n := (64+g.Int(0, 30))*8*1024*1024/4/px + 1
	f := make([]*fits.Image, n)
	cnt := make([]int, distinct)
	for i := range f {
		f[i] = fits.NewImageFromNaxisn(ax, base[i%distinct])
		cnt[i%distinct]++
	}
	t.Desc("mean of %d frames of %v", n, ax)
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	r, err := stack.NewOpStack(stack.StMean, stack.StWeightNone, 2, 2).Apply(f, c)
	if err != nil {
		t.Fail("stacking failed: %v", err)
	}
	for p := range r.Data {
		sum := 0
		for i := range base {
			sum += int(base[i][p]) * cnt[i]
		}
		if want := float64(sum) / float64(n); !vk.Close(float64(r.Data[p]), want, 1e-4, 1e-5) {
			t.Fail("pixel %d of %d becomes %g, the mean is %g", p, px, r.Data[p], want)
		}
	}
}

func main() {
	vk.Main("K01", []string{"where a rejection decision is closer to its bound than single precision resolves, only the value range is checked"},
		&vk.Law{Name: "modes", Quick: 150000, Thorough: 4000000, Rule: "six stacking functions on 1..70 frames with noise, digits, uniform or skewed values, outliers and missing values, against a double precision reference; clip counts too, inputs unchanged; non-trivial if >1 frame and a pixel is decided", Run: lawModes},
		&vk.Law{Name: "operator", Quick: 20000, Thorough: 500000, Rule: "the stack operator in all modes incl. automatic on mono and colour frames, several thread counts, frames permuted; every pixel against the reference, exposure is the sum", Run: lawOperator},
		&vk.Law{Name: "affine", Quick: 40000, Thorough: 1000000, Rule: "values mapped by a positive affine map; the result follows", Run: lawAffine},
		&vk.Law{Name: "missing", Quick: 6000, Thorough: 200000, Rule: "empty frames inserted anywhere; result bit-identical", Run: lawMissing},
		&vk.Law{Name: "refusals", Quick: 1500, Thorough: 20000, Rule: "no frames, frames of different size, unknown mode: error, no crash", Run: lawRefuse},
		&vk.Law{Name: "large", Quick: 2, Thorough: 12, Shards: 2, Rule: "several hundred frames whose total size needs more work packages than the minimum; mean of integers", Run: lawLarge},
		&vk.Law{Name: "operator-raced", Quick: 200, Thorough: 20000, Timeout: 300 * time.Second, Race: true,
			Rule: "as operator, with Go's race detector", Run: lawOperator},
	)
}
