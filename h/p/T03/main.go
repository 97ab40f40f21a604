// T03: gaussian blur is a normalised symmetric convolution, and unsharp masking uses it.
package main

import (
	"fmt"
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

// kernel is the model: the normal distribution integrated over each pixel, cut off and normalised.
// sure tells if the cut-off radius is beyond doubt.
func kernel(sigma float64) (k []float64, sure bool) {
	cdf := func(x float64) float64 { return 0.5 * math.Erfc(-x/(sigma*math.Sqrt2)) }
	r := 0
	sure = true
	for ; ; r++ {
		v := cdf(-0.5 - float64(r))
		if math.Abs(v-0.01) < 1e-5 {
			sure = false
		}
		if v < 0.01 {
			break
		}
	}
	if r > 0 {
		r--
	}
	k = make([]float64, 2*r+1)
	sum := 0.0
	for i := range k {
		a := math.Abs(float64(i - r))
		k[i] = cdf(a+0.5) - cdf(a-0.5)
		sum += k[i]
	}
	for i := range k {
		k[i] /= sum
	}
	return k, sure
}

// mirror is the position at which an image continued by mirroring shows position x.
func mirror(n, x int) int {
	x %= 2 * n
	if x < 0 {
		x += 2 * n
	}
	if x >= n {
		x = 2*n - 1 - x
	}
	return x
}

func blur(d []float32, w int, k []float64) []float64 {
	h, r := len(d)/w, len(k)/2
	tmp, res := make([]float64, len(d)), make([]float64, len(d))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for i, f := range k {
				tmp[y*w+x] += f * float64(d[y*w+mirror(w, x+i-r)])
			}
		}
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for i, f := range k {
				res[y*w+x] += f * tmp[mirror(h, y+i-r)*w+x]
			}
		}
	}
	return res
}

func lawKernel(g *vk.G, t *vk.T) {
	sigma := float32(g.LogFloat(0.001, 40))
	if g.Chance(1, 4) {
		sigma = float32(g.Int(1, 80)) / 4
	}
	t.Desc("sigma %g", sigma)
	want, sure := kernel(float64(sigma))
	got := stretch.GaussianKernel1D(sigma)
	t.Class(fmt.Sprintf("radius %d", min(len(want)/2, 5)))
	if len(want) == 1 {
		t.Trivial()
	}
	if !sure {
		t.Discard("cut-off in doubt")
	}
	if len(got) != len(want) {
		t.Fail("kernel of size %d instead of %d", len(got), len(want))
	}
	sum := 0.0
	for i, v := range got {
		sum += float64(v)
		if v != got[len(got)-1-i] {
			t.Fail("weights %g and %g at opposite ends %d", v, got[len(got)-1-i], i)
		}
		if !(v >= 0) {
			t.Fail("weight %g", v)
		}
		if !vk.Close(float64(v), want[i], 3e-6, 1e-4) {
			t.Fail("weight %d is %g instead of %g", i, v, want[i])
		}
	}
	if !vk.Close(sum, 1, 1e-5, 0) {
		t.Fail("weights sum to %g", sum)
	}
}

// drawn is an image to filter.
type drawn struct {
	nx   []int32
	w, n int // width, pixels per channel
	d    []float32
	top  float64
}

func draw(g *vk.G, planes int) *drawn {
	w, h := g.Int(1, 40), g.Int(1, 40)
	if g.Chance(1, 2) {
		w, h = 1+int(g.U32()%40), 1+int(g.U32()%40)
	}
	w, h = g.Large(w, h, 400, 20000)
	a := &drawn{w: w, n: w * h, nx: []int32{int32(w), int32(h)}}
	if planes > 1 {
		a.nx = append(a.nx, int32(planes))
	}
	a.d = make([]float32, a.n*planes)
	s := g.Stream()
	kind := g.Int(0, 3)
	c := g.Float(-1, 1)
	amp := g.LogFloat(1e-3, 1e4)
	for i := range a.d {
		switch kind {
		case 0:
			a.d[i] = float32(s.Unit())
		case 1:
			a.d[i] = float32(amp * s.Norm())
		case 2:
			a.d[i] = float32(c) + float32(i/a.n)
		case 3:
			if s.Unit() < 0.02 {
				a.d[i] = float32(amp)
			}
		}
		a.top = math.Max(a.top, math.Abs(float64(a.d[i])))
	}
	return a
}

func sigmaOf(g *vk.G) float32 {
	if g.Chance(1, 15) {
		return vk.OneOf(g, float32(0), -1, -0.5)
	}
	return float32(g.LogFloat(0.1, 12))
}

func lawBlur(g *vk.G, t *vk.T) {
	planes := vk.OneOf(g, 1, 1, 3)
	a := draw(g, planes)
	sigma := sigmaOf(g)
	orig := append([]float32{}, a.d...)
	t.Desc("%v sigma %g", a.nx, sigma)
	var got []float32
	f := fits.NewImageFromNaxisn(a.nx, a.d)
	if planes == 1 && sigma > 0 && g.Bool() {
		t.Class("function")
		got = stretch.GaussianBlur(a.d, a.w, sigma)
	} else {
		t.Class(fmt.Sprintf("operator, %d channels", planes))
		r, err := stretch.NewOpGaussianBlur(sigma).Apply(f, ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev))
		if err != nil {
			t.Fail("%v", err)
		}
		got = r.Data
	}
	if len(got) != len(orig) {
		t.Fail("%d pixels", len(got))
	}
	if sigma <= 0 {
		t.Class("off")
		if i, ok := vk.SameBits(orig, got); !ok {
			t.Fail("pixel %d changes", i)
		}
		return
	}
	k, sure := kernel(float64(sigma))
	if !sure {
		t.Discard("cut-off in doubt")
	}
	if len(k) == 1 {
		t.Trivial()
	}
	if len(k)/2 > a.w || len(k)/2 > a.n/a.w {
		t.Class("kernel larger than the image")
	}
	for p := 0; p < planes; p++ {
		want := blur(orig[p*a.n:(p+1)*a.n], a.w, k)
		before, after := 0.0, 0.0
		for i, v := range want {
			x := float64(got[p*a.n+i])
			before += float64(orig[p*a.n+i])
			after += x
			if !vk.Close(x, v, 2e-5*a.top, 0) {
				t.Fail("pixel %d,%d of channel %d becomes %g instead of %g", i%a.w, i/a.w, p, x, v)
			}
		}
		if !vk.Close(before, after, 2e-5*a.top*float64(a.n), 0) {
			t.Fail("flux %g becomes %g", before, after)
		}
	}
}

func lawUnsharp(g *vk.G, t *vk.T) {
	mode := g.Int(0, 3) // function, mono operator, operator on three channels, luminance operator
	planes := 1
	if mode >= 2 {
		planes = 3
	}
	a := draw(g, planes)
	sigma := sigmaOf(g)
	if mode == 0 && sigma <= 0 {
		sigma = 1
	}
	gain := float32(g.Float(0, 5))
	if g.Chance(1, 10) { // softens
		gain = -gain / 2
	}
	if g.Chance(1, 10) {
		gain = 0
	}
	thr := g.Float(-1, 2)
	orig := append([]float32{}, a.d...)
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	f := fits.NewImageFromNaxisn(a.nx, a.d)
	lo := 0
	if mode == 3 {
		lo = 2 * a.n
	}
	// threshold and bounds refer to the pixels filtered
	var s1, s2 float64
	vmin, vmax := math.Inf(1), math.Inf(-1)
	for _, v := range orig[lo:] {
		s1 += float64(v)
		vmin, vmax = math.Min(vmin, float64(v)), math.Max(vmax, float64(v))
	}
	mean := s1 / float64(len(orig)-lo)
	for _, v := range orig[lo:] {
		s2 += (float64(v) - mean) * (float64(v) - mean)
	}
	abs := mean + thr*math.Sqrt(s2/float64(len(orig)-lo))
	var got []float32
	var err error
	r := f
	name := ""
	switch mode {
	case 0:
		name = "function"
		abs = float64(float32(abs))
		got = stretch.UnsharpMask(a.d, a.w, sigma, gain, float32(vmin), float32(vmax), float32(abs))
	case 1, 2:
		name = fmt.Sprintf("operator, %d channels", planes)
		r, err = stretch.NewOpUnsharpMask(sigma, gain, float32(thr)).Apply(f, c)
	case 3:
		name = "luminance operator"
		r, err = hsl.NewOpHSLUnsharpMask(sigma, gain, float32(thr)).Apply(f, c)
	}
	t.Class(name)
	t.Desc("%s %v sigma %g gain %g threshold %g = %g", name, a.nx, sigma, gain, thr, abs)
	if err != nil {
		t.Fail("%v", err)
	}
	if mode > 0 {
		got = r.Data
	}
	if len(got) != len(orig) {
		t.Fail("%d pixels", len(got))
	}
	if sigma <= 0 || gain == 0 && mode > 0 {
		t.Class("off")
		if i, ok := vk.SameBits(orig, got); !ok {
			t.Fail("pixel %d changes", i)
		}
		return
	}
	if i, ok := vk.SameBits(orig[:lo], got[:lo]); !ok {
		t.Fail("pixel %d of the other channels changes", i)
	}
	k, sure := kernel(float64(sigma))
	if !sure {
		t.Discard("cut-off in doubt")
	}
	near := 1e-4 * a.top
	if mode == 0 {
		near = 0
	}
	changed := false
	for from := lo; from < len(orig); from += a.n {
		want := blur(orig[from:from+a.n], a.w, k)
		for j, b := range want {
			x, y := float64(orig[from+j]), float64(got[from+j])
			sharp := math.Max(vmin, math.Min(vmax, x+(x-b)*float64(gain)))
			same := got[from+j] == orig[from+j]
			tol := 3e-5 * a.top * (1 + math.Abs(float64(gain)))
			ok := false
			if x < abs+near && same {
				ok = true
			}
			if x >= abs-near && vk.Close(y, sharp, tol, 0) {
				ok = true
			}
			if !ok {
				t.Fail("%g, blurred %g, becomes %g, not %g, at %d,%d of channel %d", x, b, y, sharp, j%a.w, j/a.w, from/a.n)
			}
			if !(y >= vmin && y <= vmax) {
				t.Fail("%g becomes %g, out of the range %g to %g", x, y, vmin, vmax)
			}
			changed = changed || !same
		}
	}
	if !changed {
		t.Trivial()
	}
}

func main() {
	vk.Main("T03", []string{
		"Kernels are cut off one pixel before the tail on either side falls below one percent, as the existing tests pin.",
		"Unsharp masking thresholds are computed from mean and standard deviation as estimators of location and scale.",
	},
		&vk.Law{Name: "kernel", Quick: 3000, Thorough: 1000000, Rule: "the kernel has more than one weight", Run: lawKernel},
		&vk.Law{Name: "blur", Quick: 20000, Thorough: 3000000, Rule: "the kernel has more than one weight", Run: lawBlur},
		&vk.Law{Name: "unsharp", Quick: 20000, Thorough: 3000000, Rule: "some pixel changes, or the step is off", Run: lawUnsharp})
}
