// H01: colour space conversions round-trip, and give what the colour spaces are defined as.
package main

import (
	"fmt"
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/cie"
	"github.com/mlnoga/nightlight/verif/vk"
)

// colors draws an image of in-gamut colours.
func colors(g *vk.G) (f *fits.Image, px []cie.Vec) {
	w, h := g.Int(1, 30), g.Int(1, 12)
	w, h = g.Large(w, h, 300, 100000)
	n := w * h
	s := g.Stream()
	px = make([]cie.Vec, n)
	d := make([]float32, 3*n)
	kind := g.Int(0, 4)
	for i := range px {
		var c cie.Vec
		switch kind {
		case 0:
			c = cie.Vec{s.Unit(), s.Unit(), s.Unit()}
		case 1: // corners of the cube
			for k := range c {
				c[k] = float64(s.Int(0, 1))
			}
		case 2: // dark
			e := math.Exp(-14 * s.Unit())
			c = cie.Vec{e * s.Unit(), e * s.Unit(), e * s.Unit()}
		case 3: // grays
			e := s.Unit()
			c = cie.Vec{e, e, e}
		case 4: // faces and edges
			for k := range c {
				c[k] = math.Max(0, math.Min(1, 2*s.Unit()-0.5))
			}
		}
		for k := range c {
			d[k*n+i] = float32(c[k])
			px[i][k] = float64(d[k*n+i])
		}
	}
	f = fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 3}, d)
	return f, px
}

func same(t *vk.T, what string, f *fits.Image, px []cie.Vec, tol float64) {
	n := len(px)
	if len(f.Data) != 3*n {
		t.Fail("%s: %d values", what, len(f.Data))
	}
	for i, c := range px {
		for k := range c {
			if y := float64(f.Data[k*n+i]); !vk.Close(y, c[k], tol, 0) {
				t.Fail("%s: pixel %d, %v, becomes %v %v %v", what, i, c, f.Data[i], f.Data[n+i], f.Data[2*n+i])
			}
		}
	}
}

func lawHSLuv(g *vk.G, t *vk.T) {
	f, px := colors(g)
	n := len(px)
	t.Desc("%d pixels from %v", n, px[0])
	if n == 1 {
		t.Trivial()
	}
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	viaOp := g.Bool()
	if viaOp {
		if r, err := rgb.NewOpRGBToHSLuv().Apply(f, c); err != nil || r != f {
			t.Fail("%v %v", r, err)
		}
	} else {
		f.RGBToHSLuv()
	}
	mono := make([]float32, n)
	for i, c := range px {
		h, s, l := float64(f.Data[i]), float64(f.Data[n+i]), float64(f.Data[2*n+i])
		wl, wc, wh := cie.Luv(c)
		top := cie.MaxChroma(wl, wh)
		if !(h >= 0 && h <= 360 && s >= 0 && s <= 1.0001 && l >= 0 && l <= 1.00001) {
			t.Fail("%v has hue %g saturation %g lightness %g", c, h, s, l)
		}
		if !vk.Close(l*100, wl, 0.01, 0) {
			t.Fail("%v has lightness %g instead of %g", c, l*100, wl)
		}
		if !vk.Close(s*top, wc, 0.05, 0.001) {
			t.Fail("%v has saturation %g, chroma %g instead of %g", c, s, s*top, wc)
		}
		if wc > 0.2 && !cie.HueClose(h, wh, 5/wc) {
			t.Fail("%v has hue %g instead of %g", c, h, wh)
		}
		mono[i] = float32(c[1])
	}
	if viaOp {
		if r, err := rgb.NewOpHSLuvToRGB().Apply(f, c); err != nil || r != f {
			t.Fail("%v %v", r, err)
		}
	} else {
		f.HSLuvToRGB()
	}
	same(t, "HSLuv and back", f, px, 2e-4)
	m := fits.NewImageFromNaxisn([]int32{int32(n), 1}, mono)
	m.MonoToHSLuvLum()
	for i, c := range px {
		if want := cie.Lightness(c[1]) / 100; !vk.Close(float64(m.Data[i]), want, 1e-4, 0) {
			t.Fail("gray %g has lightness %g instead of %g", c[1], m.Data[i], want)
		}
	}
}

// lawAnyHSLuv: every HSLuv colour has an RGB colour, with hue and lightness kept unless the colour is out of gamut.
// One more saturated than RGB allows keeps its colour and loses lightness, so that its brightest component is 1.
func lawAnyHSLuv(g *vk.G, t *vk.T) {
	h, s, l := float32(g.Float(0, 360)), float32(g.Unit()), float32(g.Unit())
	if g.Chance(1, 6) {
		l = vk.OneOf(g, float32(0), 1)
	}
	if g.Chance(1, 6) {
		s = vk.OneOf(g, float32(0), 1)
	}
	if g.Chance(1, 3) {
		s = float32(1 + 0.2*g.Unit())
	}
	t.Desc("hue %g saturation %g lightness %g", h, s, l)
	r, gr, b := fits.HSLuvToLinearRGB(h, s, l)
	want := cie.FromLuv(100*float64(l), float64(s)*cie.MaxChroma(100*float64(l), float64(h)), float64(h))
	low := -1e-3
	if s > 1 {
		t.Class("more saturated than RGB allows")
		if m := max(want[0], want[1], want[2]); m > 1 {
			t.Class("brighter than RGB allows")
			for k := range want {
				want[k] /= m
			}
		}
		low = -1
	}
	for k, v := range []float32{r, gr, b} {
		if !(float64(v) >= low && v <= 1) {
			t.Fail("is RGB %g %g %g", r, gr, b)
		}
		if !vk.Close(float64(v), want[k], 1e-3, 0) {
			t.Fail("is RGB %g %g %g instead of %v", r, gr, b, want)
		}
	}
}

func lawHCL(g *vk.G, t *vk.T) {
	f, px := colors(g)
	n := len(px)
	t.Desc("%d pixels from %v", n, px[0])
	if n == 1 {
		t.Trivial()
	}
	sat := g.Bool()
	t.Class(fmt.Sprintf("HSL %v", sat))
	mono := make([]float32, n)
	for i, c := range px {
		mono[i] = float32(c[0])
	}
	if sat {
		f.RGBToCIEHSL()
	} else {
		f.RGBToHCL()
	}
	for i, c := range px {
		h, ch, l := float64(f.Data[i]), float64(f.Data[n+i]), float64(f.Data[2*n+i])
		wl, wc, wh := cie.Lch(c)
		if sat {
			if !(ch >= 0 && ch <= 1) {
				t.Fail("%v has saturation %g", c, ch)
			}
			if !vk.Close(ch*math.Hypot(wc, wl), wc, 0.05, 0) {
				t.Fail("%v has saturation %g, want %g", c, ch, wc/math.Hypot(wc, wl))
			}
		} else if !vk.Close(ch*100, wc, 0.05, 0) {
			t.Fail("%v has chroma %g instead of %g", c, ch*100, wc)
		}
		if !vk.Close(l*100, wl, 0.01, 0) {
			t.Fail("%v has lightness %g instead of %g", c, l*100, wl)
		}
		if !(h >= 0 && h <= 360) || wc > 0.5 && !cie.HueClose(h, wh, 5/wc) {
			t.Fail("%v has hue %g instead of %g", c, h, wh)
		}
	}
	if sat {
		f.CIEHSLToRGB()
		same(t, "CIE HSL and back", f, px, 1e-3)
	}
	m := fits.NewImageFromNaxisn([]int32{int32(n), 1}, mono)
	m.MonoToHSLLum()
	for i, c := range px {
		if want := cie.Lightness(c[0]) / 100; !vk.Close(float64(m.Data[i]), want, 1e-4, 0) {
			t.Fail("gray %g has lightness %g instead of %g", c[0], m.Data[i], want)
		}
	}
}

func lawXyy(g *vk.G, t *vk.T) {
	f, px := colors(g)
	n := len(px)
	t.Desc("%d pixels from %v", n, px[0])
	if n == 1 {
		t.Trivial()
	}
	f.ToXyy()
	for i, c := range px {
		x, y, Y := float64(f.Data[i]), float64(f.Data[n+i]), float64(f.Data[2*n+i])
		w := cie.Mul(cie.ToXYZ, c)
		sum := w[0] + w[1] + w[2]
		if !vk.Close(Y, w[1], 1e-5, 0) {
			t.Fail("%v has Y %g instead of %g", c, Y, w[1])
		}
		if sum > 1e-6 && (!vk.Close(x, w[0]/sum, 1e-4, 0) || !vk.Close(y, w[1]/sum, 1e-4, 0)) {
			t.Fail("%v has x %g y %g instead of %g %g", c, x, y, w[0]/sum, w[1]/sum)
		}
		if !(x >= 0 && x <= 1 && y >= 0 && y <= 1) {
			t.Fail("%v has x %g y %g", c, x, y)
		}
	}
	f.XyyToRGB()
	same(t, "xyY and back", f, px, 2e-4)
}

func lawOkLab(g *vk.G, t *vk.T) {
	s := g.Stream()
	a := fits.LinearsRGB{R: float32(s.Unit()), G: float32(s.Unit()), B: float32(s.Unit())}
	switch g.Int(0, 3) {
	case 1:
		a = fits.LinearsRGB{R: float32(s.Int(0, 1)), G: float32(s.Int(0, 1)), B: float32(s.Int(0, 1))}
	case 2:
		v := float32(s.Unit())
		a = fits.LinearsRGB{R: v, G: v, B: v}
	case 3:
		e := math.Exp(-14 * s.Unit())
		a = fits.LinearsRGB{R: float32(e * s.Unit()), G: float32(e * s.Unit()), B: float32(e * s.Unit())}
	}
	t.Desc("%v", a)
	lab := a.ToOkLab()
	hcl := a.ToOkHcl()
	for what, b := range map[string]fits.LinearsRGB{"OkLab": lab.ToLinearsRGB(), "OkHcl": hcl.ToLinearsRGB(), "OkHcl and OkLab": hcl.ToOkLab().ToOkHcl().ToLinearsRGB()} {
		if !vk.Close(float64(b.R), float64(a.R), 5e-4, 0) || !vk.Close(float64(b.G), float64(a.G), 5e-4, 0) || !vk.Close(float64(b.B), float64(a.B), 5e-4, 0) {
			t.Fail("%s and back: %v", what, b)
		}
	}
	// the definition: LMS cone responses via XYZ, cube root, opponent axes
	xyz := cie.Mul(cie.ToXYZ, cie.Vec{float64(a.R), float64(a.G), float64(a.B)})
	lms := cie.Mul([3]cie.Vec{{0.8189330101, 0.3618667424, -0.1288597137}, {0.0329845436, 0.9293118715, 0.0361456387}, {0.0482003018, 0.2643662691, 0.6338517070}}, xyz)
	for i := range lms {
		lms[i] = math.Cbrt(lms[i])
	}
	want := cie.Mul([3]cie.Vec{{0.2104542553, 0.7936177850, -0.0040720468}, {1.9779984951, -2.4285922050, 0.4505937099}, {0.0259040371, 0.7827717662, -0.8086757660}}, lms)
	if !vk.Close(float64(lab.L), want[0], 2e-3, 0) || !vk.Close(float64(lab.A), want[1], 2e-3, 0) || !vk.Close(float64(lab.B), want[2], 2e-3, 0) {
		t.Fail("is %v instead of %v", lab, want)
	}
	if !(lab.L >= 0 && lab.L <= 1.0001) {
		t.Fail("has lightness %g", lab.L)
	}
	ch := math.Hypot(want[1], want[2])
	if !vk.Close(float64(hcl.C), ch, 2e-3, 0) || hcl.L != lab.L {
		t.Fail("has chroma %g instead of %g", hcl.C, ch)
	}
	if ch > 0.01 && !cie.HueClose(float64(hcl.H)+360, cie.Degrees(want[2], want[1]), 0.3/ch) {
		t.Fail("has hue %g instead of %g", hcl.H, cie.Degrees(want[2], want[1]))
	}
	if a.R == a.G && a.G == a.B {
		t.Class("gray")
		if hcl.C > 1e-3 {
			t.Fail("gray has chroma %g", hcl.C)
		}
	}
}

func main() {
	vk.Main("H01", []string{
		"The reference conversions follow the CIE definitions for sRGB primaries and white point D65 in double precision; HSLuv saturation relates to the chroma at which the gamut ends, found by bisection.",
		"Hues are compared where chroma is large enough to define one.",
	},
		&vk.Law{Name: "hsluv", Quick: 3000, Thorough: 300000, Rule: "more than one pixel", Run: lawHSLuv},
		&vk.Law{Name: "any-hsluv", Quick: 20000, Thorough: 3000000, Rule: "all", Run: lawAnyHSLuv},
		&vk.Law{Name: "hcl", Quick: 3000, Thorough: 500000, Rule: "more than one pixel", Run: lawHCL},
		&vk.Law{Name: "xyy", Quick: 3000, Thorough: 500000, Rule: "more than one pixel", Run: lawXyy},
		&vk.Law{Name: "oklab", Quick: 20000, Thorough: 5000000, Rule: "all", Run: lawOkLab})
}
