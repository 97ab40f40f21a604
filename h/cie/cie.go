// Package cie holds reference colour conversions in double precision, by the CIE definitions for sRGB primaries and white point D65.
package cie

import "math"

type Vec [3]float64

// CIE definitions for linear sRGB with white point D65
var ToXYZ = [3]Vec{{0.4123907992659595, 0.357584339383878, 0.1804807884018343},
	{0.2126390058715104, 0.7151686787677559, 0.0721923153607337},
	{0.0193308187155918, 0.119194779794626, 0.9505321522496608}}

var ToRGB = [3]Vec{{3.2409699419045214, -1.5373831775700935, -0.4986107602930033},
	{-0.9692436362808798, 1.8759675015077206, 0.0415550574071756},
	{0.0556300796969936, -0.2039769588889765, 1.0569715142428786}}

func Mul(m [3]Vec, v Vec) (r Vec) {
	for i := range r {
		for j := range v {
			r[i] += m[i][j] * v[j]
		}
	}
	return r
}

var white = Mul(ToXYZ, Vec{1, 1, 1})

const eps, kappa = 216.0 / 24389, 24389.0 / 27

// Lightness is CIE L*, 0 to 100.
func Lightness(y float64) float64 {
	if y > eps {
		return 116*math.Cbrt(y) - 16
	}
	return kappa * y
}

func Degrees(y, x float64) float64 {
	h := math.Atan2(y, x) * 180 / math.Pi
	if h < 0 {
		h += 360
	}
	return h
}

func uv(c Vec) (u, v float64) {
	d := c[0] + 15*c[1] + 3*c[2]
	if d == 0 {
		return uv(white)
	}
	return 4 * c[0] / d, 9 * c[1] / d
}

// Luv is CIE LCh(uv): Lightness and chroma on a scale of 100, hue in degrees.
func Luv(c Vec) (l, ch, h float64) {
	xyz := Mul(ToXYZ, c)
	l = Lightness(xyz[1])
	u, v := uv(xyz)
	un, vn := uv(white)
	u, v = 13*l*(u-un), 13*l*(v-vn)
	return l, math.Hypot(u, v), Degrees(v, u)
}

func FromLuv(l, ch, h float64) Vec {
	un, vn := uv(white)
	if l < 1e-9 {
		return Vec{}
	}
	u := ch*math.Cos(h*math.Pi/180)/(13*l) + un
	v := ch*math.Sin(h*math.Pi/180)/(13*l) + vn
	y := l / kappa
	if l > 8 {
		y = math.Pow((l+16)/116, 3)
	}
	x := y * 9 * u / (4 * v)
	z := y * (12 - 3*u - 20*v) / (4 * v)
	return Mul(ToRGB, Vec{x, y, z})
}

// MaxChroma is the chroma at which the gamut ends for a Lightness and hue, by bisection.
func MaxChroma(l, h float64) float64 {
	if l < 1e-6 || l > 100-1e-6 {
		return 0
	}
	lo, hi := 0.0, 400.0
	for i := 0; i < 60; i++ {
		m := (lo + hi) / 2
		in := true
		for _, x := range FromLuv(l, m, h) {
			if x < 0 || x > 1 {
				in = false
			}
		}
		if in {
			lo = m
		} else {
			hi = m
		}
	}
	return lo
}

// Lch is CIE LCh(ab), Lightness and chroma on a scale of 100.
func Lch(c Vec) (l, ch, h float64) {
	xyz := Mul(ToXYZ, c)
	f := func(i int) float64 {
		t := xyz[i] / white[i]
		if t > eps {
			return math.Cbrt(t)
		}
		return (kappa*t + 16) / 116
	}
	a, b := 500*(f(0)-f(1)), 200*(f(1)-f(2))
	return 116*f(1) - 16, math.Hypot(a, b), Degrees(b, a)
}

// HueClose tells whether two hues in degrees are within tol of each other.
func HueClose(a, b, tol float64) bool {
	return math.Abs(math.Mod(a-b+540, 360)-180) <= tol
}
