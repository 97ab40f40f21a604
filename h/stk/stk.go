// Package stk holds reference models for pixel stacking, written from the documented estimators in double precision.
package stk

import (
	"math"
	"sort"
)

const (
	Median = iota
	Mean
	Sigma
	Winsor
	MAD
	LinFit
	Auto
)

// AutoMode is the documented choice of mode by number of frames.
func AutoMode(n int) int {
	switch {
	case n >= 25:
		return LinFit
	case n >= 15:
		return Winsor
	case n >= 6:
		return Sigma
	}
	return Mean
}

// V is a pixel value with its weight.
type V struct{ X, W float64 }

// Result of the reference for one pixel.
type Result struct {
	Val       float64
	Low, High int  // number of values rejected
	Close     bool // a rejection decision was too close to call in single precision
	CloseNum  bool // as before, but without influence on the value, just on the numbers rejected
	None      bool // all frames miss this pixel
	Emptied   bool // a bound rejected every value at some point
	N         int
}

func med(a []V) float64 {
	s := make([]float64, len(a))
	for i, v := range a {
		s[i] = v.X
	}
	return medF(s)
}

func medF(s []float64) float64 {
	sort.Float64s(s)
	n := len(s)
	if n%2 == 1 {
		return s[n/2]
	}
	return 0.5 * (s[n/2-1] + s[n/2])
}

func meanStd(a []V) (m, sd float64) {
	for _, v := range a {
		m += v.X
	}
	m /= float64(len(a))
	for _, v := range a {
		sd += (v.X - m) * (v.X - m)
	}
	return m, math.Sqrt(sd / float64(len(a)))
}

func wmean(a []V) float64 {
	s, w := 0.0, 0.0
	for _, v := range a {
		s += v.X * v.W
		w += v.W
	}
	return s / w
}

// clip removes values out of bounds. tol is the distance to a bound below which the decision is too close to call.
func clip(a []V, lo, hi, tol float64, r *Result) []V {
	var out []V
	for _, v := range a {
		if math.Abs(v.X-lo) <= tol || math.Abs(v.X-hi) <= tol {
			r.Close = true
		}
		if v.X < lo {
			r.Low++
		} else if v.X > hi {
			r.High++
		} else {
			out = append(out, v)
		}
	}
	return out
}

// Pixel computes the estimator for the values of one pixel; NaN values are missing. amax bounds the magnitude of values.
func Pixel(mode int, all []V, sigLow, sigHigh float64) (r Result) {
	var a []V
	amax := 0.0
	for _, v := range all {
		if !math.IsNaN(v.X) {
			a = append(a, v)
			amax = math.Max(amax, math.Abs(v.X))
		}
	}
	r.N = len(a)
	if len(a) == 0 {
		r.None = true
		return
	}
	eps := 4e-6 * amax * (1 + math.Max(math.Abs(sigLow), math.Abs(sigHigh)))
	switch mode {
	case Median:
		r.Val = med(a)
	case Mean:
		r.Val = wmean(a)
	case Sigma, Winsor:
		for {
			m := med(a)
			_, sd := meanStd(a)
			tol := eps + 1e-5*sd*(sigLow+sigHigh)
			if mode == Winsor {
				w := append([]V{}, a...)
				for it := 0; it < 10000; it++ {
					lo, hi := m-1.5*sd, m+1.5*sd
					changed := 0
					for i := range w {
						if w[i].X < lo {
							w[i].X = lo
							changed++
						} else if w[i].X > hi {
							w[i].X = hi
							changed++
						}
					}
					old := sd
					_, sd = meanStd(w)
					sd *= 1.134
					if changed == 0 || math.Abs(sd-old) <= 0.0005*old {
						break
					}
				}
				tol = 2*eps + 0.003*sd*(sigLow+sigHigh)
			}
			n := clip(a, m-sigLow*sd, m+sigHigh*sd, tol, &r)
			if len(n) == len(a) || len(n) <= 1 {
				if len(n) > 0 {
					a = n
				} else {
					r.Emptied = true
				}
				r.Val = wmean(a)
				return
			}
			a = n
		}
	case MAD:
		m := med(a)
		ad := make([]float64, len(a))
		for i, v := range a {
			ad[i] = math.Abs(v.X - m)
		}
		sd := 1.4826 * medF(ad)
		n := clip(a, m-sigLow*sd, m+sigHigh*sd, eps+1e-5*sd*(sigLow+sigHigh), &r)
		if len(n) == 0 {
			r.Emptied = true
			r.Val = m
			return
		}
		_ = n
		r.Val = wmeanUnit(n)
	case LinFit:
		for {
			sort.Slice(a, func(i, j int) bool { return a[i].X < a[j].X })
			n := float64(len(a))
			ym, _ := meanStd(a)
			xm := (n - 1) / 2
			cov, xv := 0.0, 0.0
			for i, v := range a {
				cov += (float64(i) - xm) * (v.X - ym)
				xv += (float64(i) - xm) * (float64(i) - xm)
			}
			slope := 0.0
			if xv > 0 {
				slope = cov / xv
			}
			s := 0.0
			for i, v := range a {
				s += math.Abs(v.X - ym - slope*(float64(i)-xm))
			}
			s /= n
			tol := 4*eps + 2e-5*s*(sigLow+sigHigh)
			var keep []V
			for i, v := range a {
				d := v.X - (ym + slope*(float64(i)-xm))
				if math.Abs(-d-sigLow*s) <= tol || math.Abs(d-sigHigh*s) <= tol {
					if len(a) < 3 { // the fit is exact, and this is the last round in any case
						r.CloseNum = true
					} else {
						r.Close = true
					}
				}
				if -d > sigLow*s {
					r.Low++
				} else if d > sigHigh*s {
					r.High++
				} else {
					keep = append(keep, v)
				}
			}
			if len(keep) == len(a) || len(keep) == 0 || len(a) < 3 {
				if len(keep) == 0 {
					r.Emptied = true
				}
				r.Val = ym
				return
			}
			a = keep
		}
	}
	return
}

func wmeanUnit(a []V) float64 { m, _ := meanStd(a); return m }
