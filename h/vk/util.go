package vk

import (
	"fmt"
	"math"
	"sort"
)

// FloatVec draws a vector of n finite float32 from one of several shapes that matter to order-based code.
func FloatVec(g *G, n int) ([]float32, string) {
	if n > 400 {
		return longVec(g, n)
	}
	a := make([]float32, n)
	kind := g.Pick(4, 3, 2, 2, 2, 2, 2)
	name := ""
	switch kind {
	case 0:
		name = "uniform"
		for i := range a {
			a[i] = g.F32(-1, 1)
		}
	case 1:
		name = "few values"
		k := g.Int(1, 4)
		for i := range a {
			a[i] = float32(g.Int(0, k))
		}
	case 2:
		name = "sorted"
		x := g.F32(-10, 10)
		for i := range a {
			a[i] = x
			x += float32(g.Int(0, 3))
		}
	case 3:
		name = "reversed"
		x := g.F32(-10, 10)
		for i := range a {
			a[i] = x
			x -= float32(g.Int(0, 3))
		}
	case 4:
		name = "wide range"
		for i := range a {
			a[i] = float32(g.Float(-1, 1) * math.Pow(10, float64(g.Int(-30, 30))))
		}
	case 5:
		name = "organ pipe/sawtooth"
		p := g.Int(1, 9)
		for i := range a {
			a[i] = float32(i % p)
			if i > n/2 {
				a[i] = -a[i]
			}
		}
	case 6:
		name = "permutation"
		for i, v := range g.Perm(n) {
			a[i] = float32(v)
		}
	}
	return a, name
}

// longVec is FloatVec with bulk data.
func longVec(g *G, n int) ([]float32, string) {
	a, s := make([]float32, n), g.Stream()
	kind := g.Pick(3, 2, 2, 2, 2, 1)
	k := s.Int(1, 5)
	for i := range a {
		switch kind {
		case 0:
			a[i] = float32(s.Norm())
		case 1:
			a[i] = float32(s.Int(0, k))
		case 2:
			a[i] = float32(i / k)
		case 3:
			a[i] = float32((n - i) / k)
		case 4:
			a[i] = float32(s.Norm() * math.Pow(10, float64(s.Int(-30, 30))))
		case 5:
			a[i] = float32(i % (1 + k*997))
			if i > n/2 {
				a[i] = -a[i]
			}
		}
	}
	return a, []string{"long uniform", "long few values", "long sorted", "long reversed", "long wide range", "long sawtooth"}[kind]
}

func SortedCopy(a []float32) []float32 {
	b := append([]float32{}, a...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

func SameMultiset(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := SortedCopy(a), SortedCopy(b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// Close reports |a-b| <= abs + rel*max(|a|,|b|); equal infinities and two NaNs are close.
func Close(a, b, abs, rel float64) bool {
	if a == b || (math.IsNaN(a) && math.IsNaN(b)) {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	m := math.Max(math.Abs(a), math.Abs(b))
	return math.Abs(a-b) <= abs+rel*m
}

func SameBits(a, b []float32) (int, bool) {
	if len(a) != len(b) {
		return -1, false
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			return i, false
		}
	}
	return 0, true
}

func Show(a []float32) string {
	if len(a) <= 24 {
		return fmt.Sprint(a)
	}
	return fmt.Sprint(a[:24]) + fmt.Sprintf("...(%d)", len(a))
}

// MedianOf returns the textbook median of a (float64 average of the middle two for even length).
func MedianOf(a []float32) float64 {
	b := SortedCopy(a)
	n := len(b)
	if n == 0 {
		return math.NaN()
	}
	if n%2 == 1 {
		return float64(b[n/2])
	}
	return 0.5 * (float64(b[n/2-1]) + float64(b[n/2]))
}
