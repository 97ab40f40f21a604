// N01: order statistics.
package main

import (
	"sort"

	"github.com/mlnoga/nightlight/internal/median"
	"github.com/mlnoga/nightlight/internal/qsort"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/verif/vk"
)

func length(g *vk.G) int {
	if g.Chance(1, 4) {
		return g.Int(1, 9)
	}
	if g.Chance(1, 1500) {
		return g.Int(1000, 100000)
	}
	return g.Size(1, 300)
}

func main() {
	vk.Main("N01", []string{"values are finite (callers filter NaN before selecting)"},
		&vk.Law{Name: "select-kth", Quick: 60000, Thorough: 3000000, Rule: "array shapes x length 1..300 x every rank k; non-trivial if length>=3",
			Run: func(g *vk.G, t *vk.T) {
				n := length(g)
				a, kind := vk.FloatVec(g, n)
				k := g.Int(1, n)
				b := append([]float32{}, a...)
				want := vk.SortedCopy(a)[k-1]
				t.Desc("QSelect k=%d of %s %s", k, kind, vk.Show(a))
				t.Class(kind)
				if n < 3 {
					t.Trivial()
				}
				got := qsort.QSelectFloat32(b, k)
				if got != want {
					t.Fail("k-th smallest: got %g want %g", got, want)
				}
				if !vk.SameMultiset(a, b) {
					t.Fail("array is not a permutation of the input after selection: %s", vk.Show(b))
				}
				if b[k-1] != want {
					t.Fail("selected value is not at its position")
				}
				for i := 0; i < k-1; i++ {
					if b[i] > want {
						t.Fail("element %d before position %d is larger", i, k-1)
					}
				}
				for i := k; i < n; i++ {
					if b[i] < want {
						t.Fail("element %d after position %d is smaller", i, k-1)
					}
				}
			}},
		&vk.Law{Name: "median", Quick: 60000, Thorough: 3000000, Rule: "array shapes x length 1..300; non-trivial if length>=3",
			Run: func(g *vk.G, t *vk.T) {
				n := length(g)
				a, kind := vk.FloatVec(g, n)
				s := vk.SortedCopy(a)
				t.Desc("median of %s %s", kind, vk.Show(a))
				t.Class("%s odd=%v", kind, n%2 == 1)
				if n < 3 {
					t.Trivial()
				}
				check := func(name string, got float32) {
					if n%2 == 1 {
						if got != s[n/2] {
							t.Fail("%s: got %g want %g", name, got, s[n/2])
						}
					} else {
						want := vk.MedianOf(a)
						if !vk.Close(float64(got), want, 0, 3e-7) && !vk.Close(float64(got), want, 2e-7*(abs(s[n/2])+abs(s[n/2-1])), 0) {
							t.Fail("%s: got %g want %g", name, got, want)
						}
					}
				}
				b := append([]float32{}, a...)
				check("median by selection", qsort.QSelectMedianFloat32(b))
				if !vk.SameMultiset(a, b) {
					t.Fail("median selection changed the set of values")
				}
				b = append([]float32{}, a...)
				check("median", median.MedianFloat32(b))
				b = append([]float32{}, a...)
				if q, w := qsort.QSelectFirstQuartileFloat32(b), s[n>>2]; q != w {
					t.Fail("first quartile: got %g want %g", q, w)
				}
				if !vk.SameMultiset(a, b) {
					t.Fail("quartile selection changed the set of values")
				}
			}},
		&vk.Law{Name: "median9", Quick: 30000, Thorough: 2000000, Rule: "nine values, many duplicates; all non-trivial",
			Run: func(g *vk.G, t *vk.T) {
				a, kind := vk.FloatVec(g, 9)
				t.Desc("median of nine %s %v", kind, a)
				b := append([]float32{}, a...)
				if got, want := median.MedianFloat32Slice9(b), vk.SortedCopy(a)[4]; got != want {
					t.Fail("got %g want %g", got, want)
				}
			}},
		&vk.Law{Name: "sort", Quick: 30000, Thorough: 1000000, Rule: "array shapes x length 0..300; non-trivial if length>=3",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Size(0, 300)
				a, kind := vk.FloatVec(g, n)
				t.Desc("sort %s %s", kind, vk.Show(a))
				if n < 3 {
					t.Trivial()
				}
				b := append([]float32{}, a...)
				qsort.QSortFloat32(b)
				w := vk.SortedCopy(a)
				for i := range b {
					if b[i] != w[i] {
						t.Fail("sorted[%d]=%g want %g", i, b[i], w[i])
					}
				}
				if n > 0 {
					c := append([]float32{}, a...)
					p := qsort.QPartitionFloat32(c)
					if !vk.SameMultiset(a, c) {
						t.Fail("partition changed the set of values")
					}
					if p < 0 || p >= n || (n > 1 && p == n-1) {
						t.Fail("partition index %d makes no progress for length %d", p, n)
					}
					for i := 0; i <= p; i++ {
						for j := p + 1; j < n; j++ {
							if c[i] > c[j] {
								t.Fail("partition at %d: left[%d]=%g > right[%d]=%g", p, i, c[i], j, c[j])
							}
						}
					}
				}
			}},
		&vk.Law{Name: "sort-stars", Quick: 20000, Thorough: 500000, Rule: "star lists with duplicate masses, length 0..200; non-trivial if length>=3",
			Run: func(g *vk.G, t *vk.T) {
				n := g.Size(0, 200)
				m, kind := vk.FloatVec(g, n)
				st := make([]star.Star, n)
				for i := range st {
					st[i] = star.Star{Mass: m[i], Index: int32(i), X: float32(i)}
				}
				t.Desc("sort stars by mass %s %s", kind, vk.Show(m))
				if n < 3 {
					t.Trivial()
				}
				star.QSortStarsDesc(st)
				seen := make([]bool, n)
				for i, s := range st {
					if seen[s.Index] || s.Mass != m[s.Index] || s.X != float32(s.Index) {
						t.Fail("star %d lost, duplicated or changed", s.Index)
					}
					seen[s.Index] = true
					if i > 0 && st[i-1].Mass < s.Mass {
						t.Fail("not descending at %d: %g before %g", i, st[i-1].Mass, s.Mass)
					}
				}
				_ = sort.SearchInts
			}},
	)
}

func abs(x float32) float64 {
	if x < 0 {
		return float64(-x)
	}
	return float64(x)
}
