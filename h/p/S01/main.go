// S01: spatial star lookup returns the true nearest neighbour.
package main

import (
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/verif/vk"
)

// coord makes coordinate generators of different shapes.
func coord(g *vk.G) (func() float32, string) {
	s := g.Stream()
	switch g.Pick(4, 4, 2, 1, 1) {
	case 0:
		w := g.LogFloat(1, 1e4)
		return func() float32 { return float32(s.Float(0, w)) }, "continuous"
	case 1:
		k := g.Size(1, 12)
		return func() float32 { return float32(s.Int(0, k)) }, "grid"
	case 2:
		w := g.LogFloat(1, 1e3)
		return func() float32 { return float32(w * s.Norm()) }, "clustered"
	case 3:
		v := g.F32(-100, 100)
		return func() float32 { return v }, "constant"
	}
	i := 0
	return func() float32 { i++; return float32(i / 2) }, "ascending"
}

func size(g *vk.G) int {
	if g.Chance(1, 8) {
		return g.Int(100, 1500)
	}
	return g.Size(1, 60)
}

func law2(g *vk.G, t *vk.T) {
	n := size(g)
	cx, kx := coord(g)
	cy, ky := coord(g)
	pts := make([]star.Point2D, n)
	for i := range pts {
		pts[i] = star.Point2D{X: cx(), Y: cy()}
	}
	for k := g.Int(0, 3); k > 0; k-- { // copies
		pts[g.Int(0, n-1)] = pts[g.Int(0, n-1)]
	}
	t.Desc("%d points in the plane, x %s, y %s", n, kx, ky)
	t.Class("x %s", kx)
	if n < 4 {
		t.Trivial()
	}
	tree := append(star.KDTree2{}, pts...)
	tree.Make()
	a, b := append([]star.Point2D{}, pts...), append([]star.Point2D{}, tree...)
	for _, l := range [][]star.Point2D{a, b} {
		sort.Slice(l, func(i, j int) bool { return l[i].X < l[j].X || l[i].X == l[j].X && l[i].Y < l[j].Y })
	}
	for i := range a {
		if a[i] != b[i] {
			t.Fail("the tree holds other points than given, e.g. %v instead of %v", b[i], a[i])
		}
	}
	s := g.Stream()
	for q := 0; q < 40; q++ {
		var p star.Point2D
		switch s.Int(0, 3) {
		case 0:
			p = star.Point2D{X: cx(), Y: cy()}
		case 1:
			p = pts[s.Int(0, n-1)]
		case 2:
			p = pts[s.Int(0, n-1)]
			p.X += float32(s.Norm())
			p.Y += float32(s.Norm())
		default:
			p = star.Point2D{X: float32(s.Float(-2e3, 2e3)), Y: float32(s.Float(-2e3, 2e3))}
		}
		got, dsq := tree.NearestNeighbor(p)
		best := math.Inf(1)
		in := false
		for _, o := range pts {
			dx, dy := float64(o.X)-float64(p.X), float64(o.Y)-float64(p.Y)
			best = math.Min(best, dx*dx+dy*dy)
			in = in || o == got
		}
		if !in {
			t.Fail("query %v returns %v, which is not one of the points", p, got)
		}
		dx, dy := float64(got.X)-float64(p.X), float64(got.Y)-float64(p.Y)
		if d := dx*dx + dy*dy; !vk.Close(d, best, 1e-12, 2e-6) {
			t.Fail("query %v returns %v at squared distance %g, the nearest is at %g", p, got, d, best)
		}
		if !vk.Close(float64(dsq), best, 1e-12, 2e-6) {
			t.Fail("query %v reports squared distance %g, it is %g", p, dsq, best)
		}
	}
}

func law3(g *vk.G, t *vk.T) {
	n := size(g)
	cx, kx := coord(g)
	cy, ky := coord(g)
	cz, kz := coord(g)
	pts := make([]star.Point3DPayload, n)
	for i := range pts {
		pts[i] = star.Point3DPayload{Point3D: star.Point3D{X: cx(), Y: cy(), Z: cz()}, Payload: i}
	}
	for k := g.Int(0, 3); k > 0; k-- {
		pts[g.Int(0, n-1)].Point3D = pts[g.Int(0, n-1)].Point3D
	}
	t.Desc("%d points in space, x %s, y %s, z %s", n, kx, ky, kz)
	t.Class("x %s", kx)
	if n < 4 {
		t.Trivial()
	}
	tree := append(star.KDTree3P{}, pts...)
	tree.Make()
	seen := make([]bool, n)
	for _, o := range tree {
		i, ok := o.Payload.(int)
		if !ok || seen[i] || o.Point3D != pts[i].Point3D {
			t.Fail("the tree holds %v, which was not given or twice", o)
		}
		seen[i] = true
	}
	s := g.Stream()
	for q := 0; q < 40; q++ {
		var p star.Point3D
		switch s.Int(0, 3) {
		case 0:
			p = star.Point3D{X: cx(), Y: cy(), Z: cz()}
		case 1:
			p = pts[s.Int(0, n-1)].Point3D
		case 2:
			p = pts[s.Int(0, n-1)].Point3D
			p.X += float32(s.Norm())
			p.Y += float32(s.Norm())
			p.Z += float32(s.Norm())
		default:
			p = star.Point3D{X: float32(s.Float(-2e3, 2e3)), Y: float32(s.Float(-2e3, 2e3)), Z: float32(s.Float(-2e3, 2e3))}
		}
		dist := func(o star.Point3D) float64 {
			dx, dy, dz := float64(o.X)-float64(p.X), float64(o.Y)-float64(p.Y), float64(o.Z)-float64(p.Z)
			return dx*dx + dy*dy + dz*dz
		}
		got, dsq := tree.NearestNeighbor(p)
		best := math.Inf(1)
		for _, o := range pts {
			best = math.Min(best, dist(o.Point3D))
		}
		i, ok := got.Payload.(int)
		if !ok || i < 0 || i >= n || pts[i].Point3D != got.Point3D {
			t.Fail("query %v returns %v, which is not one of the points with its payload", p, got)
		}
		if d := dist(got.Point3D); !vk.Close(d, best, 1e-12, 2e-6) {
			t.Fail("query %v returns %v at squared distance %g, the nearest is at %g", p, got, d, best)
		}
		if !vk.Close(float64(dsq), best, 1e-12, 2e-6) {
			t.Fail("query %v reports squared distance %g, it is %g", p, dsq, best)
		}
	}
}

func main() {
	vk.Main("S01", nil,
		&vk.Law{Name: "plane", Quick: 40000, Thorough: 1500000, Rule: "1..1500 points (continuous, on a grid with many equal coordinates, clustered, constant or ascending coordinates, copies), 40 queries each (random, on a point, near a point, far away) against an exhaustive scan; non-trivial with 4 or more points", Run: law2},
		&vk.Law{Name: "space", Quick: 40000, Thorough: 1500000, Rule: "the same in three dimensions, with payloads", Run: law3},
	)
}
