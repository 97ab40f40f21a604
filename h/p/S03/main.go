// S03: geometric transforms.
package main

import (
	"math"

	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/verif/vk"
)

type P = star.Point2D

func point(g *vk.G) P {
	switch g.Pick(3, 2) {
	case 0:
		return P{X: g.F32(0, 6000), Y: g.F32(0, 4000)}
	}
	return P{X: float32(g.Int(-20, 20)), Y: float32(g.Int(-20, 20))}
}

type vec struct{ x, y float64 }

func f64(p P) vec { return vec{float64(p.X), float64(p.Y)} }

// exact solves the affine map from three pairs in double precision. cond is how much input errors are amplified.
func exact(p, q [3]P) (m [6]float64, det, cond float64) {
	a, b, c := f64(p[0]), f64(p[1]), f64(p[2])
	x2, y2, x3, y3 := b.x-a.x, b.y-a.y, c.x-a.x, c.y-a.y
	det = x2*y3 - x3*y2
	ext := math.Max(math.Max(math.Abs(x2), math.Abs(y2)), math.Max(math.Abs(x3), math.Abs(y3)))
	cond = ext * ext / math.Abs(det)
	s := func(v1, v2, v3 float64) (float64, float64, float64) {
		u2, u3 := v2-v1, v3-v1
		k, l := (u2*y3-u3*y2)/det, (x2*u3-x3*u2)/det
		return k, l, v1 - k*a.x - l*a.y
	}
	m[0], m[1], m[2] = s(float64(q[0].X), float64(q[1].X), float64(q[2].X))
	m[3], m[4], m[5] = s(float64(q[0].Y), float64(q[1].Y), float64(q[2].Y))
	return
}

func lawSolve(g *vk.G, t *vk.T) {
	var p, q [3]P
	shape := g.Pick(4, 2, 2)
	for i := range p {
		p[i], q[i] = point(g), point(g)
	}
	switch shape {
	case 1: // legs along the axes
		a, b := g.Int(0, 2), g.Int(0, 2)
		if a != b {
			p[a].Y = p[b].Y
		}
		if c, d := g.Int(0, 2), g.Int(0, 2); c != d {
			p[c].X = p[d].X
		}
		t.Class("axis-aligned")
	case 2: // pixel positions seen through a similarity
		s, c := math.Sincos(g.Float(0, 2*math.Pi))
		k := g.LogFloat(0.3, 3)
		dx, dy := g.Float(-100, 100), g.Float(-100, 100)
		for i := range p {
			v := f64(p[i])
			q[i] = P{X: float32(k*(c*v.x-s*v.y) + dx), Y: float32(k*(s*v.x+c*v.y) + dy)}
		}
		t.Class("similarity")
	}
	t.Desc("%v -> %v", p, q)
	want, det, cond := exact(p, q)
	tr, err := star.NewTransform2D(p[0], p[1], p[2], q[0], q[1], q[2])
	if det == 0 {
		t.Class("degenerate")
		if err == nil {
			t.Fail("points %v on a line or identical yield transform %v", p, tr)
		}
		return
	}
	if cond > 1000 {
		if err == nil {
			for _, v := range []float32{tr.A, tr.B, tr.C, tr.D, tr.E, tr.F} {
				if math.IsNaN(float64(v)) {
					t.Fail("transform %v", tr)
				}
			}
		}
		t.Class("ill-conditioned")
		t.Trivial()
		return
	}
	if err != nil {
		t.Fail("points %v are refused: %v", p, err)
	}
	mag := 1.0
	slope := math.Max(math.Max(math.Abs(want[0]), math.Abs(want[1])), math.Max(math.Abs(want[3]), math.Abs(want[4])))
	for i := range p {
		mag = math.Max(mag, math.Max(math.Abs(float64(p[i].X)), math.Abs(float64(p[i].Y)))*slope)
		mag = math.Max(mag, math.Max(math.Abs(float64(q[i].X)), math.Abs(float64(q[i].Y))))
	}
	for i := range p {
		r := tr.Apply(p[i])
		if d := math.Hypot(float64(r.X)-float64(q[i].X), float64(r.Y)-float64(q[i].Y)); !(d <= 1e-6*mag*(1+cond)) {
			t.Fail("point %v is mapped to %v instead of %v by %v", p[i], r, q[i], tr)
		}
	}
	o := point(g)
	r := tr.Apply(o)
	wx := want[0]*float64(o.X) + want[1]*float64(o.Y) + want[2]
	wy := want[3]*float64(o.X) + want[4]*float64(o.Y) + want[5]
	lim := 3e-6 * (1 + cond) * (mag + slope*math.Max(math.Abs(float64(o.X)), math.Abs(float64(o.Y))))
	if !(math.Hypot(float64(r.X)-wx, float64(r.Y)-wy) <= lim*(1+cond)) {
		t.Fail("point %v is mapped to %v instead of (%g,%g) by %v", o, r, wx, wy, tr)
	}
}

// lawCollinear: points exactly on a line must be refused.
func lawCollinear(g *vk.G, t *vk.T) {
	x, y := g.Int(-2000, 2000), g.Int(-2000, 2000)
	dx, dy := g.Int(-50, 50), g.Int(-50, 50)
	k, l := g.Int(-20, 20), g.Int(-20, 20)
	scale := vk.OneOf(g, float32(1), 0.5, 0.25)
	at := func(m int) P { return P{X: float32(x+m*dx) * scale, Y: float32(y+m*dy) * scale} }
	p := []P{at(0), at(k), at(l)}
	perm := g.Perm(3)
	q := []P{point(g), point(g), point(g)}
	t.Desc("%v -> %v", p, q)
	switch {
	case dx == 0 && dy == 0 || k == 0 && l == 0:
		t.Class("identical")
	case dx == 0 || dy == 0:
		t.Class("axis-parallel")
	}
	tr, err := star.NewTransform2D(p[perm[0]], p[perm[1]], p[perm[2]], q[0], q[1], q[2])
	if err == nil {
		t.Fail("points %v on a line yield transform %v", p, tr)
	}
}

func lawInvert(g *vk.G, t *vk.T) {
	var tr star.Transform2D
	if g.Bool() { // similarity
		s, c := math.Sincos(g.Float(0, 2*math.Pi))
		k := g.LogFloat(0.1, 10)
		tr = star.Transform2D{A: float32(k * c), B: float32(-k * s), C: g.F32(-500, 500), D: float32(k * s), E: float32(k * c), F: g.F32(-500, 500)}
		t.Class("similarity")
	} else {
		f := func() float32 {
			if g.Bool() {
				return float32(g.Int(-3, 3))
			}
			return g.F32(-2, 2)
		}
		tr = star.Transform2D{A: f(), B: f(), C: g.F32(-500, 500), D: f(), E: f(), F: g.F32(-500, 500)}
		t.Class("affine")
	}
	a, b, d, e := float64(tr.A), float64(tr.B), float64(tr.D), float64(tr.E)
	det := a*e - b*d
	t.Desc("%v", tr)
	m := math.Max(math.Max(math.Abs(a), math.Abs(b)), math.Max(math.Abs(d), math.Abs(e)))
	inv, err := tr.Invert()
	if det == 0 {
		t.Class("singular")
		if err == nil {
			t.Fail("singular transform %v has inverse %v", tr, inv)
		}
		return
	}
	cond := m * m / math.Abs(det)
	if cond > 1e3 || math.Abs(det) < 1e-6 {
		t.Trivial()
		return
	}
	if err != nil {
		t.Fail("transform %v of determinant %g is refused: %v", tr, det, err)
	}
	for i := 0; i < 6; i++ {
		p := point(g)
		size := math.Max(math.Abs(float64(p.X)), math.Abs(float64(p.Y)))
		q := tr.Apply(p)
		wx := a*float64(p.X) + b*float64(p.Y) + float64(tr.C)
		wy := d*float64(p.X) + e*float64(p.Y) + float64(tr.F)
		if !(math.Hypot(float64(q.X)-wx, float64(q.Y)-wy) <= 1e-6*(m*size+500)) {
			t.Fail("%v maps %v to %v instead of (%g,%g)", tr, p, q, wx, wy)
		}
		r := inv.Apply(q)
		lim := 2e-6 * (1 + cond) * (size + (m*size+1000)*m/math.Abs(det))
		if !(math.Hypot(float64(r.X-p.X), float64(r.Y-p.Y)) <= lim) {
			t.Fail("%v maps %v to %v, its inverse %v maps that to %v", tr, p, q, inv, r)
		}
		back := inv.Apply(p)
		r = tr.Apply(back)
		if !(math.Hypot(float64(r.X-p.X), float64(r.Y-p.Y)) <= lim*(1+m)*(1+m)) {
			t.Fail("inverse %v of %v maps %v to %v, the transform maps that to %v", inv, tr, p, back, r)
		}
	}
	ps := []P{point(g), point(g), point(g)}
	for i, r := range tr.ApplySlice(ps) {
		if r != tr.Apply(ps[i]) {
			t.Fail("point %d of a slice is mapped to %v, alone to %v", i, r, tr.Apply(ps[i]))
		}
	}
	id := star.IdentityTransform2D()
	if p := point(g); id.Apply(p) != p {
		t.Fail("identity maps %v to %v", p, id.Apply(p))
	}
}

func main() {
	vk.Main("S03", []string{"tolerances grow with the conditioning of the point triple or transform; conditions over 1000 are only checked for NaN"},
		&vk.Law{Name: "solve", Quick: 300000, Thorough: 10000000, Rule: "three point pairs (continuous, integer, axis-aligned legs, similarities): the pairs and a further point are mapped as by a double precision solution; non-trivial if well conditioned", Run: lawSolve},
		&vk.Law{Name: "collinear", Quick: 100000, Thorough: 2000000, Rule: "three points exactly on a line or identical are refused", Run: lawCollinear},
		&vk.Law{Name: "invert", Quick: 200000, Thorough: 6000000, Rule: "similarities and affine maps: inverse of the map and map of the inverse return every point; singular maps are refused", Run: lawInvert},
	)
}
