// S05: resampling through a transform.
package main

import (
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/verif/vk"
)

func makeImage(g *vk.G, minSize int, large bool) (*fits.Image, int, int, int) {
	w, h, p := minSize+g.Size(0, 6)*g.Int(1, 7), minSize+g.Size(0, 6)*g.Int(1, 7), 1
	if large { // not for transforms with roundoff, which grows with the coordinates
		w, h = g.Large(w, h, 200, 60000)
		w, h = max(w, minSize), max(h, minSize)
	}
	nx := []int32{int32(w), int32(h)}
	if g.Chance(1, 4) {
		p = g.Int(1, 4)
		nx = append(nx, int32(p))
	}
	d := make([]float32, w*h*p)
	s := g.Stream()
	lvl, kind := g.LogFloat(1e-3, 1e5), g.Pick(3, 1, 1)
	gx, gy := s.Float(-1, 1), s.Float(-1, 1)
	for i := range d {
		switch kind {
		case 0:
			d[i] = float32(lvl * s.Float(-1, 1))
		case 1:
			d[i] = float32(lvl * (float64(i/(w*h)) + gx*float64(i%w) + gy*float64(i/w%h)))
		case 2:
			d[i] = float32(i % 13)
		}
	}
	f := fits.NewImageFromNaxisn(nx, d)
	f.ID, f.FileName, f.Exposure, f.HFR = 17, "x.fits", 20, 2.5
	return f, w, h, p
}

func dest(g *vk.G, w, h int) (int, int) {
	if g.Chance(2, 3) {
		return w, h
	}
	return g.Int(1, 2*w), g.Int(1, 2*h)
}

func meta(t *vk.T, r *fits.Image, dw, dh, p, axes int) {
	if len(r.Naxisn) != axes || int(r.Naxisn[0]) != dw || int(r.Naxisn[1]) != dh || axes == 3 && int(r.Naxisn[2]) != p || len(r.Data) != dw*dh*p || int(r.Pixels) != len(r.Data) {
		t.Fail("result is %v with %d pixels, want %dx%d in %d planes", r.Naxisn, len(r.Data), dw, dh, p)
	}
	if r.ID != 17 || r.FileName != "x.fits" || r.Exposure != 20 || r.HFR != 2.5 {
		t.Fail("frame identification is lost: %d %q exposure %g HFR %g", r.ID, r.FileName, r.Exposure, r.HFR)
	}
}

func oobValue(g *vk.G) float32 {
	return vk.OneOf(g, float32(math.NaN()), 0, -12345, g.F32(0, 100))
}

func same(a, b float32) bool { return a == b || a != a && b != b }

// lawExact: transforms that map pixels onto pixels.
func lawExact(g *vk.G, t *vk.T) {
	f, w, h, p := makeImage(g, 2, true)
	orig := append([]float32{}, f.Data...)
	dw, dh := dest(g, w, h)
	// linear part from the eight symmetries of the square
	syms := [][4]int{{1, 0, 0, 1}, {-1, 0, 0, -1}, {0, -1, 1, 0}, {0, 1, -1, 0}, {-1, 0, 0, 1}, {1, 0, 0, -1}, {0, 1, 1, 0}, {0, -1, -1, 0}}
	m := syms[g.Pick(8, 2, 2, 2, 1, 1, 1, 1)]
	var cx, cy int
	if g.Chance(3, 4) {
		cx, cy = g.Int(-5, 5), g.Int(-5, 5)
		if m[0] < 0 || m[1] < 0 {
			cx += w - 1
		}
		if m[3] < 0 || m[2] < 0 {
			cy += h - 1
		}
	}
	tr := star.Transform2D{A: float32(m[0]), B: float32(m[1]), C: float32(cx), D: float32(m[2]), E: float32(m[3]), F: float32(cy)}
	oob := oobValue(g)
	t.Desc("%dx%dx%d to %dx%d by %v shifted %d,%d, outside %g", w, h, p, dw, dh, m, cx, cy, oob)
	if m == syms[0] && cx == 0 && cy == 0 {
		t.Class("identity")
	}
	r, err := f.Project([]int32{int32(dw), int32(dh)}, tr, oob)
	if err != nil {
		t.Fail("%v", err)
	}
	meta(t, r, dw, dh, p, len(f.Naxisn))
	want := make([]float32, dw*dh*p)
	for i := range want {
		want[i] = oob
	}
	hits := 0
	for z := 0; z < p; z++ {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				u, v := m[0]*x+m[1]*y+cx, m[2]*x+m[3]*y+cy
				if u >= 0 && v >= 0 && u < dw && v < dh {
					want[(z*dh+v)*dw+u] = orig[(z*h+y)*w+x]
					hits++
				}
			}
		}
	}
	if hits == 0 {
		t.Trivial()
	}
	for i := range want {
		if !same(want[i], r.Data[i]) {
			t.Fail("pixel %d,%d of plane %d is %g, want %g", i%dw, i/dw%dh, i/(dw*dh), r.Data[i], want[i])
		}
	}
	if i, ok := vk.SameBits(orig, f.Data); !ok {
		t.Fail("the source changes at pixel %d", i)
	}
}

func lawGeneral(g *vk.G, t *vk.T) {
	f, w, h, p := makeImage(g, 2, false)
	dw, dh := dest(g, w, h)
	var a, b, d, e float64
	kind := g.Pick(4, 2, 2)
	switch kind {
	case 0: // rotation
		s, c := math.Sincos(g.Float(-math.Pi, math.Pi))
		a, b, d, e = c, -s, s, c
	case 1: // small shift, rotation and scale as between frames
		s, c := math.Sincos(g.Float(-0.05, 0.05))
		k := g.Float(0.97, 1.03)
		a, b, d, e = k*c, -k*s, k*s, k*c
	case 2: // any affine map
		a, b, d, e = g.Float(-2, 2), g.Float(-2, 2), g.Float(-2, 2), g.Float(-2, 2)
	}
	cx, cy := g.Float(-10, 10), g.Float(-10, 10)
	if kind != 1 { // keep the centre roughly in place
		cx += float64(dw)/2 - a*float64(w)/2 - b*float64(h)/2
		cy += float64(dh)/2 - d*float64(w)/2 - e*float64(h)/2
	}
	tr := star.Transform2D{A: float32(a), B: float32(b), C: float32(cx), D: float32(d), E: float32(e), F: float32(cy)}
	a, b, d, e, cx, cy = float64(tr.A), float64(tr.B), float64(tr.D), float64(tr.E), float64(tr.C), float64(tr.F)
	det := a*e - b*d
	if math.Abs(det) < 0.05 {
		t.Discard("almost singular")
	}
	oob := oobValue(g)
	t.Desc("%dx%dx%d to %dx%d by %v, outside %g", w, h, p, dw, dh, tr, oob)
	t.Class("%s", []string{"rotation", "small", "affine"}[kind])
	r, err := f.Project([]int32{int32(dw), int32(dh)}, tr, oob)
	if err != nil {
		t.Fail("%v", err)
	}
	meta(t, r, dw, dh, p, len(f.Naxisn))
	norm := (math.Abs(a) + math.Abs(b) + math.Abs(d) + math.Abs(e)) / math.Abs(det)
	eps := 2e-6 * norm * (float64(dw+dh) + math.Abs(cx) + math.Abs(cy) + float64(w+h)) * (1 + norm)
	inside := 0
	for v := 0; v < dh; v++ {
		for u := 0; u < dw; u++ {
			x := (e*(float64(u)-cx) - b*(float64(v)-cy)) / det
			y := (a*(float64(v)-cy) - d*(float64(u)-cx)) / det
			out := x < -eps || y < -eps || x > float64(w-1)+eps || y > float64(h-1)+eps
			in := x > eps && y > eps && x < float64(w-1)-eps && y < float64(h-1)-eps
			for z := 0; z < p; z++ {
				got := r.Data[(z*dh+v)*dw+u]
				if out {
					if !same(got, oob) {
						t.Fail("pixel %d,%d comes from %.3f,%.3f outside of the input, but is %g", u, v, x, y, got)
					}
					continue
				}
				if !in && same(got, oob) {
					continue
				}
				inside++
				xx, yy := math.Max(0, math.Min(x, float64(w-1))), math.Max(0, math.Min(y, float64(h-1)))
				xl, yl := int(math.Floor(xx)), int(math.Floor(yy))
				if xl > w-2 {
					xl = w - 2
				}
				if yl > h-2 {
					yl = h - 2
				}
				fx, fy := xx-float64(xl), yy-float64(yl)
				at := func(i, j int) float64 { return float64(f.Data[(z*h+yl+j)*w+xl+i]) }
				want := (at(0, 0)*(1-fx)+at(1, 0)*fx)*(1-fy) + (at(0, 1)*(1-fx)+at(1, 1)*fx)*fy
				lo, hi := math.Inf(1), math.Inf(-1)
				for j := -1; j <= 2; j++ {
					for i := -1; i <= 2; i++ {
						if xl+i >= 0 && xl+i < w && yl+j >= 0 && yl+j < h {
							lo, hi = math.Min(lo, at(i, j)), math.Max(hi, at(i, j))
						}
					}
				}
				tol := 4*eps*(hi-lo) + 1e-6*math.Max(math.Abs(lo), math.Abs(hi))
				if !(math.Abs(float64(got)-want) <= tol) {
					t.Fail("pixel %d,%d of plane %d comes from %.4f,%.4f and is %g, interpolation gives %g +- %g", u, v, z, x, y, got, want, tol)
				}
			}
		}
	}
	if inside == 0 {
		t.Trivial()
	}
}

func lawSingular(g *vk.G, t *vk.T) {
	f, _, _, _ := makeImage(g, 2, false)
	k, a, b := float32(g.Int(-3, 3)), float32(g.Int(-3, 3)), float32(g.Int(-3, 3))
	tr := star.Transform2D{A: a, B: b, C: g.F32(-5, 5), D: k * a, E: k * b, F: g.F32(-5, 5)}
	t.Desc("singular %v", tr)
	if _, err := f.Project(f.Naxisn[:2], tr, 0); err == nil {
		t.Fail("a singular transform is accepted")
	}
}

func main() {
	vk.Main("S05", []string{"images of at least 2x2 pixels", "positions closer to the border of the input than rounding error may count as inside or outside"},
		&vk.Law{Name: "exact", Quick: 40000, Thorough: 1500000, Rule: "mono and colour images through the identity, integer shifts, rotations by 90 degrees and flips onto the same or another extent: every pixel bit by bit; trivial if nothing overlaps", Run: lawExact},
		&vk.Law{Name: "general", Quick: 40000, Thorough: 1500000, Rule: "rotations, small frame-to-frame transforms and general affine maps: every pixel against double precision bilinear interpolation, or the given value outside; trivial if nothing overlaps", Run: lawGeneral},
		&vk.Law{Name: "singular", Quick: 500, Thorough: 5000, Rule: "singular transforms are refused; all non-trivial", Run: lawSingular},
	)
}
