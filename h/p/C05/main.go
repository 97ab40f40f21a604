// C05: background extraction.
package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

type scene struct {
	w, h  int
	data  []float32
	stars []star.Star
	kind  string
	amp   float64
}

func makeStars(g *vk.G, s *vk.Stream, w, h, n int) []star.Star {
	var st []star.Star
	for i := 0; i < n; i++ {
		x, y := s.Float(0, float64(w)), s.Float(0, float64(h))
		st = append(st, star.Star{Index: int32(int(y)*w + int(x)), X: float32(x), Y: float32(y), HFR: float32(s.Float(0.5, 3)), Value: float32(s.Float(1, 5))})
	}
	return st
}

func makeScene(g *vk.G, w, h int) scene {
	s := g.Stream()
	sc := scene{w: w, h: h, data: make([]float32, w*h)}
	base, gx, gy := s.Float(0, 5), s.Float(-0.02, 0.02), s.Float(-0.02, 0.02)
	noise := s.Float(0.001, 0.2)
	kind := g.Pick(3, 2, 2, 2)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			v := 0.0
			switch kind {
			case 0:
				v = base + gx*float64(x) + gy*float64(y) + noise*s.Norm()
			case 1:
				v = base
			case 2:
				v = float64(s.Int(0, 6))
			default:
				v = base + noise*s.Norm()
				if s.Int(0, 9) == 0 {
					v += s.Float(0, 20)
				}
			}
			sc.data[y*w+x] = float32(v)
		}
	}
	sc.kind = []string{"gradient", "constant", "quantised", "spiky"}[kind]
	for _, v := range sc.data {
		sc.amp = math.Max(sc.amp, math.Abs(float64(v)))
	}
	n := 0
	if g.Bool() {
		n = g.Int(1, 1+w*h/150)
	}
	sc.stars = makeStars(g, s, w, h, n)
	return sc
}

func median(v []float64) float64 {
	s := append([]float64{}, v...)
	sort.Float64s(s)
	n := len(s)
	if n%2 == 1 {
		return s[n/2]
	}
	return 0.5 * (s[n/2-1] + s[n/2])
}

// grid is the reference model of the background grid
type grid struct {
	nx, ny   int
	sx, sy   float64
	cells    []float64 // before smoothing, NaN if nothing visible
	unsure   []bool    // a value sits on the trim bound or a star edge
	smoothed []float64
	sunsure  []bool
}

func gridOf(w, h, spacing int) grid {
	nx, ny := (w+spacing/2)/spacing, (h+spacing/2)/spacing
	if nx < 1 {
		nx = 1
	}
	if ny < 1 {
		ny = 1
	}
	return grid{nx: nx, ny: ny, sx: float64(w) / float64(nx), sy: float64(h) / float64(ny)}
}

func round(x float64) int { return int(math.Floor(x + 0.5)) }

func nearHalf(x float64) bool {
	return math.Abs(x+0.5-math.Round(x+0.5)) < 1e-4 && math.Abs(x-math.Round(x)) > 1e-4
}

func model(sc scene, spacing int, sigma, hfrFactor float64) grid {
	gr := gridOf(sc.w, sc.h, spacing)
	for cy := 0; cy < gr.ny; cy++ {
		y0, y1 := round(float64(cy)*gr.sy), round(float64(cy+1)*gr.sy)
		for cx := 0; cx < gr.nx; cx++ {
			x0, x1 := round(float64(cx)*gr.sx), round(float64(cx+1)*gr.sx)
			var vs []float64
			unsure := nearHalf(float64(cy)*gr.sy) || nearHalf(float64(cy+1)*gr.sy) || nearHalf(float64(cx)*gr.sx) || nearHalf(float64(cx+1)*gr.sx)
			// the boundaries of evenly sized cells are at multiples of .5 now and then; both roundings are fine then
			for y := y0; y < y1 && y < sc.h; y++ {
			next:
				for x := x0; x < x1 && x < sc.w; x++ {
					for _, st := range sc.stars {
						dx, dy := float64(x)-float64(st.X), float64(y)-float64(st.Y)
						r := float64(st.HFR) * hfrFactor
						d := math.Sqrt(dx*dx + dy*dy)
						if math.Abs(d-r) < 1e-3 {
							unsure = true
						}
						if d <= r {
							continue next
						}
					}
					vs = append(vs, float64(sc.data[y*sc.w+x]))
				}
			}
			if len(vs) == 0 {
				gr.cells = append(gr.cells, math.NaN())
				gr.unsure = append(gr.unsure, unsure)
				continue
			}
			med := median(vs)
			dev := make([]float64, len(vs))
			for i, v := range vs {
				dev[i] = math.Abs(v - med)
			}
			sd := 1.4826 * median(dev)
			bound := med + sigma*sd
			var kept []float64
			for _, v := range vs {
				if sd > 0 && math.Abs(v-bound) < 1e-5*sc.amp {
					unsure = true
				}
				if v <= bound+1e-9 {
					kept = append(kept, v)
				}
			}
			gr.cells = append(gr.cells, median(kept))
			gr.unsure = append(gr.unsure, unsure)
		}
	}
	return gr
}

// smooth applies the 3x3 gaussian with sigma 0.5 to the grid
func (gr *grid) smooth() {
	wt := []float64{0.468592, 0.107973, 0.024879}
	gr.smoothed = make([]float64, len(gr.cells))
	gr.sunsure = make([]bool, len(gr.cells))
	for y := 0; y < gr.ny; y++ {
		for x := 0; x < gr.nx; x++ {
			sum, ws := 0.0, 0.0
			for oy := -1; oy <= 1; oy++ {
				for ox := -1; ox <= 1; ox++ {
					x2, y2 := x+ox, y+oy
					if x2 < 0 || y2 < 0 || x2 >= gr.nx || y2 >= gr.ny {
						continue
					}
					k := y2*gr.nx + x2
					w := wt[ox*ox+oy*oy]
					sum += w * gr.cells[k]
					ws += w
					if gr.unsure[k] || math.IsNaN(gr.cells[k]) {
						gr.sunsure[y*gr.nx+x] = true
					}
				}
			}
			gr.smoothed[y*gr.nx+x] = sum / ws
		}
	}
}

// checkSurface verifies that surface is the bilinear interpolation of the given cell values
func checkSurface(t *vk.T, w, h, nx, ny int, cells []float32, surface []float32, amp float64) {
	sx, sy := float64(w)/float64(nx), float64(h)/float64(ny)
	locate := func(p, s float64, n int) (int, int, float64) {
		c := p/s - 0.5
		l := int(math.Floor(c))
		if l < 0 {
			l = 0
		}
		if l > n-2 {
			l = n - 2
		}
		if n == 1 {
			return 0, 0, 0
		}
		return l, l + 1, c - float64(l)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			xl, xh, xr := locate(float64(x)+0.5, sx, nx)
			yl, yh, yr := locate(float64(y)+0.5, sy, ny)
			a, b := float64(cells[yl*nx+xl]), float64(cells[yl*nx+xh])
			c, d := float64(cells[yh*nx+xl]), float64(cells[yh*nx+xh])
			v := (a*(1-xr)+b*xr)*(1-yr) + (c*(1-xr)+d*xr)*yr
			// cell centres are rounded to whole pixels, which moves the surface by up to 1.5 pixels and, near a
			// centre, into the neighbouring patch
			slope := 0.0
			for _, dy := range []int{-1, 0, 1, 2} {
				for _, dx := range []int{-1, 0, 1, 2} {
					x2, y2 := clampi(xl+dx, 0, nx-1), clampi(yl+dy, 0, ny-1)
					x3, y3 := clampi(xl+dx+1, 0, nx-1), clampi(yl+dy+1, 0, ny-1)
					slope = math.Max(slope, math.Abs(float64(cells[y2*nx+x3]-cells[y2*nx+x2]))/sx)
					slope = math.Max(slope, math.Abs(float64(cells[y3*nx+x2]-cells[y2*nx+x2]))/sy)
				}
			}
			tol := 1e-5*amp + 3.5*slope
			if sx < 4 || sy < 4 { // rounding is as large as the cells
				tol += 8 * slope
			}
			if !(math.Abs(float64(surface[y*w+x])-v) <= tol) {
				t.Fail("surface at x=%d y=%d is %g, interpolation of the grid %g (tolerance %g)", x, y, surface[y*w+x], v, tol)
			}
		}
	}
}

func clampi(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func image(sc scene, id int) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(sc.w), int32(sc.h)}, append([]float32{}, sc.data...))
	f.ID, f.Stars = id, sc.stars
	return f
}

func main() {
	vk.Main("C05", []string{"pixel values are finite"},
		&vk.Law{Name: "grid-model", Quick: 3000, Thorough: 80000, Rule: "image (gradient/constant/quantised/spiky, with stars) and grid of any size: each grid value equals an independent model (median of unmasked pixels without upward outliers, 3x3 smoothing); the surface interpolates the grid bilinearly; extraction subtracts exactly that surface, saves it when asked and resets statistics; non-trivial if the grid has at least 2x2 cells and the surface is not constant",
			Run: func(g *vk.G, t *vk.T) {
				w, h := g.Int(4, 90), g.Int(4, 90)
				sc := makeScene(g, w, h)
				spacing := g.Int(1, 50)
				if spacing < 5 {
					spacing += g.Int(0, 20)
				}
				sigma, hf := float64(g.F32(0.5, 4)), float64(g.F32(0.5, 5))
				t.Desc("%dx%d %s, %d stars, grid %d sigma %g hfrFactor %g", w, h, sc.kind, len(sc.stars), spacing, sigma, hf)
				gr := model(sc, spacing, sigma, hf)
				gr.smooth()
				t.Class("%s", sc.kind)
				t.Class("cells %dx%d", min(gr.nx, 4), min(gr.ny, 4))
				if gr.nx < 2 || gr.ny < 2 || sc.kind == "constant" {
					t.Trivial()
				}
				src := append([]float32{}, sc.data...)
				bg := pre.NewBackground(src, int32(w), int32(spacing), float32(sigma), 0, sc.stars, float32(hf), io.Discard)
				if i, ok := vk.SameBits(src, sc.data); !ok {
					t.Fail("source changed at %d", i)
				}
				if int(bg.GridCellsX) != gr.nx || int(bg.GridCellsY) != gr.ny || len(bg.Cells) != gr.nx*gr.ny {
					t.Fail("grid of %dx%d (%d) cells, want %dx%d", bg.GridCellsX, bg.GridCellsY, len(bg.Cells), gr.nx, gr.ny)
				}
				compared := 0
				for i, v := range bg.Cells {
					if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
						t.Fail("cell %d is %g", i, v)
					}
					if gr.sunsure[i] {
						continue
					}
					compared++
					if !vk.Close(float64(v), gr.smoothed[i], 2e-5*sc.amp+1e-6, 2e-5) {
						t.Fail("cell x=%d y=%d of %dx%d is %g, model %g", i%gr.nx, i/gr.nx, gr.nx, gr.ny, v, gr.smoothed[i])
					}
				}
				t.Class("compared cells>0: %v", compared > 0)
				surf := bg.Render()
				checkSurface(t, w, h, gr.nx, gr.ny, bg.Cells, surf, sc.amp)
				// the operator, without and with saving the background
				c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
				f := image(sc, 7)
				f.Stats.Min()
				r, err := pre.NewOpBackExtract(int32(spacing), float32(hf), float32(sigma), 0, "").Apply(f, c)
				if err != nil {
					t.Fail("%v", err)
				}
				for i := range sc.data {
					want := float64(sc.data[i]) - float64(surf[i])
					if !vk.Close(float64(r.Data[i]), want, 1e-6*sc.amp+1e-9, 1e-6) {
						t.Fail("pixel %d: %g - background %g gave %g", i, sc.data[i], surf[i], r.Data[i])
					}
				}
				mn := float32(math.Inf(1))
				for _, v := range r.Data {
					if v < mn {
						mn = v
					}
				}
				if r.Stats.Min() != mn {
					t.Fail("statistics not refreshed")
				}
				if g.Chance(1, 6) {
					t.Class("saved")
					f2 := image(sc, 7)
					pat := filepath.Join(t.Dir, "back%03d.fits")
					r2, err := pre.NewOpBackExtract(int32(spacing), float32(hf), float32(sigma), 0, pat).Apply(f2, c)
					if err != nil {
						t.Fail("with saving: %v", err)
					}
					for i := range sc.data {
						if !vk.Close(float64(r.Data[i]), float64(r2.Data[i]), 1e-6*sc.amp, 1e-6) {
							t.Fail("pixel %d differs when the background is saved: %g, %g", i, r.Data[i], r2.Data[i])
						}
					}
					name := filepath.Join(t.Dir, "back007.fits")
					b, err := os.ReadFile(name)
					if err != nil {
						t.Fail("background not saved: %v", err)
					}
					os.Remove(name)
					p, err := fx.Parse(b)
					if err != nil {
						t.Fail("saved background: %v", err)
					}
					vals := p.Physical()
					if len(vals) != len(surf) {
						t.Fail("saved background has %d pixels", len(vals))
					}
					for i := range surf {
						if float32(vals[i]) != surf[i] {
							t.Fail("saved background pixel %d is %g, surface %g", i, vals[i], surf[i])
						}
					}
				}
			}},
		&vk.Law{Name: "any-size", Quick: 8000, Thorough: 300000, Rule: "tiny images, grids larger than the image, any clip count, many or huge stars: never crashes or hangs, surface finite and between data extremes extended by the extrapolation; a constant image becomes zero; non-trivial unless constant",
			Run: func(g *vk.G, t *vk.T) {
				w, h := g.Size(1, 40), g.Size(1, 40)
				sc := makeScene(g, w, h)
				for i := range sc.stars {
					if g.Chance(1, 4) {
						sc.stars[i].HFR = float32(g.Int(5, 60))
					}
				}
				spacing := g.Size(1, 100)
				clip := 0
				if g.Bool() {
					clip = g.Size(0, 200)
				}
				sigma, hf := float64(g.F32(0, 4)), float64(g.F32(0, 5))
				t.Desc("%dx%d %s, %d stars, grid %d sigma %g hfrFactor %g clip %d", w, h, sc.kind, len(sc.stars), spacing, sigma, hf, clip)
				if sc.kind == "constant" {
					t.Trivial()
				}
				c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
				f := image(sc, 1)
				r, err := pre.NewOpBackExtract(int32(spacing), float32(hf), float32(sigma), int32(clip), "").Apply(f, c)
				if err != nil {
					t.Fail("%v", err)
				}
				covered := true
				for y := 0; y < h && covered; y++ {
					for x := 0; x < w; x++ {
						in := false
						for _, st := range sc.stars {
							if math.Hypot(float64(x)-float64(st.X), float64(y)-float64(st.Y)) <= float64(st.HFR)*hf+1e-3 {
								in = true
							}
						}
						if !in {
							covered = false
							break
						}
					}
				}
				for i, v := range r.Data {
					if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
						t.Fail("pixel %d is %g after extraction", i, v)
					}
					if sc.kind == "constant" && !covered && math.Abs(float64(v)) > 1e-5*sc.amp {
						t.Fail("constant image: pixel %d is %g after extraction", i, v)
					}
					if math.Abs(float64(v)) > 12*sc.amp+1e-6 {
						t.Fail("pixel %d is %g after extraction, data within +-%g", i, v, sc.amp)
					}
				}
			}},
		&vk.Law{Name: "flattening", Quick: 400, Thorough: 12000, Rule: "planar background plus noise plus bright listed stars: after extraction the star-free background is around zero everywhere, star flux above background is preserved; non-trivial if there is a gradient",
			Run: func(g *vk.G, t *vk.T) {
				w, h := g.Int(60, 160), g.Int(60, 160)
				s := g.Stream()
				base, noise := s.Float(0.1, 100), s.Float(0.005, 0.1)
				gx, gy := noise*g.Float(-0.5, 0.5), noise*g.Float(-0.5, 0.5)
				spacing := g.Int(16, 40)
				data := make([]float32, w*h)
				plane := func(x, y int) float64 { return base + gx*float64(x) + gy*float64(y) }
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						data[y*w+x] = float32(plane(x, y) + noise*s.Norm())
					}
				}
				n := g.Int(0, w*h/900)
				flux := make([]float64, n)
				var stars []star.Star
				isStar := make([]bool, w*h)
				for i := 0; i < n; i++ {
					sx, sy := s.Float(8, float64(w-8)), s.Float(8, float64(h-8))
					sg, amp := s.Float(0.8, 1.5), noise*s.Float(20, 1000)
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							dx, dy := float64(x)-sx, float64(y)-sy
							if dx*dx+dy*dy < 49 {
								data[y*w+x] += float32(amp * math.Exp(-(dx*dx+dy*dy)/(2*sg*sg)))
								isStar[y*w+x] = true
							}
						}
					}
					flux[i] = amp
					stars = append(stars, star.Star{Index: int32(int(sy)*w + int(sx)), X: float32(sx), Y: float32(sy), HFR: float32(1.18 * sg)})
				}
				clip := 0
				if g.Chance(1, 3) {
					clip = g.Int(1, 3)
				}
				t.Desc("%dx%d plane %g%+gx%+gy noise %g, %d stars, grid %d clip %d", w, h, base, gx, gy, noise, n, spacing, clip)
				if gx == 0 && gy == 0 {
					t.Trivial()
				}
				t.Class("clip %v", clip > 0)
				c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
				f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32{}, data...))
				f.Stars = stars
				r, err := pre.NewOpBackExtract(int32(spacing), 4, 1.5, int32(clip), "").Apply(f, c)
				if err != nil {
					t.Fail("%v", err)
				}
				// smoothing pulls border cells inwards by less than a quarter of a cell, clipping may flatten some cells
				cellStep := (math.Abs(gx) + math.Abs(gy)) * float64(spacing) * 1.3
				tol := 0.6*noise + 0.6*cellStep
				if clip > 0 {
					tol += 1.8 * cellStep
				}
				if tol > 0.9*math.Max(math.Abs(gx)*float64(w), math.Abs(gy)*float64(h)) && gx != 0 {
					t.Class("weak gradient")
				}
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						surf := float64(data[y*w+x]) - float64(r.Data[y*w+x])
						if d := surf - plane(x, y); math.Abs(d) > tol+1e-5*base {
							t.Fail("background at x=%d y=%d removed as %g, true %g, off by %g noise sigmas and %g cell steps", x, y, surf, plane(x, y), d/noise, d/(cellStep+1e-30))
						}
					}
				}
			}},
		&vk.Law{Name: "equivariance", Quick: 3000, Thorough: 80000, Rule: "adding a constant to the image or scaling it by 2^k adds to/scales the extracted background, any clip; non-trivial if not constant",
			Run: func(g *vk.G, t *vk.T) {
				w, h := g.Int(8, 70), g.Int(8, 70)
				sc := makeScene(g, w, h)
				for i := range sc.data {
					sc.data[i] = float32(math.Round(float64(sc.data[i])*256) / 256)
				}
				spacing, clip := g.Int(4, 40), g.Int(0, 4)
				add, k := float64(g.Int(-64, 64)), math.Pow(2, float64(g.Int(-4, 4)))
				t.Desc("%dx%d %s, %d stars, grid %d clip %d, (x%+g)*%g", w, h, sc.kind, len(sc.stars), spacing, clip, add, k)
				if sc.kind == "constant" {
					t.Trivial()
				}
				b := make([]float32, len(sc.data))
				for i, v := range sc.data {
					b[i] = float32((float64(v) + add) * k)
				}
				s1 := pre.NewBackground(sc.data, int32(w), int32(spacing), 1.5, int32(clip), sc.stars, 2, io.Discard).Render()
				s2 := pre.NewBackground(b, int32(w), int32(spacing), 1.5, int32(clip), sc.stars, 2, io.Discard).Render()
				// a pixel at the trim bound may fall either side
				if gr := model(scene{w: w, h: h, data: sc.data, stars: sc.stars, amp: 100}, spacing, 1.5, 2); true {
					allNaN := true
					for i, u := range gr.unsure {
						if u {
							t.Discard("value on the trim bound")
						}
						if !math.IsNaN(gr.cells[i]) {
							allNaN = false
						}
						for j := 0; j < i; j++ {
							if clip > 0 && math.Abs(gr.cells[i]-gr.cells[j]) < 1e-5*(100+math.Abs(add)) && gr.cells[i] != gr.cells[j] {
								t.Discard("clip order within rounding")
							}
						}
					}
					if allNaN {
						t.Discard("no background visible")
					}
				}
				for i := range s1 {
					want := (float64(s1[i]) + add) * k
					if !vk.Close(float64(s2[i]), want, 4e-5*(sc.amp+math.Abs(add))*k, 1e-5) {
						t.Fail("background pixel %d: %g becomes %g, want %g", i, s1[i], s2[i], want)
					}
				}
			}},
		&vk.Law{Name: "clipping", Quick: 2000, Thorough: 60000, Rule: "one or a few grid cells brightened by a nebula: with clipping of that many cells the surface there follows the surroundings and is unchanged two cells away; the number of clipped cells reported is right; non-trivial always",
			Run: func(g *vk.G, t *vk.T) {
				nx, ny, sp := g.Int(4, 8), g.Int(4, 8), g.Int(6, 14)
				w, h := nx*sp, ny*sp
				s := g.Stream()
				data := make([]float32, w*h)
				for i := range data {
					data[i] = float32(10 + 0.1*s.Norm())
				}
				clean := append([]float32{}, data...)
				n := g.Int(1, 3)
				cellIdx := map[int]bool{}
				for len(cellIdx) < n {
					cellIdx[g.Int(0, nx*ny-1)] = true
				}
				for k := range cellIdx {
					cx, cy := k%nx, k/nx
					for y := cy * sp; y < (cy+1)*sp; y++ {
						for x := cx * sp; x < (cx+1)*sp; x++ {
							data[y*w+x] += float32(5 + cx)
						}
					}
				}
				t.Desc("%dx%d cells of %d, bright cells %v", nx, ny, sp, fmt.Sprint(cellIdx))
				bg := pre.NewBackground(data, int32(w), int32(sp), 1.5, int32(n), nil, 4, io.Discard)
				if int(bg.OutlierCells) != n {
					t.Fail("%d cells clipped, asked for %d", bg.OutlierCells, n)
				}
				ref := pre.NewBackground(clean, int32(w), int32(sp), 1.5, 0, nil, 4, io.Discard)
				for i := range bg.Cells {
					cx, cy := i%nx, i/nx
					far := true
					for k := range cellIdx {
						if abs(k%nx-cx) < 2 && abs(k/nx-cy) < 2 {
							far = false
						}
					}
					tol := 1e-5
					if !far {
						tol = 0.15
					}
					if math.Abs(float64(bg.Cells[i]-ref.Cells[i])) > tol {
						t.Fail("cell x=%d y=%d is %g, without nebula %g (far from it: %v)", cx, cy, bg.Cells[i], ref.Cells[i], far)
					}
				}
			}},
	)
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}
