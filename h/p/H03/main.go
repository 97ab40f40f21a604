// H03: selective colour operators change only what they select.
package main

import (
	"fmt"
	"io"
	"math"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/cie"
	"github.com/mlnoga/nightlight/verif/vk"
)

type img struct {
	f    *fits.Image
	n    int
	orig []float32
}

func (m *img) hsl(i int) (h, s, l float64) {
	return float64(m.orig[i]), float64(m.orig[m.n+i]), float64(m.orig[2*m.n+i])
}

// draw gives an HSLuv image: hue in degrees, saturation and lightness from 0 to 1.
func draw(g *vk.G) *img {
	w, h := g.Int(1, 40), g.Int(1, 30)
	w, h = g.Large(w, h, 300, 100000)
	n := w * h
	s := g.Stream()
	d := make([]float32, 3*n)
	lvl, sig, round := g.Float(0.02, 0.6), g.LogFloat(0.01, 0.5), g.Chance(1, 3)
	extreme := g.Chance(1, 3)
	for i := 0; i < n; i++ {
		hue := 360 * s.Unit()
		if round {
			hue = 10 * math.Floor(hue/10)
		}
		sat, l := s.Unit(), lvl*(1+sig*s.Norm())
		if s.Int(0, 4) == 0 {
			l = s.Unit()
		}
		if extreme && s.Int(0, 5) == 0 {
			sat = float64(s.Int(0, 1))
		}
		if extreme && s.Int(0, 9) == 0 {
			l = float64(s.Int(0, 1))
		}
		d[i], d[n+i], d[2*n+i] = float32(hue), float32(sat), float32(math.Max(0, math.Min(1, l)))
		if d[i] >= 360 {
			d[i] = 0
		}
	}
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 3}, d)
	f.ID, f.Exposure = g.Int(0, 9), 60
	return &img{f, n, append([]float32{}, d...)}
}

func moments(d []float32) (loc, scale float64) {
	for _, v := range d {
		loc += float64(v)
	}
	loc /= float64(len(d))
	for _, v := range d {
		scale += (float64(v) - loc) * (float64(v) - loc)
	}
	return loc, math.Sqrt(scale / float64(len(d)))
}

// want is what a pixel may become; a second possibility is given for pixels on the edge of the selection.
type want struct {
	keep         [3]bool // bit for bit
	h, s, l      float64
	tol          float64 // of saturation and lightness
	htol         float64
	mayKeep      bool
	anyHue, skip bool
}

func (m *img) check(t *vk.T, i int, w want) (changed bool) {
	if w.skip {
		return false
	}
	var now, old [3]float32
	for k := range now {
		now[k], old[k] = m.f.Data[k*m.n+i], m.orig[k*m.n+i]
		changed = changed || now[k] != old[k]
	}
	if w.mayKeep && now == old {
		return false
	}
	names := [3]string{"hue", "saturation", "lightness"}
	for k := range now {
		ok := true
		switch {
		case w.keep[k]:
			ok = now[k] == old[k]
		case k == 0:
			ok = w.anyHue || cie.HueClose(float64(now[0]), w.h, w.htol)
		case k == 1:
			ok = vk.Close(float64(now[1]), w.s, w.tol, 0)
		default:
			ok = vk.Close(float64(now[2]), w.l, w.tol, 0)
		}
		if !ok {
			t.Fail("pixel %v becomes %v: wrong %s, want %+v", old, now, names[k], w)
		}
	}
	if !(now[0] >= 0 && now[0] <= 360 && now[1] >= 0 && now[1] <= 1) {
		t.Fail("pixel %v becomes %v, out of range", old, now)
	}
	return changed
}

var all = [3]bool{true, true, true}

// selected tells whether a hue is in the open range, and whether it is so close to its limits that it may or may not be.
func selected(h, from, to float64) (in, edge bool) {
	if from <= to {
		in = h > from && h < to
	} else {
		in = h > from || h < to
	}
	near := func(x float64) bool { return math.Abs(h-x) < 1e-3 }
	return in, near(from) || near(to)
}

func hueRange(g *vk.G) (from, to float64) {
	from, to = float64(g.Int(0, 360)), float64(g.Int(0, 360))
	if g.Bool() {
		from, to = 10*math.Floor(from/10), 10*math.Floor(to/10)
	}
	return from, to
}

func lawSelect(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	m := draw(g)
	loc, scale := moments(m.orig[2*m.n:])
	if scale < 1e-5 {
		scale = math.NaN()
	}
	neutral := g.Chance(1, 10)
	var op ops.OperatorUnary
	var wants func(i int) want
	desc := ""
	onEdge := func(l, thres float64) bool { return math.Abs(l-thres) < 2e-6 }
	switch g.Int(0, 6) {
	case 0:
		lo := g.Float(-1, 3)
		hi := lo + g.Float(0, 3)
		if g.Chance(1, 8) {
			hi = lo - g.Float(0, 1)
		}
		if g.Chance(1, 8) {
			lo, hi = 0.75, 1
		}
		if neutral {
			lo, hi = -g.Unit(), -g.Unit()
		}
		lo, hi = float64(float32(lo)), float64(float32(hi))
		desc = fmt.Sprintf("neutralize below %g sigma, keep above %g", lo, hi)
		op = hsl.NewOpHSLNeutralizeBackground(float32(lo), float32(hi))
		neutral = lo <= 0 && hi <= 0
		low, high := loc+scale*lo, loc+scale*hi
		wants = func(i int) want {
			h, s, l := m.hsl(i)
			w := want{keep: [3]bool{true, false, true}, h: h, l: l, tol: 1e-5 + 2e-6*s/math.Max(1e-5, high-low)}
			switch {
			case high-low < 1e-4 && (onEdge(l, low) || onEdge(l, high) || l > math.Min(low, high) && l < math.Max(low, high)):
				w.skip = true
			case l < low-2e-6:
				w.tol = 0
			case l > high+2e-6:
				w.keep = all
			default:
				w.s = s * math.Max(0, math.Min(1, (l-low)/(high-low)))
			}
			return w
		}
	case 1:
		gamma, sigma := float64(float32(g.LogFloat(0.3, 4))), float64(float32(g.Float(-2, 3)))
		if neutral {
			gamma = 1
		}
		desc = fmt.Sprintf("saturation gamma %g above %g sigma", gamma, sigma)
		op = hsl.NewOpHSLSaturationGamma(float32(gamma), float32(sigma))
		wants = func(i int) want {
			h, s, l := m.hsl(i)
			w := want{keep: [3]bool{true, false, true}, h: h, l: l, s: math.Pow(s, 1/gamma), tol: 1e-5, mayKeep: onEdge(l, loc+scale*sigma)}
			if !w.mayKeep && l < loc+scale*sigma {
				w.keep = all
			}
			return w
		}
	case 2:
		from, to := hueRange(g)
		factor := vk.OneOf(g, 0, g.Unit(), 1+3*g.Unit())
		if neutral {
			factor = 1
		}
		desc = fmt.Sprintf("saturation times %g for hues %g to %g", factor, from, to)
		op = hsl.NewOpHSLSelectiveSaturation(float32(from), float32(to), float32(factor))
		wants = func(i int) want {
			h, s, l := m.hsl(i)
			in, edge := selected(h, from, to)
			w := want{keep: [3]bool{true, false, true}, h: h, l: l, s: math.Min(1, s*factor), tol: 1e-6, mayKeep: edge}
			if !in && !edge {
				w.keep = all
			}
			return w
		}
	case 3:
		from, to := hueRange(g)
		offset, sigma := float64(g.Int(-180, 180)), float64(float32(g.Float(-2, 3)))
		if neutral {
			offset = 0
		}
		desc = fmt.Sprintf("hues %g to %g rotated by %g above %g sigma", from, to, offset, sigma)
		op = hsl.NewOpHSLRotateHue(float32(from), float32(to), float32(offset), float32(sigma))
		neutral = offset == 0
		wants = func(i int) want {
			h, s, l := m.hsl(i)
			in, edge := selected(h, from, to)
			w := want{keep: [3]bool{false, true, true}, h: h + offset, htol: 1e-4, s: s, l: l, mayKeep: edge || onEdge(l, loc+scale*sigma)}
			if !w.mayKeep && (!in || l < loc+scale*sigma) {
				w.keep = all
			}
			return w
		}
	case 4:
		factor := vk.OneOf(g, 1, g.Unit())
		if neutral {
			factor = 0
		}
		neutral = factor == 0
		desc = fmt.Sprintf("green removed by %g", factor)
		op = hsl.NewOpHSLSCNR(float32(factor))
		scale = 1 // not used
		wants = func(i int) want {
			h, s, l := m.hsl(i)
			w := want{keep: [3]bool{false, false, true}, l: l}
			rgb := cie.FromLuv(100*l, s*cie.MaxChroma(100*l, h), h)
			for k := range rgb {
				rgb[k] = math.Max(0, math.Min(1, rgb[k]))
			}
			if over := rgb[1] - (rgb[0]+rgb[2])/2; over > 0 {
				rgb[1] -= factor * over
			}
			nl, nc, nh := cie.Luv(rgb)
			top := cie.MaxChroma(nl, nh)
			if top < 0.2 {
				w.skip = true // black or white
				return w
			}
			w.s, w.h = math.Min(1, nc/top), nh
			w.tol, w.htol = 2e-3+0.1/top, 5/nc
			w.anyHue = nc < 0.2
			return w
		}
	case 5:
		id := g.Int(0, 2)
		a, b := float32(g.Float(0, 2)), float32(g.Float(-0.3, 0.3))
		if neutral {
			a, b = 1, 0
		}
		desc = fmt.Sprintf("channel %d times %g plus %g", id, a, b)
		op = hsl.NewOpHSLScaleOffsetChannel(id, a, b)
		scale = 1
		wants = func(i int) want {
			h, s, l := m.hsl(i)
			w := want{keep: all, h: h, s: s, l: l}
			v := float64(m.orig[id*m.n+i])*float64(a) + float64(b)
			if got := float64(m.f.Data[id*m.n+i]); !vk.Close(got, v, 1e-6, 1e-6) {
				t.Fail("channel %d: %g becomes %g instead of %g", id, m.orig[id*m.n+i], got, v)
			}
			for k := 0; k < 3; k++ {
				if k != id && m.f.Data[k*m.n+i] != m.orig[k*m.n+i] {
					t.Fail("channel %d changed", k)
				}
			}
			w.skip = true
			return w
		}
	case 6:
		op = hsl.NewOpHSLApplyLum()
		desc = "no luminance"
		neutral = true
		scale = 1
	}
	t.Desc("%v %s, neutral %v", m.f.Naxisn, desc, neutral)
	t.Class(fmt.Sprintf("%T neutral %v", op, neutral))
	r, err := op.Apply(m.f, c)
	if err != nil {
		t.Fail("refused: %v", err)
	}
	if r != m.f || len(m.f.Data) != 3*m.n || m.f.Exposure != 60 {
		t.Fail("another image")
	}
	if neutral {
		t.Trivial()
		if i, ok := vk.SameBits(m.f.Data, m.orig); !ok {
			t.Fail("neutral parameters change %d", i)
		}
		return
	}
	if scale != scale {
		t.Discard("uniform lightness")
	}
	changed := 0
	for i := 0; i < m.n; i++ {
		if m.check(t, i, wants(i)) {
			changed++
		}
	}
	if changed == 0 {
		t.Trivial()
	}
	lo, hi := float32(math.Inf(1)), float32(math.Inf(-1))
	for _, v := range m.f.Data {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	if m.f.Stats.Min() != lo || m.f.Stats.Max() != hi {
		t.Fail("statistics not refreshed: %v", m.f.Stats)
	}
}

func lawLuminance(g *vk.G, t *vk.T) {
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	m := draw(g)
	nx := append([]int32{}, m.f.Naxisn[:2]...)
	bad := g.Chance(1, 6)
	if bad {
		nx[g.Int(0, 1)] += int32(g.Int(1, 2))
	}
	lum := fits.NewImageFromNaxisn(nx, nil)
	lum.Exposure = float32(g.Int(1, 100))
	s := g.Stream()
	base, amp := vk.OneOf(g, 0.0, 0.1, 100, 1000), vk.OneOf(g, 1.0, 0.5, 60000)
	uniform := g.Chance(1, 10)
	for i := range lum.Data {
		lum.Data[i] = float32(base + amp*s.Unit()*s.Unit())
		if uniform {
			lum.Data[i] = float32(base)
		}
	}
	min, max := lum.Stats.Min(), lum.Stats.Max()
	l := append([]float32{}, lum.Data...)
	c.LumFrame = lum
	t.Desc("%v luminance %v from %g to %g", m.f.Naxisn, nx, min, max)
	r, err := hsl.NewOpHSLApplyLum().Apply(m.f, c)
	if bad {
		t.Trivial()
		if err == nil {
			t.Fail("luminance of other size not refused")
		}
		return
	}
	if err != nil || r != m.f {
		t.Fail("refused: %v", err)
	}
	if c.LumFrame != nil {
		t.Fail("luminance frame left for later images")
	}
	if i, ok := vk.SameBits(m.f.Data[:2*m.n], m.orig[:2*m.n]); !ok {
		t.Fail("hue or saturation changed at %d", i)
	}
	if m.f.Exposure != 60+lum.Exposure {
		t.Fail("exposure %g", m.f.Exposure)
	}
	if max <= min {
		t.Class("uniform")
	}
	for i, v := range l {
		got := float64(m.f.Data[2*m.n+i])
		if !(got >= 0 && got <= 1) {
			t.Fail("lightness %g for %g", got, v)
		}
		if max > min {
			x := (float64(v) - float64(min)) / (float64(max) - float64(min))
			if !vk.Close(got, cie.Lightness(x)/100, 1e-4+3e-6*float64(max)/float64(max-min), 0) {
				t.Fail("luminance %g in [%g,%g] gives lightness %g instead of %g", v, min, max, got, cie.Lightness(x)/100)
			}
		}
	}
}

// lawAny: whatever the parameters, operators refuse or keep values finite.
func lawAny(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	m := draw(g)
	v := func() float32 { return vk.OneOf(g, float32(0), 1, -1, 0.5, 1e3, -1e3, float32(g.Float(-400, 400))) }
	id := g.Int(-1, 4)
	list := []ops.OperatorUnary{hsl.NewOpHSLNeutralizeBackground(v(), v()), hsl.NewOpHSLSelectiveSaturation(v(), v(), v()),
		hsl.NewOpHSLRotateHue(v(), v(), v(), v()), hsl.NewOpHSLScaleOffsetChannel(id, v(), v()), hsl.NewOpHSLSCNR(float32(g.Unit())),
		hsl.NewOpHSLSaturationGamma(float32(g.LogFloat(0.01, 100)), v())}
	op := list[g.Int(0, len(list)-1)]
	t.Desc("%v %+v", m.f.Naxisn, op)
	_, err := op.Apply(m.f, c)
	if err != nil {
		t.Class("refused")
		return
	}
	for i, x := range m.f.Data {
		if x != x || math.IsInf(float64(x), 0) {
			t.Fail("value %d is %g", i, x)
		}
	}
}

func main() {
	vk.Main("H03", []string{
		"Location and scale are set to mean and standard deviation, which the reference computes itself; pixels on the edge of a selection may be selected or not.",
		"The luminance frame is stretched to its own range before it replaces the lightness, as are the combined channels.",
	},
		&vk.Law{Name: "select", Quick: 8000, Thorough: 800000, Rule: "pixels changed", Run: lawSelect},
		&vk.Law{Name: "luminance", Quick: 4000, Thorough: 400000, Rule: "sizes agree", Run: lawLuminance},
		&vk.Law{Name: "any-raced", Quick: 300, Thorough: 30000, Timeout: 300 * time.Second, Race: true,
			Rule: "the same under Go's race detector, which fails on unsynchronised access to shared data: " + "all", Run: lawAny},
		&vk.Law{Name: "any", Quick: 10000, Thorough: 1000000, Rule: "all", Run: lawAny})
}
