// T01: point-wise stretches follow their curves and preserve order.
package main

import (
	"fmt"
	"io"
	"math"
	"sort"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

type img struct {
	f     *fits.Image
	w, h  int
	plane int
	p     int
	orig  []float32
}

// unitImage draws an image with values in [0,1]: a dim background, brighter pixels, exact zeros and ones, and duplicates.
func unitImage(g *vk.G, planes int) *img {
	m := &img{w: g.Size(1, 8) * g.Int(1, 9), h: g.Size(1, 8) * g.Int(1, 9), p: planes}
	m.w, m.h = g.Large(m.w, m.h, 400, 100000)
	m.plane = m.w * m.h
	n := m.plane * planes
	s := g.Stream()
	d := make([]float32, n)
	lvl, sig := g.LogFloat(0.002, 0.6), g.LogFloat(0.01, 0.4)
	bright, extreme := g.Float(0, 0.3), g.Pick(1, 1)
	for i := range d {
		v := lvl * (1 + sig*s.Norm())
		switch u := s.Unit(); {
		case u < bright:
			v = s.Unit()
		case u > 0.97 && extreme == 1:
			v = float64(s.Int(0, 1))
		}
		d[i] = float32(math.Max(0, math.Min(1, v)))
		if i > 0 && s.Int(0, 9) == 0 {
			d[i] = d[s.Int(0, i-1)]
		}
	}
	nx := []int32{int32(m.w), int32(m.h)}
	if planes > 1 {
		nx = append(nx, int32(planes))
	}
	m.f = fits.NewImageFromNaxisn(nx, d)
	m.f.ID, m.f.Exposure = 5, 60
	m.orig = append([]float32{}, d...)
	return m
}

// locScale gives mean and standard deviation of a range of pixels.
func locScale(d []float32) (loc, scale float64) {
	for _, v := range d {
		loc += float64(v)
	}
	loc /= float64(len(d))
	for _, v := range d {
		scale += (float64(v) - loc) * (float64(v) - loc)
	}
	return loc, math.Sqrt(scale / float64(len(d)))
}

// curve is a function with parameters.
type curve struct {
	name       string
	p          []float64 // parameters which the code computes in single precision from statistics or arguments
	f          func(x float64, p []float64) float64
	tol        float64 // additional absolute error
	range01    bool    // maps [0,1] to [0,1]
	fix0, fix1 bool
}

// bounds evaluates the curve with arguments and parameters moved by rounding errors.
func (c *curve) bounds(x float64) (lo, hi float64) {
	const r = 1.5e-6
	lo, hi = math.Inf(1), math.Inf(-1)
	q := make([]float64, len(c.p))
	for m := 0; m < 1<<len(c.p); m++ {
		for j := range q {
			q[j] = c.p[j] * (1 + r)
			if m>>j&1 == 1 {
				q[j] = c.p[j] * (1 - r)
			}
		}
		for _, xx := range []float64{x * (1 - 2e-7), x, x * (1 + 2e-7)} {
			v := c.f(xx, q)
			lo, hi = math.Min(lo, v), math.Max(hi, v)
		}
	}
	v := c.f(x, c.p)
	return math.Min(lo, v), math.Max(hi, v)
}

// verify compares a range of pixels before and after.
func (c *curve) verify(t *vk.T, before, after []float32) {
	cache := map[float32][2]float64{}
	for i, x := range before {
		b, ok := cache[x]
		if !ok {
			b[0], b[1] = c.bounds(float64(x))
			cache[x] = b
		}
		y := float64(after[i])
		e := 6e-7*math.Max(math.Abs(b[0]), math.Abs(b[1])) + c.tol + 2e-45
		if !(y >= b[0]-e && y <= b[1]+e) {
			t.Fail("%s with %.7g maps %.9g to %.9g, its formula gives %.9g", c.name, c.p, x, y, c.f(float64(x), c.p))
		}
		if c.fix0 && x == 0 && y != 0 {
			t.Fail("%s with %.7g maps black to %g", c.name, c.p, y)
		}
		if c.fix1 && x == 1 && math.Abs(y-1) > 1e-6+c.tol {
			t.Fail("%s with %.7g maps white to %g", c.name, c.p, y)
		}
		if c.range01 && !(y >= 0 && y <= 1+1e-6+c.tol) {
			t.Fail("%s with %.7g maps %g to %g outside of [0,1]", c.name, c.p, x, y)
		}
	}
	ordered(t, c.name, before, after, c.tol)
}

// ordered checks that after is a function of before, and non-decreasing up to rounding.
func ordered(t *vk.T, what string, before, after []float32, tol float64) {
	ix := make([]int, len(before))
	for i := range ix {
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return before[ix[a]] < before[ix[b]] })
	for k := 1; k < len(ix); k++ {
		i, j := ix[k-1], ix[k]
		if before[i] == before[j] && after[i] != after[j] {
			t.Fail("%s maps %g to %g at pixel %d and to %g at pixel %d", what, before[i], after[i], i, after[j], j)
		}
		if d := float64(after[i]) - float64(after[j]); !(d <= tol+3e-7*math.Abs(float64(after[i]))) {
			t.Fail("%s maps %g to %g, but %g to %g", what, before[i], after[i], before[j], after[j])
		}
	}
}

func gammaCurve(g float64) *curve {
	return &curve{name: "gamma", p: []float64{g}, range01: true, fix0: true, fix1: true,
		f: func(x float64, p []float64) float64 { return math.Pow(x, 1/p[0]) }}
}

func partialGamma(from, to, g float64) *curve {
	return &curve{name: "partial gamma", p: []float64{from, to, g}, range01: from >= 0 && to <= 1 && from < to, fix0: from >= 0, fix1: to <= 1,
		f: func(x float64, p []float64) float64 {
			if x <= p[0] || x >= p[1] || p[0] >= p[1] {
				return x
			}
			return p[0] + math.Pow((x-p[0])/(p[1]-p[0]), 1/p[2])*(p[1]-p[0])
		}}
}

func midtones(mid, black float64) *curve {
	mtf := func(x, m float64) float64 { return (m - 1) * x / ((2*m-1)*x - m) }
	c := &curve{name: "midtones", p: []float64{mid, black}, range01: true, fix0: true, fix1: true,
		f: func(x float64, p []float64) float64 {
			b := mtf(p[1], p[0])
			return math.Max(0, mtf(x, p[0])-b) / (1 - b)
		}}
	b := mtf(black, mid)
	c.tol = 4e-6 / (1 - b)
	return c
}

func shiftBlack(before, after float64) *curve {
	c := &curve{name: "black point shift", p: []float64{before, after}, range01: true, fix0: before >= after, fix1: true,
		f: func(x float64, p []float64) float64 {
			b := (p[1] - p[0]) / (p[1] - 1)
			return math.Max(0, (x-b)/(1-b))
		}}
	b := (after - before) / (after - 1)
	c.tol = 1e-6 * (1 + math.Abs(b)) / (1 - b) / (1 - after)
	return c
}

// relLum is the CIE lightness of a gray of the given linear intensity.
func relLum(y float64) float64 {
	if y > 216.0/24389 {
		return 1.16*math.Cbrt(y) - 0.16
	}
	return y * 24389 / 2700
}

// stepFor draws one of the point-wise processing steps with its curve; loc and scale are those of the channel acted upon.
// A nil curve means unchanged.
func stepFor(g *vk.G, t *vk.T, color bool, loc, scale float64) (op ops.OperatorUnary, c *curve, desc string) {
	switch g.Pick(2, 3, 3, 3) {
	case 0:
		gm := float32(g.LogFloat(0.1, 10))
		if g.Chance(1, 6) {
			gm = 1
		}
		desc = fmt.Sprintf("gamma %g", gm)
		op = stretch.NewOpGamma(gm)
		if color {
			op = hsl.NewOpHSLGamma(gm)
		}
		if gm != 1 {
			c = gammaCurve(float64(gm))
		}
	case 1:
		gm, sg := float32(g.LogFloat(0.1, 10)), g.F32(0, 5)
		if g.Chance(1, 6) {
			gm = 1
		}
		desc = fmt.Sprintf("gamma %g from %g sigma", gm, sg)
		op = stretch.NewOpGammaPP(gm, sg)
		if color {
			op = hsl.NewOpHSLGammaPP(gm, sg)
		}
		if gm != 1 {
			c = partialGamma(loc+float64(sg)*scale, 1, float64(gm))
		}
	case 2:
		if scale < 1e-4 {
			return nil, nil, ""
		}
		absMid := g.LogFloat(0.001, 0.9)
		mid := float32(absMid / scale)
		black := float32(g.Float((loc-0.9)/scale, loc/scale))
		absMid, absBlack := float64(mid)*scale, loc-float64(black)*scale
		if g.Chance(1, 6) {
			mid = 0
		} else if absBlack < 0 || absBlack > 0.95 {
			return nil, nil, ""
		}
		desc = fmt.Sprintf("midtones %g x scale, black %g x scale below location", mid, black)
		op = stretch.NewOpMidtones(mid, black)
		if color {
			op = hsl.NewOpHSLMidtones(mid, black)
		}
		if mid != 0 {
			c = midtones(absMid, absBlack)
		}
	case 3:
		l := float32(g.LogFloat(0.001, 0.9))
		if g.Chance(1, 6) {
			l = 0
		}
		desc = fmt.Sprintf("black so that the location becomes %g", l)
		op = stretch.NewOpScaleBlack(l)
		target := float64(l)
		if color {
			op = hsl.NewOpHSLScaleBlack(l)
			target = relLum(target)
		}
		if math.Abs(loc-target) < 1e-5 || loc > 0.99 {
			return nil, nil, ""
		}
		if l != 0 && loc > target {
			c = shiftBlack(loc, target)
		}
	}
	return
}

func lawStep(g *vk.G, t *vk.T) {
	color := g.Bool()
	planes := 1
	if color {
		planes = 3
	} else if g.Chance(1, 4) {
		planes = 3
	}
	m := unitImage(g, planes)
	lo := 0
	if color {
		lo = 2 * m.plane
	}
	stats.LSEstimator = stats.LSEMeanStdDev
	loc, scale := locScale(m.orig[lo:])
	op, c, desc := stepFor(g, t, color, loc, scale)
	if op == nil {
		t.Discard("parameters out of range")
	}
	t.Desc("%dx%dx%d, luminance only %v, location %.4g scale %.4g: %s", m.w, m.h, planes, color, loc, scale, desc)
	if g.Bool() { // with statistics already known
		m.f.Stats.Location()
		m.f.Stats.Max()
	}
	r, err := op.Apply(m.f, ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev))
	if err != nil {
		t.Fail("%v", err)
	}
	same(t, m, r)
	if c == nil {
		t.Class("neutral")
		if i, ok := vk.SameBits(m.orig, r.Data); !ok {
			t.Fail("%s changes pixel %d from %g to %g", desc, i, m.orig[i], r.Data[i])
		}
		return
	}
	t.Class("%s", c.name)
	if i, ok := vk.SameBits(m.orig[:lo], r.Data[:lo]); !ok {
		t.Fail("%s changes pixel %d of the other channels", desc, i)
	}
	c.verify(t, m.orig[lo:], r.Data[lo:])
}

func same(t *vk.T, m *img, r *fits.Image) {
	if r == nil || len(r.Data) != len(m.orig) || int(r.Naxisn[0]) != m.w || int(r.Naxisn[1]) != m.h || r.ID != 5 || r.Exposure != 60 {
		t.Fail("the frame or its identification is lost")
	}
}

// lawDirect: the curves with explicit parameters, on the whole image or one channel.
func lawDirect(g *vk.G, t *vk.T) {
	ch := g.Int(-1, 2)
	planes := 1
	if ch >= 0 || g.Chance(1, 3) {
		planes = 3
	}
	m := unitImage(g, planes)
	lo, hi := 0, len(m.orig)
	if ch >= 0 {
		lo, hi = ch*m.plane, (ch+1)*m.plane
	}
	var c *curve
	switch g.Int(0, 4) {
	case 0:
		gm := float32(g.LogFloat(0.1, 10))
		c = gammaCurve(float64(gm))
		if ch < 0 {
			m.f.ApplyGamma(gm)
		} else {
			m.f.ApplyGammaToChannel(ch, gm)
		}
	case 1:
		from, to, gm := g.F32(0, 1), g.F32(0, 1), float32(g.LogFloat(0.1, 10))
		if to > from && to-from < 0.01 {
			to = from
		}
		if g.Bool() {
			from, to = vk.OneOf(g, 0, from), 1
		}
		c = partialGamma(float64(from), float64(to), float64(gm))
		if ch < 0 {
			m.f.ApplyPartialGamma(from, to, gm)
		} else {
			m.f.ApplyPartialGammaToChannel(ch, from, to, gm)
		}
	case 2:
		mid, black := float32(g.LogFloat(0.001, 0.95)), g.F32(0, 0.9)
		if g.Chance(1, 4) {
			black = 0
		}
		c = midtones(float64(mid), float64(black))
		if ch < 0 {
			m.f.ApplyMidtones(mid, black)
		} else {
			m.f.ApplyMidtonesToChannel(ch, mid, black)
		}
	case 3:
		before, after := g.F32(0, 0.95), g.F32(0, 0.95)
		c = shiftBlack(float64(before), float64(after))
		if ch < 0 {
			m.f.ShiftBlackToMove(before, after)
		} else {
			m.f.ShiftBlackToMoveChannel(ch, before, after)
		}
	case 4:
		sc, of := g.F32(0.01, 5), g.F32(-1, 1)
		c = &curve{name: "scale and offset", p: []float64{float64(sc), float64(of)}, tol: 1e-6,
			f: func(x float64, p []float64) float64 { return x*p[0] + p[1] }}
		if ch < 0 {
			m.f.ApplyScaleOffset(sc, of)
		} else {
			op := hsl.NewOpHSLScaleOffsetChannel(ch, sc, of)
			if _, err := op.Apply(m.f, ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)); err != nil {
				t.Fail("%v", err)
			}
		}
	}
	t.Desc("%dx%dx%d, channel %d, %s %.7g", m.w, m.h, planes, ch, c.name, c.p)
	t.Class("%s", c.name)
	for i := range m.orig {
		if (i < lo || i >= hi) && m.f.Data[i] != m.orig[i] {
			t.Fail("pixel %d of another channel changes", i)
		}
	}
	c.verify(t, m.orig[lo:hi], m.f.Data[lo:hi])
}

// lawNormalize: range normalization of images of any range.
func lawNormalize(g *vk.G, t *vk.T) {
	m := unitImage(g, vk.OneOf(g, 1, 1, 3))
	kind := g.Pick(6, 1, 1)
	lvl, rng := g.Float(-10, 10), 1.0
	if g.Bool() {
		sc := g.LogFloat(1e-3, 1e6)
		lvl, rng = lvl*sc, sc
	}
	for i, v := range m.f.Data {
		m.f.Data[i] = float32(lvl + rng*float64(v))
	}
	switch kind {
	case 1: // uniform
		for i := range m.f.Data {
			m.f.Data[i] = float32(lvl)
		}
		t.Class("uniform")
	case 2: // normalized already
		copy(m.f.Data, m.orig)
		m.f.Data[0] = 0
		m.f.Data[len(m.f.Data)-1] = 1
	}
	m.orig = append([]float32{}, m.f.Data...)
	mn, mx := math.Inf(1), math.Inf(-1)
	for _, v := range m.orig {
		mn, mx = math.Min(mn, float64(v)), math.Max(mx, float64(v))
	}
	t.Desc("%dx%dx%d, values from %.6g to %.6g", m.w, m.h, m.p, mn, mx)
	r, err := stretch.NewOpNormalizeRange().Apply(m.f, ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev))
	if err != nil {
		t.Fail("%v", err)
	}
	same(t, m, r)
	if mx == mn || mn == 0 && mx == 1 {
		if mx != mn {
			t.Class("normalized already")
		}
		if i, ok := vk.SameBits(m.orig, r.Data); !ok {
			t.Fail("pixel %d changes from %g to %g", i, m.orig[i], r.Data[i])
		}
		return
	}
	if mx-mn < 2e-8 {
		t.Discard("almost uniform")
	}
	c := &curve{name: "range normalization", f: func(x float64, p []float64) float64 { return (x - mn) / (mx - mn) },
		tol: 1e-6 * (1 + math.Max(math.Abs(mn), math.Abs(mx))/(mx-mn)), range01: true}
	c.verify(t, m.orig, r.Data)
}

// lawChain: several steps one after the other keep the order and the range.
func lawChain(g *vk.G, t *vk.T) {
	color := g.Bool()
	planes := 1
	if color {
		planes = 3
	}
	m := unitImage(g, planes)
	lo := 0
	if color {
		lo = 2 * m.plane
	}
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	desc := ""
	n := g.Int(2, 6)
	done := 0
	for i := 0; i < n; i++ {
		loc, scale := locScale(m.f.Data[lo:])
		op, cv, d := stepFor(g, t, color, loc, scale)
		if op == nil {
			continue
		}
		desc += "; " + d
		t.Desc("%dx%dx%d, luminance only %v%s", m.w, m.h, planes, color, desc)
		prev := append([]float32{}, m.f.Data...)
		r, err := op.Apply(m.f, c)
		if err != nil {
			t.Fail("%v", err)
		}
		same(t, m, r)
		if cv == nil {
			continue
		}
		done++
		cv.verify(t, prev[lo:], r.Data[lo:])
		// rounding may exceed 1 by an ulp, the next step expects [0,1]
		for j, v := range r.Data {
			if v > 1 {
				if v > 1.0001 {
					t.Fail("pixel %d becomes %g", j, v)
				}
				r.Data[j] = 1
			}
		}
		r.Stats.Clear()
	}
	if done < 2 {
		t.Trivial()
	}
	if i, ok := vk.SameBits(m.orig[:lo], m.f.Data[:lo]); !ok {
		t.Fail("pixel %d of the other channels changes", i)
	}
}

func main() {
	vk.Main("T01", []string{"pixel values in [0,1] as these steps require, except for range normalization", "midtone and black point within [0,1) as absolute values, gamma between 0.1 and 10", "location and scale measured as mean and standard deviation (other estimators: N04)"},
		&vk.Law{Name: "step-raced", Quick: 500, Thorough: 30000, Timeout: 300 * time.Second, Race: true,
			Rule: "the same under Go's race detector, which fails on unsynchronised access to shared data: " + "gamma, partial gamma, midtones and black point steps, for images and for the luminance channel, against their formulas; order, range, fixed points; neutral parameters leave the image alone; all non-trivial", Run: lawStep},
		&vk.Law{Name: "step", Quick: 30000, Thorough: 1500000, Rule: "gamma, partial gamma, midtones and black point steps, for images and for the luminance channel, against their formulas; order, range, fixed points; neutral parameters leave the image alone; all non-trivial", Run: lawStep},
		&vk.Law{Name: "direct", Quick: 30000, Thorough: 1500000, Rule: "the same curves and scale/offset with explicit parameters on whole images or one channel; all non-trivial", Run: lawDirect},
		&vk.Law{Name: "normalize", Quick: 15000, Thorough: 700000, Rule: "range normalization of images of any range, uniform images, normalized images; all non-trivial", Run: lawNormalize},
		&vk.Law{Name: "chain", Quick: 8000, Thorough: 400000, Rule: "sequences of two to six steps, each against its formula; trivial with fewer than two effective steps", Run: lawChain},
	)
}
