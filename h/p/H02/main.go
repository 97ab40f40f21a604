// H02: colour combination and balance put the right pixels in the right channel.
package main

import (
	"errors"
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

func lawCombine(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = g.Int(1, 5)
	n := 3 + g.Pick(8, 8, 1, 1, 1) - 0
	switch n {
	case 5:
		n = 5
	case 6:
		n = 2
	case 7:
		n = 0
	}
	w, h := g.Int(1, 40), g.Int(1, 30)
	w, h = g.Large(w, h, 200, 150000)
	s := g.Stream()
	frames := make([]*fits.Image, n)
	saved := make([][]float32, n)
	ins := make([]ops.Promise, n)
	min, max := math.Inf(1), math.Inf(-1)
	exposure := 0.0
	uniform := g.Chance(1, 12)
	level := float32(g.LogFloat(1e-3, 6e4))
	for i := range frames {
		d := make([]float32, w*h)
		base, amp := g.LogFloat(1e-3, 6e4), g.LogFloat(1e-4, 1)
		for j := range d {
			d[j] = float32(base * (1 + amp*s.Norm()))
			if uniform && i < 3 {
				d[j] = level
			}
			if i < 3 {
				min, max = math.Min(min, float64(d[j])), math.Max(max, float64(d[j]))
			}
		}
		f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, d)
		f.ID = i
		f.Exposure = float32(g.Int(0, 600))
		if i < 3 {
			exposure += float64(f.Exposure)
		}
		frames[i], saved[i] = f, append([]float32{}, d...)
		ins[i] = func() (*fits.Image, error) { return f, nil }
	}
	bad := ""
	if n > 0 && g.Chance(1, 4) {
		k := g.Int(0, n-1)
		switch g.Int(0, 3) {
		case 0:
			bad = "dropped frame"
			ins[k] = func() (*fits.Image, error) { return nil, nil }
		case 1:
			bad = "failed frame"
			ins[k] = func() (*fits.Image, error) { return nil, errors.New("failed") }
		case 2, 3:
			nx := []int32{int32(w), int32(h + g.Int(1, 3))}
			if g.Bool() {
				nx = []int32{int32(w + g.Int(1, 3)), int32(h)}
			}
			if g.Bool() && w != h {
				nx = []int32{int32(h), int32(w)} // as many pixels
			}
			bad = "frame of other size"
			f := fits.NewImageFromNaxisn(nx, nil)
			ins[k] = func() (*fits.Image, error) { return f, nil }
		}
	}
	if n < 3 || n > 4 {
		bad = "number of frames"
	}
	var stars []star.Star
	if g.Bool() {
		stars = []star.Star{{Index: int32(g.Int(0, w*h-1)), Mass: 3, HFR: 2}}
		c.AlignStars, c.AlignHFR = stars, 2.5
	}
	t.Desc("%d frames %dx%d, uniform %v, %d stars, %s", n, w, h, uniform, len(stars), bad)
	t.Class("%d frames, %s", n, bad)
	outs, err := rgb.NewOpRGBCombine().MakePromises(ins, c)
	var f *fits.Image
	if err == nil {
		if len(outs) != 1 {
			t.Fail("%d results", len(outs))
		}
		f, err = outs[0]()
	}
	if bad != "" {
		t.Trivial()
		if err == nil {
			t.Fail("not refused")
		}
		return
	}
	if err != nil {
		t.Fail("refused: %v", err)
	}
	if len(f.Naxisn) != 3 || f.Naxisn[0] != int32(w) || f.Naxisn[1] != int32(h) || f.Naxisn[2] != 3 || f.Pixels != int32(3*w*h) || len(f.Data) != 3*w*h {
		t.Fail("dimensions %v, %d pixels, %d values", f.Naxisn, f.Pixels, len(f.Data))
	}
	for i, d := range saved {
		if j, ok := vk.SameBits(frames[i].Data, d); !ok {
			t.Fail("frame %d changed at %d", i, j)
		}
	}
	for i := 0; i < 3; i++ {
		for j, v := range saved[i] {
			want := 0.0
			if max > min {
				want = (float64(v) - min) / (max - min)
			}
			if got := float64(f.Data[i*w*h+j]); !vk.Close(got, want, 2e-6, 0) {
				t.Fail("channel %d pixel %d is %g instead of %g", i, j, got, want)
			}
		}
	}
	if !vk.Close(float64(f.Exposure), exposure, 0, 1e-6) {
		t.Fail("exposure %g instead of %g", f.Exposure, exposure)
	}
	if n == 4 && (c.LumFrame == nil || len(c.LumFrame.Data) != w*h) {
		t.Fail("luminance frame lost")
	}
	if n == 4 {
		if j, ok := vk.SameBits(c.LumFrame.Data, saved[3]); !ok {
			t.Fail("luminance frame changed at %d", j)
		}
	}
	if n == 3 && c.LumFrame != nil {
		t.Fail("luminance frame from nowhere")
	}
	if stars != nil && (len(f.Stars) != 1 || f.Stars[0] != stars[0] || f.HFR != 2.5) {
		t.Fail("stars %v HFR %g", f.Stars, f.HFR)
	}
	wantMax := float32(1)
	if max <= min {
		wantMax = 0
	}
	if f.Stats == nil || f.Stats.Min() != 0 || !vk.Close(float64(f.Stats.Max()), float64(wantMax), 1e-6, 0) {
		t.Fail("statistics %v", f.Stats)
	}
}

type color [3]float64

func (c color) rgb() fits.RGB {
	return fits.RGB{R: float32(c[0]), G: float32(c[1]), B: float32(c[2])}
}

// edge tells whether x is so close to an integer that rounding decides what it is truncated to.
func edge(x float64) bool {
	return x != math.Round(x) && math.Abs(x-math.Round(x)) < 1e-3
}

type model struct {
	w, h int
	d    [3][]float64
	tol  [3]float64
}

// shift maps the colours low to a gray of tint sh, and high to one of tint hl, keeping the mean of each.
func (m *model) shift(low, high, sh, hl color) {
	ml, mh := (low[0]+low[1]+low[2])/3, (high[0]+high[1]+high[2])/3
	for k := range m.d {
		a := (hl[k]*mh - sh[k]*ml) / (high[k] - low[k])
		m.tol[k] = m.tol[k]*math.Abs(a) + 1e-6*(1+math.Abs(a))
		for i, v := range m.d[k] {
			m.d[k][i] = math.Max(0, math.Min(1, sh[k]*ml+a*(v-low[k])))
		}
	}
}

func (m *model) block(x, y, b int) (c color) {
	for k := range m.d {
		for yy := y; yy < y+b; yy++ {
			for xx := x; xx < x+b; xx++ {
				c[k] += m.d[k][yy*m.w+xx]
			}
		}
		c[k] /= float64(b * b)
	}
	return c
}

// starPixels lists the pixels of the stars counted: within three quarters of the half-flux radius, and not clipped in any channel.
func (m *model) starPixels(t *vk.T, stars []star.Star) (px []int) {
	var clip color
	for k := range m.d {
		for _, v := range m.d[k] {
			clip[k] = math.Max(clip[k], 0.9*v)
		}
	}
	for _, s := range stars {
		r := 0.75*float64(s.HFR) + 0.01
		if edge(r * r) {
			t.Discard("star radius on the edge")
		}
		x0, y0 := int(s.Index)%m.w, int(s.Index)/m.w
		for y := 0; y < m.h; y++ {
			for x := 0; x < m.w; x++ {
				if float64((x-x0)*(x-x0)+(y-y0)*(y-y0)) > r*r {
					continue
				}
				in := true
				for k := range m.d {
					v := m.d[k][y*m.w+x]
					if math.Abs(v-clip[k]) < 5*m.tol[k] {
						t.Discard("star pixel on the clipping limit")
					}
					in = in && v < clip[k]
				}
				if in {
					px = append(px, y*m.w+x)
				}
			}
		}
	}
	return px
}

func lawBalance(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	w, h := g.Int(8, 70), g.Int(8, 60)
	s := g.Stream()
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 3}, nil)
	n := w * h
	var base, gain, slope color
	for k := range base {
		base[k], gain[k], slope[k] = g.Float(0.02, 0.2), g.Float(0.2, 1), g.Float(0, 0.1)
	}
	noise := g.LogFloat(1e-4, 0.02)
	angle := g.Float(0, 6.28)
	for k := range base {
		for i := 0; i < n; i++ {
			d := (float64(i%w-w/2)*math.Cos(angle) + float64(i/w-h/2)*math.Sin(angle)) / float64(w+h)
			f.Data[k*n+i] = float32(base[k] + slope[k]*d + noise*s.Norm())
		}
	}
	ns := g.Int(1, 12)
	stars := make([]star.Star, ns)
	for i := range stars {
		x, y := s.Float(0, float64(w)-1), s.Float(0, float64(h)-1)
		hfr := s.Float(0.5, 4)
		peak := s.Unit()
		var tint color
		for k := range tint {
			tint[k] = gain[k] * (0.5 + 0.5*s.Unit())
		}
		for yy := 0; yy < h; yy++ {
			for xx := 0; xx < w; xx++ {
				q := ((float64(xx)-x)*(float64(xx)-x) + (float64(yy)-y)*(float64(yy)-y)) / (hfr * hfr)
				if q < 9 {
					for k := range tint {
						p := &f.Data[k*n+yy*w+xx]
						*p = float32(math.Min(1, float64(*p)+peak*tint[k]*math.Exp(-q)))
					}
				}
			}
		}
		stars[i] = star.Star{Index: int32(y+0.5)*int32(w) + int32(x+0.5), X: float32(x), Y: float32(y), HFR: float32(hfr), Mass: float32(peak)}
	}
	for i, v := range f.Data {
		f.Data[i] = float32(math.Max(0, math.Min(1, float64(v))))
	}
	block := g.Int(1, 16)
	border := vk.OneOf(g, 0.0, 0.1, 0.25, 0.3)
	skipBright, skipDim := vk.OneOf(g, 0.0, 0, 0.1, 0.25), vk.OneOf(g, 0.0, 0.25, 0.5, 0.75)
	sh, hl := color{1, 1, 1}, color{1, 1, 1}
	for k := range sh {
		if g.Chance(1, 4) {
			sh[k], hl[k] = float64(float32(g.Float(0.8, 1.2))), float64(float32(g.Float(0.8, 1.2)))
		}
	}
	f.Stars = stars
	t.Desc("%dx%d block %d border %g, %d stars skip %g %g, tints %v %v", w, h, block, border, ns, skipBright, skipDim, sh, hl)

	op := rgb.NewOpRGBBalance(int32(block), float32(border), float32(skipBright), float32(skipDim), sh.rgb(), hl.rgb())
	m := &model{w: w, h: h}
	for k := range m.d {
		m.d[k] = make([]float64, n)
		for i := range m.d[k] {
			m.d[k][i] = float64(f.Data[k*n+i])
		}
	}
	if edge(float64(w)*border) || edge(float64(h)*border) || edge(float64(ns)*skipBright) || edge(float64(ns)*skipDim) {
		t.Discard("on the edge")
	}
	x0, y0 := int(float64(w)*border)/block*block, int(float64(h)*border)/block*block
	x1, y1 := (w-x0)/block*block, (h-y0)/block*block
	r, err := op.Apply(f, c)
	if x0 >= x1 || y0 >= y1 {
		t.Class("no block")
		t.Trivial()
		if err == nil {
			t.Fail("balanced without a block")
		}
		return
	}
	if err != nil {
		t.Fail("refused: %v", err)
	}
	if r != f {
		t.Fail("another image")
	}

	// first pass: mean and three standard deviations above
	var loc, up color
	for k := range m.d {
		for _, v := range m.d[k] {
			loc[k] += v / float64(n)
		}
		sq := 0.0
		for _, v := range m.d[k] {
			sq += (v - loc[k]) * (v - loc[k]) / float64(n)
		}
		up[k] = loc[k] + 3*math.Sqrt(sq)
		m.tol[k] = 2e-6
	}
	m.shift(loc, up, sh, hl)

	// second pass: darkest block and average star
	best, second := math.Inf(1), math.Inf(1)
	bx, by := 0, 0
	for y := y0; y < y1; y += block {
		for x := x0; x < x1; x += block {
			b := m.block(x, y, block)
			l := (b[0] + b[1] + b[2]) / 3
			if l < best {
				best, second, bx, by = l, best, x, y
			} else if l < second {
				second = l
			}
		}
	}
	tol := m.tol[0] + m.tol[1] + m.tol[2]
	if second-best < 2*tol {
		t.Discard("two darkest blocks")
	}
	dark := m.block(bx, by, block)
	var avg color
	var px []int
	if a, b := int(float64(ns)*skipBright), ns-int(float64(ns)*skipDim); a < b {
		px = m.starPixels(t, stars[a:b])
	}
	for _, i := range px {
		for k := range avg {
			avg[k] += m.d[k][i] / float64(len(px))
		}
	}
	for k := range avg {
		if math.Abs(avg[k]-dark[k]) < 1e-3 {
			t.Discard("stars as dark as the background")
		}
	}
	m.shift(dark, avg, sh, hl)
	t.Class("stars found %v", len(px) > 0)
	if len(px) == 0 {
		t.Trivial()
	}
	for k := range m.d {
		for i, v := range m.d[k] {
			if !vk.Close(float64(f.Data[k*n+i]), v, 5*m.tol[k]+1e-5, 0) {
				t.Fail("channel %d pixel %d,%d is %g instead of %g", k, i%w, i/w, f.Data[k*n+i], v)
			}
		}
	}

	// what it is for: the darkest block is gray and the average star has the tint
	out := &model{w: w, h: h}
	clipped := false
	for k := range out.d {
		out.d[k] = make([]float64, n)
		for i := range out.d[k] {
			out.d[k][i] = float64(f.Data[k*n+i])
		}
		for y := by; y < by+block; y++ {
			for x := bx; x < bx+block; x++ {
				clipped = clipped || out.d[k][y*w+x] <= 0 || out.d[k][y*w+x] >= 1
			}
		}
	}
	if !clipped {
		t.Class("darkest block unclipped")
		b := out.block(bx, by, block)
		for k := 0; k < 2; k++ {
			if !vk.Close(b[k]/sh[k], b[k+1]/sh[k+1], 10*(m.tol[k]+m.tol[k+1])+1e-5, 0) {
				t.Fail("darkest block is %v with tint %v", b, sh)
			}
		}
	}
	clipped = len(px) == 0
	var a color
	for _, i := range px {
		for k := range a {
			a[k] += out.d[k][i] / float64(len(px))
			clipped = clipped || out.d[k][i] <= 0 || out.d[k][i] >= 1
		}
	}
	if !clipped {
		t.Class("stars unclipped")
		for k := 0; k < 2; k++ {
			if !vk.Close(a[k]/hl[k], a[k+1]/hl[k+1], 10*(m.tol[k]+m.tol[k+1])+1e-5, 0) {
				t.Fail("average star is %v with tint %v", a, hl)
			}
		}
	}
}

// lawDegenerate: whatever the image and parameters, balancing refuses or yields values in range.
func lawDegenerate(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	w, h := g.Int(1, 40), g.Int(1, 40)
	w, h = g.Large(w, h, 300, 100000)
	nx := []int32{int32(w), int32(h), 3}
	planes := 3
	if g.Chance(1, 8) {
		nx, planes = nx[:2], 1
	}
	n := w * h
	f := fits.NewImageFromNaxisn(nx, nil)
	s := g.Stream()
	for k := 0; k < planes; k++ {
		kind := g.Int(0, 4)
		level := vk.OneOf(g, 0, 1, 0.5, g.Unit())
		for i := 0; i < n; i++ {
			v := level
			switch kind {
			case 1:
				v = s.Unit()
			case 2:
				v = float64(s.Int(0, 1))
			case 3:
				if s.Int(0, 30) == 0 {
					v = s.Unit()
				}
			}
			f.Data[k*n+i] = float32(v)
		}
	}
	ns := g.Int(0, 6)
	for i := 0; i < ns; i++ {
		f.Stars = append(f.Stars, star.Star{Index: int32(g.Int(0, n-1)), HFR: float32(g.Float(0, 5))})
	}
	block, border := g.Int(-1, 18), vk.OneOf(g, 0.1, 0, 0.5, 1, -0.5, 0.3)
	sb, sd := vk.OneOf(g, 0, 0.75, 1, -0.5, 2), vk.OneOf(g, 0.75, 0, 1, -0.5, 2)
	t.Desc("%v block %d border %g, %d stars skip %g %g", nx, block, border, ns, sb, sd)
	op := rgb.NewOpRGBBalance(int32(block), float32(border), float32(sb), float32(sd), fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1})
	r, err := op.Apply(f, c)
	if err != nil {
		t.Class("refused")
		if planes == 3 && ns > 0 && block >= 1 && border == 0 && sb >= 0 && sd >= 0 && block <= w && block <= h {
			t.Fail("refused: %v", err)
		}
		return
	}
	if ns == 0 || planes != 3 || block < 1 {
		t.Fail("not refused")
	}
	for i, v := range r.Data {
		if !(v >= 0 && v <= 1) {
			t.Fail("value %d is %g", i, v)
		}
	}
}

func main() {
	vk.Main("H02", []string{
		"The balance reference computes both passes in double precision with mean and standard deviation as location and scale; cases where rounding decides which block is darkest, which star pixel is clipped or which stars are skipped are discarded.",
		"Balanced stars count within three quarters of their half-flux radius, as documented in code; clipping is 90% of the channel maximum.",
	},
		&vk.Law{Name: "combine", Quick: 5000, Thorough: 500000, Rule: "combination not refused", Run: lawCombine},
		&vk.Law{Name: "balance", Quick: 3000, Thorough: 300000, Rule: "there is a block to balance, and unclipped star pixels", Run: lawBalance},
		&vk.Law{Name: "degenerate", Quick: 10000, Thorough: 1000000, Rule: "all", Run: lawDegenerate})
}
