// S02: star detection finds the stars that are there, and only those.
package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

type src struct{ x, y, amp float64 }

type sky struct {
	w, h           int
	lvl, noise     float64
	width          float64 // sigma of the star images
	radius         int
	starSig, inOut float64
	stars          []src
	hot            []int
	data           []float32
	clean          []float64 // without noise and hot pixels, above background
}

func clamp(v, l float64) float64 { return math.Max(-l, math.Min(l, v)) }

// makeSky draws a field of well separated stars which any detection with the settings must find.
func makeSky(g *vk.G, t *vk.T, minWidth float64, hot bool) *sky {
	k := &sky{}
	k.w, k.h = g.Int(40, 320), g.Int(40, 320)
	if g.Chance(1, 10) {
		k.w = g.Int(256, 600)
		t.Class("wider than a grid cell")
	}
	k.noise = g.LogFloat(0.01, 100)
	k.lvl = k.noise * g.Float(-5, 300)
	k.width = g.Float(minWidth, 3)
	k.radius = vk.OneOf(g, 16, 16, 16, 10, 12, 20)
	k.starSig = g.Float(7, 20)
	hfr := 1.2533*k.width*1.3 + 0.5
	maxInOut := (float64(k.radius*k.radius) - hfr*hfr) / (hfr * hfr) / 1.6
	k.inOut = math.Min(10, maxInOut)
	if maxInOut < 10 {
		t.Class("other in/out ratio")
	}
	n := g.Int(0, 20)
	if g.Chance(1, 8) {
		n = 0
	}
	s := g.Stream()
	margin := 3 + 4*k.width
	sep := 1.5*float64(k.radius) + 6*k.width + 4
	minAmp := math.Max(5*k.starSig, 0.4*float64(k.radius*k.radius)/(2*k.width*k.width)/0.08) * k.noise
	border := g.Chance(1, 2) // crowd at the borders
	for try := 0; try < 50*n && len(k.stars) < n; try++ {
		c := src{s.Float(margin, float64(k.w-1)-margin), s.Float(margin, float64(k.h-1)-margin), minAmp * math.Exp(s.Float(0, 4))}
		if border {
			switch s.Int(0, 5) {
			case 0:
				c.x = margin
			case 1:
				c.x = float64(k.w-1) - margin
			case 2:
				c.y = margin
			case 3:
				c.y = float64(k.h-1) - margin
			}
		}
		if s.Int(0, 3) == 0 { // exactly on a pixel or between two
			c.x, c.y = math.Floor(c.x*2)/2, math.Floor(c.y*2)/2
		}
		if c.x < margin-.5 || c.y < margin-.5 || c.x > float64(k.w-1)-margin+.5 || c.y > float64(k.h-1)-margin+.5 {
			continue
		}
		ok := true
		for _, o := range k.stars {
			ok = ok && math.Hypot(c.x-o.x, c.y-o.y) >= sep
		}
		if ok {
			k.stars = append(k.stars, c)
		}
	}
	k.clean = make([]float64, k.w*k.h)
	for _, c := range k.stars {
		r := int(7 * k.width)
		for y := int(c.y) - r; y <= int(c.y)+r+1; y++ {
			for x := int(c.x) - r; x <= int(c.x)+r+1; x++ {
				if x >= 0 && y >= 0 && x < k.w && y < k.h {
					dx, dy := float64(x)-c.x, float64(y)-c.y
					k.clean[y*k.w+x] += c.amp * math.Exp(-(dx*dx+dy*dy)/(2*k.width*k.width))
				}
			}
		}
	}
	k.data = make([]float32, k.w*k.h)
	for i := range k.data {
		k.data[i] = float32(k.lvl + k.clean[i] + k.noise*clamp(s.Norm(), 4.5))
	}
	if hot {
		nh := g.Int(0, 6)
		for try := 0; try < 30*nh && len(k.hot) < nh; try++ {
			x, y := s.Int(0, k.w-1), s.Int(0, k.h-1)
			ok := true
			for _, o := range k.stars {
				ok = ok && math.Hypot(float64(x)-o.x, float64(y)-o.y) >= sep
			}
			for _, i := range k.hot {
				ok = ok && math.Hypot(float64(x-i%k.w), float64(y-i/k.w)) >= 3
			}
			if ok {
				k.hot = append(k.hot, y*k.w+x)
			}
		}
	}
	return k
}

func (k *sky) String() string {
	d := fmt.Sprintf("%dx%d, background %.4g noise %.4g, star width %.2f, radius %d, sigma %.2f, in/out %.2f, stars", k.w, k.h, k.lvl, k.noise, k.width, k.radius, k.starSig, k.inOut)
	for _, s := range k.stars {
		d += fmt.Sprintf(" (%.2f,%.2f: %.3g)", s.x, s.y, s.amp)
	}
	for _, i := range k.hot {
		d += fmt.Sprintf(" hot (%d,%d)", i%k.w, i/k.w)
	}
	return d
}

// verify checks the detections against the stars put in.
func (k *sky) verify(t *vk.T, got []star.Star, avgHFR float32, loc float64) {
	hit := make([]int, len(k.stars))
	flux := make([]float64, len(got))
	var sum float64
	for gi, s := range got {
		best, bd := -1, math.Inf(1)
		for i, c := range k.stars {
			if d := math.Hypot(float64(s.X)-c.x, float64(s.Y)-c.y); d < bd {
				best, bd = i, d
			}
		}
		if !(bd < 3) {
			t.Fail("star %+v is reported, where none is (nearest %.1f px away)", s, bd)
		}
		hit[best]++
		c := k.stars[best]
		if !(bd <= 0.3) {
			t.Fail("star at %.2f,%.2f is reported at %.2f,%.2f", c.x, c.y, s.X, s.Y)
		}
		flux[gi] = c.amp
		ix, iy := int(s.Index)%k.w, int(s.Index)/k.w
		if math.Abs(float64(ix)-c.x) > 0.85 || math.Abs(float64(iy)-c.y) > 0.85 || s.Index < 0 || int(s.Index) >= len(k.data) {
			t.Fail("star at %.2f,%.2f is reported with index %d, that is pixel %d,%d", c.x, c.y, s.Index, ix, iy)
		}
		if s.Value != k.data[s.Index] {
			t.Fail("star at pixel %d,%d of value %g is reported with value %g", ix, iy, k.data[s.Index], s.Value)
		}
		// flux and mean radius within the disc around the central pixel
		var mass, moment, nmass float64
		for y := iy - k.radius; y <= iy+k.radius; y++ {
			for x := ix - k.radius; x <= ix+k.radius; x++ {
				d := math.Hypot(float64(x-ix), float64(y-iy))
				if x < 0 || y < 0 || x >= k.w || y >= k.h || d > float64(k.radius) {
					continue
				}
				v := math.Max(0, float64(k.data[y*k.w+x])-loc)
				mass += v
				moment += v * d
				nmass += k.clean[y*k.w+x]
			}
		}
		if !vk.Close(float64(s.Mass), mass, 0, 1e-3) {
			t.Fail("star at %.2f,%.2f has flux %g within radius %d, reported %g", c.x, c.y, mass, k.radius, s.Mass)
		}
		if !vk.Close(float64(s.HFR), moment/mass, 0, 1e-3) {
			t.Fail("star at %.2f,%.2f has half-flux radius %g, reported %g", c.x, c.y, moment/mass, s.HFR)
		}
		if !vk.Close(mass, 2*math.Pi*k.width*k.width*c.amp, 0, 0.25) {
			t.Fail("flux %g of a star of flux %g (%g)", mass, 2*math.Pi*k.width*k.width*c.amp, nmass)
		}
		fr := 0.1 // noise share of the flux at most
		lo, hi := 1.2533*k.width, 1.2533*k.width*(1-fr)+fr*float64(k.radius)*0.75
		if !(float64(s.HFR) > 0.93*lo-0.05 && float64(s.HFR) < 1.07*hi+0.35) {
			t.Fail("star of width %.2f (half-flux radius %.2f) is reported with %.2f", k.width, lo, s.HFR)
		}
		sum += float64(s.HFR)
	}
	for i, c := range k.stars {
		if hit[i] == 0 {
			t.Fail("star at %.2f,%.2f with amplitude %.3g (%.0f noise sigmas) is not found", c.x, c.y, c.amp, c.amp/k.noise)
		}
		if hit[i] > 1 {
			t.Fail("star at %.2f,%.2f is reported %d times", c.x, c.y, hit[i])
		}
	}
	for i := 1; i < len(flux); i++ {
		for j := 0; j < i; j++ {
			if flux[j] < 0.85*flux[i] {
				t.Fail("star %d of amplitude %g is listed before star %d of amplitude %g", j, flux[j], i, flux[i])
			}
		}
	}
	want := 0.0
	if len(got) > 0 {
		want = sum / float64(len(got))
	}
	if !vk.Close(float64(avgHFR), want, 1e-6, 1e-4) {
		t.Fail("average half-flux radius of the stars is %g, reported %g", want, avgHFR)
	}
}

// diffSigma is the spread of the differences between pixels and their local median.
func diffSigma(d []float32, w int) *stats.Stats {
	h := len(d) / w
	out := make([]float32, 0, len(d))
	var nb []float64
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			nb = nb[:0]
			for j := y - 1; j <= y+1; j++ {
				for i := x - 1; i <= x+1; i++ {
					if i >= 0 && j >= 0 && i < w && j < h {
						nb = append(nb, float64(d[j*w+i]))
					}
				}
			}
			sort.Float64s(nb)
			out = append(out, d[y*w+x]-float32(nb[len(nb)/2]))
		}
	}
	return stats.NewStats(out, int32(w))
}

// flank tells if in some row across the star the brightest pixel is above the detection threshold and differs
// from its local median by less than the limit.
func (k *sky) flank(c src, limit float64) bool {
	var nb []float64
	for y := int(c.y) - 9; y <= int(c.y)+9; y++ {
		if y < 0 || y >= k.h {
			continue
		}
		bx := -1
		for x := int(c.x) - k.radius; x <= int(c.x)+k.radius; x++ {
			if x >= 0 && x < k.w && (bx < 0 || k.data[y*k.w+x] > k.data[y*k.w+bx]) {
				bx = x
			}
		}
		v := float64(k.data[y*k.w+bx])
		if v < k.lvl+1.01*k.starSig*k.noise {
			continue
		}
		nb = nb[:0]
		for j := y - 1; j <= y+1; j++ {
			for i := bx - 1; i <= bx+1; i++ {
				if i >= 0 && j >= 0 && i < k.w && j < k.h {
					nb = append(nb, float64(k.data[j*k.w+i]))
				}
			}
		}
		sort.Float64s(nb)
		if math.Abs(v-nb[len(nb)/2]) < limit {
			return true
		}
	}
	return false
}

func lawDetect(g *vk.G, t *vk.T) {
	k := makeSky(g, t, 1, false)
	t.Desc("%v", k)
	if len(k.stars) == 0 {
		t.Class("no stars")
	}
	scale := k.noise * g.Float(0.85, 1.2)
	loc := k.lvl + k.noise*g.Float(-0.1, 0.1)
	orig := append([]float32{}, k.data...)
	got, _, hfr := star.FindStars(k.data, int32(k.w), float32(loc), float32(scale), float32(k.starSig), 0, float32(k.inOut), int32(k.radius), nil)
	k.verify(t, got, hfr, loc)
	if i, ok := vk.SameBits(orig, k.data); !ok {
		t.Fail("detection changes pixel %d", i)
	}
}

// lawHot: with bad pixel rejection, hot pixels are no stars, and stars are stars.
func lawHot(g *vk.G, t *vk.T) {
	k := makeSky(g, t, 1.6, true)
	bp := g.Float(4, 10)
	st := diffSigma(k.data, k.w)
	sd := float64(st.StdDev())
	own := g.Chance(1, 4) // let the detection estimate the spread itself from random pixels
	f := 1.5
	if own {
		// from one pixel in a hundred, so hot pixels are only told apart safely if many pixels are sampled
		// and few of those sampled can belong to stars or hot pixels
		t.Class("own estimate")
		if len(k.stars) > 0 || len(k.data) < 60000 {
			k.hot = nil
		} else {
			bp = math.Min(bp, 6)
			t.Class("own estimate among hot pixels")
			if len(k.hot) > 3 {
				k.hot = k.hot[:3]
			}
		}
	}
	for _, i := range k.hot {
		k.data[i] += float32(f * (bp*sd + k.starSig*k.noise) * math.Exp(g.Float(0, 3)))
	}
	t.Desc("%v, bad pixel sigma %.2f", k, bp)
	if len(k.hot) == 0 {
		t.Class("no hot pixels")
	}
	// a star whose flanks are too steep for the rejection threshold in every row looks like a bad pixel
	limit := 0.9 * bp * sd
	if own {
		limit = 0.6 * bp * k.noise
		st = nil
	}
	for _, c := range k.stars {
		if !k.flank(c, limit) {
			t.Discard("star too steep for the bad pixel threshold")
		}
	}
	got, _, hfr := star.FindStars(k.data, int32(k.w), float32(k.lvl), float32(k.noise), float32(k.starSig), float32(bp), float32(k.inOut), int32(k.radius), st)
	k.verify(t, got, hfr, k.lvl)
}

func sameStars(t *vk.T, what string, a, b []star.Star, dx, dy, w1, w2 int, mul float64, tol float64) {
	if len(a) != len(b) {
		t.Fail("%s: %d stars instead of %d", what, len(b), len(a))
	}
	used := make([]bool, len(b))
next:
	for _, s := range a {
		for j, r := range b {
			if used[j] || math.Abs(float64(s.X)+float64(dx)-float64(r.X)) > tol || math.Abs(float64(s.Y)+float64(dy)-float64(r.Y)) > tol {
				continue
			}
			if vk.Close(float64(r.Mass), float64(s.Mass)*mul, 0, 2e-3) && vk.Close(float64(r.HFR), float64(s.HFR), 1e-3, 2e-3) {
				used[j] = true
				continue next
			}
		}
		t.Fail("%s: star %+v has no counterpart among %+v", what, s, b)
	}
}

// lawInvariance: offset, brightness scaling and shifting of the field.
func lawInvariance(g *vk.G, t *vk.T) {
	k := makeSky(g, t, 1, false)
	// integer pixel values so that offsets are exact
	q := k.noise / 8
	for i, v := range k.data {
		k.data[i] = float32(math.Round(float64(v) / q))
	}
	loc, scale := float32(math.Round(k.lvl/q)), float32(8)
	sig, io_ := float32(math.Round(k.starSig*4)/4), float32(k.inOut)
	t.Desc("%v", k)
	if len(k.stars) == 0 {
		t.Trivial()
	}
	base, _, _ := star.FindStars(k.data, int32(k.w), loc, scale, sig, 0, io_, int32(k.radius), nil)
	off, mul := float32(g.Int(-2000, 20000)), float32(math.Ldexp(1, g.Int(-10, 10)))
	d := make([]float32, len(k.data))
	for i, v := range k.data {
		d[i] = v + off
	}
	r, _, _ := star.FindStars(d, int32(k.w), loc+off, scale, sig, 0, io_, int32(k.radius), nil)
	sameStars(t, fmt.Sprintf("background raised by %g", off), base, r, 0, 0, k.w, k.w, 1, 0.01)
	for i, v := range k.data {
		d[i] = v * mul
	}
	r, _, _ = star.FindStars(d, int32(k.w), loc*mul, scale*mul, sig, 0, io_, int32(k.radius), nil)
	sameStars(t, fmt.Sprintf("brightness times %g", mul), base, r, 0, 0, k.w, k.w, float64(mul), 0.01)
	// on a larger canvas of background
	l, rr, u, b := g.Int(0, 40), g.Int(0, 40), g.Int(0, 40), g.Int(0, 40)
	w, h := k.w+l+rr, k.h+u+b
	d = make([]float32, w*h)
	for i := range d {
		d[i] = loc
	}
	for y := 0; y < k.h; y++ {
		copy(d[(y+u)*w+l:], k.data[y*k.w:(y+1)*k.w])
	}
	r, _, _ = star.FindStars(d, int32(w), loc, scale, sig, 0, io_, int32(k.radius), nil)
	sameStars(t, fmt.Sprintf("field shifted by %d,%d", l, u), base, r, l, u, k.w, w, 1, 0.01)
	// mirrored along the diagonal
	d = make([]float32, len(k.data))
	for y := 0; y < k.h; y++ {
		for x := 0; x < k.w; x++ {
			d[x*k.h+y] = k.data[y*k.w+x]
		}
	}
	r, _, _ = star.FindStars(d, int32(k.h), loc, scale, sig, 0, io_, int32(k.radius), nil)
	for i := range r {
		r[i].X, r[i].Y = r[i].Y, r[i].X
	}
	sameStars(t, "transposed", base, r, 0, 0, k.w, k.w, 1, 0.05)
}

// lawStep: the processing step with the image's own statistics.
func lawStep(g *vk.G, t *vk.T) {
	k := makeSky(g, t, 1, false)
	for len(k.data) > 0 && float64(len(k.stars))*(12*k.width*k.width+40) > float64(len(k.data))/4 {
		t.Discard("more stars than background")
	}
	stats.LSEstimator = vk.OneOf(g, stats.LSEMedianMAD, stats.LSEIKSS, stats.LSESCMedianQn)
	f := fits.NewImageFromNaxisn([]int32{int32(k.w), int32(k.h)}, append([]float32{}, k.data...))
	f.ID, f.Exposure = 7, 30
	save := g.Chance(1, 3)
	pat := ""
	if save {
		pat = filepath.Join(t.Dir, "stars%d.fits")
		t.Class("saving")
	}
	off := g.Pick(8, 1, 1)
	rad, sig := int32(k.radius), float32(k.starSig)
	switch off {
	case 1:
		rad = 0
	case 2:
		sig = 0
	}
	t.Desc("%v, estimator %d, save %v, off %d", k, stats.LSEstimator, save, off)
	c := ops.NewContext(io.Discard, 1000, stats.LSEstimator)
	r, err := pre.NewOpStarDetect(rad, sig, 0, float32(k.inOut), pat).Apply(f, c)
	if err != nil {
		t.Fail("%v", err)
	}
	if r != f || r.ID != 7 || r.Exposure != 30 {
		t.Fail("the frame is not passed on")
	}
	if i, ok := vk.SameBits(f.Data, k.data); !ok {
		t.Fail("detection changes pixel %d", i)
	}
	if off > 0 {
		t.Class("off")
		if len(f.Stars) > 0 {
			t.Fail("stars although turned off")
		}
		return
	}
	k.verify(t, f.Stars, f.HFR, float64(f.Stats.Location()))
	if !save {
		return
	}
	b, err := os.ReadFile(filepath.Join(t.Dir, "stars7.fits"))
	if err != nil {
		t.Fail("star image: %v", err)
	}
	p, err := fx.Parse(b)
	if err != nil {
		t.Fail("star image: %v", err)
	}
	if len(p.Axes) != 2 || p.Axes[0] != k.w || p.Axes[1] != k.h || p.Bitpix != -32 {
		t.Fail("star image of extent %v with %d bits per pixel", p.Axes, p.Bitpix)
	}
	for y := 0; y < k.h; y++ {
		for x := 0; x < k.w; x++ {
			v := math.Float32frombits(binary.BigEndian.Uint32(p.Raw[4*(y*k.w+x):]))
			in, out := false, true
			discs, level := 0, 0.0
			for _, s := range f.Stars {
				d := math.Hypot(float64(x)-float64(s.X), float64(y)-float64(s.Y))
				in = in || d < 2*float64(s.HFR)-1.5
				out = out && d > 2*float64(s.HFR)+1.5
				if d <= 2*float64(s.HFR)+1.5 {
					discs++
					level = float64(s.Mass) / (math.Pi * 4 * float64(s.HFR) * float64(s.HFR))
				}
			}
			if in && !(v > 0) || out && v != 0 {
				t.Fail("star image is %g at %d,%d", v, x, y)
			}
			if in && discs == 1 && !vk.Close(float64(v), level, 0, 1e-4) {
				t.Fail("star image is %g at %d,%d, the star's flux over the area of its disc is %g", v, x, y, level)
			}
		}
	}
	os.Remove(filepath.Join(t.Dir, "stars7.fits"))
}

// lawCrowded takes fields where stars overlap each other at will. Which ones are reported is not specified, but
// no two of them are as close as the search radius, and each one comes with its true data.
func lawCrowded(g *vk.G, t *vk.T) {
	k := &sky{}
	k.w, k.h = g.Int(20, 600), g.Int(20, 90)
	if g.Bool() {
		k.w, k.h = k.h, k.w
	}
	corner := g.Chance(1, 10)
	if corner {
		k.w, k.h = g.Int(258, 330), g.Int(258, 330)
		t.Class("corner of grid cells")
	}
	k.noise = g.LogFloat(0.01, 100)
	k.lvl = k.noise * g.Float(-5, 300)
	k.radius = g.Int(2, 20)
	k.starSig = g.Float(3, 20)
	k.inOut = g.LogFloat(0.1, 10)
	s := g.Stream()
	n := g.Int(1, 1+k.w*k.h/150)
	k.clean = make([]float64, k.w*k.h)
	for i := 0; i < n; i++ {
		c := src{s.Float(0, float64(k.w)), s.Float(0, float64(k.h)), k.starSig * k.noise * math.Exp(s.Float(0, 5))}
		if s.Int(0, 2) == 0 { // around the edges of grid cells
			c.x = float64(256*s.Int(0, k.w/256)) + s.Norm()*float64(k.radius)
			if k.w < k.h {
				c.x, c.y = s.Float(0, float64(k.w)), float64(256*s.Int(0, k.h/256))+s.Norm()*float64(k.radius)
			}
		}
		if corner && i%2 == 0 {
			c.x, c.y = 256+2*s.Norm()*float64(k.radius), 256+2*s.Norm()*float64(k.radius)
		}
		width := s.Float(0.5, 3)
		r := int(6 * width)
		for y := int(c.y) - r; y <= int(c.y)+r+1; y++ {
			for x := int(c.x) - r; x <= int(c.x)+r+1; x++ {
				if x >= 0 && y >= 0 && x < k.w && y < k.h {
					dx, dy := float64(x)-c.x, float64(y)-c.y
					k.clean[y*k.w+x] += c.amp * math.Exp(-(dx*dx+dy*dy)/(2*width*width))
				}
			}
		}
	}
	k.data = make([]float32, k.w*k.h)
	for i := range k.data {
		k.data[i] = float32(k.lvl + k.clean[i] + k.noise*clamp(s.Norm(), 4.5))
	}
	before := append([]float32{}, k.data...)
	got, _, avg := star.FindStars(k.data, int32(k.w), float32(k.lvl), float32(k.noise), float32(k.starSig), 0, float32(k.inOut), int32(k.radius), nil)
	t.Desc("%dx%d, %d stars drawn at random, background %.4g noise %.4g, radius %d, sigma %.2f, in/out %.2f: %d detections", k.w, k.h, n, k.lvl, k.noise, k.radius, k.starSig, k.inOut, len(got))
	if len(got) < 2 {
		t.Trivial()
	}
	if len(got) > 30 {
		t.Class("more than 30 detections")
	}
	if i, ok := vk.SameBits(before, k.data); !ok {
		t.Fail("pixel %d changed from %g to %g", i, before[i], k.data[i])
	}
	sum := 0.0
	for i, a := range got {
		for _, b := range got[:i] {
			dx, dy := float64(a.X)-float64(b.X), float64(a.Y)-float64(b.Y)
			if dx*dx+dy*dy < float64(k.radius*k.radius)-0.01 {
				t.Fail("two stars are reported at %.2f,%.2f and %.2f,%.2f, within the search radius %d", a.X, a.Y, b.X, b.Y, k.radius)
			}
		}
		if a.Index < 0 || int(a.Index) >= len(k.data) {
			t.Fail("star %+v has an index outside the image", a)
		}
		ix, iy := int(a.Index)%k.w, int(a.Index)/k.w
		if math.Abs(float64(ix)-float64(a.X)) > 0.55 || math.Abs(float64(iy)-float64(a.Y)) > 0.55 {
			t.Fail("star at %.2f,%.2f is reported with index %d, that is pixel %d,%d", a.X, a.Y, a.Index, ix, iy)
		}
		if a.Value != k.data[a.Index] {
			t.Fail("star at pixel %d,%d of value %g is reported with value %g", ix, iy, k.data[a.Index], a.Value)
		}
		var mass, moment float64
		for y := iy - k.radius; y <= iy+k.radius; y++ {
			for x := ix - k.radius; x <= ix+k.radius; x++ {
				d := math.Hypot(float64(x-ix), float64(y-iy))
				if x < 0 || y < 0 || x >= k.w || y >= k.h || d > float64(k.radius) {
					continue
				}
				v := math.Max(0, float64(k.data[y*k.w+x]-float32(k.lvl)))
				mass += v
				moment += v * d
			}
		}
		if !vk.Close(float64(a.Mass), mass, 0, 1e-3) {
			t.Fail("star at %.2f,%.2f has flux %g within radius %d, reported %g", a.X, a.Y, mass, k.radius, a.Mass)
		}
		if !vk.Close(float64(a.HFR), moment/mass, 0, 1e-3) {
			t.Fail("star at %.2f,%.2f has half-flux radius %g, reported %g", a.X, a.Y, moment/mass, a.HFR)
		}
		sum += float64(a.HFR)
	}
	if want := sum / math.Max(1, float64(len(got))); !vk.Close(float64(avg), want, 1e-6, 1e-4) {
		t.Fail("average half-flux radius of the stars is %g, reported %g", want, avg)
	}
}

func main() {
	vk.Main("S02", []string{"round stars of Gaussian profile with a width (sigma) of 1 to 3 pixels, at least five times above the detection threshold, one and a half search radii apart and not cut by the border", "mono images", "with bad pixel rejection, a width of at least 1.6 pixels"},
		&vk.Law{Name: "detect", Quick: 4000, Thorough: 200000, Rule: "noisy fields of 0 to 20 stars, many next to the borders: each star once, centroid, index, flux, half-flux radius, order and nothing else; all non-trivial", Run: lawDetect},
		&vk.Law{Name: "hot", Quick: 2000, Thorough: 100000, Rule: "the same with up to 6 hot pixels and bad pixel rejection, with given or own estimate of the spread; all non-trivial", Run: lawHot},
		&vk.Law{Name: "invariance", Quick: 1500, Thorough: 60000, Rule: "background offset, brightness factor, shift on a larger canvas and transposition leave the detections; trivial without stars", Run: lawInvariance},
		&vk.Law{Name: "crowded", Quick: 1500, Thorough: 60000, Rule: "fields with stars overlapping at random, up to 600 pixels wide or tall: no two detections within the search radius of each other, each with its index, value, flux and half-flux radius, and the average of the latter; trivial with less than two detections", Run: lawCrowded},
		&vk.Law{Name: "step", Quick: 1500, Thorough: 60000, Rule: "the star detection step with measured statistics, turned off or saving the star image; all non-trivial", Run: lawStep},
	)
}
