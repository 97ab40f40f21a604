// C02: bad pixel correction, mono and on raw mosaics.
package main

import (
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

func ctx() *ops.Context { return ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev) }

var cfas = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

// colour of position x,y under a filter array named by its first two rows
func colour(cfa string, x, y int) byte { return cfa[(y&1)*2+x&1] }

func sky(g *vk.G, w, h int) ([]float32, int, string) {
	s := g.Stream()
	d := make([]float32, w*h)
	kind := g.Pick(4, 2, 1, 1)
	lvl, noise := g.LogFloat(0.01, 3000), g.LogFloat(1e-4, 0.2)
	gx, gy := s.Float(-1, 1)/float64(w), s.Float(-1, 1)/float64(h)
	name := []string{"noisy gradient", "few values", "uniform", "checkered by colour"}[kind]
	for i := range d {
		x, y := i%w, i/w
		switch kind {
		case 0:
			d[i] = float32(lvl * (1 + gx*float64(x) + gy*float64(y) + noise*s.Norm()))
		case 1:
			d[i] = float32(s.Int(0, 3))
		case 2:
			d[i] = float32(lvl)
		case 3:
			d[i] = float32(lvl*float64(1+x&1+2*(y&1)) + lvl*noise*s.Norm())
		}
	}
	k := g.Size(0, 1+w*h/8)
	for j := 0; j < k; j++ {
		i := s.Int(0, w*h-1)
		switch s.Int(0, 3) {
		case 0: // pair or cluster
			if i+1 < w*h {
				d[i+1] = float32(lvl * s.Float(3, 20))
			}
			fallthrough
		case 1:
			d[i] = float32(lvl * s.Float(2, 60))
		case 2:
			d[i] = 0
		case 3: // border
			i = vk.OneOf(g, s.Int(0, w-1), (h-1)*w+s.Int(0, w-1), s.Int(0, h-1)*w, s.Int(0, h-1)*w+w-1)
			d[i] = float32(lvl * s.Float(2, 60))
		}
	}
	return d, k, name
}

func sigmas(g *vk.G) (float32, float32) {
	return g.F32(0.3, 6), g.F32(0.3, 8)
}

// judge compares one selected pixel. nb are the indices of its neighbourhood including itself, empty if the pixel is not filtered.
// It returns 1 if the pixel must be replaced, 0 if it must not, -1 if undecided by rounding.
func verdict(delta, lo, hi float64) int {
	tol := 1e-4*math.Max(math.Abs(lo), math.Abs(hi)) + 1e-30
	switch {
	case math.Abs(delta-lo) <= tol || math.Abs(delta-hi) <= tol:
		return -1
	case delta < lo || delta > hi:
		return 1
	}
	return 0
}

func std(d []float64) float64 {
	m := 0.0
	for _, v := range d {
		m += v
	}
	m /= float64(len(d))
	q := 0.0
	for _, v := range d {
		q += (v - m) * (v - m)
	}
	return math.Sqrt(q / float64(len(d)))
}

func lawMono(g *vk.G, t *vk.T) {
	w, h := g.Size(1, 6)*g.Int(1, 8), g.Size(1, 6)*g.Int(1, 7)
	w, h = g.Large(w, h, 300, 120000)
	d, k, kind := sky(g, w, h)
	lo, hi := sigmas(g)
	off := g.Chance(1, 10)
	if off {
		if g.Bool() {
			lo = 0
		} else {
			hi = 0
		}
	}
	var deb *pre.OpDebayer
	if g.Bool() {
		deb = pre.NewOpDebayer("", "RGGB")
	}
	t.Desc("%dx%d %s with %d hits, sigma %g %g", w, h, kind, k, lo, hi)
	t.Class("%s", kind)
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32{}, d...))
	r, err := pre.NewOpBadPixel(lo, hi, deb).Apply(f, ctx())
	if err != nil {
		t.Fail("%v", err)
	}
	if off {
		t.Class("off")
		if i, ok := vk.SameBits(r.Data, d); !ok {
			t.Fail("turned off, but pixel %d changed", i)
		}
		return
	}
	diff := make([]float64, len(d))
	nbs := make([][]int, len(d))
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			var nb []int
			var v []float32
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					i := (y+dy)*w + x + dx
					nb = append(nb, i)
					v = append(v, d[i])
				}
			}
			i := y*w + x
			nbs[i] = nb
			diff[i] = float64(d[i] - float32(vk.MedianOf(v)))
		}
	}
	sd := std(diff)
	if sd == 0 {
		t.Trivial()
	}
	if f.MedianDiffStats == nil || !vk.Close(float64(f.MedianDiffStats.StdDev()), sd, 0, 1e-3) {
		t.Fail("the spread of differences from the local median is not reported, want %g", sd)
	}
	replaced := 0
	for i, v := range r.Data {
		ver := 0
		if nbs[i] != nil {
			ver = verdict(diff[i], -float64(lo)*sd, float64(hi)*sd)
		}
		same := math.Float32bits(v) == math.Float32bits(d[i])
		if ver == 0 && !same {
			t.Fail("pixel %d,%d deviates by %g of %g, but is changed from %g to %g", i%w, i/w, diff[i], sd, d[i], v)
		}
		if ver == 0 || ver == -1 && same {
			continue
		}
		replaced++
		// Neighbours that are bad themselves may or may not have been repaired before.
		var orig, rep []float32
		for _, j := range nbs[i] {
			orig = append(orig, d[j])
			if j < i {
				rep = append(rep, r.Data[j])
			} else {
				rep = append(rep, d[j])
			}
		}
		if float64(v) != vk.MedianOf(orig) && float64(v) != vk.MedianOf(rep) {
			t.Fail("pixel %d,%d deviates by %g of %g, becomes %g instead of its local median %g", i%w, i/w, diff[i], sd, v, vk.MedianOf(orig))
		}
	}
	if replaced == 0 {
		t.Class("nothing to replace")
	} else {
		t.Class("replacements")
	}
}

var ring3 = [][2]int{{-2, -2}, {0, -2}, {2, -2}, {-2, 0}, {0, 0}, {2, 0}, {-2, 2}, {0, 2}, {2, 2}}
var ringG = [][2]int{{0, -2}, {-1, -1}, {1, -1}, {-2, 0}, {0, 0}, {2, 0}, {-1, 1}, {1, 1}, {0, 2}}

func lawBayer(g *vk.G, t *vk.T) {
	w, h := g.Size(1, 8)*g.Int(1, 5), g.Size(1, 9)*g.Int(1, 4)
	w, h = g.Large(w, h, 300, 120000)
	d, k, kind := sky(g, w, h)
	lo, hi := sigmas(g)
	cfa := vk.OneOf(g, cfas...)
	ch := vk.OneOf(g, "R", "G", "B")
	spell := func(s string) string {
		if g.Chance(1, 4) {
			b := []byte(s)
			for i := range b {
				b[i] |= 0x20
			}
			return string(b)
		}
		return s
	}
	t.Desc("%dx%d %s with %d hits, sigma %g %g, %s of %s", w, h, kind, k, lo, hi, ch, cfa)
	t.Class("%s of %s", ch, cfa)
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32{}, d...))
	r, err := pre.NewOpBadPixel(lo, hi, pre.NewOpDebayer(spell(ch), spell(cfa))).Apply(f, ctx())
	if err != nil {
		t.Fail("%v", err)
	}
	ring := ring3
	if ch == "G" {
		ring = ringG
	}
	meds := make([]float64, len(d))
	diff := make([]float64, len(d))
	var ds []float64
	for i := range d {
		x, y := i%w, i/w
		if colour(cfa, x, y) != ch[0] {
			continue
		}
		var v []float32
		for _, o := range ring {
			if xx, yy := x+o[0], y+o[1]; xx >= 0 && yy >= 0 && xx < w && yy < h {
				v = append(v, d[yy*w+xx])
			}
		}
		meds[i] = float64(float32(vk.MedianOf(v)))
		diff[i] = float64(d[i]) - meds[i]
		ds = append(ds, diff[i])
	}
	sd := 0.0
	if len(ds) > 0 {
		sd = std(ds)
	}
	if sd == 0 {
		t.Trivial()
	}
	minN, maxN := 0, 0
	for i, v := range r.Data {
		same := math.Float32bits(v) == math.Float32bits(d[i])
		if colour(cfa, i%w, i/w) != ch[0] {
			if !same {
				t.Fail("pixel %d,%d of another colour changed from %g to %g", i%w, i/w, d[i], v)
			}
			continue
		}
		ver := verdict(diff[i], -float64(lo)*sd, float64(hi)*sd)
		switch ver {
		case 1:
			minN++
			maxN++
		case -1:
			maxN++
		}
		if ver == 0 && !same {
			t.Fail("pixel %d,%d deviates by %g of %g, but is changed from %g to %g", i%w, i/w, diff[i], sd, d[i], v)
		}
		if ver == 1 && !vk.Close(float64(v), meds[i], 0, 2e-7) || ver == -1 && !same && !vk.Close(float64(v), meds[i], 0, 2e-7) {
			t.Fail("pixel %d,%d deviates by %g of %g, becomes %g instead of its local median %g", i%w, i/w, diff[i], sd, v, meds[i])
		}
	}
	n, err := pre.CosmeticCorrectionBayer(append([]float32{}, d...), int32(w), ch, cfa, lo, hi)
	if err != nil {
		t.Fail("%v", err)
	}
	if int(n) < minN || int(n) > maxN {
		t.Fail("%d corrections reported, there are %d to %d", n, minN, maxN)
	}
	if maxN > 0 {
		t.Class("replacements")
	}
}

func lawRefuse(g *vk.G, t *vk.T) {
	ch, cfa := vk.OneOf(g, "R", "G", "B"), vk.OneOf(g, cfas...)
	switch g.Int(0, 1) {
	case 0:
		ch = vk.OneOf(g, "X", "RGB", " R", "L", "red")
	case 1:
		cfa = vk.OneOf(g, "RGB", "XTRANS", "RGGBX", "BGRG", "RGBG")
	}
	t.Desc("channel %q array %q", ch, cfa)
	f := fits.NewImageFromNaxisn([]int32{6, 6}, nil)
	if _, err := pre.NewOpBadPixel(3, 5, pre.NewOpDebayer(ch, cfa)).Apply(f, ctx()); err == nil {
		t.Fail("bad pixel correction accepts channel %q array %q", ch, cfa)
	}
	if _, err := pre.NewOpDebayer(ch, cfa).Apply(f, ctx()); err == nil {
		t.Fail("debayering accepts channel %q array %q", ch, cfa)
	}
}

func main() {
	vk.Main("C02", []string{"mono frames: the outermost rows and columns have no full neighbourhood and count as not deviating", "decisions closer to a threshold than 1e-4 of it count as undecided"},
		&vk.Law{Name: "mono", Quick: 20000, Thorough: 1000000, Rule: "1..48 x 1..40 images (noisy gradient, few values, uniform, checkered) with hot, cold, clustered and border hits; every pixel is judged against an independent 3x3 median and the spread of the differences; non-trivial if that spread is not zero", Run: lawMono},
		&vk.Law{Name: "bayer", Quick: 20000, Thorough: 1000000, Rule: "the same on raw mosaics for each filter array and channel, with the same-colour neighbourhood; other colours must stay bit-identical, and the reported count must be right; non-trivial if the spread is not zero", Run: lawBayer},
		&vk.Law{Name: "refusals", Quick: 500, Thorough: 5000, Rule: "unknown channels and filter arrays are refused; all non-trivial", Run: lawRefuse},
	)
}
