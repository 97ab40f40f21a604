// C04: scaling, offset and binning.
package main

import (
	"io"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

func ctx() *ops.Context { return ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev) }

func image(g *vk.G, maxW, maxH int) (*fits.Image, int, int, int) {
	w, h, p := g.Size(1, maxW), g.Size(1, maxH), 1
	w, h = g.Large(w, h, 300, 200000)
	nx := []int32{int32(w), int32(h)}
	if g.Chance(1, 4) {
		p = g.Int(1, 4)
		nx = append(nx, int32(p))
	}
	n := w * h * p
	d := make([]float32, n)
	s := g.Stream()
	lvl := g.LogFloat(1e-3, 1e5)
	kind := g.Pick(3, 1, 1)
	for i := range d {
		switch kind {
		case 0:
			d[i] = float32(lvl * s.Float(-0.2, 1))
		case 1:
			d[i] = float32(i % 17)
		case 2:
			d[i] = float32(lvl)
		}
	}
	f := fits.NewImageFromNaxisn(nx, d)
	f.ID, f.FileName, f.Exposure = g.Int(0, 99), "light.fits", g.F32(0, 600)
	return f, w, h, p
}

func statsMatch(t *vk.T, f *fits.Image, what string) {
	mn, mx, sum := math.Inf(1), math.Inf(-1), 0.0
	for _, v := range f.Data {
		mn, mx, sum = math.Min(mn, float64(v)), math.Max(mx, float64(v)), sum+float64(v)
	}
	mean := sum / float64(len(f.Data))
	ext := math.Max(math.Abs(mn), math.Abs(mx))
	if !vk.Close(float64(f.Stats.Min()), mn, 1e-5*ext, 0) || !vk.Close(float64(f.Stats.Max()), mx, 1e-5*ext, 0) || !vk.Close(float64(f.Stats.Mean()), mean, 1e-3*ext, 0) {
		t.Fail("%s: statistics report min %g mean %g max %g, the pixels have %g %g %g", what, f.Stats.Min(), f.Stats.Mean(), f.Stats.Max(), mn, mean, mx)
	}
}

func lawScale(g *vk.G, t *vk.T) {
	f, w, h, p := image(g, 40, 40)
	sc := vk.OneOf(g, 1, 0, -1, 0.5, 2, g.F32(-10, 10), float32(g.LogFloat(1e-5, 1e5)))
	of := vk.OneOf(g, 0, 1, -1, g.F32(-1000, 1000), g.F32(-1, 1))
	t.Desc("%dx%dx%d scale %g offset %g", w, h, p, sc, of)
	if sc == 1 && of == 0 {
		t.Class("neutral")
	}
	if g.Bool() {
		f.Stats.Mean()
		f.Stats.StdDev()
	}
	orig := append([]float32{}, f.Data...)
	r, err := pre.NewOpScaleOffset(sc, of).Apply(f, ctx())
	if err != nil {
		t.Fail("%v", err)
	}
	if len(r.Data) != len(orig) {
		t.Fail("size changed")
	}
	for i, v := range r.Data {
		want := float64(orig[i])*float64(sc) + float64(of)
		if !vk.Close(float64(v), want, 3e-7*(math.Abs(float64(orig[i])*float64(sc))+math.Abs(float64(of))), 3e-7) {
			t.Fail("pixel %d: %g becomes %g, want %g", i, orig[i], v, want)
		}
		if sc == 1 && of == 0 && math.Float32bits(v) != math.Float32bits(orig[i]) {
			t.Fail("neutral step changes pixel %d from %g to %g", i, orig[i], v)
		}
	}
	statsMatch(t, r, "after scaling")
}

func lawBin(g *vk.G, t *vk.T) {
	f, w, h, p := image(g, 60, 60)
	b := g.Size(0, 12)
	t.Desc("%dx%dx%d (%d axes) binned by %d", w, h, p, len(f.Naxisn), b)
	t.Class("planes %d", p)
	if b < 2 {
		t.Class("no-op")
	}
	orig, id, ex := append([]float32{}, f.Data...), f.ID, f.Exposure
	axes := len(f.Naxisn)
	r, err := pre.NewOpBin(int32(b)).Apply(f, ctx())
	if b > 1 && (w < b || h < b) {
		t.Class("too small")
		if err == nil {
			t.Fail("an image smaller than one bin yields %v", r.Naxisn)
		}
		return
	}
	if err != nil {
		t.Fail("%v", err)
	}
	if b < 2 {
		if i, ok := vk.SameBits(r.Data, orig); !ok || len(r.Data) != len(orig) || int(r.Naxisn[0]) != w || int(r.Naxisn[1]) != h {
			t.Fail("binning by %d changes the image, e.g. pixel %d", b, i)
		}
		return
	}
	bw, bh := w/b, h/b
	if len(r.Naxisn) != axes || int(r.Naxisn[0]) != bw || int(r.Naxisn[1]) != bh || axes == 3 && int(r.Naxisn[2]) != p {
		t.Fail("dimensions %v, want %d x %d x %d", r.Naxisn, bw, bh, p)
	}
	if len(r.Data) != bw*bh*p || int(r.Pixels) != len(r.Data) {
		t.Fail("%d pixels, %d announced, want %d", len(r.Data), r.Pixels, bw*bh*p)
	}
	if r.ID != id || r.Exposure != ex || r.FileName != "light.fits" {
		t.Fail("identification or exposure lost: %d %q %g", r.ID, r.FileName, r.Exposure)
	}
	for z := 0; z < p; z++ {
		for y := 0; y < bh; y++ {
			for x := 0; x < bw; x++ {
				sum, mag := 0.0, 0.0
				for dy := 0; dy < b; dy++ {
					for dx := 0; dx < b; dx++ {
						v := float64(orig[z*w*h+(y*b+dy)*w+x*b+dx])
						sum += v
						mag += math.Abs(v)
					}
				}
				k := 1 / float64(b*b)
				if got := float64(r.Data[(z*bh+y)*bw+x]); !vk.Close(got, sum*k, 1e-5*mag*k+1e-30, 0) {
					t.Fail("plane %d bin %d,%d is %g, the mean of its block is %g", z, x, y, got, sum*k)
				}
			}
		}
	}
	statsMatch(t, r, "after binning")
}

// lawChannels applies the per-channel operations, and normalisation, directly to a colour image.
func lawChannels(g *vk.G, t *vk.T) {
	w, h := g.Size(1, 40), g.Size(1, 40)
	w, h = g.Large(w, h, 200, 30000)
	n := w * h
	d := make([]float32, 3*n)
	s := g.Stream()
	lo, hi := g.Float(-0.5, 0.3), g.Float(0.5, 1.5)
	for i := range d {
		d[i] = float32(s.Float(lo, hi))
	}
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 3}, append([]float32{}, d...))
	if g.Bool() {
		f.Stats.Mean()
		f.Stats.StdDev()
	}
	var sc, of [3]float64
	sc = [3]float64{1, 1, 1}
	mn, mx := math.Inf(-1), math.Inf(1)
	val := func(lo, hi float64) float32 { return vk.OneOf(g, 0, 1, g.F32(lo, hi)) }
	set := func(ch int, a, b float32) (float32, float32) {
		sc[ch], of[ch] = float64(a), float64(b)
		return a, b
	}
	what := ""
	switch g.Pick(1, 1, 1, 1, 1) {
	case 0:
		ch := g.Int(0, 2)
		a, b := set(ch, val(-3, 3), val(-1, 1))
		what = "ApplyScaleOffsetToChannel"
		f.ApplyScaleOffsetToChannel(ch, a, b)
	case 1:
		_, r := set(0, 1, val(-1, 1))
		_, gr := set(1, 1, val(-1, 1))
		_, b := set(2, 1, val(-1, 1))
		what = "OffsetRGB"
		f.OffsetRGB(r, gr, b)
	case 2:
		r, _ := set(0, val(0, 3), 0)
		gr, _ := set(1, val(0, 3), 0)
		b, _ := set(2, val(0, 3), 0)
		mx = 1
		what = "ScaleRGB"
		f.ScaleRGB(r, gr, b)
	case 3:
		r, ro := set(0, val(0, 3), val(-1, 1))
		gr, gro := set(1, val(0, 3), val(-1, 1))
		b, bo := set(2, val(0, 3), val(-1, 1))
		mn, mx = 0, 1
		what = "ScaleOffsetClampRGB"
		f.ScaleOffsetClampRGB(r, ro, gr, gro, b, bo)
	case 4:
		dmin, dmax := float64(d[0]), float64(d[0])
		for _, v := range d {
			dmin, dmax = math.Min(dmin, float64(v)), math.Max(dmax, float64(v))
		}
		if dmax-dmin < 0.1 {
			t.Trivial()
			return
		}
		for ch := range sc {
			sc[ch], of[ch] = 1/(dmax-dmin), -dmin/(dmax-dmin)
		}
		what = "Normalize"
		f.Normalize()
	}
	t.Desc("%dx%d %s scale %g offset %g", w, h, what, sc, of)
	t.Class("%s", what)
	for i, v := range f.Data {
		ch := i / n
		want := math.Max(mn, math.Min(mx, float64(d[i])*sc[ch]+of[ch]))
		if !vk.Close(float64(v), want, 1e-5*(1+math.Abs(sc[ch])), 1e-5) {
			t.Fail("%s: channel %d pixel %d: %g becomes %g, want %g", what, ch, i-ch*n, d[i], v, want)
		}
	}
	statsMatch(t, f, what)
}

// lawBlackWhite sets the black and white points to clip a given share of the pixels.
func lawBlackWhite(g *vk.G, t *vk.T) {
	w, h, p := g.Size(1, 60), g.Size(1, 60), vk.OneOf(g, 1, 3)
	w, h = g.Large(w, h, 400, 100000)
	nx := []int32{int32(w), int32(h)}
	if p == 3 {
		nx = append(nx, 3)
	}
	d := make([]float32, w*h*p)
	s := g.Stream()
	lo := g.LogFloat(0.01, 1000)
	hi, gm := lo*g.LogFloat(1.1, 10), g.Float(0.5, 3)
	for i := range d {
		d[i] = float32(lo + (hi-lo)*math.Pow(s.Float(0, 1), gm))
	}
	bp, wp := vk.OneOf(g, 0, g.F32(0, 5), g.F32(0, 45)), vk.OneOf(g, 0, g.F32(0, 5), g.F32(0, 45))
	t.Desc("%dx%dx%d values %g..%g, black %g%% white %g%%", w, h, p, lo, hi, bp, wp)
	t.Class("beyond 65536 pixels %v", len(d) > 65536)
	o := append([]float32{}, d...)
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	// one pixel more or less due to rounding, and values are told apart up to the resolution of the histogram
	at := func(i int) float64 { return float64(o[max(0, min(len(o)-1, i))]) }
	res := 3 * (at(len(o)-1) - at(0)) / 65535
	k := int(float64(bp) * 0.01 * float64(len(o)))
	b1, b2 := at(k-1)-res, at(k+1)+res
	k = len(o) - 1 - int(float64(wp)*0.01*float64(len(o)))
	w1, w2 := at(k-1)-res, at(k+1)+res
	if !(w1-b2 > 100*res) {
		t.Trivial()
		return
	}
	f := fits.NewImageFromNaxisn(nx, append([]float32{}, d...))
	if g.Bool() {
		f.Stats.Mean()
	}
	f.SetBlackWhite(bp, wp, io.Discard)
	for i, v := range f.Data {
		clamp := func(x float64) float64 { return math.Max(0, math.Min(1, x)) }
		x := float64(d[i])
		mn, mx := clamp((x-b2)/(w2-b2)), clamp((x-b1)/(w1-b1))
		if x > w1 {
			mn, mx = clamp((x-b2)/(w2-b2)), 1
		}
		if !(float64(v) >= mn-1e-4 && float64(v) <= mx+1e-4) {
			t.Fail("pixel %d: %g becomes %g, want %g to %g", i, x, v, mn, mx)
		}
	}
	statsMatch(t, f, "SetBlackWhite")
}

func main() {
	vk.Main("C04", nil,
		&vk.Law{Name: "scale-offset", Quick: 40000, Thorough: 2000000, Rule: "mono and colour images up to 40x40, neutral, negative, zero and extreme factors; every pixel and the reported min, mean and max; all non-trivial", Run: lawScale},
		&vk.Law{Name: "channels", Quick: 20000, Thorough: 1000000, Rule: "per-channel scaling, offset, clamping and normalisation of colour images up to 40x40: every pixel of every channel and the statistics; trivial if there is no range to normalise", Run: lawChannels},
		&vk.Law{Name: "blackwhite", Quick: 3000, Thorough: 100000, Rule: "images up to 60x60, and occasionally beyond 65536 pixels, with smooth value distributions: black and white points set to clip 0..45% of the pixels each; every pixel against the sorted values; trivial if the points nearly coincide", Run: lawBlackWhite},
		&vk.Law{Name: "bin", Quick: 40000, Thorough: 2000000, Rule: "mono and colour images up to 60x60 binned by 0..12: dimensions, every bin the mean of its block in its plane, no-op for 0 and 1, refusal if no bin fits; all non-trivial", Run: lawBin},
	)
}
