// C03: debayering.
package main

import (
	"io"
	"math"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

func ctx() *ops.Context { return ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev) }

var cfas = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

func colour(cfa string, x, y int) byte { return cfa[(y&1)*2+x&1] }

// origin of the first whole RGGB cell
func origin(cfa string) (int, int) {
	for i := 0; i < 4; i++ {
		if cfa[i] == 'R' {
			return i & 1, i >> 1
		}
	}
	panic(cfa)
}

func law(g *vk.G, t *vk.T) {
	w, h := g.Size(1, 8)*g.Int(1, 5), g.Size(1, 9)*g.Int(1, 4)
	w, h = g.Large(w, h, 300, 200000)
	cfa := vk.OneOf(g, cfas...)
	ch := vk.OneOf(g, "R", "G", "B")
	s := g.Stream()
	d := make([]float32, w*h)
	kind := g.Pick(3, 2, 2)
	lvl := g.LogFloat(0.01, 60000)
	gx, gy := s.Float(-1, 1), s.Float(-1, 1)
	for i := range d {
		c := float64(colour(cfa, i%w, i/w) & 7)
		switch kind {
		case 0:
			d[i] = float32(lvl * s.Unit())
		case 1: // one value per colour
			d[i] = float32(lvl * c)
		case 2: // gradient
			d[i] = float32(lvl * (c*10 + gx*float64(i%w) + gy*float64(i/w)))
		}
	}
	name := []string{"random", "uniform colours", "gradient"}[kind]
	t.Desc("%dx%d %s, %s of %s", w, h, name, ch, cfa)
	t.Class("%s of %s", ch, cfa)
	ox, oy := origin(cfa)
	aw, ah := (w-ox)&^1, (h-oy)&^1
	channel, array := ch, cfa // names in lower case mean the same
	if g.Chance(1, 4) {
		channel = strings.ToLower(ch)
	}
	if g.Chance(1, 4) {
		array = strings.ToLower(cfa)
	}
	run := func(d []float32) (*fits.Image, error) {
		f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32{}, d...))
		f.ID, f.Exposure = 7, 30
		if g.Bool() {
			f.Stats.Mean()
		}
		return pre.NewOpDebayer(channel, array).Apply(f, ctx())
	}
	r, err := run(d)
	if aw <= 0 || ah <= 0 {
		t.Trivial()
		if err == nil {
			t.Fail("no whole filter cell, but the result is %v", r.Naxisn)
		}
		return
	}
	if err != nil {
		t.Fail("%v", err)
	}
	if int(r.Naxisn[0]) != aw || int(r.Naxisn[1]) != ah || len(r.Data) != aw*ah || int(r.Pixels) != aw*ah || r.ID != 7 || r.Exposure != 30 {
		t.Fail("result is %v with %d pixels (ID %d exposure %g), want %dx%d (ID 7 exposure 30)", r.Naxisn, len(r.Data), r.ID, r.Exposure, aw, ah)
	}
	at := func(x, y int) (float64, bool) {
		if x < 0 || y < 0 || x >= w || y >= h {
			return 0, false
		}
		return float64(d[y*w+x]), true
	}
	scale := 0.0
	for _, v := range d {
		scale = math.Max(scale, math.Abs(float64(v)))
	}
	sum, mn := 0.0, math.Inf(1)
	for i, v := range r.Data {
		x, y := i%aw+ox, i/aw+oy
		got := float64(v)
		sum += got
		mn = math.Min(mn, got)
		if colour(cfa, x, y) == ch[0] {
			if v != d[y*w+x] {
				t.Fail("the sample at %d,%d is %g, becomes %g", x, y, d[y*w+x], v)
			}
			continue
		}
		// nearest samples of the colour: along the row or column, or diagonal
		var near []float64
		full := true
		add := func(offs ...[2]int) {
			for _, o := range offs {
				if v, ok := at(x+o[0], y+o[1]); ok {
					near = append(near, v)
				} else {
					full = false
				}
			}
		}
		cx := func(dx, dy int) bool { return colour(cfa, (x+dx)&1, (y+dy)&1) == ch[0] }
		switch {
		case cx(1, 0) && cx(0, 1):
			add([2]int{1, 0}, [2]int{-1, 0}, [2]int{0, 1}, [2]int{0, -1})
		case cx(1, 0):
			add([2]int{1, 0}, [2]int{-1, 0})
		case cx(0, 1):
			add([2]int{0, 1}, [2]int{0, -1})
		default:
			add([2]int{1, 1}, [2]int{-1, 1}, [2]int{1, -1}, [2]int{-1, -1})
		}
		lo, hi, m := math.Inf(1), math.Inf(-1), 0.0
		for _, v := range near {
			lo, hi, m = math.Min(lo, v), math.Max(hi, v), m+v/float64(len(near))
		}
		tol := 1e-6 * math.Max(math.Abs(lo), math.Abs(hi))
		if got < lo-tol || got > hi+tol {
			t.Fail("%d,%d becomes %g, beyond the nearest samples %v", x, y, got, near)
		}
		if full && !vk.Close(got, m, tol, 0) {
			t.Fail("%d,%d becomes %g, the average of the nearest samples %v is %g", x, y, got, near, m)
		}
	}
	if !vk.Close(float64(r.Stats.Mean()), sum/float64(len(r.Data)), 1e-4*scale, 0) || !vk.Close(float64(r.Stats.Min()), mn, 1e-6*scale, 0) {
		t.Fail("statistics report min %g mean %g, the pixels have %g %g", r.Stats.Min(), r.Stats.Mean(), mn, sum/float64(len(r.Data)))
	}
	// other colours have no influence
	e := append([]float32{}, d...)
	for i := range e {
		if colour(cfa, i%w, i/w) != ch[0] {
			e[i] = float32(lvl * s.Float(-5, 5))
		}
	}
	r2, err := run(e)
	if err != nil {
		t.Fail("%v", err)
	}
	if i, ok := vk.SameBits(r.Data, r2.Data); !ok {
		t.Fail("%d,%d depends on other colours: %g and %g", i%aw, i/aw, r.Data[i], r2.Data[i])
	}
}

func lawOff(g *vk.G, t *vk.T) {
	w, h := g.Size(1, 20), g.Size(1, 20)
	d := make([]float32, w*h)
	for i := range d {
		d[i] = g.F32(0, 1)
	}
	ch, cfa := "", vk.OneOf(g, "", "RGGB", "BGGR")
	if cfa == "" && g.Bool() {
		ch = "G"
	}
	t.Desc("%dx%d channel %q array %q", w, h, ch, cfa)
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32{}, d...))
	r, err := pre.NewOpDebayer(ch, cfa).Apply(f, ctx())
	if err != nil {
		t.Fail("%v", err)
	}
	if i, ok := vk.SameBits(r.Data, d); !ok || int(r.Naxisn[0]) != w || int(r.Naxisn[1]) != h {
		t.Fail("turned off, but the image changes at %d", i)
	}
}

func main() {
	vk.Main("C03", []string{"the frame is cropped to the whole 2x2 filter cells that start with the red sample, so all channels of a frame stay registered", "where a nearest sample lies outside the frame, the value only has to lie in the range of those inside"},
		&vk.Law{Name: "channels", Quick: 30000, Thorough: 1500000, Rule: "1..40 x 1..36 mosaics (random, one value per colour, gradients) for each filter array and channel; native samples exact, other pixels the average of the nearest samples, other colours without influence, refreshed statistics; trivial if the frame has no whole cell", Run: law},
		&vk.Law{Name: "off", Quick: 500, Thorough: 5000, Rule: "without channel or array nothing changes; all non-trivial", Run: lawOff},
	)
}
