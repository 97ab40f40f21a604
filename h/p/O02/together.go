package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/steps"
	"github.com/mlnoga/nightlight/verif/vk"
)

// sky is a small star field; frames show it with noise of their own, shifted and at a level of their own.
type sky struct {
	w, h  int
	stars []star.Star
}

func newSky(g *vk.G, s *vk.Stream) *sky {
	k := &sky{w: g.Int(60, 160), h: g.Int(60, 160)}
	for i := s.Int(5, 14); i > 0; i-- {
		x, y, a := s.Float(6, float64(k.w-7)), s.Float(6, float64(k.h-7)), s.Float(0.2, 0.9)
		k.stars = append(k.stars, star.Star{X: float32(x), Y: float32(y), Index: int32(x+0.5) + int32(k.w)*int32(y+0.5), Value: float32(a), Mass: float32(14 * a), HFR: 1.5})
	}
	sort.Slice(k.stars, func(i, j int) bool { return k.stars[i].Mass > k.stars[j].Mass })
	return k
}

func (k *sky) plane(s *vk.Stream, dx, dy float64) []float32 {
	d := make([]float32, k.w*k.h)
	level, gain := s.Float(0.03, 0.1), s.Float(0.6, 1)
	for i := range d {
		d[i] = float32(level + 0.003*s.Norm())
	}
	for _, p := range k.stars {
		for y := int(p.Y) - 6; y <= int(p.Y)+6; y++ {
			for x := int(p.X) - 6; x <= int(p.X)+6; x++ {
				fx, fy := float64(x)-float64(p.X)-dx, float64(y)-float64(p.Y)-dy
				if x >= 0 && x < k.w && y >= 0 && y < k.h {
					d[y*k.w+x] += float32(gain * float64(p.Value) * math.Exp(-(fx*fx+fy*fy)/4.5))
				}
			}
		}
	}
	for i := range d {
		d[i] = float32(math.Max(0.001, math.Min(1, float64(d[i]))))
	}
	return d
}

func finite(f *fits.Image) bool {
	for _, v := range f.Data {
		if v-v != 0 {
			return false
		}
	}
	return true
}

// sane brings values back into the range the next step expects, which the steps before may have left.
type sane struct{ ops.OpUnaryBase }

func newSane(hsl bool) *sane {
	op := sane{OpUnaryBase: ops.OpUnaryBase{OpBase: ops.OpBase{Type: "sane"}}}
	op.OpUnaryBase.Apply = func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
		changed := false
		for i, v := range f.Data {
			max := float32(1)
			if hsl && 3*i < len(f.Data) {
				max = 359
			}
			w := v
			switch {
			case v != v:
				w = 0.5
			case v < 0:
				w = 0
			case v > max:
				w = max
			}
			if v != w {
				f.Data[i], changed = w, true
			}
		}
		if changed {
			f.Stats.Clear()
		}
		if f.MedianDiffStats == nil { // else star detection estimates it from pixels picked at random
			f.MedianDiffStats = stats.NewStats(append([]float32{}, f.Data...), f.Naxisn[0])
		}
		return f, nil
	}
	return &op
}

// what a step made of a frame
type made struct {
	desc string
	data []float32
}

func describe(f *fits.Image) made {
	if f == nil {
		return made{desc: "dropped"}
	}
	var loc, scale float32
	if finite(f) {
		loc, scale = f.Stats.Location(), f.Stats.Scale()
	}
	return made{fmt.Sprintf("frame %d %v exposure %g stars %v HFR %g trans %v residual %g location %g scale %g", f.ID, f.Naxisn, f.Exposure, f.Stars, f.HFR, f.Trans, f.Residual, loc, scale), f.Data}
}

func (a made) differs(b made) string {
	if a.desc != b.desc {
		return a.desc + " instead of " + b.desc
	}
	if len(a.data) != len(b.data) {
		return fmt.Sprintf("%d pixels instead of %d", len(a.data), len(b.data))
	}
	for i := range a.data {
		if math.Float32bits(a.data[i]) != math.Float32bits(b.data[i]) && !(a.data[i] != a.data[i] && b.data[i] != b.data[i]) {
			return fmt.Sprintf("pixel %d is %g instead of %g", i, a.data[i], b.data[i])
		}
	}
	return ""
}

// together: steps applied to many frames at a time do to each frame what they do to it alone.
func together(g *vk.G, t *vk.T) {
	dir, err := os.MkdirTemp(t.Dir, "t")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	s := g.Stream()
	k := newSky(g, s)
	n := g.Int(3, 16)
	threads := g.Int(2, 8)
	kind := vk.OneOf(g, steps.Mono, steps.Mono, steps.Mono, steps.Color, steps.HSL)
	reload := kind == steps.Mono && g.Chance(1, 3)
	stats.LSEstimator = vk.OneOf(g, stats.LSEMeanStdDev, stats.LSEMeanStdDev, stats.LSEHistogram, stats.LSEIKSS)
	var datas [][]float32
	for i := 0; i < n; i++ {
		var d []float32
		for p := 0; p < 1 || kind != steps.Mono && p < 3; p++ {
			d = append(d, k.plane(s, s.Float(-2, 2), s.Float(-2, 2))...)
		}
		if kind == steps.HSL {
			for p := 0; p < k.w*k.h; p++ {
				d[p] *= 359
			}
		}
		datas = append(datas, d)
	}
	nax := []int32{int32(k.w), int32(k.h)}
	if kind != steps.Mono {
		nax = append(nax, 3)
	}
	frame := func(i int) *fits.Image {
		f := fits.NewImageFromNaxisn(nax, append([]float32{}, datas[i]...))
		f.ID, f.Exposure, f.HFR = i, float32(10+i), 1.5
		f.Stars = append([]star.Star{}, k.stars...)
		f.MedianDiffStats = stats.NewStats(append([]float32{}, datas[i]...), nax[0])
		return f
	}
	for i := 0; i < 2; i++ { // dark and flat frames
		if err := fits.NewImageFromNaxisn(nax[:2], k.plane(s, 0, 0)).WriteFile(fmt.Sprintf("in%d.fits", i)); err != nil {
			panic(err)
		}
	}
	for i := 0; i < n && reload; i++ {
		if err := frame(i).WriteFile(fmt.Sprintf("frame%d.fits", i)); err != nil {
			panic(err)
		}
	}
	refPlane, lum := k.plane(s, 0, 0), k.plane(s, 0, 0)
	context := func() *ops.Context {
		c := ops.NewContext(io.Discard, 1000, stats.LSEstimator)
		c.MaxThreads = threads
		c.AlignNaxisn, c.AlignStars, c.AlignHFR = nax[:2], k.stars, 1.5
		c.MatchHisto = stats.NewStats(append([]float32{}, refPlane...), nax[0]).Snapshot() // shared by all frames
		c.LumFrame = fits.NewImageFromNaxisn(nax[:2], append([]float32{}, lum...))
		return c
	}
	type call struct {
		k    steps.Kind
		args []interface{}
	}
	var calls []call
	var names []string
	for m := g.Int(1, 4); len(calls) < m; {
		c := steps.Kinds[g.Int(0, len(steps.Kinds)-1)]
		switch c.Name {
		case "stack", "stackBatches", "selectRef", "rgbCombine", "hslApplyLum", "exportStats", "load", "loadMany", "hsluvToRGB":
			continue // gather frames, share a luminance frame they convert, write in order of arrival, or have no input
		}
		in := c.Input
		if kind == steps.Color && c.Name == "save" {
			in = steps.Color
		}
		if in != kind || len(names) > 0 && (names[len(names)-1] == "rgbToHSLuv" || c.Name == "align") {
			if in == kind { // colors became hues, or stars may have gone
				break
			}
			continue
		}
		calls = append(calls, call{c, c.Args(g)})
		names = append(names, c.Name)
		t.Class("%s", c.Name)
	}
	build := func() ops.Operator {
		q := ops.NewOpSequence()
		for _, c := range calls {
			q.Append(newSane(kind == steps.HSL))
			q.Append(c.k.New(c.args))
		}
		return q
	}
	t.Desc("%d frames of %v, %d at a time, estimator %d, from files %v, through %s", n, nax, threads, stats.LSEstimator, reload, strings.Join(names, ", "))
	files := func() map[string]string {
		m := map[string]string{}
		fs, _ := filepath.Glob("*")
		for _, name := range fs {
			if strings.HasPrefix(name, "in") || strings.HasPrefix(name, "frame") {
				continue
			}
			b, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			m[name] = string(b)
			os.Remove(name)
		}
		return m
	}
	input := func(i int) ops.Promise {
		if reload {
			ps, err := ops.NewOpLoad(i, fmt.Sprintf("frame%d.fits", i)).MakePromises(nil, context())
			if err != nil {
				panic(err)
			}
			return ps[0]
		}
		return func() (*fits.Image, error) { return frame(i), nil }
	}
	// each frame alone
	alone := func() (res []made, errs []string, written map[string]string) {
		written = map[string]string{}
		for i := 0; i < n; i++ {
			outs, err := build().MakePromises([]ops.Promise{input(i)}, context())
			if err != nil {
				t.Discard("the job is refused")
			}
			f, err := outs[0]()
			if err != nil {
				errs = append(errs, err.Error())
			}
			res = append(res, describe(f))
			for name, b := range files() {
				written[name] = b
			}
		}
		return
	}
	want, errs, written := alone()
	again, _, written2 := alone()
	for i := range want {
		if want[i].differs(again[i]) != "" {
			t.Discard("a step does not give the same result twice")
		}
	}
	for name := range written {
		if written[name] != written2[name] {
			t.Discard("a step does not give the same result twice")
		}
	}
	// all frames together
	var ins []ops.Promise
	for i := 0; i < n; i++ {
		ins = append(ins, input(i))
	}
	outs, err := build().MakePromises(ins, context())
	if err != nil {
		t.Fail("refused for several frames, but not for single ones: %v", err)
	}
	fs, err := ops.MaterializeAll(outs, threads, false)
	if (err != nil) != (len(errs) > 0) {
		t.Fail("error %v when applied to all frames, but %v when applied to each", err, errs)
	}
	if err != nil {
		t.Class("fails")
		t.Trivial()
		return
	}
	var left []made
	for _, m := range want {
		if m.desc != "dropped" {
			left = append(left, m)
		}
	}
	if len(fs) != len(left) {
		t.Fail("%d frames left instead of %d", len(fs), len(left))
	}
	for i, f := range fs {
		if d := describe(f).differs(left[i]); d != "" {
			t.Fail("frame %d, processed together with the others: %s", f.ID, d)
		}
	}
	got := files()
	for name := range written {
		if got[name] != written[name] {
			t.Fail("file %s differs, or is missing, when frames are processed together (%d bytes instead of %d)", name, len(got[name]), len(written[name]))
		}
	}
	if len(got) != len(written) {
		t.Fail("%d files written instead of %d", len(got), len(written))
	}
}
