// E02: combining colour channels end to end yields the scene's colours.

//go:debug randseednop=0
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	_ "image/jpeg"
	"io"
	"math"
	"math/rand"
	"os"
	"sort"
	"time"

	"golang.org/x/image/tiff"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

func inDir(t *vk.T) func() {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(t.Dir, "c")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	return func() {
		os.Chdir(old)
		os.RemoveAll(dir)
	}
}

type pt struct{ x, y float64 }

type source struct {
	pt
	amp [4]float64 // in red, green, blue and luminance
}

// scene is a star field on a flat sky
type scene struct {
	w, h       int
	sky, noise [4]float64
	width      float64
	stars      []source
}

// shift is the way one exposure is displaced
type shift struct{ theta, dx, dy float64 }

func (k shift) to(s *scene, p pt) pt {
	cx, cy := float64(s.w-1)/2, float64(s.h-1)/2
	sin, cos := math.Sincos(k.theta)
	x, y := p.x-cx, p.y-cy
	return pt{cx + cos*x - sin*y + k.dx, cy + sin*x + cos*y + k.dy}
}

// render draws an exposure of one channel
func (s *scene) render(rng *vk.Stream, ch int, k shift) []float64 {
	d := make([]float64, s.w*s.h)
	for i := range d {
		d[i] = s.sky[ch] + s.noise[ch]*rng.Norm()
	}
	r := int(math.Ceil(6 * s.width))
	for _, q := range s.stars {
		p := k.to(s, q.pt)
		cx, cy := int(math.Round(p.x)), int(math.Round(p.y))
		for y := max(0, cy-r); y <= min(s.h-1, cy+r); y++ {
			for x := max(0, cx-r); x <= min(s.w-1, cx+r); x++ {
				ex, ey := float64(x)-p.x, float64(y)-p.y
				d[y*s.w+x] += q.amp[ch] * math.Exp(-(ex*ex+ey*ey)/(2*s.width*s.width))
			}
		}
	}
	return d
}

func (s *scene) place(rng *vk.Stream, n int, colour float64) {
	for tries := 0; len(s.stars) < n && tries < 3000; tries++ {
		q := source{pt: pt{rng.Float(-10, float64(s.w)+10), rng.Float(-10, float64(s.h)+10)}}
		ok := true
		for _, o := range s.stars {
			ok = ok && math.Hypot(o.x-q.x, o.y-q.y) > 16
		}
		if !ok {
			continue
		}
		a := s.noise[1] * 60 * math.Pow(20, rng.Unit())
		for c := 0; c < 3; c++ {
			q.amp[c] = a * math.Exp(colour*rng.Float(-1, 1))
			q.amp[3] += q.amp[c] / 3
		}
		q.amp[3] *= math.Exp(rng.Float(-0.7, 0.7)) // narrow band, say
		s.stars = append(s.stars, q)
	}
}

func writeFrame(name string, w, h int, d []float64) {
	f := make([]float32, len(d))
	for i, v := range d {
		f[i] = float32(v)
	}
	if err := os.WriteFile(name, fx.Float32Image([]int{w, h}, f, "EXPOSURE=                   30"), 0644); err != nil {
		panic(err)
	}
}

func median(v []float64) float64 {
	if len(v) == 0 {
		return math.NaN()
	}
	s := append([]float64{}, v...)
	sort.Float64s(s)
	return s[len(s)/2]
}

// centroid measures the position of a star near p, flux its brightness around p
func centroid(d []float64, w, h int, p pt, bg, r float64) (pt, bool) {
	for iter := 0; iter < 12; iter++ {
		sx, sy, sm := 0.0, 0.0, 0.0
		if p.x < r+1 || p.y < r+1 || p.x > float64(w)-r-2 || p.y > float64(h)-r-2 {
			return p, false
		}
		for y := int(p.y - r); y <= int(p.y+r)+1; y++ {
			for x := int(p.x - r); x <= int(p.x+r)+1; x++ {
				dx, dy := float64(x)-p.x, float64(y)-p.y
				if dx*dx+dy*dy > r*r {
					continue
				}
				m := (d[y*w+x] - bg) * math.Exp(-(dx*dx+dy*dy)/(r*r/2))
				sx, sy, sm = sx+m*dx, sy+m*dy, sm+m
			}
		}
		if sm <= 0 {
			return p, false
		}
		p.x += 1.7 * sx / sm
		p.y += 1.7 * sy / sm
	}
	return p, true
}

func flux(d []float64, w int, p pt, bg, r float64) (sum, peak float64) {
	for y := int(p.y - r); y <= int(p.y+r)+1; y++ {
		for x := int(p.x - r); x <= int(p.x+r)+1; x++ {
			if math.Hypot(float64(x)-p.x, float64(y)-p.y) <= r {
				sum += d[y*w+x] - bg
				peak = math.Max(peak, d[y*w+x])
			}
		}
	}
	return
}

func run(t *vk.T, op ops.Operator, job bool, memory, threads int, lse stats.LSEstimatorMode) ([]*fits.Image, error) {
	if job {
		b, err := json.Marshal(op)
		if err != nil {
			t.Fail("cannot save the job: %v", err)
		}
		var seq ops.OpSequence
		if err := json.Unmarshal(b, &seq); err != nil {
			t.Fail("cannot load the job: %v", err)
		}
		op = &seq
	}
	c := ops.NewContext(io.Discard, memory, lse)
	c.MaxThreads = threads
	ps, err := op.MakePromises(nil, c)
	if err != nil {
		return nil, err
	}
	return ops.MaterializeAll(ps, c.MaxThreads, false)
}

// stackJob is the job the command line builds for stacking, without cosmetic correction
func stackJob(pattern, alignRef, out string, k int) ops.Operator {
	detect := pre.NewOpStarDetect(16, 15, 5, 1.4, "")
	debayer := pre.NewOpDebayer("", "RGGB")
	return ops.NewOpSequence(
		ops.NewOpLoadMany([]string{pattern}),
		stack.NewOpStackBatches(ops.NewOpSequence(
			ops.NewOpSequence(
				pre.NewOpCalibrate("", ""), pre.NewOpBadPixel(0, 0, debayer), debayer,
				pre.NewOpDebandHoriz(0, 128, 3), pre.NewOpDebandVert(0, 128, 3), pre.NewOpScaleOffset(1, 0),
				pre.NewOpBin(0), detect, pre.NewOpBackExtract(0, 4, 1.5, 0, ""),
				ref.NewOpExportStats(""), ops.NewOpSave("", ops.EMMinMax, 1),
			),
			ref.NewOpSelectReference(ref.SRHisto, "%starsHFR", detect),
			ref.NewOpSelectReference(ref.SRAlign, alignRef, detect),
			ref.NewOpFilter(0),
			post.NewOpMatchHistogram(post.HNMLocScale),
			post.NewOpAlign(int32(k), 1, post.OOBModeNaN),
			ops.NewOpSave("", ops.EMMinMax, 1),
			stack.NewOpStack(stack.StAuto, stack.StWeightNone, -1, -1),
			detect,
			ops.NewOpSave("", ops.EMMinMax, 1),
		)),
		detect,
		ops.NewOpSave(out, ops.EMMinMax, 1),
	)
}

type params struct {
	shadows, highlights  fits.RGB
	autoLoc, autoScale   float32
	gamma, ppGamma       float32
	midtone              float32
	usmGain, chromaGamma float32
	scaleBlack, lumScale float32
	jpgGamma             float32
	neutLow, neutHigh    float32
	inputs               []string
}

// rgbJob is the job the command line builds for combining colours
func (u *params) rgbJob() ops.Operator {
	detect := pre.NewOpStarDetect(16, 15, 0, 1.4, "")
	return ops.NewOpSequence(
		ops.NewOpLoadMany(u.inputs),
		detect,
		ref.NewOpSelectReference(ref.SRAlign, "%rgb", detect),
		rgb.NewOpRGBCombine(),
		rgb.NewOpRGBBalance(16, 0.1, 0, 0.5, u.shadows, u.highlights),
		rgb.NewOpRGBToHSLuv(),
		hsl.NewOpHSLApplyLum(),
		hsl.NewOpHSLUnsharpMask(1, u.usmGain, 1),
		hsl.NewOpHSLNeutralizeBackground(u.neutLow, u.neutHigh),
		hsl.NewOpHSLSaturationGamma(u.chromaGamma, 1),
		hsl.NewOpHSLSelectiveSaturation(295, 40, 1),
		hsl.NewOpHSLRotateHue(100, 190, 0, 1),
		hsl.NewOpHSLSCNR(0),
		hsl.NewOpHSLStretchIterative(u.autoLoc, u.autoScale),
		hsl.NewOpHSLMidtones(u.midtone, 2),
		hsl.NewOpHSLGamma(u.gamma),
		hsl.NewOpHSLGammaPP(u.ppGamma, 1),
		hsl.NewOpHSLScaleOffsetChannel(2, u.lumScale, 0),
		hsl.NewOpHSLScaleBlack(u.scaleBlack),
		rgb.NewOpHSLuvToRGB(),
		ops.NewOpSave("out.fits", ops.EMMinMax, 1),
		ops.NewOpSave("out.tif", ops.EM0_1, 1),
		ops.NewOpSave("out.jpg", ops.EM0_1, u.jpgGamma),
	)
}

func readOut(t *vk.T, name string) ([]float64, []int) {
	b, err := os.ReadFile(name)
	if err != nil {
		t.Fail("no result: %v", err)
	}
	f, err := fx.Parse(b)
	if err != nil {
		t.Fail("result %s is no valid file: %v", name, err)
	}
	return f.Physical(), f.Axes
}

// pictures compares the TIFF and JPEG files with the FITS data
func pictures(t *vk.T, chans [][]float64, w, h int, jpgGamma float64, names ...string) {
	for kind, name := range names {
		b, err := os.ReadFile(name)
		if err != nil {
			t.Fail("no picture: %v", err)
		}
		var img image.Image
		if kind == 0 {
			img, err = tiff.Decode(bytes.NewReader(b))
		} else {
			img, _, err = image.Decode(bytes.NewReader(b))
		}
		if err != nil {
			t.Fail("picture %s: %v", name, err)
		}
		if img.Bounds().Dx() != w || img.Bounds().Dy() != h {
			t.Fail("picture %s is %v", name, img.Bounds())
		}
		total := [3]float64{}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				r, g, b, _ := img.At(x, y).RGBA()
				for c, v := range []uint32{r, g, b} {
					want := chans[c%len(chans)][y*w+x]
					want = math.Max(0, math.Min(1, want))
					if kind == 1 {
						want = math.Pow(want, 1/jpgGamma)
						total[c] += math.Abs(float64(v)/65535 - want)
					} else if math.Abs(float64(v)-want*65535) > 1.5 {
						t.Fail("pixel %d,%d of channel %d is %d in the TIFF picture, %g in the FITS file", x, y, c, v, chans[c%len(chans)][y*w+x])
					}
				}
			}
		}
		for c, v := range total {
			if v /= float64(w * h); v > 0.04 {
				t.Fail("channel %d of the JPEG picture is off by %.3f on average", c, v)
			}
		}
	}
}

func newScene(g *vk.G, rng *vk.Stream) *scene {
	s := &scene{w: g.Int(240, 320), h: g.Int(200, 250)}
	base := vk.OneOf(g, 8.0, 20)
	for c := range s.noise {
		s.noise[c] = base
		s.sky[c] = base * rng.Float(15, 60)
	}
	s.width = g.Float(1.6, 2.4)
	return s
}

var chanNames = []string{"red", "green", "blue", "luminance"}

func lawColour(g *vk.G, t *vk.T) {
	defer inDir(t)()
	rng := g.Stream()
	rand.Seed(int64(g.U32()))
	s := newScene(g, rng)
	colour := g.Float(0.1, 0.7)
	s.place(rng, g.Int(50, 80), colour)
	lum := g.Chance(1, 3)
	chans := 3
	if lum {
		chans = 4
	}
	lse := vk.OneOf(g, stats.LSESCMedianQn, stats.LSEMedianMAD, stats.LSEHistogram)
	stats.LSEstimator = lse
	job, threads := g.Bool(), vk.OneOf(g, 8, 4, 1)
	k := vk.OneOf(g, 20, 50)
	stacked := g.Chance(1, 3)
	base := shift{}
	gain := make([]float64, 4)
	var shifts []shift
	names := []string{"x1.fits", "x2.fits", "x3.fits", "x4.fits"}
	if g.Bool() { // names which don't sort in the order of the channels
		names = []string{"s.fits", "a.fits", "o.fits", "b.fits"}
	}
	for c := 0; c < chans; c++ {
		gain[c] = math.Exp(rng.Float(-0.4, 0.4))
		if !stacked {
			d := s.render(rng, c, base)
			for i := range d {
				d[i] = d[i] * gain[c]
			}
			writeFrame(names[c], s.w, s.h, d)
			continue
		}
		if c == 0 {
			writeFrame("reference.fits", s.w, s.h, s.render(rng, g.Int(0, chans-1), base))
		}
		n := rng.Int(3, 4)
		for i := 0; i < n; i++ {
			sh := shift{rng.Float(-0.03, 0.03), rng.Float(-9, 9), rng.Float(-9, 9)}
			shifts = append(shifts, sh)
			d := s.render(rng, c, sh)
			for i := range d {
				d[i] = d[i] * gain[c]
			}
			writeFrame(fmt.Sprintf("light-%d-%d.fits", c, i), s.w, s.h, d)
		}
		if _, err := run(t, stackJob(fmt.Sprintf("light-%d-*.fits", c), "reference.fits", names[c], k), job, 1000, threads, lse); err != nil {
			t.Fail("stacking channel %s fails: %v", chanNames[c], err)
		}
	}
	one := fits.RGB{R: 1, G: 1, B: 1}
	u := &params{shadows: one, highlights: one, gamma: 1, ppGamma: 1, chromaGamma: 1, lumScale: 1, neutLow: -1, neutHigh: -1, jpgGamma: vk.OneOf(g, 1, float32(2.2), 1.5), inputs: names[:chans]}
	tuned := g.Chance(1, 2)
	if tuned {
		u.autoLoc, u.autoScale = 0.1, 0.004
		u.gamma = vk.OneOf(g, 1, float32(1.2))
		u.ppGamma = vk.OneOf(g, 1, float32(1.3))
		u.chromaGamma = vk.OneOf(g, 1, float32(1.3))
		u.usmGain = vk.OneOf(g, 0, float32(0.5))
		u.scaleBlack = vk.OneOf(g, 0, float32(0.08))
		if g.Chance(1, 3) {
			u.neutLow, u.neutHigh = 0.75, 1
		}
	}
	t.Desc("%dx%d, %d stars of width %.2f, noise %g, sky %.0f, gains %.2f, stacked %v, luminance %v, tuned %+v, estimator %d, job %v, threads %d, K %d", s.w, s.h, len(s.stars), s.width, s.noise[0], s.sky, gain, stacked, lum, *u, lse, job, threads, k)
	if stacked {
		t.Class("channels stacked first")
	}
	if lum {
		t.Class("luminance")
	}
	if tuned {
		t.Class("stretched")
	}
	if _, err := run(t, u.rgbJob(), job, 1000, threads, lse); err != nil {
		t.Fail("combining fails: %v", err)
	}
	d, ax := readOut(t, "out.fits")
	if len(ax) != 3 || ax[0] != s.w || ax[1] != s.h || ax[2] != 3 {
		t.Fail("result is %v", ax)
	}
	px := s.w * s.h
	var out [][]float64
	for c := 0; c < 3; c++ {
		out = append(out, d[c*px:(c+1)*px])
		for i, v := range out[c] {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				t.Fail("pixel %d,%d of channel %d is %v", i%s.w, i/s.w, c, v)
			}
		}
	}
	pictures(t, out, s.w, s.h, float64(u.jpgGamma), "out.tif", "out.jpg")

	r := 2.5 * s.width
	var bg [3]float64
	for c := range bg {
		bg[c] = median(out[c])
	}
	used := 0
	var lr, lb []float64
	worst := 0.0
	var off []float64
	var tr, tb, tl, or, ob, ol []float64
	sumR, sumG, sumB := 0.0, 0.0, 0.0
	for _, q := range s.stars {
		ok := true
		for _, z := range shifts {
			p := z.to(s, q.pt)
			ok = ok && p.x > 10 && p.y > 10 && p.x < float64(s.w-11) && p.y < float64(s.h-11)
		}
		if q.x < 12 || q.y < 12 || q.x > float64(s.w-13) || q.y > float64(s.h-13) || !ok {
			continue
		}
		var pos [3]pt
		var fl, pk [3]float64
		for c := range pos {
			m, o := centroid(out[c], s.w, s.h, q.pt, bg[c], r)
			ok = ok && o
			pos[c] = m
			fl[c], pk[c] = flux(out[c], s.w, q.pt, bg[c], r)
		}
		if !ok {
			t.Fail("star at %.1f,%.1f of heights %.0f is missing from a channel", q.x, q.y, q.amp)
			continue
		}
		for c := range pos {
			d := math.Hypot(pos[c].x-q.x, pos[c].y-q.y)
			worst, off = math.Max(worst, d), append(off, d)
		}
		if math.Max(pk[0], math.Max(pk[1], pk[2])) > 0.97 {
			continue
		}
		used++
		sumR, sumG, sumB = sumR+fl[0], sumG+fl[1], sumB+fl[2]
		tr = append(tr, math.Log(q.amp[0]/q.amp[1]))
		tb = append(tb, math.Log(q.amp[2]/q.amp[1]))
		or = append(or, math.Log(fl[0]/fl[1]))
		ob = append(ob, math.Log(fl[2]/fl[1]))
		if lum {
			tl = append(tl, math.Log(q.amp[3]))
		} else {
			tl = append(tl, math.Log(0.2126*q.amp[0]+0.7152*q.amp[1]+0.0722*q.amp[2]))
		}
		ol = append(ol, math.Log(0.2126*fl[0]+0.7152*fl[1]+0.0722*fl[2]))
		lr = append(lr, math.Log(fl[0]/fl[1])-math.Log(q.amp[0]/q.amp[1]))
		lb = append(lb, math.Log(fl[2]/fl[1])-math.Log(q.amp[2]/q.amp[1]))
	}
	mr, mb := median(lr), median(lb)
	if used < 10 {
		t.Trivial()
		return
	}
	if limit := map[bool]float64{false: 0.35, true: 2}[stacked]; worst > limit || median(off) > limit/3 {
		t.Fail("stars are off by up to %.2f pixels in one of the channels, in the median %.2f", worst, median(off))
	}
	if hi, lo := math.Max(bg[0], math.Max(bg[1], bg[2])), math.Min(bg[0], math.Min(bg[1], bg[2])); hi > 1.1*lo+0.002 {
		t.Fail("the sky is %.4g, not grey", bg)
	}
	lim := map[bool]float64{false: 0.45, true: 0.65}[tuned]
	if a, b := math.Log(sumR/sumG), math.Log(sumB/sumG); math.Abs(a) > lim || math.Abs(b) > lim {
		t.Fail("stars are not balanced to white: red to green %.3f, blue to green %.3f", sumR/sumG, sumB/sumG)
	}
	if !lum && !tuned {
		for i := range lr {
			if math.Abs(lr[i]-mr) > 0.13 || math.Abs(lb[i]-mb) > 0.13 {
				t.Fail("the colour of a star differs from the scene: logarithmic ratios to green are off by %.3f (red) and %.3f (blue)", lr[i]-mr, lb[i]-mb)
			}
		}
	}
	if colour >= 0.25 {
		for c, v := range [][2][]float64{{tr, or}, {tb, ob}} {
			if k, sl := corr(v[0], v[1]), slope(v[0], v[1]); k < 0.8 || sl < 0.3 || sl > 4 {
				t.Fail("%s colours of the stars don't follow the scene: correlation %.2f, slope %.2f", chanNames[2*c], k, sl)
			}
		}
	}
	if k, sl := corr(tl, ol), slope(tl, ol); k < 0.95 || sl < 0.3 || sl > 1.5 {
		t.Fail("the brightness of the stars does not follow the scene: correlation %.2f, slope %.2f", k, sl)
	}
}

func corr(x, y []float64) float64  { return slope(x, y) * math.Sqrt(cov(x, x)/cov(y, y)) }
func slope(x, y []float64) float64 { return cov(x, y) / cov(x, x) }
func cov(x, y []float64) float64 {
	mx, my, s := 0.0, 0.0, 0.0
	for i := range x {
		mx += x[i] / float64(len(x))
		my += y[i] / float64(len(x))
	}
	for i := range x {
		s += (x[i] - mx) * (y[i] - my)
	}
	return s
}

// lawStretch runs the job the command line builds for stretching single images, on a few of them
func lawStretch(g *vk.G, t *vk.T) {
	defer inDir(t)()
	rng := g.Stream()
	rand.Seed(int64(g.U32()))
	s := newScene(g, rng)
	s.place(rng, g.Int(50, 80), 0.3)
	lse := vk.OneOf(g, stats.LSESCMedianQn, stats.LSEMedianMAD, stats.LSEHistogram)
	stats.LSEstimator = lse
	n, k, job := g.Int(1, 3), vk.OneOf(g, 20, 50), g.Bool()
	alignRef := vk.OneOf(g, "in0.fits", "%starsHFR", "0")
	autoLoc, autoScale := float32(0.1), float32(0.004)
	if g.Chance(1, 3) {
		autoLoc, autoScale = 0, 0
	}
	gamma, ppGamma, scaleBlack := vk.OneOf(g, 1, float32(1.3)), vk.OneOf(g, 1, float32(1.3)), vk.OneOf(g, 0, float32(0.08))
	blur, usm, jpgGamma := vk.OneOf(g, 0, float32(1)), vk.OneOf(g, 0, float32(0.5)), vk.OneOf(g, 1, float32(2.2))
	var shifts []shift
	for i := 0; i < n; i++ {
		sh := shift{}
		if i > 0 || g.Bool() {
			sh = shift{rng.Float(-0.03, 0.03), rng.Float(-9, 9), rng.Float(-9, 9)}
		}
		shifts = append(shifts, sh)
		writeFrame(fmt.Sprintf("in%d.fits", i), s.w, s.h, s.render(rng, i%3, sh))
	}
	detect := pre.NewOpStarDetect(16, 15, -1, 1.4, "")
	op := ops.NewOpSequence(
		ops.NewOpLoadMany([]string{"in*.fits"}),
		stretch.NewOpNormalizeRange(),
		stretch.NewOpStretchIterative(autoLoc, autoScale),
		stretch.NewOpMidtones(0, 2),
		stretch.NewOpGamma(gamma),
		stretch.NewOpGammaPP(ppGamma, 1),
		stretch.NewOpScaleBlack(scaleBlack),
		detect,
		ref.NewOpSelectReference(ref.SRAlign, alignRef, detect),
		post.NewOpAlign(int32(k), 1, post.OOBModeOwnLocation),
		stretch.NewOpGaussianBlur(blur),
		stretch.NewOpUnsharpMask(1, usm, 1),
		ops.NewOpSave("out%d.fits", ops.EMMinMax, 1),
		ops.NewOpSave("out%d.tif", ops.EM0_1, 1),
		ops.NewOpSave("out%d.jpg", ops.EM0_1, jpgGamma),
	)
	t.Desc("%d images of %dx%d, %d stars of width %.2f, noise %g, align %s, stretch %g/%g, gamma %g, %g, black %g, blur %g, usm %g, estimator %d, job %v", n, s.w, s.h, len(s.stars), s.width, s.noise[0], alignRef, autoLoc, autoScale, gamma, ppGamma, scaleBlack, blur, usm, lse, job)
	t.Class("%d images", n)
	if _, err := run(t, op, job, 1000, vk.OneOf(g, 8, 1), lse); err != nil {
		t.Fail("stretching fails: %v", err)
	}
	var outs [][]float64
	for i := range shifts {
		d, ax := readOut(t, fmt.Sprintf("out%d.fits", i))
		if len(ax) != 2 || ax[0] != s.w || ax[1] != s.h {
			t.Fail("result %d is %v", i, ax)
		}
		for p, v := range d {
			if !(v >= -0.5 && v <= 2) {
				t.Fail("pixel %d,%d of result %d is %v", p%s.w, p/s.w, i, v)
			}
		}
		pictures(t, [][]float64{d}, s.w, s.h, float64(jpgGamma), fmt.Sprintf("out%d.tif", i), fmt.Sprintf("out%d.jpg", i))
		outs = append(outs, d)
	}
	// all images match one of them in position
	bestOff, report := 99.0, ""
	for r := range shifts {
		if alignRef != "%starsHFR" && r != 0 {
			continue
		}
		off, rep := 0.0, ""
		for i := range outs {
			bg := median(outs[i])
			var in, out, dev []float64
			for _, q := range s.stars {
				ok := true
				for _, z := range shifts {
					p := z.to(s, q.pt)
					ok = ok && p.x > 12 && p.y > 12 && p.x < float64(s.w-13) && p.y < float64(s.h-13)
				}
				if !ok {
					continue
				}
				p := shifts[r].to(s, q.pt)
				m, o := centroid(outs[i], s.w, s.h, p, bg, 2.5*s.width)
				fl, pk := flux(outs[i], s.w, p, bg, 2.5*s.width)
				if !o || fl <= 0 {
					dev = append(dev, 99)
					continue
				}
				dev = append(dev, math.Hypot(m.x-p.x, m.y-p.y))
				if pk < 0.97 {
					in, out = append(in, math.Log(q.amp[i%3])), append(out, math.Log(fl))
				}
			}
			limit := 0.7
			if i != r {
				limit = 1.2
			}
			md := median(dev)
			rep += fmt.Sprintf("; image %d, %d stars: off by %.2f, brightness correlated %.3f", i, len(dev), md, corr(in, out))
			off = math.Max(off, md/limit)
			if len(in) >= 10 && corr(in, out) < 0.9 {
				off = 99
			}
		}
		if off < bestOff {
			bestOff = off
		}
		report += fmt.Sprintf(" with image %d as reference%s;", r, rep)
	}
	if bestOff > 1 {
		t.Fail("results show the scene at the wrong place:%s", report)
	}
}

func main() {
	vk.Main("E02", []string{
		"scenes are 200 to 320 pixels on a side with 50 to 80 stars drawn into one or several channels; the jobs are those which cmd/nightlight builds for -cmd stack, rgb and stretch, with its default settings or the ones listed per case",
		"stars matched to the wrong neighbour within 8 pixels pull an alignment of these small frames off by up to about 2 pixels; positions are asserted beyond that",
		"colours are compared star by star only for linear results; for stretched and luminance-combined ones through correlations",
	},
		&vk.Law{Name: "colour", Quick: 60, Thorough: 20000, Timeout: 120 * time.Second, Rule: "a case counts if at least ten unsaturated stars can be measured in all three channels", Run: lawColour},
		&vk.Law{Name: "stretch", Quick: 60, Thorough: 20000, Timeout: 120 * time.Second, Rule: "every case counts: at least one image with 50 or more stars is stretched", Run: lawStretch},
	)
}
