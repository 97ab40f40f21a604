// E01: a stacking job on shifted noisy frames reproduces the scene.

//go:debug randseednop=0
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image"
	_ "image/jpeg"
	"io"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/image/tiff"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

func inDir(t *vk.T) func() {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(t.Dir, "c")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	return func() {
		os.Chdir(old)
		os.RemoveAll(dir)
	}
}

type pt struct{ x, y float64 }

type source struct {
	pt
	amp float64
}

// scene is a star field on a flat sky, in coordinates of the first frame
type scene struct {
	w, h    int
	sky     float64
	noise   float64
	width   float64 // sigma of a star
	sources []source
}

// shot is one exposure of the scene
type shot struct {
	theta, dx, dy float64
	gain, offset  float64
	trail         [4]float64 // ends of a trail
	trailAmp      float64
	cloudy        bool
	exposure      float64
}

func (s *scene) center() pt { return pt{float64(s.w-1) / 2, float64(s.h-1) / 2} }

// to maps scene coordinates to frame coordinates
func (k *shot) to(s *scene, p pt) pt {
	c := s.center()
	sin, cos := math.Sincos(k.theta)
	x, y := p.x-c.x, p.y-c.y
	return pt{c.x + cos*x - sin*y + k.dx, c.y + sin*x + cos*y + k.dy}
}

// from maps frame coordinates to scene coordinates
func (k *shot) from(s *scene, p pt) pt {
	c := s.center()
	sin, cos := math.Sincos(k.theta)
	x, y := p.x-c.x-k.dx, p.y-c.y-k.dy
	return pt{c.x + cos*x + sin*y, c.y - sin*x + cos*y}
}

// clean renders the frame without noise and defects
func (k *shot) clean(s *scene) []float64 {
	d := make([]float64, s.w*s.h)
	for i := range d {
		d[i] = s.sky
	}
	r := int(math.Ceil(6 * s.width))
	for _, q := range s.sources {
		if k.cloudy {
			break
		}
		p := k.to(s, q.pt)
		cx, cy := int(math.Round(p.x)), int(math.Round(p.y))
		for y := max(0, cy-r); y <= min(s.h-1, cy+r); y++ {
			for x := max(0, cx-r); x <= min(s.w-1, cx+r); x++ {
				ex, ey := float64(x)-p.x, float64(y)-p.y
				d[y*s.w+x] += q.amp * math.Exp(-(ex*ex+ey*ey)/(2*s.width*s.width))
			}
		}
	}
	for i := range d {
		d[i] = d[i]*k.gain + k.offset
	}
	return d
}

func segDist(t [4]float64, x, y float64) float64 {
	ax, ay := t[2]-t[0], t[3]-t[1]
	u := ((x-t[0])*ax + (y-t[1])*ay) / (ax*ax + ay*ay)
	u = math.Max(0, math.Min(1, u))
	return math.Hypot(x-t[0]-u*ax, y-t[1]-u*ay)
}

func (s *scene) place(rng *vk.Stream, n int) {
	for tries := 0; len(s.sources) < n && tries < 3000; tries++ {
		q := source{pt{rng.Float(-10, float64(s.w)+10), rng.Float(-10, float64(s.h)+10)}, 0}
		ok := true
		for _, o := range s.sources {
			ok = ok && math.Hypot(o.x-q.x, o.y-q.y) > 14
		}
		if !ok {
			continue
		}
		q.amp = s.noise * 40 * math.Pow(30, rng.Unit())
		s.sources = append(s.sources, q)
	}
}

type defects struct {
	hot   map[int]float64 // by pixel
	dark  []float64
	flat  []float64
	usedD bool
	usedF bool
}

func writeFrame(name string, w, h int, d []float64, format int, exposure float64) {
	exp := fmt.Sprintf("EXPOSURE= %20.6f", exposure)
	var b []byte
	switch format {
	case 0:
		f := make([]float32, len(d))
		for i, v := range d {
			f[i] = float32(v)
		}
		b = fx.Float32Image([]int{w, h}, f, exp)
	default: // 16 bit as cameras write it
		b = fx.Header(append(fx.Mandatory(16, []int{w, h}), "BZERO   =                32768", "BSCALE  =                    1", exp))
		for _, v := range d {
			v = math.Max(0, math.Min(65535, math.Round(v)))
			b = binary.BigEndian.AppendUint16(b, uint16(int32(v)-32768))
		}
		b = fx.Pad(b)
	}
	if strings.HasSuffix(name, ".gz") {
		var z bytes.Buffer
		zw, _ := gzip.NewWriterLevel(&z, 1)
		zw.Write(b)
		zw.Close()
		b = z.Bytes()
	}
	if err := os.WriteFile(name, b, 0644); err != nil {
		panic(err)
	}
}

func median(v []float64) float64 {
	if len(v) == 0 {
		return math.NaN()
	}
	s := append([]float64{}, v...)
	sort.Float64s(s)
	return s[len(s)/2]
}

// centroid measures the position of a star near p
func centroid(d []float64, w, h int, p pt, bg, r float64) (pt, float64, bool) {
	for iter := 0; iter < 12; iter++ {
		sx, sy, sm := 0.0, 0.0, 0.0
		if p.x < r+1 || p.y < r+1 || p.x > float64(w)-r-2 || p.y > float64(h)-r-2 {
			return p, 0, false
		}
		for y := int(p.y - r); y <= int(p.y+r)+1; y++ {
			for x := int(p.x - r); x <= int(p.x+r)+1; x++ {
				dx, dy := float64(x)-p.x, float64(y)-p.y
				if dx*dx+dy*dy > r*r {
					continue
				}
				g := math.Exp(-(dx*dx + dy*dy) / (r * r / 2))
				m := (d[y*w+x] - bg) * g
				sx, sy, sm = sx+m*dx, sy+m*dy, sm+m
			}
		}
		if sm <= 0 {
			return p, 0, false
		}
		// a weighted centroid underestimates the distance; step further
		p.x += 1.7 * sx / sm
		p.y += 1.7 * sy / sm
	}
	return p, 0, true
}

type setup struct {
	n, memory, threads       int
	k                        int
	alignRef, histoRef       string
	norm                     int
	mode, weight             int
	sigma                    float32
	starSig, starBp          float32
	radius                   int
	dark, flat               string
	minStars                 int
	job                      bool
	lse                      stats.LSEstimatorMode
	preBack                  bool
	out, tif, jpg, pre, post string
	patterns                 []string
	dead                     []pt // dead pixels, may be too close to the sky to be noticed
}

// sequence is the job the command line builds for stacking
func (u *setup) sequence() *ops.OpSequence {
	detect := pre.NewOpStarDetect(int32(u.radius), u.starSig, u.starBp, 1.4, "")
	debayer := pre.NewOpDebayer("", "RGGB")
	preProc := ops.NewOpSequence(
		pre.NewOpCalibrate(u.dark, u.flat),
		pre.NewOpBadPixel(3, 5, debayer),
		debayer,
		pre.NewOpDebandHoriz(0, 128, 3),
		pre.NewOpDebandVert(0, 128, 3),
		pre.NewOpScaleOffset(1, 0),
		pre.NewOpBin(0),
		detect,
		pre.NewOpBackExtract(0, 4, 1.5, 0, ""),
		ref.NewOpExportStats("stats.html"),
		ops.NewOpSave(u.pre, ops.EMMinMax, 1),
	)
	return ops.NewOpSequence(
		ops.NewOpLoadMany(u.patterns),
		stack.NewOpStackBatches(ops.NewOpSequence(
			preProc,
			ref.NewOpSelectReference(ref.SRHisto, u.histoRef, detect),
			ref.NewOpSelectReference(ref.SRAlign, u.alignRef, detect),
			ref.NewOpFilter(u.minStars),
			post.NewOpMatchHistogram(post.HistoNormMode(u.norm)),
			post.NewOpAlign(int32(u.k), 1, post.OOBModeNaN),
			ops.NewOpSave(u.post, ops.EMMinMax, 1),
			stack.NewOpStack(stack.StackMode(u.mode), stack.StackWeighting(u.weight), u.sigma, u.sigma),
			detect,
			ops.NewOpSave("", ops.EMMinMax, 1),
		)),
		detect,
		ops.NewOpSave(u.out, ops.EMMinMax, 1),
		ops.NewOpSave(u.tif, ops.EM0_65535, 1),
		ops.NewOpSave(u.jpg, ops.EM0_65535, 1),
	)
}

func (u *setup) run(t *vk.T) ([]*fits.Image, error) {
	var op ops.Operator = u.sequence()
	if u.job {
		b, err := json.Marshal(op)
		if err != nil {
			t.Fail("cannot save the job: %v", err)
		}
		var seq ops.OpSequence
		if err := json.Unmarshal(b, &seq); err != nil {
			t.Fail("cannot load the job: %v", err)
		}
		op = &seq
	}
	c := ops.NewContext(io.Discard, u.memory, u.lse)
	c.MaxThreads = u.threads
	ps, err := op.MakePromises(nil, c)
	if err != nil {
		return nil, err
	}
	outs, err := ops.MaterializeAll(ps, c.MaxThreads, false)
	return outs, err
}

func readOut(t *vk.T, name string) ([]float64, int, int) {
	b, err := os.ReadFile(name)
	if err != nil {
		t.Fail("no result: %v", err)
	}
	f, err := fx.Parse(b)
	if err != nil {
		t.Fail("result %s is no valid file: %v", name, err)
	}
	if len(f.Axes) != 2 {
		t.Fail("result has axes %v", f.Axes)
	}
	return f.Physical(), f.Axes[0], f.Axes[1]
}

func law(g *vk.G, t *vk.T) {
	defer inDir(t)()
	rng := g.Stream()
	rand.Seed(int64(g.U32()))
	s := &scene{w: g.Int(240, 340), h: g.Int(200, 260)}
	s.noise = vk.OneOf(g, 8.0, 20, 40)
	s.sky = s.noise * g.Float(15, 60)
	s.width = g.Float(1.2, 2.1)
	s.place(rng, g.Int(50, 90))
	n := g.Int(3, 14)
	u := &setup{n: n, k: vk.OneOf(g, 20, 20, 50, 12), threads: vk.OneOf(g, 8, 4, 1), radius: vk.OneOf(g, 16, 10), starSig: 15, starBp: vk.OneOf(g, float32(5), 5, 0, -1), job: g.Bool()}
	u.memory = vk.OneOf(g, 1000, 1000, 1000, g.Int(2, 6))
	u.mode = vk.OneOf(g, 6, 6, 6, 0, 2, 3, 4, 5, 1)
	u.sigma = vk.OneOf(g, float32(2.75), -1, 2.2)
	u.weight = vk.OneOf(g, 0, 0, 0, 1, 2, 3)
	if u.mode == 0 || u.mode == 4 || u.mode == 5 {
		u.weight = 0
	}
	u.norm = vk.OneOf(g, 2, 2, 2, 0)
	u.lse = vk.OneOf(g, stats.LSESCMedianQn, stats.LSESCMedianQn, stats.LSEMedianMAD, stats.LSEHistogram)
	stats.LSEstimator = u.lse
	u.out, u.tif, u.jpg = "out.fits", "out.tif", "out.jpg"
	if g.Chance(1, 4) {
		u.pre, u.post = "pre%02d.fits", "post%02d.fits"
	}

	// defects
	useDark, useFlat := g.Chance(1, 2), g.Chance(1, 2)
	hot := map[int]float64{}
	for k := g.Int(0, 15); k > 0; k-- {
		v := s.sky + s.noise*rng.Float(800, 1500)
		if rng.Int(0, 2) == 0 {
			v = 0
			p := rng.Int(0, s.w*s.h-1)
			u.dead = append(u.dead, pt{float64(p % s.w), float64(p / s.w)})
			hot[p] = v
			continue
		}
		hot[rng.Int(0, s.w*s.h-1)] = v
	}
	dark := make([]float64, s.w*s.h)
	flat := make([]float64, s.w*s.h)
	vig := g.Float(0.1, 0.5)
	for i := range dark {
		x, y := float64(i%s.w)/float64(s.w)-0.5, float64(i/s.w)/float64(s.h)-0.5
		flat[i] = 1
		if useFlat {
			flat[i] = 1 - vig*2*(x*x+y*y)
		}
		if useDark {
			dark[i] = 200 + rng.Float(0, 60) + 40*float64(i/s.w%2)
		}
	}
	format := g.Int(0, 1)
	if useDark {
		u.dark = "dark.fits"
		writeFrame(u.dark, s.w, s.h, dark, 0, 1)
	}
	if useFlat {
		u.flat = "flat.fits"
		f := make([]float64, len(flat))
		for i := range f {
			f[i] = flat[i] * 30000
		}
		writeFrame(u.flat, s.w, s.h, f, 0, 1)
	}

	// exposures
	shots := make([]*shot, n)
	nTrail := 0
	maxTrail := 0
	if n >= 6 {
		maxTrail = g.Int(0, 2)
	}
	nCloudy := g.Pick(5, 1, 1)
	rotate := g.Pick(2, 3)
	flip := g.Chance(1, 4)
	for i := range shots {
		k := &shot{gain: 1, exposure: 10}
		k.dx, k.dy = rng.Float(-10, 10), rng.Float(-10, 10)
		if rotate == 1 {
			k.theta = rng.Float(-0.04, 0.04)
		}
		if flip && i >= n/2 {
			k.theta += math.Pi
		}
		if u.norm == 2 {
			k.gain = rng.Float(0.8, 1.25)
			k.offset = rng.Float(-0.2, 0.4) * s.sky
		}
		if u.weight == 1 {
			k.exposure = float64(rng.Int(1, 6)) * 10
		}
		shots[i] = k
	}
	perm := g.Perm(n)
	for i := 0; i < maxTrail && i < n; i++ {
		k := shots[perm[i]]
		// parallel trails far from each other, so at most one frame is hit anywhere
		x := float64(s.w) * (0.25 + 0.5*float64(i))
		sl := rng.Float(-0.1, 0.1) * float64(s.w)
		a, b := k.to(s, pt{x, -20}), k.to(s, pt{x + sl, float64(s.h) + 20})
		k.trail = [4]float64{a.x, a.y, b.x, b.y}
		k.trailAmp = s.noise * rng.Float(30, 200)
		nTrail++
	}
	cloudy := 0
	for i := 0; i < nCloudy && n-i > maxTrail+4; i++ {
		shots[perm[n-1-i]].cloudy = true
		cloudy++
	}
	// references
	id := 0
	for k := 0; k < 20; k++ {
		if id = g.Int(0, n-1); !shots[id].cloudy && shots[id].trailAmp == 0 {
			break
		}
	}
	rule := g.Pick(4, 2, 1)
	u.alignRef, u.histoRef = "%starsHFR", "%starsHFR"
	if shots[id].cloudy || shots[id].trailAmp != 0 {
		rule = 0
	}
	ext := vk.OneOf(g, ".fits", ".fits", ".fit.gz")
	switch rule {
	case 1:
		u.alignRef, u.histoRef = strconv.Itoa(id), strconv.Itoa(id)
	case 2:
		if !useDark && !useFlat { // files are not calibrated
			u.alignRef, u.histoRef = fmt.Sprintf("light%02d%s", id, ext), fmt.Sprintf("light%02d%s", id, ext)
		} else {
			rule = 0
		}
	}
	if u.memory < 100 && rule == 1 {
		u.alignRef, u.histoRef, rule = "%starsHFR", "%starsHFR", 0
	}
	u.patterns = []string{"light*" + ext}
	for i, k := range shots {
		d := k.clean(s)
		for p := range d {
			x, y := float64(p%s.w), float64(p/s.w)
			if k.trailAmp > 0 {
				if e := segDist(k.trail, x, y); e < 5 {
					d[p] += k.trailAmp * math.Exp(-e*e/2)
				}
			}
			d[p] = (d[p]+k.gain*s.noise*rng.Norm())*flat[p] + dark[p]
			if v, ok := hot[p]; ok {
				d[p] = v
			}
		}
		writeFrame(fmt.Sprintf("light%02d%s", i, ext), s.w, s.h, d, format, k.exposure)
	}
	t.Desc("%d frames of %dx%d, %d stars of width %.2f, noise %g, sky %.0f, %d trails, %d cloudy, %d bad pixels, dark %v, flat %v, flip %v, rotate %v, format %d%s, align %s, norm %d, estimator %d, mode %d, weight %d, sigma %g, K %d, star bp %g, memory %d, threads %d, job %v",
		n, s.w, s.h, len(s.sources), s.width, s.noise, s.sky, nTrail, cloudy, len(hot), useDark, useFlat, flip, rotate, format, ext, u.alignRef, u.norm, u.lse, u.mode, u.weight, u.sigma, u.k, u.starBp, u.memory, u.threads, u.job)
	outs, err := u.run(t)
	if err != nil {
		if u.memory < 100 && (strings.Contains(err.Error(), "memory constraints") || strings.Contains(err.Error(), "Unable to select") || strings.Contains(err.Error(), "no frames to stack")) {
			t.Discard("no memory")
		}
		t.Fail("job fails: %v", err)
	}
	if len(outs) != 1 {
		t.Fail("%d results", len(outs))
	}
	d, w, h := readOut(t, u.out)
	if w != s.w || h != s.h {
		t.Fail("result is %dx%d", w, h)
	}
	nan := 0
	for _, v := range d {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			nan++
		}
	}
	if nan > 0 {
		t.Fail("result has %d invalid pixels", nan)
	}
	pictures(t, u, w, h)
	if u.pre != "" {
		for i := range shots {
			if _, pw, ph := readOut(t, fmt.Sprintf(u.pre, i)); pw != w || ph != h {
				t.Fail("preprocessed frame %d is %dx%d", i, pw, ph)
			}
			name := fmt.Sprintf(u.post, i)
			if _, err := os.Stat(name); err != nil && shots[i].cloudy {
				continue // not aligned
			}
			if _, pw, ph := readOut(t, name); pw != w || ph != h {
				t.Fail("postprocessed frame %d is %dx%d", i, pw, ph)
			}
		}
	}

	// exposure shows which frames are in
	total, good := 0.0, 0.0
	for _, k := range shots {
		total += k.exposure
		if !k.cloudy {
			good += k.exposure
		}
	}
	if e := float64(outs[0].Exposure); e > good+0.01 {
		t.Fail("exposure of the result is %g, all frames with stars have %g", e, good)
	} else if e < good-0.01 {
		t.Class("frames left out")
		if e < good*0.7 {
			t.Fail("exposure of the result is %g of %g", e, good)
		}
	} else {
		t.Class("all frames used")
	}

	// which frame is the reference?
	best, bestID := math.Inf(1), -1
	for i, k := range shots {
		if k.cloudy || rule != 0 && i != id {
			continue
		}
		e := evaluate(s, k, d, u, shots, false)
		if e.shift < best {
			best, bestID = e.shift, i
		}
	}
	if bestID < 0 {
		t.Discard("no star in all frames")
	}
	e := evaluate(s, shots[bestID], d, u, shots, true)
	ref := shots[bestID]
	rn := math.Sqrt(float64(n - cloudy))
	t.Class("mode %d", u.mode)
	if e.shift > 0.6 || e.worst > 2.2 {
		t.Fail("%d stars are off by %.2f pixels (median), up to %.2f, compared with frame %d", e.stars, e.shift, e.worst, bestID)
	}
	if e.flux < 0.4 || e.flux > 1.2 {
		t.Fail("stars have %.2f times the height they should have", e.flux)
	}
	if e.noise*rn < 0.4 || e.noise*rn > 1.8 {
		t.Fail("noise of the stack is %.3f times the noise of a frame, averaging %d frames gives %.3f", e.noise, n-cloudy, 1/rn)
	}
	if math.Abs(e.bg) > 1 {
		t.Fail("the sky is off by %.1f times the noise of a frame", e.bg)
	}
	if e.hot > 8 {
		t.Fail("pixel %v with just sky is off by %.1f times the noise of a frame (gain %.2f)", e.at, e.hot, ref.gain)
	}
	if nTrail > 0 && u.memory == 1000 && rejects(u.mode, n-cloudy) {
		t.Class("trails to reject")
		if e.trail > 7 {
			t.Fail("a trail of %d in one frame leaves a residual of %.1f times the noise of a frame", nTrail, e.trail)
		}
	}
	if e.stars < 10 {
		t.Trivial()
	}
}

// rejects tells if the mode copes with one outlier among n values
func rejects(mode, n int) bool {
	switch mode {
	case 0, 4:
		return true
	case 2, 3, 6:
		return n >= 10
	case 5:
		return n >= 14
	}
	return false
}

type result struct {
	stars, missing int
	shift, worst   float64 // median and maximum deviation of star positions
	noise          float64 // in units of the frame noise
	trail          float64 // largest residual where trails are
	hot            float64
	flux           float64 // median ratio of star brightness
	bg             float64
	at             [2]int
}

// evaluate compares the stack with what frame k would look like without noise
func evaluate(s *scene, k *shot, d []float64, u *setup, shots []*shot, full bool) (r result) {
	want := k.clean(s)
	bg := median(d)
	var dev, ratio []float64
	for _, q := range s.sources {
		p := k.to(s, q.pt)
		m, _, ok := centroid(d, s.w, s.h, p, bg, 3*s.width)
		if !ok || p.x < 12 || p.y < 12 || p.x > float64(s.w-13) || p.y > float64(s.h-13) {
			continue
		}
		// must be inside all frames
		in := true
		for _, o := range shots {
			z := o.to(s, q.pt)
			in = in && z.x > 8 && z.y > 8 && z.x < float64(s.w-9) && z.y < float64(s.h-9)
		}
		if !in {
			continue
		}
		e := math.Hypot(m.x-p.x, m.y-p.y)
		dev = append(dev, e)
		i := int(math.Round(p.y))*s.w + int(math.Round(p.x))
		ratio = append(ratio, (d[i]-bg)/(want[i]-k.gain*s.sky-k.offset))
	}
	r.stars = len(dev)
	r.shift = median(dev)
	for _, e := range dev {
		r.worst = math.Max(r.worst, e)
	}
	r.flux = median(ratio)
	if !full {
		return
	}
	var back []float64
	for y := 3; y < s.h-3; y++ {
		for x := 3; x < s.w-3; x++ {
			sp := k.from(s, pt{float64(x), float64(y)})
			ok := true
			for _, q := range s.sources {
				if math.Abs(q.x-sp.x) < 7*s.width && math.Abs(q.y-sp.y) < 7*s.width {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			trail := false
			for _, o := range shots {
				z := o.to(s, sp)
				ok = ok && z.x > 3 && z.y > 3 && z.x < float64(s.w-4) && z.y < float64(s.h-4)
				trail = trail || o.trailAmp > 0 && segDist(o.trail, z.x, z.y) < 5
			}
			for _, o := range shots {
				z := o.to(s, sp)
				for _, c := range u.dead {
					ok = ok && math.Hypot(z.x-c.x, z.y-c.y) > 2
				}
			}
			if !ok {
				continue
			}
			v := d[y*s.w+x] - bg
			if trail {
				r.trail = math.Max(r.trail, math.Abs(v)/s.noise/k.gain)
				continue
			}
			if h := math.Abs(v) / s.noise / k.gain; h > r.hot {
				r.hot = h
				r.at = [2]int{x, y}
			}
			back = append(back, v)
		}
	}
	m := median(back)
	for i := range back {
		back[i] = math.Abs(back[i] - m)
	}
	r.noise = median(back) * 1.4826 / s.noise / k.gain
	r.bg = (bg - k.gain*s.sky - k.offset) / s.noise / k.gain
	return
}

func pictures(t *vk.T, u *setup, w, h int) {
	for _, name := range []string{u.tif, u.jpg} {
		b, err := os.ReadFile(name)
		if err != nil {
			t.Fail("no picture: %v", err)
		}
		var img image.Image
		if strings.HasSuffix(name, ".tif") {
			img, err = tiff.Decode(bytes.NewReader(b))
		} else {
			img, _, err = image.Decode(bytes.NewReader(b))
		}
		if err != nil {
			t.Fail("picture %s: %v", name, err)
		}
		if img.Bounds().Dx() != w || img.Bounds().Dy() != h {
			t.Fail("picture %s is %v", name, img.Bounds())
		}
	}
}

func main() {
	vk.Main("E01", []string{
		"star fields of 50 to 90 stars of amplitudes from 40 times the noise, frames shifted by up to 10 pixels, rotated by up to 2 degrees or turned around, gains of 0.8 to 1.25; trails in two frames at most, apart from each other",
		"the job is built from the operators as the command line does it, as its package cannot be compiled without the web client"},
		&vk.Law{Name: "stack", Quick: 160, Thorough: 20000, Timeout: 120 * time.Second,
			Rule: "3..14 files of a star field with noise, shifts, rotations, meridian flips, gains, sky offsets, bad pixels, darks, flats, trails and clouded frames go through the stacking job of the command line, directly or via JSON, with all stacking modes, weights, estimators and memory limits: extent, positions and heights of the stars, noise, sky, ghosts, trails and the exposure of the result are compared with the scene; non-trivial if ten stars or more are measured",
			Run:  law},
		&vk.Law{Name: "stack-raced", Quick: 12, Thorough: 600, Timeout: 300 * time.Second, Race: true,
			Rule: "as stack, with Go's race detector", Run: law},
	)
}
