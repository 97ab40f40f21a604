// N05: statistics reported for an image describe its current pixels.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

// read reads one cached statistic.
func read(st *stats.Stats, k int) float64 {
	switch k {
	case 0:
		return float64(st.Min())
	case 1:
		return float64(st.Max())
	case 2:
		return float64(st.Mean())
	case 3:
		return float64(st.StdDev())
	case 4:
		return float64(st.Location())
	case 5:
		return float64(st.Scale())
	default:
		return float64(st.Noise())
	}
}

var names = []string{"min", "max", "mean", "stddev", "location", "scale", "noise"}

// compare checks statistics f reports against statistics computed from scratch. noise holds the largest error
// that rounding may have added so far through cached affine updates.
func compare(t *vk.T, f *fits.Image, noise float64, what string) {
	if f.Stats == nil {
		t.Fail("%s: no statistics", what)
	}
	fresh := stats.NewStats(append([]float32{}, f.Data...), f.Naxisn[0])
	amax := 1e-3
	for _, v := range f.Data {
		amax = math.Max(amax, math.Abs(float64(v)))
	}
	for k := range names {
		if k == 6 && (f.Naxisn[0] < 3 || int32(len(f.Data))/f.Naxisn[0] < 3) {
			continue
		}
		got, want := read(f.Stats, k), read(fresh, k)
		if !vk.Close(got, want, 3e-5*amax+noise, 1e-4) {
			t.Fail("%s: %s is reported as %g, that of the pixels is %g", what, names[k], got, want)
		}
	}
}

func finite(a []float32) (lo, hi float32, ok bool) {
	lo, hi, ok = a[0], a[0], true
	for _, v := range a {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) || math.Abs(float64(v)) > 1e9 {
			return 0, 0, false
		}
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	return
}

type step struct {
	name string
	unit bool // needs data in [0,1]
	run  func(f *fits.Image, c *ops.Context) (*fits.Image, error)
}

type applier interface {
	Apply(f *fits.Image, c *ops.Context) (*fits.Image, error)
}

func opStep(name string, unit bool, op applier) step { return step{name, unit, op.Apply} }
func fnStep(name string, unit bool, fn func(f *fits.Image)) step {
	return step{name, unit, func(f *fits.Image, c *ops.Context) (*fits.Image, error) { fn(f); return f, nil }}
}

func monoStep(g *vk.G, f *fits.Image) step {
	p := func(lo, hi float64) float32 { return g.F32(lo, hi) }
	switch g.Int(0, 21) {
	case 0:
		s, o := p(-3, 3), p(-5, 5)
		return opStep(fmt.Sprintf("scaleOffset(%g,%g)", s, o), false, pre.NewOpScaleOffset(s, o))
	case 1:
		s := p(0.3, 2)
		return opStep(fmt.Sprintf("gaussianBlur(%g)", s), false, stretch.NewOpGaussianBlur(s))
	case 2:
		s, ga := p(0.3, 2), p(0, 3)
		return opStep(fmt.Sprintf("unsharpMask(%g,%g)", s, ga), false, stretch.NewOpUnsharpMask(s, ga, p(-2, 2)))
	case 3:
		return opStep("normRange", false, stretch.NewOpNormalizeRange())
	case 4:
		return opStep("badPixel", false, pre.NewOpBadPixel(p(0.5, 3), p(0.5, 3), nil))
	case 5:
		ch, cfa := vk.OneOf(g, "R", "G", "B"), vk.OneOf(g, "RGGB", "GRBG", "GBRG", "BGGR")
		return opStep("badPixel-bayer "+ch+" "+cfa, false, pre.NewOpBadPixel(p(0.5, 3), p(0.5, 3), pre.NewOpDebayer(ch, cfa)))
	case 6:
		ch, cfa := vk.OneOf(g, "R", "G", "B"), vk.OneOf(g, "RGGB", "GRBG", "GBRG", "BGGR")
		return opStep("debayer "+ch+" "+cfa, false, pre.NewOpDebayer(ch, cfa))
	case 7:
		return opStep("bin2", false, pre.NewOpBin(2))
	case 8:
		return step{"calibrate", false, func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
			s := vk.NewStream(uint64(len(f.Data)))
			d := fits.NewImageFromNaxisn(f.Naxisn, nil)
			fl := fits.NewImageFromNaxisn(f.Naxisn, nil)
			for i := range d.Data {
				d.Data[i] = float32(s.Float(0, 0.1))
				fl.Data[i] = float32(s.Float(0.7, 1))
			}
			dir, err := os.MkdirTemp(".", "cal")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			dark, flat := filepath.Join(dir, "dark.fits"), filepath.Join(dir, "flat.fits")
			if err := d.WriteFile(dark); err != nil {
				panic(err)
			}
			if err := fl.WriteFile(flat); err != nil {
				panic(err)
			}
			return pre.NewOpCalibrate(dark, flat).Apply(f, c)
		}}
	case 9:
		return opStep("debandHoriz", false, pre.NewOpDebandHoriz(p(20, 80), int32(g.Int(2, 16)), p(2, 5)))
	case 10:
		return opStep("debandVert", false, pre.NewOpDebandVert(p(20, 80), int32(g.Int(2, 16)), p(2, 5)))
	case 11:
		return opStep("backExtract", false, pre.NewOpBackExtract(8, 4, 1.5, 0, ""))
	case 12:
		return opStep("stretch", true, stretch.NewOpStretchIterative(p(0.05, 0.5), p(0.001, 0.2)))
	case 13:
		return opStep("midtones", true, stretch.NewOpMidtones(p(0.5, 10), p(0, 3)))
	case 14:
		return opStep("gamma", true, stretch.NewOpGamma(p(0.5, 3)))
	case 15:
		return opStep("gammaPP", true, stretch.NewOpGammaPP(p(0.5, 3), p(-2, 2)))
	case 16:
		return opStep("scaleBlack", true, stretch.NewOpScaleBlack(p(0.01, 0.3)))
	case 17, 18:
		mode := post.HistoNormMode(g.Int(1, 3))
		return step{fmt.Sprintf("matchHist(%d)", mode), mode == post.HNMLocBlack, func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
			c.MatchHisto = stats.NewStats([]float32{p(0, 0.4), p(0.4, 0.5), p(0.5, 0.9)}, 3)
			return post.NewOpMatchHistogram(mode).Apply(f, c)
		}}
	case 19:
		return fnStep("SetBlackWhite", true, func(f *fits.Image) {
			if lo, hi, _ := finite(f.Data); lo < hi { // black and white point of a uniform image are undefined
				f.SetBlackWhite(p(0, 10), p(0, 10), io.Discard)
			}
		})
	case 20:
		return fnStep("MonoToHSLuvLum", true, func(f *fits.Image) { f.MonoToHSLuvLum() })
	default:
		return step{"align", false, func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
			tr := star.Transform2D{A: 1, B: p(-0.05, 0.05), C: p(-3, 3), D: p(-0.05, 0.05), E: 1, F: p(-3, 3)}
			return f.Project(f.Naxisn, tr, f.Stats.Location())
		}}
	}
}

func colorStep(g *vk.G, f *fits.Image) step {
	p := func(lo, hi float64) float32 { return g.F32(lo, hi) }
	switch g.Int(0, 24) {
	case 0:
		s, o := p(-3, 3), p(-5, 5)
		return opStep(fmt.Sprintf("scaleOffset(%g,%g)", s, o), false, pre.NewOpScaleOffset(s, o))
	case 1:
		return opStep("hslScaleOffsetChannel", false, hsl.NewOpHSLScaleOffsetChannel(g.Int(0, 2), p(-2, 2), p(-1, 1)))
	case 2:
		return opStep("hslNeutralizeBackground", true, hsl.NewOpHSLNeutralizeBackground(p(0, 1), p(1, 2)))
	case 3:
		return opStep("hslSaturationGamma", true, hsl.NewOpHSLSaturationGamma(p(0.5, 3), p(0, 1)))
	case 4:
		return opStep("hslSelectiveSaturation", true, hsl.NewOpHSLSelectiveSaturation(p(0, 0.5), p(0.5, 1), p(0, 3)))
	case 5:
		return opStep("hslRotateHue", true, hsl.NewOpHSLRotateHue(p(0, 0.5), p(0.5, 1), p(-0.3, 0.3), p(-2, 1)))
	case 6:
		return opStep("hslSCNR", true, hsl.NewOpHSLSCNR(p(0, 1)))
	case 7:
		return opStep("hslMidtones", true, hsl.NewOpHSLMidtones(p(0.5, 10), p(0, 3)))
	case 8:
		return opStep("hslGamma", true, hsl.NewOpHSLGamma(p(0.5, 3)))
	case 9:
		return opStep("hslGammaPP", true, hsl.NewOpHSLGammaPP(p(0.5, 3), p(-2, 1)))
	case 10, 11:
		return opStep("hslUnsharpMask", true, hsl.NewOpHSLUnsharpMask(p(0.3, 2), p(0, 3), p(-2, 1)))
	case 12:
		return opStep("hslScaleBlack", true, hsl.NewOpHSLScaleBlack(p(0.01, 0.2)))
	case 13:
		return opStep("hslStretch", true, hsl.NewOpHSLStretchIterative(p(0.05, 0.5), p(0.001, 0.2)))
	case 14, 15:
		return step{"hslApplyLum", true, func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
			lum := fits.NewImageFromNaxisn(f.Naxisn[:2], nil)
			s := g.Stream()
			for i := range lum.Data {
				lum.Data[i] = float32(s.Unit())
			}
			c.LumFrame = lum
			return hsl.NewOpHSLApplyLum().Apply(f, c)
		}}
	case 16:
		return opStep("rgbToHSLuv", true, rgb.NewOpRGBToHSLuv())
	case 17:
		return opStep("hsluvToRGB", true, rgb.NewOpHSLuvToRGB())
	case 18:
		return fnStep("OffsetRGB", false, func(f *fits.Image) { f.OffsetRGB(p(-1, 1), p(-1, 1), p(-1, 1)) })
	case 19:
		return fnStep("ScaleRGB", false, func(f *fits.Image) { f.ScaleRGB(p(0, 2), p(0, 2), p(0, 2)) })
	case 20:
		return fnStep("ScaleOffsetClampRGB", false, func(f *fits.Image) {
			f.ScaleOffsetClampRGB(p(0, 2), p(-1, 1), p(0, 2), p(-1, 1), p(0, 2), p(-1, 1))
		})
	case 21:
		return step{"rgbBalance", true, func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
			f.Stars = []star.Star{{Index: f.Naxisn[0] + 1, X: 1, Y: 1, HFR: 2}}
			return rgb.NewOpRGBBalance(4, 0.1, 0, 0, fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 0.9, B: 1}).Apply(f, c)
		}}
	case 22:
		return fnStep("ToXyy", true, func(f *fits.Image) { f.ToXyy() })
	case 23:
		return fnStep("RGBToCIEHSL", true, func(f *fits.Image) { f.RGBToCIEHSL() })
	default:
		return opStep("normRange", false, stretch.NewOpNormalizeRange())
	}
}

func history(g *vk.G, t *vk.T, color bool, get func(*vk.G, *fits.Image) step) {
	stats.LSEstimator = stats.LSEMeanStdDev
	w, h := int32(g.Int(20, 40)), int32(g.Int(20, 40))
	ax := []int32{w, h}
	if color {
		ax = append(ax, 3)
	}
	f := fits.NewImageFromNaxisn(ax, nil)
	s := g.Stream()
	for i := range f.Data {
		f.Data[i] = float32(0.3 + 0.05*s.Norm())
		if s.Int(0, 19) == 0 {
			f.Data[i] = float32(s.Unit())
		}
		f.Data[i] = float32(math.Max(0, math.Min(1, float64(f.Data[i]))))
	}
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	stats.LSEstimator = stats.LSEMeanStdDev
	n := g.Int(1, 6)
	var hist []string
	reads := 0
	noise := 0.0
	lastLo, lastHi, _ := finite(f.Data)
	track := func() { // error from rounding pixels once per operation, amplified where an operation widens the value range
		lo, hi, ok := finite(f.Data)
		if !ok {
			return
		}
		gain := 1.0
		if lastHi > lastLo && hi > lo {
			gain = math.Max(1, float64(hi-lo)/float64(lastHi-lastLo))
		}
		noise = gain*(noise+1e-6*math.Max(math.Abs(float64(lastLo)), math.Abs(float64(lastHi)))) + 1e-6*math.Max(math.Abs(float64(lo)), math.Abs(float64(hi)))
		lastLo, lastHi = lo, hi
	}
	for i := 0; i < n; i++ {
		mask := g.Int(0, 127)
		if g.Chance(1, 3) {
			mask = 127
		}
		for k := range names {
			if mask&(1<<uint(k)) != 0 {
				read(f.Stats, k)
				reads++
			}
		}
		st := get(g, f)
		if st.unit {
			if lo, hi, _ := finite(f.Data); lo < 0 || hi > 1 {
				r, err := stretch.NewOpNormalizeRange().Apply(f, c)
				if err != nil {
					t.Fail("normRange: %v", err)
				}
				f = r
				for i, v := range f.Data { // rounding may leave values just outside
					if v < 0 || v > 1 {
						f.Data[i] = float32(math.Max(0, math.Min(1, float64(v))))
						f.Stats.Clear()
					}
				}
				track()
				hist = append(hist, "normRange")
			}
		}
		hist = append(hist, fmt.Sprintf("read%07b", mask), st.name)
		t.Desc("%v image, %s", ax, strings.Join(hist, ", "))
		name := st.name
		if j := strings.IndexAny(name, "( "); j > 0 {
			name = name[:j]
		}
		t.Class("%s", name)
		r, err := st.run(f, c)
		if err != nil {
			if name == "matchHist" && stats.NewStats(append([]float32{}, f.Data...), f.Naxisn[0]).Location() == 0 {
				t.Discard("location is zero, so it can't be scaled")
			}
			t.Fail("%s: %v", st.name, err)
		}
		f = r
		if _, _, ok := finite(f.Data); !ok {
			t.Discard("values left the finite range")
		}
		track()
		if f.Naxisn[0] < 12 || f.Naxisn[1] < 12 {
			compare(t, f, noise, "after "+st.name)
			return
		}
		if g.Chance(2, 3) || i == n-1 {
			compare(t, f, noise, "after "+st.name)
		}
	}
	if reads == 0 {
		t.Trivial()
	}
}

// sources checks the statistics images come with.
func sources(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	w, h := g.Int(1, 30), g.Int(1, 30)
	rng := g.Stream()
	shape := g.Int(0, 3)
	value := func(i, n int) float64 { // in 0 to 1
		switch shape {
		case 0:
			return rng.Unit()
		case 1: // brightest first
			return 1 - float64(i)/float64(n)
		case 2: // brightest last
			return float64(i+1) / float64(n)
		default:
			return math.Mod(float64(i)*0.37, 1) * 0.01
		}
	}
	frame := func() *fits.Image {
		f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, nil)
		for i := range f.Data {
			f.Data[i] = float32(value(i, len(f.Data)))
		}
		f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
		f.HFR, f.Stars = 2, []star.Star{{X: 1, Y: 1, HFR: 2}}
		return f
	}
	kind := g.Int(0, 9)
	t.Desc("%dx%d, values of shape %d, source %d", w, h, shape, kind)
	t.Class("source %d", kind)
	if w*h < 4 {
		t.Trivial()
	}
	switch {
	case kind <= 5: // FITS files
		bp := []int{8, 16, 32, 64, -32, -64}[kind]
		ax := []int{w, h, 3}[:g.Int(2, 3)]
		n := w * h
		if len(ax) == 3 {
			n *= 3
		}
		cards := fx.Mandatory(bp, ax)
		if g.Bool() {
			cards = append(cards, fmt.Sprintf("BZERO   = %20d", g.Int(-300, 300)))
		}
		if g.Bool() {
			cards = append(cards, fmt.Sprintf("BSCALE  = %20s", vk.OneOf(g, "1.0", "2.5", "-0.5")))
		}
		b := fx.Header(cards)
		for i := 0; i < n; i++ {
			v := value(i, n)
			switch bp {
			case 8:
				b = append(b, byte(255*v))
			case 16:
				b = binary.BigEndian.AppendUint16(b, uint16(int16(v*60000-30000)))
			case 32:
				b = binary.BigEndian.AppendUint32(b, uint32(int32(v*60000-30000)))
			case 64:
				b = binary.BigEndian.AppendUint64(b, uint64(int64(v*60000-30000)))
			case -32:
				b = binary.BigEndian.AppendUint32(b, math.Float32bits(float32(v*60000-30000)))
			case -64:
				b = binary.BigEndian.AppendUint64(b, math.Float64bits(v*60000-30000))
			}
		}
		f := fits.NewImage()
		if err := f.Read(bytes.NewReader(fx.Pad(b)), true, io.Discard); err != nil {
			t.Fail("reading a FITS file with BITPIX %d: %v", bp, err)
		}
		compare(t, f, 0, fmt.Sprintf("just read from a FITS file with BITPIX %d", bp))
	case kind == 6: // TIFF files
		f := frame()
		ax := 1
		if g.Bool() {
			ax = 3
			f = fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 3}, append(append(frame().Data, frame().Data...), frame().Data...))
		}
		name := filepath.Join(t.Dir, "a.tif")
		var err error
		if ax == 1 {
			err = f.WriteMonoTIFF16ToFile(name, 0, 1, 1)
		} else {
			err = f.WriteTIFF16ToFile(name, 0, 1, 1)
		}
		if err != nil {
			t.Fail("%v", err)
		}
		f, err = fits.NewImageFromFile(name, 0, io.Discard)
		if err != nil {
			t.Fail("%v", err)
		}
		compare(t, f, 0, "just read from a TIFF file")
	case kind == 7: // stack
		var fs []*fits.Image
		for i := g.Int(1, 5); i > 0; i-- {
			fs = append(fs, frame())
		}
		for _, f := range fs {
			read(f.Stats, g.Int(0, 6))
		}
		f, err := stack.NewOpStack(stack.StackMode(g.Int(0, 5)), stack.StWeightNone, 2.75, 2.75).Apply(fs, c)
		if err != nil {
			t.Fail("%v", err)
		}
		compare(t, f, 1e-6, "just stacked")
	case kind == 8: // stack of batches
		var f *fits.Image
		sum := float32(0)
		for i := g.Int(1, 4); i > 0; i-- {
			n := float32(g.Int(1, 9))
			l := frame()
			read(l.Stats, g.Int(0, 6))
			f = stack.StackIncremental(f, l, n)
			if g.Bool() {
				read(f.Stats, g.Int(0, 6))
			}
			sum += n
		}
		stack.StackIncrementalFinalize(f, sum)
		compare(t, f, 1e-5, "just stacked from batches")
	default: // colour combination
		fs := []*fits.Image{frame(), frame(), frame()}
		f := fits.NewRGBFromChannels(fs, nil, 0, io.Discard)
		compare(t, f, 1e-6, "just combined from channels")
	}
}

func main() {
	vk.Main("N05", []string{"location and scale are compared under the deterministic mean/standard deviation estimator; pixel values stay finite"},
		&vk.Law{Name: "mono-histories", Quick: 12000, Thorough: 300000, Rule: "1..6 operations on a mono image (scaling incl. negative factors, blur, sharpen, cosmetic correction, debayer, bin, calibration, deband, background, stretches, histogram matching, resampling), any subset of statistics read between operations; then all statistics equal those computed from scratch; non-trivial if a statistic was cached before an operation",
			Run: func(g *vk.G, t *vk.T) { history(g, t, false, monoStep) }},
		&vk.Law{Name: "color-histories", Quick: 8000, Thorough: 200000, Rule: "the same with colour operations on a three-plane image",
			Run: func(g *vk.G, t *vk.T) { history(g, t, true, colorStep) }},
		&vk.Law{Name: "sources", Quick: 8000, Thorough: 400000, Rule: "an image of any size read from FITS files of every encoding or TIFF files, stacked, stacked from batches or combined from channels, with its brightest pixel anywhere; its statistics equal those computed from scratch; non-trivial from four pixels on", Run: sources},
	)
}
