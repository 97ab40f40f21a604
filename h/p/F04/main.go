// F04: picture export and TIFF import.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"io"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
	"golang.org/x/image/tiff"
)

type pic struct {
	w, h, ch int
	d        []float32
	lo, hi   float64
	gamma    float64
	mode     ops.ExportMode
	viaOp    bool
}

// span draws the input range and how it is requested.
func span(g *vk.G) (lo, hi float64, mode ops.ExportMode, viaOp bool) {
	switch g.Pick(2, 2, 2, 1, 3) {
	case 0:
		return 0, 1, ops.EM0_1, true
	case 1:
		return 0, 65535, ops.EM0_65535, true
	case 2:
		return 0, 0, ops.EMMinMax, true
	case 3:
		return 0, 255, ops.EM0_255, true
	default:
		lo = float64(g.F32(-10, 10))
		hi = float64(float32(lo + g.LogFloat(0.01, 1e5)))
		return lo, hi, ops.EM0_1, false
	}
}

// value maps u (nominally in [0,1], can be outside) into the range.
func (p *pic) value(u float64) float32 {
	if p.viaOp && p.mode == ops.EMMinMax {
		return float32(u * 1000)
	}
	return float32(p.lo + u*(p.hi-p.lo))
}

func (p *pic) finish() {
	if p.viaOp && p.mode == ops.EMMinMax {
		p.lo, p.hi = math.Inf(1), math.Inf(-1)
		for _, v := range p.d {
			p.lo, p.hi = math.Min(p.lo, float64(v)), math.Max(p.hi, float64(v))
		}
	}
}

// want is the exported level of a pixel, between 0 and 1.
func (p *pic) want(i int) float64 {
	u := (float64(p.d[i]) - p.lo) / (p.hi - p.lo)
	if !(u > 0) {
		return 0
	}
	if u > 1 {
		u = 1
	}
	return math.Pow(u, 1/p.gamma)
}

func (p *pic) image() *fits.Image {
	ax := []int32{int32(p.w), int32(p.h)}
	if p.ch == 3 {
		ax = append(ax, 3)
	}
	return fits.NewImageFromNaxisn(ax, append([]float32{}, p.d...))
}

// save exports and returns the file content.
func (p *pic) save(t *vk.T, ext string, quality int, f *fits.Image) ([]byte, error) {
	path := filepath.Join(t.Dir, "p"+ext)
	defer os.Remove(path)
	var err error
	if p.viaOp {
		var r *fits.Image
		r, err = ops.NewOpSave(path, p.mode, float32(p.gamma)).Apply(f, ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev))
		if err == nil && r != f {
			t.Fail("saving does not pass the image on")
		}
	} else {
		lo, hi, ga := float32(p.lo), float32(p.hi), float32(p.gamma)
		jpg := ext[1] == 'j' || ext[1] == 'J'
		switch {
		case jpg && p.ch == 1:
			err = f.WriteMonoJPGToFile(path, lo, hi, ga, quality)
		case jpg:
			err = f.WriteJPGToFile(path, lo, hi, ga, quality)
		case p.ch == 1:
			err = f.WriteMonoTIFF16ToFile(path, lo, hi, ga)
		default:
			err = f.WriteTIFF16ToFile(path, lo, hi, ga)
		}
	}
	if err != nil {
		return nil, err
	}
	for i := range p.d {
		if math.Float32bits(f.Data[i]) != math.Float32bits(p.d[i]) {
			t.Fail("saving modifies the image at %d", i)
		}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fail("%v", err)
	}
	return b, nil
}

func gammaOf(g *vk.G) float64 {
	return float64(float32(vk.OneOf(g, 1, 2.2, 0.5, g.Float(0.3, 4))))
}

func rgb(c color.Color) [3]float64 {
	x := color.NRGBA64Model.Convert(c).(color.NRGBA64)
	return [3]float64{float64(x.R) / 65535, float64(x.G) / 65535, float64(x.B) / 65535}
}

func main() {
	sizes := func(g *vk.G) (int, int) {
		w, h := g.Large(1+g.Size(0, 60), 1+g.Size(0, 60), 200, 150000)
		return min(w, 65535), min(h, 65535) // the encoder writes extents as 16 bit numbers
	}
	vk.Main("F04", []string{"the range has positive width; gamma is positive; NaN pixels only with a fixed range", "JPEG pictures consist of 16x16 patches of one colour, so that compression error stays small"},
		&vk.Law{Name: "tiff-export", Quick: 2500, Thorough: 60000, Timeout: 30 * time.Second, Rule: "mono and RGB images, all range modes and explicit ranges, pixels inside and outside the range, gammas; decoded by an independent TIFF decoder; non-trivial if more than one pixel",
			Run: func(g *vk.G, t *vk.T) {
				p := &pic{ch: vk.OneOf(g, 1, 3), gamma: gammaOf(g)}
				p.w, p.h = sizes(g)
				p.lo, p.hi, p.mode, p.viaOp = span(g)
				s := g.Stream()
				kind := g.Int(0, 2)
				p.d = make([]float32, p.w*p.h*p.ch)
				for i := range p.d {
					switch kind {
					case 0:
						p.d[i] = p.value(s.Unit())
					case 1:
						p.d[i] = p.value(s.Float(-0.5, 1.5))
					default:
						p.d[i] = p.value([]float64{0, 1, -1, 2, 0.5, 1e-3}[s.Int(0, 5)])
						if s.Int(0, 9) == 0 && !(p.viaOp && p.mode == ops.EMMinMax) {
							p.d[i] = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}[s.Int(0, 2)]
						}
					}
				}
				p.finish()
				ext := vk.OneOf(g, ".tif", ".tiff", ".TIFF")
				t.Desc("%dx%dx%d range %g..%g gamma %g mode %d op %v kind %d", p.w, p.h, p.ch, p.lo, p.hi, p.gamma, p.mode, p.viaOp, kind)
				t.Class("channels %d", p.ch)
				t.Class("op %v", p.viaOp)
				if p.w*p.h == 1 {
					t.Trivial()
				}
				b, err := p.save(t, ext, 0, p.image())
				if err != nil {
					t.Fail("export failed: %v", err)
				}
				im, err := tiff.Decode(bytes.NewReader(b))
				if err != nil {
					t.Fail("exported file does not decode: %v", err)
				}
				if im.Bounds().Dx() != p.w || im.Bounds().Dy() != p.h {
					t.Fail("exported picture is %v", im.Bounds())
				}
				if p.ch == 1 {
					if _, ok := im.(*image.Gray16); !ok {
						t.Fail("mono image exported as %T", im)
					}
				}
				if p.lo == p.hi {
					t.Class("flat")
					return
				}
				n := p.w * p.h
				for y := 0; y < p.h; y++ {
					for x := 0; x < p.w; x++ {
						c := rgb(im.At(x, y))
						for k := 0; k < 3; k++ {
							i := y*p.w + x
							if p.ch == 3 {
								i += k * n
							}
							w := p.want(i)
							u := math.Max(math.Min((float64(p.d[i])-p.lo)/(p.hi-p.lo), 1), 0)
							// single precision error of the range mapping, seen through the gamma curve
							e := 4e-7 * (u + 1)
							if m := math.Max(math.Abs(p.lo), math.Abs(p.hi)); m > 0 {
								e += 2e-7 * m / (p.hi - p.lo)
							}
							tol := 1.01/65535 + math.Abs(math.Pow(u+e, 1/p.gamma)-math.Pow(math.Max(u-e, 0), 1/p.gamma))
							if math.Abs(c[k]-w) > tol {
								t.Fail("pixel %d,%d component %d is %.1f want %.1f (of 65535)", x, y, k, c[k]*65535, w*65535)
							}
						}
					}
				}
			}},
		&vk.Law{Name: "jpeg-export", Quick: 600, Thorough: 15000, Timeout: 30 * time.Second, Rule: "mono and RGB images of 16x16 patches of random colour (partial patches at the right and bottom edge), all range modes, gammas, qualities 90-100; decoded by an independent JPEG decoder; non-trivial if more than one patch",
			Run: func(g *vk.G, t *vk.T) {
				p := &pic{ch: vk.OneOf(g, 1, 3), gamma: gammaOf(g)}
				p.w, p.h = 1+g.Size(0, 90), 1+g.Size(0, 90)
				p.lo, p.hi, p.mode, p.viaOp = span(g)
				q := 95
				if !p.viaOp {
					q = g.Int(90, 100)
				}
				s := g.Stream()
				p.d = make([]float32, p.w*p.h*p.ch)
				nan := !(p.viaOp && p.mode == ops.EMMinMax)
				for c := 0; c < p.ch; c++ {
					for by := 0; by < p.h; by += 16 {
						for bx := 0; bx < p.w; bx += 16 {
							v := p.value(s.Float(-0.3, 1.3))
							if nan && s.Int(0, 15) == 0 {
								v = float32(math.NaN())
							}
							for y := by; y < by+16 && y < p.h; y++ {
								for x := bx; x < bx+16 && x < p.w; x++ {
									p.d[c*p.w*p.h+y*p.w+x] = v
								}
							}
						}
					}
				}
				p.finish()
				t.Desc("%dx%dx%d range %g..%g gamma %g mode %d op %v quality %d", p.w, p.h, p.ch, p.lo, p.hi, p.gamma, p.mode, p.viaOp, q)
				t.Class("channels %d", p.ch)
				if p.w <= 16 && p.h <= 16 {
					t.Trivial()
				}
				b, err := p.save(t, vk.OneOf(g, ".jpg", ".jpeg", ".JPG"), q, p.image())
				if err != nil {
					t.Fail("export failed: %v", err)
				}
				im, err := jpeg.Decode(bytes.NewReader(b))
				if err != nil {
					t.Fail("exported file does not decode: %v", err)
				}
				if im.Bounds().Dx() != p.w || im.Bounds().Dy() != p.h {
					t.Fail("exported picture is %v", im.Bounds())
				}
				if p.lo == p.hi {
					t.Class("flat")
					return
				}
				n := p.w * p.h
				for y := 0; y < p.h; y++ {
					for x := 0; x < p.w; x++ {
						c := rgb(im.At(x, y))
						for k := 0; k < 3; k++ {
							i := y*p.w + x
							if p.ch == 3 {
								i += k * n
							}
							w := p.want(i)
							tol := 5.0
							if p.ch == 3 {
								tol = 8
							}
							if math.Abs(c[k]-w)*255 > tol {
								t.Fail("pixel %d,%d component %d is %.1f want %.1f (of 255)", x, y, k, c[k]*255, w*255)
							}
						}
					}
				}
			}},
		&vk.Law{Name: "tiff-import", Quick: 2500, Thorough: 60000, Timeout: 30 * time.Second, Rule: "8 and 16 bit gray, RGB and RGBA TIFF files made by an independent encoder, uncompressed or deflated; samples, geometry and channel order must come back; non-trivial if more than one pixel",
			Run: func(g *vk.G, t *vk.T) {
				w, h := sizes(g)
				r := image.Rect(0, 0, w, h)
				s := g.Stream()
				kind := g.Int(0, 5)
				ch, n := 3, w*h
				want := make([]float32, n*3)
				var im image.Image
				fill := func(p []byte) {
					for i := range p {
						p[i] = byte(s.U64())
					}
				}
				fill3 := func(i int, a, b, c float32) { want[i], want[i+n], want[i+2*n] = a, b, c }
				switch kind {
				case 0:
					x := image.NewGray16(r)
					fill(x.Pix)
					for i := 0; i < n; i++ {
						want[i] = float32(x.Gray16At(i%w, i/w).Y)
					}
					im, ch = x, 1
				case 1:
					x := image.NewGray(r)
					fill(x.Pix)
					for i := 0; i < n; i++ {
						want[i] = float32(x.GrayAt(i%w, i/w).Y)
					}
					im, ch = x, 1
				case 2, 3: // opaque
					x := image.NewRGBA64(r)
					fill(x.Pix)
					for i := 0; i < n; i++ {
						x.Pix[i*8+6], x.Pix[i*8+7] = 255, 255
						c := x.RGBA64At(i%w, i/w)
						fill3(i, float32(c.R), float32(c.G), float32(c.B))
					}
					im = x
				case 4:
					x := image.NewRGBA(r)
					fill(x.Pix)
					for i := 0; i < n; i++ {
						x.Pix[i*4+3] = 255
						c := x.RGBAAt(i%w, i/w)
						fill3(i, float32(c.R), float32(c.G), float32(c.B))
					}
					im = x
				default:
					x := image.NewNRGBA(r)
					fill(x.Pix)
					for i := 0; i < n; i++ {
						c := x.NRGBAAt(i%w, i/w)
						fill3(i, float32(c.R), float32(c.G), float32(c.B))
					}
					im = x
				}
				t.Desc("kind %d %dx%d", kind, w, h)
				t.Class("kind %d", kind)
				if n == 1 {
					t.Trivial()
				}
				var b bytes.Buffer
				if err := tiff.Encode(&b, im, &tiff.Options{Compression: vk.OneOf(g, tiff.Uncompressed, tiff.Deflate), Predictor: g.Bool()}); err != nil {
					t.Discard("encoder refuses")
				}
				path := filepath.Join(t.Dir, vk.OneOf(g, "i.tif", "i.tiff", "i.TIF"))
				os.WriteFile(path, b.Bytes(), 0644)
				defer os.Remove(path)
				f, err := fits.NewImageFromFile(path, 7, io.Discard)
				if err != nil {
					t.Fail("import failed: %v", err)
				}
				ax := []int32{int32(w), int32(h), 3}[:2+ch/3]
				if !fits.EqualInt32Slice(f.Naxisn, ax) || len(f.Data) != n*ch || int(f.Pixels) != n*ch {
					t.Fail("axes %v, %d values, want %v", f.Naxisn, len(f.Data), ax)
				}
				for i := range f.Data {
					if f.Data[i]*f.Bscale+f.Bzero != want[i] {
						t.Fail("value %d is %g want %g", i, f.Data[i], want[i])
					}
				}
			}},
		&vk.Law{Name: "export-errors", Quick: 400, Thorough: 8000, Timeout: 30 * time.Second, Rule: "exports that cannot be completed (file size limit at any byte, missing directory, name is a directory, unsupported shape) must return an error; all non-trivial",
			Init: func() { signal.Ignore(syscall.SIGXFSZ) },
			Run: func(g *vk.G, t *vk.T) {
				p := &pic{ch: vk.OneOf(g, 1, 3), gamma: 1}
				p.w, p.h = sizes(g)
				p.lo, p.hi, p.mode, p.viaOp = 0, 1, ops.EM0_1, g.Bool()
				s := g.Stream()
				p.d = make([]float32, p.w*p.h*p.ch)
				for i := range p.d {
					p.d[i] = p.value(s.Unit())
				}
				ext := vk.OneOf(g, ".tif", ".jpg")
				what := ""
				var err error
				switch g.Pick(5, 1, 1, 2) {
				case 0:
					b, err2 := p.save(t, ext, 95, p.image())
					if err2 != nil {
						t.Fail("%v", err2)
					}
					k := g.Int(0, len(b)-1)
					what = fmt.Sprintf("disk full after %d of %d bytes", k, len(b))
					var old syscall.Rlimit
					if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
						panic(err)
					}
					lim := old
					lim.Cur = uint64(k)
					if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
						panic(err)
					}
					_, err = p.save(t, ext, 95, p.image())
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
				case 1:
					what = "missing directory"
					_, err = p.save(t, "/sub/x"+ext, 95, p.image())
					if p.viaOp { // the extension decides
						what = "missing directory"
					}
				case 2:
					what = "is a directory"
					os.Mkdir(filepath.Join(t.Dir, "p"+ext), 0755)
					_, err = p.save(t, ext, 95, p.image())
				default:
					what = "shape"
					ax := [][]int32{{5}, {4, 3, 2}, {4, 3, 4}, {3, 2, 3, 2}, {4, 3, 1}}[g.Int(0, 4)]
					f := fits.NewImageFromNaxisn(ax, nil)
					p.d, p.viaOp = f.Data, true
					if len(ax) == 3 && ax[2] == 1 {
						what = "shape3"
					}
					_, err = p.save(t, ext, 95, f)
				}
				t.Desc("%s %s %dx%dx%d op %v", what, ext, p.w, p.h, p.ch, p.viaOp)
				t.Class("%.9s", what)
				if err == nil && what != "shape3" {
					t.Fail("export reported success")
				}
			}},
	)
}
