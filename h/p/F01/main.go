// F01: saving FITS and reading it back.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

var reserved = map[string]bool{"SIMPLE": true, "BITPIX": true, "BZERO": true, "BSCALE": true, "EXPOSURE": true, "EXPTIME": true, "PROGRAM": true, "CREATOR": true,
	"END": true, "HISTORY": true, "COMMENT": true, "CONTINUE": true, "BLANK": true, "XTENSION": true, "PCOUNT": true, "GCOUNT": true, "GROUPS": true, "EXTEND": true}

func key(g *vk.G, used map[string]bool) string {
	for {
		n := g.Int(1, 8)
		b := make([]byte, n)
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"
		for i := range b {
			b[i] = al[g.Int(0, len(al)-1)]
		}
		k := string(b)
		if !used[k] && !reserved[k] && !strings.HasPrefix(k, "NAXIS") {
			used[k] = true
			return k
		}
	}
}

func text(g *vk.G, max int) string {
	n := g.Size(0, max)
	b := make([]byte, n)
	mode := g.Int(0, 3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(g.Int('a', 'z'))
		case 1:
			b[i] = "'a& /=Z9"[g.Int(0, 7)]
		case 2:
			b[i] = "' "[g.Int(0, 1)]
		default:
			b[i] = byte(g.Int(32, 126))
		}
	}
	return string(b)
}

func hdrFloat(g *vk.G) float32 {
	switch g.Pick(2, 3, 2, 2, 1) {
	case 0:
		return float32(g.Int(-1000, 1000))
	case 1:
		return g.F32(-100, 100)
	case 2:
		return float32(g.Float(-1, 1) * math.Pow(10, float64(g.Int(-37, 37))))
	case 3:
		return float32(g.Int(-1<<30, 1<<30)) * 16
	default:
		for {
			f := math.Float32frombits(g.U32())
			if !math.IsNaN(float64(f)) && !math.IsInf(float64(f), 0) {
				return f
			}
		}
	}
}

func pixel(s *vk.Stream, mode int) float32 {
	switch mode {
	case 0:
		return float32(s.Float(0, 65535))
	case 1:
		return float32(s.Int(0, 65535))
	case 2: // special values
		v := []float32{0, float32(math.Copysign(0, -1)), 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-40, math.Float32frombits(0xffc00001), math.Float32frombits(0x7f800001)}
		return v[s.Int(0, len(v)-1)]
	default:
		return math.Float32frombits(uint32(s.U64()))
	}
}

type img struct {
	axes []int32
	data []float32
	exp  float32
}

func image(g *vk.G, maxPix int) img {
	naxis := g.Pick(1, 6, 3, 1) + 1
	axes := make([]int32, naxis)
	n := 1
	for i := range axes {
		lim := maxPix / n
		if lim < 1 {
			lim = 1
		}
		if i < naxis-1 && lim > 200 && g.Chance(9, 10) {
			lim = 200
		}
		axes[i] = int32(1 + g.Size(0, lim-1))
		n *= int(axes[i])
	}
	if naxis == 1 && g.Chance(1, 2) { // near block and buffer boundaries
		n = vk.OneOf(g, 720, 1440, 4096, 8192) + g.Int(-2, 2)
		axes[0] = int32(n)
	}
	s := g.Stream()
	mode := g.Int(0, 3)
	d := make([]float32, n)
	for i := range d {
		d[i] = pixel(s, mode)
	}
	x := img{axes: axes, data: d}
	if g.Bool() {
		x.exp = float32(math.Abs(float64(hdrFloat(g))))
	}
	return x
}

func (x img) build() *fits.Image {
	f := fits.NewImageFromNaxisn(x.axes, append([]float32{}, x.data...))
	f.Exposure = x.exp
	return f
}

// want is the value a pixel must read back as.
func same(in, out float32) bool {
	if in != in {
		return out == 0
	}
	return in == out
}

func compare(t *vk.T, x img, r *fits.Image, what string) {
	if len(r.Naxisn) != len(x.axes) {
		t.Fail("%s: axes %v want %v", what, r.Naxisn, x.axes)
	}
	for i := range x.axes {
		if r.Naxisn[i] != x.axes[i] {
			t.Fail("%s: axes %v want %v", what, r.Naxisn, x.axes)
		}
	}
	if len(r.Data) != len(x.data) || int(r.Pixels) != len(x.data) {
		t.Fail("%s: %d pixels want %d", what, len(r.Data), len(x.data))
	}
	for i := range x.data {
		if !same(x.data[i], r.Data[i]) {
			t.Fail("%s: pixel %d is %g want %g", what, i, r.Data[i], x.data[i])
		}
	}
	if r.Exposure != x.exp {
		t.Fail("%s: exposure %g want %g", what, r.Exposure, x.exp)
	}
}

func gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func standard(t *vk.T, x img, b []byte, what string) *fx.File {
	p, err := fx.Parse(b)
	if err != nil {
		t.Fail("%s is not standard FITS: %v", what, err)
	}
	if p.Bitpix != -32 || len(p.Axes) != len(x.axes) {
		t.Fail("%s: BITPIX %d axes %v", what, p.Bitpix, p.Axes)
	}
	for i := range x.axes {
		if int(x.axes[i]) != p.Axes[i] {
			t.Fail("%s: axes %v want %v", what, p.Axes, x.axes)
		}
	}
	for i, v := range p.Physical() {
		if !same(x.data[i], float32(v)) {
			t.Fail("%s: independent reader sees pixel %d as %g want %g", what, i, v, x.data[i])
		}
	}
	if len(p.Raw) >= 4 && math.Float32bits(x.data[0]) != binary.BigEndian.Uint32(p.Raw) && x.data[0] == x.data[0] && p.Num("BZERO", 0) == 0 && p.Num("BSCALE", 1) == 1 {
		t.Fail("%s: first pixel bits differ", what)
	}
	if x.exp != 0 && float32(p.Num("EXPOSURE", -1)) != x.exp {
		t.Fail("%s: independent reader sees exposure %g want %g", what, p.Num("EXPOSURE", -1), x.exp)
	}
	return p
}

func main() {
	vk.Main("F01", []string{"extents are at least 1; header keywords are distinct, 1 to 8 standard characters, not reserved; header floats are finite; header strings are printable ASCII", "NaN pixels are saved as zero, as the writer documents"},
		&vk.Law{Name: "round-trip", Quick: 3000, Thorough: 100000, Rule: "images with 1-4 axes, up to 20000 pixels, special values and arbitrary bit patterns, arbitrary header keyword values; written to memory, parsed by an independent strict reader and read back; non-trivial if it has header keywords or more than 16 pixels",
			Run: func(g *vk.G, t *vk.T) {
				x := image(g, vk.OneOf(g, 30, 300, 3000, 20000))
				f := x.build()
				used := map[string]bool{}
				nb, ni, nf, ns := g.Size(0, 4), g.Size(0, 6), g.Size(0, 6), g.Size(0, 10)
				wantB, wantI, wantF, wantS := map[string]bool{}, map[string]int32{}, map[string]float32{}, map[string]string{}
				for i := 0; i < nb; i++ {
					wantB[key(g, used)] = g.Bool()
				}
				for i := 0; i < ni; i++ {
					wantI[key(g, used)] = vk.OneOf(g, int32(g.Int(-99, 99)), int32(g.U32()))
				}
				for i := 0; i < nf; i++ {
					wantF[key(g, used)] = hdrFloat(g)
				}
				for i := 0; i < ns; i++ {
					wantS[key(g, used)] = text(g, vk.OneOf(g, 10, 18, 20, 70, 300))
				}
				for k, v := range wantB {
					f.Header.Bools[k] = v
				}
				for k, v := range wantI {
					f.Header.Ints[k] = v
				}
				for k, v := range wantF {
					f.Header.Floats[k] = v
				}
				for k, v := range wantS {
					f.Header.Strings[k] = v
				}
				t.Desc("axes %v exposure %g bools %v ints %v floats %v strings %q data %s", x.axes, x.exp, wantB, wantI, wantF, wantS, vk.Show(x.data))
				t.Class("axes=%d", len(x.axes))
				if len(x.data) <= 16 && nb+ni+nf+ns == 0 {
					t.Trivial()
				}
				var b bytes.Buffer
				if err := f.Write(&b); err != nil {
					t.Fail("write: %v", err)
				}
				p := standard(t, x, b.Bytes(), "written file")
				for k, v := range wantB {
					if w := p.Vals[k]; w.Kind != 'b' || w.B != v {
						t.Fail("independent reader sees %s as %+v want %v", k, w, v)
					}
				}
				for k, v := range wantI {
					if w := p.Vals[k]; w.Kind != 'i' || w.I != int64(v) {
						t.Fail("independent reader sees %s as %+v want %v", k, w, v)
					}
				}
				for k, v := range wantF {
					if w := p.Vals[k]; (w.Kind != 'f' && w.Kind != 'i') || float32(w.F) != v {
						t.Fail("independent reader sees %s as %+v want %v", k, w, v)
					}
				}
				for k, v := range wantS {
					if w := p.Vals[k]; w.Kind != 's' || strings.TrimRight(w.S, " ") != strings.TrimRight(v, " ") {
						t.Fail("independent reader sees %s as %+v want %q", k, w, v)
					}
				}
				r := fits.NewImage()
				if err := r.Read(bytes.NewReader(b.Bytes()), true, io.Discard); err != nil {
					t.Fail("read back: %v", err)
				}
				compare(t, x, r, "read back")
				for k, v := range wantB {
					if w, ok := r.Header.Bools[k]; !ok || w != v {
						t.Fail("header %s read back as %v (%v) want %v", k, w, ok, v)
					}
				}
				for k, v := range wantI {
					if w, ok := r.Header.Ints[k]; !ok || w != v {
						t.Fail("header %s read back as %v (%v) want %v", k, w, ok, v)
					}
				}
				for k, v := range wantF {
					w, ok := r.Header.Floats[k]
					if !ok {
						var i int32
						i, ok = r.Header.Ints[k]
						w = float32(i)
					}
					if !ok || w != v {
						t.Fail("header %s read back as %v (%v) want %v", k, w, ok, v)
					}
				}
				for k, v := range wantS {
					if w, ok := r.Header.Strings[k]; !ok || strings.TrimRight(w, " ") != strings.TrimRight(v, " ") {
						t.Fail("header %s read back as %q (%v) want %q", k, w, ok, v)
					}
				}
			}},
		&vk.Law{Name: "file-history", Quick: 400, Thorough: 12000, Rule: "histories of 1-8 saves of images of different sizes to a few plain and gzip file names, reading back after every save and checking the exact file content; non-trivial if some name is saved to twice",
			Run: func(g *vk.G, t *vk.T) {
				dir, err := os.MkdirTemp(t.Dir, "h")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				names := []string{"a.fits", "b.fit", "c.fits.gz", "d.FITS.GZ", "e.fits.gzip", "f", "g.GZIP", "h.fts.Gz"}
				cur := map[string]img{}
				n := g.Int(1, 8)
				hist, twice := "", false
				k := g.Int(1, len(names))
				// pre-existing unrelated content under a name
				if g.Chance(1, 3) {
					nm := names[g.Int(0, k-1)]
					os.WriteFile(filepath.Join(dir, nm), bytes.Repeat([]byte("old "), g.Size(1, 20000)), 0644)
					hist += "existing " + nm + "; "
					twice = true
				}
				for s := 0; s < n; s++ {
					nm := names[g.Int(0, k-1)]
					x := image(g, vk.OneOf(g, 20, 2000, 9000))
					if _, ok := cur[nm]; ok {
						twice = true
					}
					cur[nm] = x
					hist += fmt.Sprintf("save %v to %s; ", x.axes, nm)
					t.Desc("%s", hist)
					f := x.build()
					path := filepath.Join(dir, nm)
					if err := f.WriteFile(path); err != nil {
						t.Fail("%s: %v", hist, err)
					}
					for _, nm := range names {
						x, ok := cur[nm]
						if !ok {
							continue
						}
						path := filepath.Join(dir, nm)
						b, err := os.ReadFile(path)
						if err != nil {
							t.Fail("%v", err)
						}
						if strings.Contains(strings.ToLower(nm), ".gz") {
							if b, err = gunzip(b); err != nil {
								t.Fail("%s: %s does not decompress: %v", hist, nm, err)
							}
						}
						standard(t, x, b, hist+nm)
						r, err := fits.NewImageFromFile(path, 1, io.Discard)
						if err != nil {
							t.Fail("%s: reading %s: %v", hist, nm, err)
						}
						compare(t, x, r, hist+nm)
					}
				}
				t.Class("saves=%d", n)
				if !twice {
					t.Trivial()
				}
			}},
		&vk.Law{Name: "save-errors", Quick: 200, Thorough: 4000, Rule: "saves that cannot complete (device full at any size, full after any number of bytes by way of a file size limit, missing directory, name is a directory, failing writer after k bytes) must return an error",
			Init: func() { signal.Ignore(syscall.SIGXFSZ) },
			Run: func(g *vk.G, t *vk.T) {
				x := image(g, vk.OneOf(g, 20, 2000, 9000, 40000))
				dir, err := os.MkdirTemp(t.Dir, "e")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				ext := vk.OneOf(g, ".fits", ".fits.gz", ".gzip")
				path := filepath.Join(dir, "x"+ext)
				switch g.Pick(2, 1, 1, 3, 4) {
				case 0:
					t.Desc("full device %s %v", ext, x.axes)
					t.Class("full")
					if err := os.Symlink("/dev/full", path); err != nil {
						panic(err)
					}
					err = x.build().WriteFile(path)
				case 1:
					t.Desc("missing directory %s", ext)
					t.Class("nodir")
					err = x.build().WriteFile(filepath.Join(dir, "sub", "x"+ext))
				case 2:
					t.Desc("directory %s", ext)
					t.Class("isdir")
					os.Mkdir(path, 0755)
					err = x.build().WriteFile(path)
				case 4:
					if err := x.build().WriteFile(path); err != nil {
						t.Fail("%v", err)
					}
					st, err2 := os.Stat(path)
					if err2 != nil {
						t.Fail("%v", err2)
					}
					k := g.Int(0, int(st.Size())-1)
					t.Desc("disk full after %d of %d bytes of %s %v", k, st.Size(), ext, x.axes)
					t.Class("late full %s", ext)
					var old syscall.Rlimit
					if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
						panic(err)
					}
					lim := old
					lim.Cur = uint64(k)
					if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
						panic(err)
					}
					err = x.build().WriteFile(filepath.Join(dir, "y"+ext))
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
				default:
					var b bytes.Buffer
					if err := x.build().Write(&b); err != nil {
						t.Fail("%v", err)
					}
					k := g.Int(0, b.Len()-1)
					t.Desc("writer failing after %d of %d bytes", k, b.Len())
					t.Class("writer")
					err = x.build().Write(&limited{k})
				}
				if err == nil {
					t.Fail("save reported success")
				}
			}},
	)
}

type limited struct{ n int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n {
		n := l.n
		l.n = 0
		return n, io.ErrShortWrite
	}
	l.n -= len(b)
	return len(b), nil
}
