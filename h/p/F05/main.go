// F05: the save step.
package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"image/jpeg"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

func main() {
	pattern := &vk.Law{Name: "save-pattern", Quick: 1500, Thorough: 40000, Timeout: 60 * time.Second, Rule: "1-12 frames with distinct numbers saved by one step through the concurrent executor under a pattern with %d, %04d or no placeholder, in any accepted format; the directory must hold exactly the expected files, each with the content of the frame of that number, and frames pass through unchanged; non-trivial if at least two frames",
		Run: func(g *vk.G, t *vk.T) {
			dir, err := os.MkdirTemp(t.Dir, "s")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			n := g.Size(1, 12)
			ids := map[int]bool{}
			w, h := 4, 3
			if g.Chance(1, 3) { // large enough for saves to overlap
				w, h = g.Int(100, 300), g.Int(100, 300)
			}
			var frames []*fits.Image
			var ins []ops.Promise
			for len(frames) < n {
				id := vk.OneOf(g, g.Int(0, 30), g.Int(0, 30), g.Int(0, 20000))
				for ids[id] {
					id++
				}
				ids[id] = true
				d := make([]float32, w*h)
				for i := range d {
					d[i] = float32(id*16 + i%16)
				}
				f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, d)
				f.ID = id
				frames = append(frames, f)
				ins = append(ins, func() (*fits.Image, error) { return f, nil })
			}
			ph := vk.OneOf(g, "%d", "%04d", "%02d", "%3d", "%05d")
			if n == 1 && g.Bool() {
				ph = ""
			}
			stem := vk.OneOf(g, "img", "a b", "light_", "")
			if stem+ph == "" {
				stem = "x"
			}
			ext := vk.OneOf(g, ".fits", ".fit", ".fts", ".fits.gz", ".fit.gzip", ".fts.gz", ".fit.gz", ".fits.gzip", ".fts.gzip", ".FITS", ".tif", ".jpg", ".tiff", ".jpeg")
			pattern := filepath.Join(dir, stem+ph+ext)
			threads := g.Int(1, 8)
			t.Desc("%d frames %dx%d pattern %s threads %d", n, w, h, stem+ph+ext, threads)
			t.Class("overlapping %v", w > 4 && n > 1 && threads > 1)
			t.Class("placeholder %s", ph)
			t.Class("%s", ext)
			if n < 2 {
				t.Trivial()
			}
			c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
			outs, err := ops.NewOpSave(pattern, ops.EM0_65535, 1).MakePromises(ins, c)
			if err != nil {
				t.Fail("%v", err)
			}
			res, err := ops.MaterializeAll(outs, threads, false)
			if err != nil {
				t.Fail("saving failed: %v", err)
			}
			if len(res) != n {
				t.Fail("%d frames passed on", len(res))
			}
			for i := range res {
				if res[i] != frames[i] {
					t.Fail("frame %d not passed on in place", i)
				}
			}
			var want, got []string
			for _, f := range frames {
				nm := stem + ext
				if ph != "" {
					nm = stem + fmt.Sprintf(ph, f.ID) + ext
				}
				want = append(want, nm)
			}
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				got = append(got, e.Name())
			}
			ws := append([]string{}, want...)
			sort.Strings(ws)
			sort.Strings(got)
			if strings.Join(ws, "|") != strings.Join(got, "|") {
				t.Fail("files are %q want %q", got, ws)
			}
			for k, f := range frames {
				b, err := os.ReadFile(filepath.Join(dir, want[k]))
				if err != nil {
					t.Fail("%v", err)
				}
				for i := range f.Data {
					if f.Data[i] != float32(f.ID*16+i%16) {
						t.Fail("frame %d modified", f.ID)
					}
				}
				le := strings.ToLower(ext)
				switch {
				case strings.Contains(le, ".gz"):
					r, err := gzip.NewReader(bytes.NewReader(b))
					if err != nil {
						t.Fail("%s: %v", want[k], err)
					}
					if b, err = io.ReadAll(r); err != nil {
						t.Fail("%s: %v", want[k], err)
					}
					fallthrough
				case strings.HasPrefix(le, ".f"):
					p, err := fx.Parse(b)
					if err != nil {
						t.Fail("%s: %v", want[k], err)
					}
					v := p.Physical()
					if len(v) != w*h {
						t.Fail("%s holds %d pixels, not %d", want[k], len(v), w*h)
					}
					for i := range v {
						if v[i] != float64(f.ID*16+i%16) {
							t.Fail("%s holds %g at pixel %d, want %d", want[k], v[i], i, f.ID*16+i%16)
						}
					}
				case strings.HasPrefix(le, ".tif"):
					if !bytes.HasPrefix(b, []byte("II*\x00")) && !bytes.HasPrefix(b, []byte("MM\x00*")) {
						t.Fail("%s is not TIFF", want[k])
					}
					r, err := fits.NewImageFromFile(filepath.Join(dir, want[k]), 0, io.Discard)
					if err != nil {
						t.Fail("%s: %v", want[k], err)
					}
					if len(r.Data) != w*h {
						t.Fail("%s holds %d pixels, not %d", want[k], len(r.Data), w*h)
					}
					for i, v := range r.Data {
						if e := math.Min(65535, float64(f.ID*16+i%16)); math.Abs(float64(v)-e) > 1.5 {
							t.Fail("%s holds %g at pixel %d, want %g", want[k], v, i, e)
						}
					}
				default:
					if !bytes.HasPrefix(b, []byte{0xff, 0xd8}) {
						t.Fail("%s is not JPEG", want[k])
					}
					m, err := jpeg.Decode(bytes.NewReader(b))
					if err != nil {
						t.Fail("%s: %v", want[k], err)
					}
					if m.Bounds().Dx() != w || m.Bounds().Dy() != h {
						t.Fail("%s is %v, not %dx%d", want[k], m.Bounds(), w, h)
					}
					for i := 0; i < w*h; i += 1 + w*h/50 {
						v, _, _, _ := m.At(i%w, i/w).RGBA()
						if e := math.Min(65535, float64(f.ID*16+i%16)); math.Abs(float64(v)-e) > 3*257 {
							t.Fail("%s holds %d at pixel %d, want %g", want[k], v, i, e)
						}
					}
				}
			}
		}}
	raced := *pattern
	raced.Name, raced.Quick, raced.Thorough, raced.Timeout, raced.Race = "save-pattern-raced", 150, 8000, 300*time.Second, true
	raced.Rule = "the same under Go's race detector, which fails on unsynchronised access to shared data: " + raced.Rule
	vk.Main("F05", []string{"file name patterns hold at most one number placeholder, of the form %d or %0Nd or %Nd"},
		pattern, &raced,
		&vk.Law{Name: "save-refusals", Quick: 400, Thorough: 4000, Rule: "unknown file name suffixes and missing frames are errors, an empty pattern saves nothing; all non-trivial",
			Run: func(g *vk.G, t *vk.T) {
				dir, err := os.MkdirTemp(t.Dir, "r")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
				f := fits.NewImageFromNaxisn([]int32{4, 3}, nil)
				f.ID = g.Int(0, 5)
				switch g.Pick(3, 1, 1) {
				case 0:
					name := "x" + vk.OneOf(g, ".png", ".fitsx", "", ".gz", ".tiff.gz", ".fits.bz2", ".txt", ".jpgx", "fits")
					t.Desc("suffix %q", name)
					if _, err := ops.NewOpSave(filepath.Join(dir, name), ops.EM0_1, 1).Apply(f, c); err == nil {
						t.Fail("accepted")
					}
				case 1:
					t.Desc("missing frame")
					if _, err := ops.NewOpSave(filepath.Join(dir, "x.fits"), ops.EM0_1, 1).Apply(nil, c); err == nil {
						t.Fail("accepted")
					}
				default:
					t.Desc("empty pattern")
					if r, err := ops.NewOpSave("", ops.EM0_1, 1).Apply(f, c); err != nil || r != f {
						t.Fail("not passed on: %v", err)
					}
					es, _ := os.ReadDir(dir)
					if len(es) != 0 {
						t.Fail("files written")
					}
				}
			}},
	)
}
