// C01: calibration with dark and flat frames.
package main

import (
	"io"
	"math"
	"os"
	"path/filepath"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

// inDir runs the case in a fresh directory, as calibration frames must be named relative to the working directory.
func inDir(t *vk.T) func() {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(t.Dir, "c")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	return func() {
		os.Chdir(old)
		os.RemoveAll(dir)
	}
}

func save(name string, naxisn []int32, d []float32) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		panic(err)
	}
	if err := fits.NewImageFromNaxisn(naxisn, append([]float32{}, d...)).WriteFile(name); err != nil {
		panic(err)
	}
}

func frame(d []float32, naxisn []int32, id int) *fits.Image {
	f := fits.NewImageFromNaxisn(naxisn, append([]float32{}, d...))
	f.ID = id
	return f
}

// devNull stands in for standard output, where the operator warns about rotated calibration frames
var devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func ctx(g *vk.G) *ops.Context {
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = g.Int(1, 8)
	return c
}

func lawArith(g *vk.G, t *vk.T) {
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	os.Stdout = devNull
	defer inDir(t)()
	w, h := g.Size(1, 40), g.Size(1, 30)
	w, h = g.Large(w, h, 200, 150000)
	naxisn := []int32{int32(w), int32(h)}
	if g.Chance(1, 6) {
		naxisn = append(naxisn, 3)
	}
	n := w * h
	if len(naxisn) == 3 {
		n *= 3
	}
	useDark, useFlat := g.Chance(3, 4), g.Chance(3, 4)
	s := g.Stream()
	var dark, flat []float32
	darkName, flatName := "", ""
	mx := float64(0)
	if useDark {
		dark = make([]float32, n)
		lvl := g.LogFloat(0.01, 1000)
		for i := range dark {
			dark[i] = float32(lvl * s.Float(-0.1, 1.5))
		}
		darkName = vk.OneOf(g, "dark.fits", "cal/dark.fit", "d.fits.gz")
		save(darkName, naxisn, dark)
	}
	vign := g.Pick(3, 1, 1)
	if useFlat {
		flat = make([]float32, n)
		lvl := g.LogFloat(0.01, 60000)
		for i := range flat {
			x, y := float64(i%w)/float64(w)-0.5, float64(i/w%h)/float64(h)-0.5
			v := 1 - 0.8*(x*x+y*y) + 0.02*s.Norm()
			if vign == 1 {
				v = 1
			}
			if vign == 2 && s.Int(0, 19) == 0 {
				v = s.Float(-1, 0) // dead pixel
				if s.Int(0, 1) == 0 {
					v = 0
				}
			}
			flat[i] = float32(lvl * v)
			if i == 0 || float64(flat[i]) > mx {
				mx = float64(flat[i])
			}
		}
		flatName = vk.OneOf(g, "flat.fits", "cal/flat.fit", "f.fits.gz")
		save(flatName, naxisn, flat)
	}
	m := g.Int(1, 8)
	c := ctx(g)
	rot := len(naxisn) == 2 && w != h && g.Chance(1, 10)
	op := pre.NewOpCalibrate(darkName, flatName)
	t.Desc("%d frames of %v dark %q flat %q %d threads, rotated %v, flat kind %d", m, naxisn, darkName, flatName, c.MaxThreads, rot, vign)
	t.Class("dark %v flat %v", useDark, useFlat)
	if !useDark && !useFlat {
		t.Class("none")
	}
	if n < 4 {
		t.Trivial()
	}
	var ins []ops.Promise
	raws := make([][]float32, m)
	frames := make([]*fits.Image, m)
	for k := range raws {
		raw := make([]float32, n)
		for i := range raw {
			raw[i] = float32(s.Float(0, 2000))
		}
		raws[k] = raw
		nx := naxisn
		if rot {
			nx = []int32{naxisn[1], naxisn[0]}
		}
		f := frame(raw, nx, k)
		frames[k] = f
		delay := time.Duration(s.Int(0, 50)) * time.Microsecond
		ins = append(ins, func() (*fits.Image, error) { time.Sleep(delay); return f, nil })
	}
	outs, err := op.MakePromises(ins, c)
	if err != nil {
		t.Fail("%v", err)
	}
	res, err := ops.MaterializeAll(outs, c.MaxThreads, false)
	if err != nil {
		t.Fail("calibration refused: %v", err)
	}
	if len(res) != m {
		t.Fail("%d of %d frames returned", len(res), m)
	}
	for k, r := range res {
		if r.ID != k {
			t.Fail("frame %d in place %d", r.ID, k)
		}
		if len(r.Data) != n {
			t.Fail("%d pixels of %d", len(r.Data), n)
		}
		for i, v := range r.Data {
			want := float64(raws[k][i])
			mag := math.Abs(want)
			if useDark {
				want -= float64(dark[i])
				mag += math.Abs(float64(dark[i]))
			}
			if useFlat && flat[i] > 0 {
				want *= mx / float64(flat[i])
				mag *= mx / float64(flat[i])
			}
			if !vk.Close(float64(v), want, 2e-6*mag, 2e-6) {
				t.Fail("frame %d pixel %d: raw %g yields %g, want %g", k, i, raws[k][i], v, want)
			}
		}
	}
	// The calibration frames stay as they are, so a frame calibrated later gets the same.
	late := frame(raws[0], frames[0].Naxisn, 0)
	r, err := op.Apply(late, c)
	if err != nil {
		t.Fail("%v", err)
	}
	if i, ok := vk.SameBits(r.Data, res[0].Data); !ok {
		t.Fail("the same raw frame calibrates to %g and later to %g", res[0].Data[i], r.Data[i])
	}
}

func lawScene(g *vk.G, t *vk.T) {
	defer inDir(t)()
	w, h := g.Size(2, 40), g.Size(2, 40)
	w, h = g.Large(w, h, 200, 150000)
	naxisn := []int32{int32(w), int32(h)}
	s := g.Stream()
	n := w * h
	scene, vig, dark := make([]float64, n), make([]float64, n), make([]float32, n)
	flat, raw := make([]float32, n), make([]float32, n)
	strength, cx, cy := g.Float(0, 1.5), g.Float(-0.3, 0.3), g.Float(-0.3, 0.3)
	exposure := g.LogFloat(0.1, 50000)
	ped := g.Float(0, 500)
	mx := 0.0
	for i := range raw {
		x, y := float64(i%w)/float64(w)-0.5-cx, float64(i/w)/float64(h)-0.5-cy
		vig[i] = 1 / (1 + strength*(x*x+y*y))
		scene[i] = s.Float(100, 1000)
		dark[i] = float32(ped + s.Float(0, 20))
		if s.Int(0, 50) == 0 {
			dark[i] += 3000
		}
		flat[i] = float32(vig[i] * exposure)
		raw[i] = float32(scene[i]*vig[i] + float64(dark[i]))
		if vig[i] > mx {
			mx = vig[i]
		}
	}
	save("dark.fits", naxisn, dark)
	save("flat.fits", naxisn, flat)
	t.Desc("%dx%d vignetting %.2f pedestal %.0f flat level %.3g", w, h, strength, ped, exposure)
	c := ctx(g)
	r, err := pre.NewOpCalibrate("dark.fits", "flat.fits").Apply(frame(raw, naxisn, 0), c)
	if err != nil {
		t.Fail("%v", err)
	}
	k := float64(r.Data[0]) / scene[0]
	for i := range r.Data {
		if got := float64(r.Data[i]) / scene[i]; !vk.Close(got, k, 0, 2e-4) {
			t.Fail("pixel %d is restored to %g of the scene, pixel 0 to %g", i, got, k)
		}
	}
	if !vk.Close(k, mx, 0, 2e-4) {
		t.Fail("the scene is restored %g times as bright, the best lit pixel gets %g", k, mx)
	}
}

func lawRefuse(g *vk.G, t *vk.T) {
	defer inDir(t)()
	w, h := g.Int(2, 12), g.Int(2, 12)
	nx := []int32{int32(w), int32(h)}
	mk := func(w, h int) []float32 {
		d := make([]float32, w*h)
		for i := range d {
			d[i] = float32(1 + i%7)
		}
		return d
	}
	dw, dh := g.Int(1, 14), g.Int(1, 14)
	if dw*dh == w*h {
		dw, dh = w, h+1
	}
	other := []int32{int32(dw), int32(dh)}
	save("ok.fits", nx, mk(w, h))
	save("other.fits", other, mk(dw, dh))
	os.WriteFile("broken.fits", []byte("SIMPLE  =                    T"), 0o644)
	kinds := []string{"dark of another size", "flat of another size", "dark and flat of different sizes", "missing dark", "missing flat", "broken dark", "broken flat", "dark outside", "flat outside"}
	k := g.Int(0, len(kinds)-1)
	dark, flat := "ok.fits", "ok.fits"
	if g.Bool() {
		dark = ""
	}
	switch k {
	case 0:
		dark, flat = "other.fits", vk.OneOf(g, "", "ok.fits")
	case 1:
		flat = "other.fits"
	case 2:
		dark, flat = "ok.fits", "other.fits"
		if g.Bool() {
			dark, flat = flat, dark
		}
	case 3:
		dark = "none.fits"
	case 4:
		flat = "none.fits"
	case 5:
		dark = "broken.fits"
	case 6:
		flat = "broken.fits"
	case 7, 8:
		abs, _ := filepath.Abs("ok.fits")
		bad := vk.OneOf(g, abs, "../"+filepath.Base(filepath.Dir(abs))+"/ok.fits")
		if k == 7 {
			dark = bad
		} else {
			flat = bad
		}
	}
	t.Desc("%s: %dx%d frame, dark %q flat %q, other %dx%d", kinds[k], w, h, dark, flat, dw, dh)
	t.Class("%s", kinds[k])
	c := ctx(g)
	op := pre.NewOpCalibrate(dark, flat)
	n := g.Int(1, 5)
	var ins []ops.Promise
	for i := 0; i < n; i++ {
		f := frame(mk(w, h), nx, i)
		ins = append(ins, func() (*fits.Image, error) { return f, nil })
	}
	outs, err := op.MakePromises(ins, c)
	if err == nil {
		_, err = ops.MaterializeAll(outs, c.MaxThreads, false)
	}
	if err == nil {
		t.Fail("calibrated without error")
	}
}

// lawSteps runs frames through several calibration steps of one job, each with its own calibration frames.
func lawSteps(g *vk.G, t *vk.T) {
	defer inDir(t)()
	w, h := g.Size(1, 14), g.Size(1, 14)
	naxisn := []int32{int32(w), int32(h)}
	n := w * h
	s := g.Stream()
	mk := func(lo, hi float64) []float32 {
		d := make([]float32, n)
		for i := range d {
			d[i] = float32(s.Float(lo, hi))
		}
		return d
	}
	names := []string{""}
	cal := map[string][]float32{}
	for i := 0; i < g.Int(1, 3); i++ {
		name := []string{"a.fits", "b.fits", "c.fits"}[i]
		cal[name] = mk(0.5, 2)
		save(name, naxisn, cal[name])
		names = append(names, name)
	}
	type step struct{ dark, flat string }
	var steps []step
	var sub []ops.Operator
	for k := g.Int(1, 4); k > 0; k-- {
		st := step{names[g.Int(0, len(names)-1)], names[g.Int(0, len(names)-1)]}
		steps = append(steps, st)
		sub = append(sub, pre.NewOpCalibrate(st.dark, st.flat))
	}
	chained := g.Chance(2, 3)
	m := g.Int(1, 5)
	runs := g.Int(1, 2)
	fresh := g.Bool()
	c := ctx(g)
	t.Desc("%d frames of %v, calibration steps (dark, flat) %v, chained %v, %d runs, new context for each %v, %d threads", m, naxisn, steps, chained, runs, fresh, c.MaxThreads)
	t.Class("%d steps, chained %v", len(steps), chained)
	if len(steps) < 2 && runs < 2 {
		t.Trivial()
	}
	for run := 0; run < runs; run++ {
		if run > 0 && fresh {
			threads := c.MaxThreads
			c = ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
			c.MaxThreads = threads
			// other calibration frames under the same names
			for _, name := range names[1:] {
				cal[name] = mk(0.5, 2)
				save(name, naxisn, cal[name])
			}
		}
		raws := make([][]float32, m)
		var ins []ops.Promise
		for k := range raws {
			raws[k] = mk(0, 100)
			f := frame(raws[k], naxisn, k)
			ins = append(ins, func() (*fits.Image, error) { return f, nil })
		}
		outs := ins
		var err error
		if chained { // every frame passes all steps
			if outs, err = ops.NewOpSequence(sub...).MakePromises(ins, c); err != nil {
				t.Fail("%v", err)
			}
		} else { // every frame passes one step
			outs = nil
			for k := range ins {
				o, err := sub[k%len(sub)].MakePromises(ins[k:k+1], c)
				if err != nil {
					t.Fail("%v", err)
				}
				outs = append(outs, o...)
			}
		}
		res, err := ops.MaterializeAll(outs, c.MaxThreads, false)
		if err != nil {
			t.Fail("calibration refused: %v", err)
		}
		for k, r := range res {
			todo := steps
			if !chained {
				todo = steps[k%len(steps) : k%len(steps)+1]
			}
			for i, v := range r.Data {
				want, mag := float64(raws[k][i]), float64(raws[k][i])
				for _, st := range todo {
					if st.dark != "" {
						want -= float64(cal[st.dark][i])
						mag += float64(cal[st.dark][i])
					}
					if st.flat != "" {
						mx := float32(0)
						for _, v := range cal[st.flat] {
							if v > mx {
								mx = v
							}
						}
						want *= float64(mx) / float64(cal[st.flat][i])
						mag *= float64(mx) / float64(cal[st.flat][i])
					}
				}
				if !vk.Close(float64(v), want, 4e-6*mag, 4e-6) {
					t.Fail("run %d frame %d pixel %d: raw %g yields %g, want %g", run, k, i, raws[k][i], v, want)
				}
			}
		}
	}
}

func main() {
	vk.Main("C01", []string{"calibration frames with the same number of pixels but swapped width and height are accepted with a warning (Seestar mode), all other size differences are refused"},
		&vk.Law{Name: "arithmetic", Quick: 4000, Thorough: 200000, Timeout: 60 * time.Second, Rule: "1-8 frames (mono or colour, sometimes rotated) calibrated concurrently with dark, flat, both or none, from files; every pixel must be (raw-dark)*max(flat)/flat, or raw-dark where the flat is not positive; a frame calibrated once more later comes out bit-identical; non-trivial from 4 pixels on", Run: lawArith},
		&vk.Law{Name: "scene", Quick: 3000, Thorough: 150000, Rule: "raw = scene*vignetting + dark is restored to the scene times one common factor, which is that of the best lit pixel; all non-trivial", Run: lawScene},
		&vk.Law{Name: "steps", Quick: 2000, Thorough: 60000, Rule: "1-4 calibration steps of one job, each with its own dark, flat, both or none out of up to 3 files, passed by every frame one after the other or by different frames, run once or twice in the same or a new context (with other files); each step must use its own calibration frames; non-trivial if there is more than one step or run", Run: lawSteps},
		&vk.Law{Name: "refusals", Quick: 3000, Thorough: 100000, Rule: "dark or flat of another size, mutually different sizes, missing, broken or outside the directory tree; all non-trivial", Run: lawRefuse},
		&vk.Law{Name: "arithmetic-raced", Quick: 150, Thorough: 10000, Timeout: 300 * time.Second, Race: true,
			Rule: "as arithmetic, with Go's race detector", Run: lawArith},
		&vk.Law{Name: "steps-raced", Quick: 100, Thorough: 5000, Timeout: 300 * time.Second, Race: true,
			Rule: "as steps, with Go's race detector", Run: lawSteps},
	)
}
