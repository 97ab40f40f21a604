// A01: the command line program runs the job its flags describe.

//go:debug randseednop=0
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"image"
	_ "image/jpeg"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/image/tiff"

	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	_ "github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	_ "github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

func prog() string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(exe), "nightlight") // built by prepare.sh
}

type result struct {
	code     int
	out, err string
}

// call runs the program in dir
func call(t *vk.T, dir string, args ...string) result {
	c := exec.Command(prog(), args...)
	var o, e bytes.Buffer
	c.Dir, c.Stdout, c.Stderr = dir, &o, &e
	c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		panic(err)
	}
	k := time.AfterFunc(100*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	if !k.Stop() {
		t.Fail("the program does not end: nightlight %q", args)
	}
	r := result{out: o.String(), err: e.String()}
	if x, ok := err.(*exec.ExitError); ok {
		r.code = x.ExitCode()
	} else if err != nil {
		panic(err)
	}
	return r
}

func scratch(t *vk.T) (string, func()) {
	dir, err := os.MkdirTemp(t.Dir, "c")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

// flags and their documented defaults
var defaults = map[string]string{
	"out": "out.fits", "jpg": "%auto", "jpgGamma": "1", "tiff": "", "log": "%auto", "pre": "", "stars": "", "back": "", "post": "", "batch": "",
	"dark": "", "flat": "", "debayer": "", "cfa": "RGGB", "debandH": "0", "debandV": "0", "debandHWindow": "128", "debandVWindow": "128",
	"debandHSigma": "3", "debandVSigma": "3", "binning": "0", "bpSigLow": "3", "bpSigHigh": "5", "starSig": "15", "starBpSig": "-1",
	"starInOut": "1.4", "starRadius": "16", "backGrid": "0", "backHFRFactor": "4", "backSigma": "1.5", "backClip": "0", "minStars": "0",
	"blurSigma": "0", "usmSigma": "1", "usmGain": "0", "usmThresh": "1", "alignK": "20", "alignT": "1", "lsEst": "3", "normHist": "4",
	"stMode": "6", "stSigLow": "-1", "stSigHigh": "-1", "stWeight": "0", "histoRef": "%starsHFR", "alignRef": "%starsHFR",
	"neutSigmaLow": "-1", "neutSigmaHigh": "-1", "balBlock": "16", "balBorder": "0.1", "balSkipBright": "0", "balSkipDim": "0.5",
	"balShR": "1", "balShG": "1", "balShB": "1", "balHiR": "1", "balHiG": "1", "balHiB": "1", "chromaGamma": "1", "chromaSigma": "1",
	"chromaFrom": "295", "chromaTo": "40", "chromaBy": "1", "rotFrom": "100", "rotTo": "190", "rotBy": "0", "rotSigma": "1", "scnr": "0",
	"autoLoc": "10", "autoScale": "0.4", "midtone": "0", "midBlack": "2", "gamma": "1", "ppGamma": "1", "ppSigma": "1",
	"preScale": "1", "preOffset": "0", "lumScale": "1", "lumOffset": "0", "scaleBlack": "0", "exportStats": "%auto",
}
var names = func() (r []string) {
	for k := range defaults {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}()
var ints = map[string]bool{"debandHWindow": true, "debandVWindow": true, "binning": true, "starRadius": true, "backGrid": true, "backClip": true, "minStars": true,
	"alignK": true, "lsEst": true, "normHist": true, "stMode": true, "stWeight": true, "balBlock": true}
var files = map[string]bool{"out": true, "jpg": true, "tiff": true, "log": true, "exportStats": true}
var patterns = map[string]bool{"pre": true, "stars": true, "back": true, "post": true, "batch": true}

// set is the value of every flag
type set map[string]string

func (s set) f(n string) float64 {
	v, err := strconv.ParseFloat(s[n], 64)
	if err != nil {
		panic(n + ": " + err.Error())
	}
	return v
}

// anyValue draws a value for a flag, without regard to what a job makes of it
func anyValue(g *vk.G, n string) string {
	switch {
	case n == "debayer":
		return vk.OneOf(g, "R", "G", "B", "")
	case n == "cfa":
		return vk.OneOf(g, "RGGB", "GRBG", "GBRG", "BGGR")
	case n == "histoRef" || n == "alignRef":
		return vk.OneOf(g, "%starsHFR", "%location", "%rgb", "0", "3", "ref.fits")
	case n == "dark" || n == "flat":
		return vk.OneOf(g, "", "d.fits", "my "+n+".fits")
	case n == "out":
		return vk.OneOf(g, "", "o.fits", "a b.fit", "x.y.fits", "res.tif", "noext")
	case files[n]:
		return vk.OneOf(g, "", "%auto", n+".f1", "other "+n)
	case patterns[n]:
		return vk.OneOf(g, "", n+"%04d.fits", n+".fits", n+"%d.fits")
	case n == "lsEst":
		return strconv.Itoa(g.Int(0, 4))
	case n == "normHist":
		return strconv.Itoa(g.Int(0, 4))
	case n == "stMode":
		return strconv.Itoa(g.Int(0, 6))
	case n == "stWeight":
		return strconv.Itoa(g.Int(0, 2))
	case ints[n]:
		return strconv.Itoa(g.Int(0, 300))
	}
	switch g.Int(0, 3) {
	case 0:
		return strconv.Itoa(g.Int(-5, 100))
	case 1:
		return strconv.FormatFloat(math.Round(g.Float(-1, 1)*1e4)/1e4, 'g', -1, 64)
	case 2:
		return strconv.FormatFloat(math.Round(g.Float(0, 400)*100)/100, 'g', -1, 64)
	}
	return strconv.FormatFloat(g.Float(-10, 10), 'g', -1, 64)
}

// args writes the flags the way a user may
func args(g *vk.G, given []string, s set) (r []string) {
	for _, n := range given {
		dash := vk.OneOf(g, "-", "-", "--")
		if g.Bool() {
			r = append(r, dash+n+"="+s[n])
		} else {
			r = append(r, dash+n, s[n])
		}
	}
	return r
}

func (s set) auto(n, ext string) string {
	if s[n] != "%auto" {
		return s[n]
	}
	if s["out"] == "" {
		return ""
	}
	o := s["out"]
	if i := strings.LastIndexByte(o, '.'); i >= 0 {
		o = o[:i]
	}
	return o + ext
}

// job is the job the documentation of commands and flags describes, as JSON
func (s set) job(cmd string, inputs []string) M {
	F := func(n string) float32 { return float32(s.f(n)) }
	I := func(n string) float32 { return float32(s.f(n)) }
	pct := func(n string) float32 { return float32(s.f(n) / 100) }
	save := func(name string, mode int, gamma float32) M {
		return M{"type": "save", "filePattern": name, "saveMode": float32(mode), "gamma": gamma}
	}
	bpLow, bpHigh := F("bpSigLow"), F("bpSigHigh")
	starBp := F("starBpSig")
	hist := I("normHist")
	switch cmd {
	case "stats":
		bpLow, bpHigh = 0, 0
		if starBp < 0 {
			starBp = 0
		}
	case "stack":
		if starBp < 0 {
			starBp = 5
		}
		if hist == 4 {
			hist = 2
		}
	case "rgb":
		if starBp < 0 {
			starBp = 0
		}
	}
	deb := M{"type": "debayer", "channel": s["debayer"], "colorFilterArray": s["cfa"]}
	det := M{"type": "starDetect", "radius": I("starRadius"), "sigma": F("starSig"), "badPixelSigma": starBp, "inOutRatio": F("starInOut"), "save": save(s["stars"], 0, 1)}
	seq := func(st ...any) M { return M{"type": "seq", "steps": st} }
	pre := seq(
		M{"type": "calibrate", "dark": s["dark"], "flat": s["flat"]},
		M{"type": "badPixel", "sigmaLow": bpLow, "sigmaHigh": bpHigh, "debayer": deb},
		deb,
		M{"type": "debandHoriz", "percentile": F("debandH"), "window": I("debandHWindow"), "sigma": F("debandHSigma")},
		M{"type": "debandVert", "percentile": F("debandV"), "window": I("debandVWindow"), "sigma": F("debandVSigma")},
		M{"type": "scaleOffset", "scale": F("preScale"), "offset": F("preOffset")},
		M{"type": "bin", "binSize": I("binning")},
		det,
		M{"type": "backExtract", "gridSize": I("backGrid"), "hfrFactor": F("backHFRFactor"), "sigma": F("backSigma"), "clip": I("backClip"), "save": save(s["back"], 0, 1)},
		M{"type": "exportStats", "fileName": s.auto("exportStats", ".html")},
		save(s["pre"], 0, 1),
	)
	var in []any
	for _, i := range inputs {
		in = append(in, i)
	}
	load := M{"type": "loadMany", "filePatterns": in}
	selRef := func(target int, mode string) M {
		return M{"type": "selectRef", "target": float32(target), "mode": mode, "starDetect": det}
	}
	saves := func(mode int) []any {
		return []any{save(s["out"], 0, 1), save(s.auto("tiff", ".tif"), mode, 1), save(s.auto("jpg", ".jpg"), mode, F("jpgGamma"))}
	}
	align := func(oob int) M {
		return M{"type": "align", "k": I("alignK"), "threshold": F("alignT"), "oobMode": float32(oob)}
	}
	tone := func(p string) (start, rest []any) { // the tone curve, for mono or for colour
		nm := func(n string) string {
			if p == "" {
				return n
			}
			return p + strings.ToUpper(n[:1]) + n[1:]
		}
		return []any{
				M{"type": nm("stretch"), "location": pct("autoLoc"), "scale": pct("autoScale")},
				M{"type": nm("midtones"), "mid": F("midtone"), "black": F("midBlack")},
				M{"type": nm("gamma"), "gamma": F("gamma")},
				M{"type": nm("gammaPP"), "gamma": F("ppGamma"), "sigma": F("ppSigma")}},
			[]any{M{"type": nm("scaleBlack"), "location": pct("scaleBlack")}}
	}
	usm := func(n string) M {
		return M{"type": n, "sigma": F("usmSigma"), "gain": F("usmGain"), "threshold": F("usmThresh")}
	}
	switch cmd {
	case "stats":
		return seq(load, pre)
	case "stack":
		batch := seq(pre, selRef(1, s["histoRef"]), selRef(0, s["alignRef"]), M{"type": "filter", "minStars": I("minStars")},
			M{"type": "matchHist", "mode": hist}, align(0), save(s["post"], 0, 1),
			M{"type": "stack", "mode": I("stMode"), "weighting": I("stWeight"), "sigmaLow": F("stSigLow"), "sigmaHigh": F("stSigHigh")},
			det, save(s["batch"], 0, 1))
		return seq(append([]any{load, M{"type": "stackBatches", "perBatch": batch}, det}, saves(3)...)...)
	case "stretch":
		a, b := tone("")
		st := append([]any{load, M{"type": "normRange"}}, append(a, b...)...)
		st = append(st, det, selRef(0, s["alignRef"]), align(2), M{"type": "gaussianBlur", "sigma": F("blurSigma")}, usm("unsharpMask"))
		return seq(append(st, saves(1)...)...)
	}
	a, b := tone("hsl")
	st := []any{load, det, selRef(0, "%rgb"), M{"type": "rgbCombine"},
		M{"type": "rgbBalance", "block": I("balBlock"), "border": F("balBorder"), "skipBright": F("balSkipBright"), "skipDim": F("balSkipDim"),
			"shadows": M{"R": F("balShR"), "G": F("balShG"), "B": F("balShB")}, "highlights": M{"R": F("balHiR"), "G": F("balHiG"), "B": F("balHiB")}},
		M{"type": "rgbToHSLuv"}, M{"type": "hslApplyLum"}, usm("HSLUnsharpMask"),
		M{"type": "hslNeutralizeBackground", "sigmaLow": F("neutSigmaLow"), "sigmaHigh": F("neutSigmaHigh")},
		M{"type": "hslSaturationGamma", "gamma": F("chromaGamma"), "sigma": F("chromaSigma")},
		M{"type": "hslSelectiveSaturation", "from": F("chromaFrom"), "to": F("chromaTo"), "factor": F("chromaBy")},
		M{"type": "hslRotateHue", "from": F("rotFrom"), "to": F("rotTo"), "offset": F("rotBy"), "sigma": F("rotSigma")},
		M{"type": "hslSCNR", "factor": F("scnr")}}
	st = append(st, a...)
	st = append(st, M{"type": "hslScaleOffsetChannel", "channelID": float32(2), "scale": F("lumScale"), "offset": F("lumOffset")})
	st = append(st, b...)
	st = append(st, M{"type": "hsluvToRGB"})
	return seq(append(st, saves(1)...)...)
}

type M = map[string]any

// differ returns where two JSON values differ; numbers are compared in single precision
func differ(path string, want, got any) string {
	switch w := want.(type) {
	case M:
		m, ok := got.(M)
		if !ok {
			return fmt.Sprintf("%s is %v, want an object", path, got)
		}
		for k := range w {
			if _, ok := m[k]; !ok {
				return fmt.Sprintf("%s lacks %s", path, k)
			}
			if d := differ(path+"."+k, w[k], m[k]); d != "" {
				return d
			}
		}
	case []any:
		a, ok := got.([]any)
		if !ok && got != nil || len(a) != len(w) {
			return fmt.Sprintf("%s has %d entries (%s), want %d", path, len(a), types(a), len(w))
		}
		for i := range w {
			p := fmt.Sprintf("%s[%d]", path, i)
			if m, ok := w[i].(M); ok {
				p += fmt.Sprint("(", m["type"], ")")
			}
			if d := differ(p, w[i], a[i]); d != "" {
				return d
			}
		}
	case float32:
		f, ok := got.(float64)
		if !ok || math.Abs(float64(float32(f)-w)) > 1e-6*math.Abs(float64(w)) {
			return fmt.Sprintf("%s is %v, want %v", path, got, w)
		}
	default:
		if want != got {
			return fmt.Sprintf("%s is %q, want %q", path, got, want)
		}
	}
	return ""
}

func types(a []any) string {
	var r []string
	for _, x := range a {
		if m, ok := x.(M); ok {
			r = append(r, fmt.Sprint(m["type"]))
		}
	}
	return strings.Join(r, " ")
}

// printed finds the job the program says it runs
func printed(t *vk.T, out string) (M, string) {
	i := strings.Index(out, "{")
	if i < 0 {
		t.Fail("no job printed: %.300q", out)
	}
	d := json.NewDecoder(strings.NewReader(out[i:]))
	var m M
	if err := d.Decode(&m); err != nil {
		t.Fail("the job printed is no JSON: %v", err)
	}
	return m, out[i : i+int(d.InputOffset())]
}

func ls(dir string) (r []string) {
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r
}

// sameLog checks that the log file holds what the program printed
func sameLog(t *vk.T, dir string, s set, r result, concurrent bool) {
	if l := s.auto("log", ".log"); l != "" {
		b, err := os.ReadFile(filepath.Join(dir, l))
		if err != nil {
			t.Fail("log file: %v", err)
		}
		p := []byte(r.out)
		if concurrent { // threads may log in a different order to file and screen
			slices.Sort(b)
			slices.Sort(p)
		}
		if !bytes.Equal(b, p) {
			t.Fail("log file %s holds %d bytes, %d were printed", l, len(b), len(r.out))
		}
	}
}

func write(name string, b []byte) {
	if err := os.WriteFile(name, b, 0644); err != nil {
		panic(err)
	}
}

func main() {
	flagsLaw := &vk.Law{Name: "flags", Quick: 4000, Thorough: 60000, Timeout: 120 * time.Second,
		Rule: "stats, stack, stretch or rgb with 0-40 flags of arbitrary values in any order and spelling, on input patterns that match nothing; the job printed must be, step by step and value by value, the one the documentation of command and flags describes, defaults included; the program must fail with a message and without results, and the log file must hold what was printed; non-trivial if at least one flag is given",
		Run: func(g *vk.G, t *vk.T) {
			dir, done := scratch(t)
			defer done()
			s := set{}
			for k, v := range defaults {
				s[k] = v
			}
			var given []string
			n := g.Size(1, 40)
			if g.Chance(1, 12) {
				n = 0
			}
			for _, k := range g.Perm(len(names))[:n] {
				given = append(given, names[k])
				s[names[k]] = anyValue(g, names[k])
			}
			if n == 0 {
				t.Trivial()
			}
			cmd := vk.OneOf(g, "stats", "stack", "stretch", "rgb")
			var in []string
			for k := g.Int(0, 3); k > 0; k-- {
				in = append(in, vk.OneOf(g, "nope.fits", "no*pe.fits", "a b?.fit", "sub/l*.fits", "-x", "[a-z]q.fits", cmd+"x"))
			}
			if g.Chance(1, 4) { // the command is no input
				write(filepath.Join(dir, cmd), fx.Float32Image([]int{8, 8}, make([]float32, 64)))
			}
			before := ls(dir)
			a := append(args(g, given, s), cmd)
			a = append(a, in...)
			t.Desc("nightlight %q", a)
			t.Class("%s", cmd)
			t.Class("%d inputs", len(in))
			r := call(t, dir, a...)
			m, _ := printed(t, r.out)
			if d := differ("job", s.job(cmd, in), m); d != "" {
				t.Fail("%s", d)
			}
			if r.code == 0 || !strings.Contains(r.out, "Error") {
				t.Fail("no error without inputs: exit status %d", r.code)
			}
			sameLog(t, dir, s, r, false)
			want := append([]string{}, before...)
			if l := s.auto("log", ".log"); l != "" {
				want = append(want, l)
			}
			sort.Strings(want)
			got := ls(dir)
			if strings.Join(got, "|") != strings.Join(want, "|") {
				t.Fail("files are %q, want %q", got, want)
			}
		}}

	results := &vk.Law{Name: "results", Quick: 600, Thorough: 9000, Timeout: 300 * time.Second,
		Rule: "stats, stack, stretch or rgb on 1-5 generated star field files with flags in their useful ranges; the program must succeed exactly if running the documented job by the library does, write the same files with the same content (up to rounding), and run -job on the printed job, with the same estimator, must do the same again; profiles and log are written if asked for; a file called like the command is not loaded; non-trivial if the job succeeds",
		Run:  runResults}

	commands := &vk.Law{Name: "commands", Quick: 600, Thorough: 6000, Timeout: 120 * time.Second,
		Rule: "version, legal, help, ?, no or an unknown command, unknown flags, malformed values, missing or malformed job files; each must give its information or a failure, and leave no file but the log; non-trivial always",
		Run:  runCommands}
	vk.Main("A01", []string{"The program is built from /repo with a stand-in for the web front end's blockly library, which is a git submodule that is empty here."}, flagsLaw, results, commands)
}

// frames writes the inputs of a job to dir and returns the patterns to load them with
func frames(g *vk.G, cmd, dir string) []string {
	rng := g.Stream()
	w, h := g.Int(70, 110), g.Int(60, 100)
	type star struct{ x, y, a float64 }
	var st []star
	for tries := 0; tries < 200 && len(st) < 14; tries++ {
		q := star{rng.Float(4, float64(w)-5), rng.Float(4, float64(h)-5), 30 * math.Pow(10, rng.Unit()*1.3)}
		ok := true
		for _, o := range st {
			ok = ok && math.Hypot(o.x-q.x, o.y-q.y) > 12
		}
		if ok {
			st = append(st, q)
		}
	}
	n := g.Int(1, 5)
	if cmd == "rgb" {
		n = g.Int(3, 4)
	}
	sky, noise := g.Float(20, 40), g.Float(0.3, 0.6)
	var pats []string
	for k := 0; k < n; k++ {
		dx, dy := 0.0, 0.0
		if k > 0 && cmd != "rgb" {
			dx, dy = rng.Float(-3, 3), rng.Float(-3, 3)
		}
		wd := 1.1 + 0.1*float64(k) // a sharpest frame
		d := make([]float32, w*h)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				v := sky + noise*rng.Norm()
				for i, q := range st {
					ex, ey := float64(x)-q.x-dx, float64(y)-q.y-dy
					if r2 := ex*ex + ey*ey; r2 < 60 {
						a := q.a
						if cmd == "rgb" {
							a *= 1 + 0.3*math.Sin(float64(i*7+k*3))
						}
						v += a * math.Exp(-r2/(2*wd*wd))
					}
				}
				d[y*w+x] = float32(v)
			}
		}
		name := fmt.Sprintf("l%d.fits", k)
		write(filepath.Join(dir, name), fx.Float32Image([]int{w, h}, d, "EXPOSURE=                   30"))
		pats = append(pats, name)
	}
	if g.Bool() {
		pats = []string{"l*.fits"}
	}
	if rng.Unit() < 0.3 { // the command is no input
		write(filepath.Join(dir, cmd), fx.Float32Image([]int{9, 9}, make([]float32, 81)))
	}
	dk, fl := make([]float32, w*h), make([]float32, w*h)
	for i := range dk {
		dk[i] = float32(3 + 0.1*rng.Norm())
		fl[i] = float32(1000 + 100*rng.Norm()*0.1)
	}
	write(filepath.Join(dir, "dark.fits"), fx.Float32Image([]int{w, h}, dk))
	write(filepath.Join(dir, "flat.fits"), fx.Float32Image([]int{w, h}, fl))
	return pats
}

// useful draws a value a job can do something with
func useful(g *vk.G, n string) string {
	fl := func(lo, hi float64) string {
		return strconv.FormatFloat(math.Round(g.Float(lo, hi)*1000)/1000, 'g', -1, 64)
	}
	switch n {
	case "out":
		return vk.OneOf(g, "o.fits", "res.x.fit", "result.tif", "q.fits.gz", "")
	case "jpg", "tiff", "log", "exportStats":
		ext := map[string]string{"jpg": ".jpg", "tiff": ".tif", "log": ".txt", "exportStats": ".html"}[n]
		return vk.OneOf(g, "", "%auto", "my "+n+ext)
	case "jpgGamma":
		return vk.OneOf(g, "1", "2.2", "0.7")
	case "dark":
		return "dark.fits"
	case "flat":
		return "flat.fits"
	case "debayer":
		return vk.OneOf(g, "", "", "R", "G", "B")
	case "debandH", "debandV":
		return fl(20, 60)
	case "debandHWindow", "debandVWindow":
		return strconv.Itoa(g.Int(8, 64))
	case "debandHSigma", "debandVSigma":
		return fl(2, 4)
	case "binning":
		return strconv.Itoa(g.Int(0, 2))
	case "bpSigLow", "bpSigHigh":
		return fl(3, 9)
	case "starSig":
		return fl(8, 20)
	case "starBpSig":
		return "0"
	case "starInOut":
		return fl(1.2, 1.5)
	case "starRadius":
		return strconv.Itoa(g.Int(6, 16))
	case "backGrid":
		return vk.OneOf(g, "0", "24", "40")
	case "backHFRFactor":
		return fl(2, 5)
	case "backSigma":
		return fl(1, 3)
	case "backClip":
		return vk.OneOf(g, "0", "1", "2")
	case "minStars":
		return vk.OneOf(g, "0", "1", "3", "3", "100")
	case "blurSigma":
		return fl(0.6, 2)
	case "usmSigma":
		return fl(0.6, 2)
	case "usmGain":
		return fl(0.3, 2)
	case "usmThresh":
		return fl(0, 3)
	case "alignK":
		return strconv.Itoa(g.Int(8, 30))
	case "alignT":
		return fl(0.5, 2)
	case "normHist":
		return strconv.Itoa(g.Int(0, 4))
	case "stMode":
		return strconv.Itoa(g.Int(0, 6))
	case "stSigLow", "stSigHigh":
		return fl(2, 4)
	case "stWeight":
		return strconv.Itoa(g.Int(0, 2))
	case "histoRef", "alignRef":
		return vk.OneOf(g, "%starsHFR", "%location", "0", "l0.fits")
	case "neutSigmaLow":
		return fl(0.5, 2)
	case "neutSigmaHigh":
		return fl(2.5, 5)
	case "balBlock":
		return strconv.Itoa(g.Int(4, 20))
	case "balBorder":
		return fl(0, 0.2)
	case "balSkipBright":
		return fl(0, 0.2)
	case "balSkipDim":
		return fl(0.1, 0.6)
	case "balShR", "balShG", "balShB", "balHiR", "balHiG", "balHiB":
		return fl(0.7, 1)
	case "chromaGamma":
		return fl(0.7, 1.5)
	case "chromaSigma", "rotSigma", "ppSigma":
		return fl(0.5, 3)
	case "chromaFrom", "chromaTo", "rotFrom", "rotTo":
		return fl(0, 360)
	case "chromaBy":
		return fl(0.3, 1.3)
	case "rotBy":
		return fl(-60, 60)
	case "scnr":
		return fl(0, 1)
	case "autoLoc":
		return fl(6, 20)
	case "autoScale":
		return fl(0.3, 1.5)
	case "midtone":
		return fl(2, 8)
	case "midBlack":
		return fl(2, 6)
	case "gamma", "ppGamma":
		return fl(0.7, 2)
	case "preScale":
		return fl(0.5, 3)
	case "preOffset":
		return fl(-5, 50)
	case "lumScale":
		return fl(0.8, 1)
	case "lumOffset":
		return fl(0, 0.05)
	case "scaleBlack":
		return fl(2, 15)
	case "lsEst":
		return vk.OneOf(g, "0", "2", "4") // 1 and 3 sample at random
	}
	if patterns[n] {
		return vk.OneOf(g, n+"%04d.fits", n+"%d.fits")
	}
	return defaults[n]
}

func copyDir(from, to string) {
	for _, n := range ls(from) {
		b, err := os.ReadFile(filepath.Join(from, n))
		if err != nil {
			panic(err)
		}
		write(filepath.Join(to, n), b)
	}
}

func runResults(g *vk.G, t *vk.T) {
	base, done := scratch(t)
	defer done()
	sub := func(n string) string {
		d := filepath.Join(base, n)
		if err := os.Mkdir(d, 0755); err != nil {
			panic(err)
		}
		return d
	}
	a, b, c := sub("direct"), sub("job"), sub("library")
	cmd := vk.OneOf(g, "stats", "stack", "stack", "stretch", "rgb")
	pats := frames(g, cmd, a)
	copyDir(a, b)
	copyDir(a, c)
	before := map[string]bool{}
	for _, n := range ls(a) {
		before[n] = true
	}
	s := set{}
	for k, v := range defaults {
		s[k] = v
	}
	given := []string{"lsEst", "starBpSig"} // without random sampling
	s["lsEst"], s["starBpSig"] = useful(g, "lsEst"), "0"
	for _, k := range g.Perm(len(names))[:g.Size(0, 12)] {
		if n := names[k]; n != "lsEst" && n != "starBpSig" {
			given = append(given, n)
			s[n] = useful(g, n)
		}
	}
	if cmd == "stretch" { // one result per input
		if s["out"] == "out.fits" {
			given = append(given, "out")
		}
		s["out"] = strings.Replace(s["out"], ".", "%d.", 1)
		for _, n := range []string{"jpg", "tiff"} {
			s[n] = strings.Replace(s[n], "my", "my%02d", 1)
		}
	}
	mem := strconv.Itoa(g.Int(500, 2000))
	fl := append(args(g, given, s), "-stMemory", mem)
	prof := g.Chance(1, 8)
	if prof {
		fl = append(fl, "-cpuprofile", "cpu.prof", "-memprofile=mem.prof")
	}
	if g.Chance(1, 10) { // a broken input
		n := vk.OneOf(g, "l0.fits", "l1.fits", "dark.fits", "flat.fits")
		d := filepath.Join(a, n)
		if x, err := os.ReadFile(d); err == nil {
			x = x[:g.Int(0, len(x)-2000)]
			write(d, x)
			write(filepath.Join(b, n), x)
			write(filepath.Join(c, n), x)
			t.Class("broken input")
		}
	}
	av := append(append(fl, cmd), pats...)
	t.Desc("%d files: nightlight %q", len(before), av)
	t.Class("%s", cmd)
	r := call(t, a, av...)
	m, text := printed(t, r.out)
	want := s.job(cmd, pats)
	if d := differ("job", want, m); d != "" {
		t.Fail("%s", d)
	}
	sameLog(t, a, s, r, true)
	// the library
	lib := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		old, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(c); err != nil {
			panic(err)
		}
		defer os.Chdir(old)
		rand.Seed(1)
		j, err := json.Marshal(want)
		if err != nil {
			panic(err)
		}
		var op ops.OpSequence
		if err := json.Unmarshal(j, &op); err != nil {
			return err
		}
		est := stats.LSEstimatorMode(s.f("lsEst"))
		stats.LSEstimator = est
		ctx := ops.NewContext(io.Discard, 1000, est)
		ps, err := op.MakePromises(nil, ctx)
		if err != nil {
			return err
		}
		_, err = ops.MaterializeAll(ps, ctx.MaxThreads, true)
		return err
	}()
	if (lib != nil) != (r.code != 0) {
		t.Fail("exit status %d, but the same job run by the library returns %v; output ends %q", r.code, lib, tail(r.out+r.err))
	}
	t.Class("success %v", lib == nil)
	if lib != nil {
		write(filepath.Join(b, "again.json"), []byte(text))
		if r2 := call(t, b, "-log", "", "-lsEst", s["lsEst"], "-stMemory", mem, "-job", "again.json", "run"); r2.code == 0 {
			t.Fail("the job fails (%v), but run -job exits with zero: %q", lib, tail(r2.out+r2.err))
		}
		t.Class("failing run -job")
		return
	}
	if prof {
		for _, n := range []string{"cpu.prof", "mem.prof"} {
			if i, err := os.Stat(filepath.Join(a, n)); err != nil || i.Size() == 0 {
				t.Fail("no profile %s: %v", n, err)
			}
			os.Remove(filepath.Join(a, n))
		}
	}
	if !strings.Contains(r.out, "Done") {
		t.Fail("output ends %q", tail(r.out))
	}
	// run again from the printed job
	write(filepath.Join(b, "again.json"), []byte(text))
	r2 := call(t, b, "-log", "", "-lsEst", s["lsEst"], "-stMemory", mem, "-job", "again.json", "run")
	if r2.code != 0 {
		t.Fail("run -job on the printed job exits with status %d: %q", r2.code, tail(r2.out+r2.err))
	}
	os.Remove(filepath.Join(b, "again.json"))
	m2, _ := printed(t, r2.out)
	if d := differ("job run again", want, m2); d != "" {
		t.Fail("%s", d)
	}
	if l := s.auto("log", ".log"); l != "" {
		os.Remove(filepath.Join(a, l))
	}
	la, lb, lc := ls(a), ls(b), ls(c)
	if strings.Join(la, "|") != strings.Join(lc, "|") {
		t.Fail("the program leaves %q, want %q", la, lc)
	}
	if strings.Join(lb, "|") != strings.Join(lc, "|") {
		t.Fail("run -job leaves %q, want %q", lb, lc)
	}
	for _, n := range lc {
		if d := differFiles(filepath.Join(c, n), filepath.Join(a, n), before[n]); d != "" {
			t.Fail("%s: the program's file differs: %s", n, d)
		}
		if d := differFiles(filepath.Join(c, n), filepath.Join(b, n), before[n]); d != "" {
			t.Fail("%s: the file of run -job differs: %s", n, d)
		}
	}
}

func tail(s string) string { return s[max(0, len(s)-300):] }

// differFiles compares two result files up to rounding
func differFiles(wantName, gotName string, exact bool) string {
	w, err := os.ReadFile(wantName)
	if err != nil {
		panic(err)
	}
	b, err := os.ReadFile(gotName)
	if err != nil {
		panic(err)
	}
	if bytes.Equal(w, b) {
		return ""
	}
	if exact {
		return "an input was changed"
	}
	n := strings.ToLower(wantName)
	switch {
	case strings.HasSuffix(n, ".html"):
		if a, b := rows(w), rows(b); a != b {
			return fmt.Sprintf("%q, want %q", b, a)
		}
		return ""
	case strings.HasSuffix(n, ".jpg"), strings.HasSuffix(n, ".tif"):
		dec := func(b []byte) (image.Image, error) {
			if strings.HasSuffix(n, ".tif") {
				return tiff.Decode(bytes.NewReader(b))
			}
			m, _, err := image.Decode(bytes.NewReader(b))
			return m, err
		}
		p, err := dec(w)
		if err != nil {
			return "the library's file: " + err.Error()
		}
		q, err := dec(b)
		if err != nil {
			return err.Error()
		}
		if p.Bounds() != q.Bounds() {
			return fmt.Sprintf("%v, want %v", q.Bounds(), p.Bounds())
		}
		sum, cnt := 0.0, 0
		for y := p.Bounds().Min.Y; y < p.Bounds().Max.Y; y++ {
			for x := p.Bounds().Min.X; x < p.Bounds().Max.X; x++ {
				r1, g1, b1, _ := p.At(x, y).RGBA()
				r2, g2, b2, _ := q.At(x, y).RGBA()
				sum += math.Abs(float64(r1)-float64(r2)) + math.Abs(float64(g1)-float64(g2)) + math.Abs(float64(b1)-float64(b2))
				cnt += 3
			}
		}
		if m := sum / float64(cnt); m > 100 {
			return fmt.Sprintf("pixels differ by %.4g of 65535 on average", m)
		}
		return ""
	}
	p, err := fx.Parse(gunzip(w))
	if err != nil {
		return "the library's file: " + err.Error()
	}
	q, err := fx.Parse(gunzip(b))
	if err != nil {
		return err.Error()
	}
	if fmt.Sprint(p.Axes) != fmt.Sprint(q.Axes) {
		return fmt.Sprintf("extent %v, want %v", q.Axes, p.Axes)
	}
	for _, k := range []string{"BITPIX", "EXPOSURE"} {
		if p.Num(k, -1) != q.Num(k, -1) {
			return fmt.Sprintf("%s %v, want %v", k, q.Num(k, -1), p.Num(k, -1))
		}
	}
	x, y := p.Physical(), q.Physical()
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range x {
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	bad := 0
	for i := range x {
		if math.IsNaN(x[i]) != math.IsNaN(y[i]) || math.Abs(x[i]-y[i]) > 1e-3*(hi-lo) {
			bad++
		}
	}
	if bad > len(x)/50 {
		return fmt.Sprintf("%d of %d pixels differ", bad, len(x))
	}
	return ""
}

func gunzip(b []byte) []byte {
	if len(b) < 2 || b[0] != 0x1f || b[1] != 0x8b {
		return b
	}
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	r, err := io.ReadAll(z)
	if err != nil {
		return nil
	}
	return r
}

// rows lists the rows of exported statistics in order of frame numbers, with three digits each
func rows(b []byte) string {
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, ",[") {
			continue
		}
		l = strings.TrimSuffix(strings.TrimSuffix(l, ";"), "]")
		var fs []string
		for _, x := range strings.Split(strings.Trim(l, ",[]"), ",") {
			v, err := strconv.ParseFloat(x, 64)
			if err != nil {
				fs = append(fs, x)
			} else {
				fs = append(fs, strconv.FormatFloat(v, 'e', 2, 64))
			}
		}
		r = append(r, strings.Join(fs, " "))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func runCommands(g *vk.G, t *vk.T) {
	dir, done := scratch(t)
	defer done()
	kind := vk.OneOf(g, "version", "legal", "help", "?", "none", "unknown", "bad flag", "bad value", "no job", "bad job", "bad step", "empty job", "failing job", "bad log")
	t.Class("%s", kind)
	s := set{}
	for k, v := range defaults {
		s[k] = v
	}
	given := []string{}
	for _, k := range g.Perm(len(names))[:g.Size(0, 6)] {
		if n := names[k]; n != "log" && n != "out" {
			given = append(given, n)
			s[n] = anyValue(g, n)
		}
	}
	s["log"] = vk.OneOf(g, "", "%auto", "my log.txt")
	a := args(g, append(given, "log"), s)
	extra := []string{}
	if g.Chance(1, 3) {
		extra = append(extra, vk.OneOf(g, "x.fits", "*.fits"))
	}
	fails, parsed := false, true
	var says []string
	switch kind {
	case "version", "legal", "help", "?":
		a = append(append(a, kind), extra...)
		says = map[string][]string{"version": {"Version "}, "legal": {"gpl-3.0", "Copyright"}, "help": {"Usage"}, "?": {"Usage"}}[kind]
	case "none":
		says = []string{"Usage"}
	case "unknown":
		a = append(append(a, vk.OneOf(g, "staks", "Stack", "", "stackk", "x.fits")), extra...)
		says = []string{"Usage"}
	case "bad flag":
		a = append([]string{vk.OneOf(g, "-nosuch", "-stackMode=3", "--outt", "-=x")}, append(a, "stack", "x.fits")...)
		fails, parsed = true, false
	case "bad value":
		n := vk.OneOf(g, "stMode", "lsEst", "starSig", "binning", "gamma", "alignK", "autoLoc")
		a = append([]string{"-" + n, vk.OneOf(g, "x", "1,5", "1e", "%", "one")}, append(a, "stack", "x.fits")...)
		fails, parsed = true, false
	case "no job":
		a = append(a, "-job", vk.OneOf(g, "", "missing.json"), "run")
		fails = true
	case "bad job", "bad step", "empty job", "failing job":
		text := vk.OneOf(g, "", "{", "[1,2", "null x", `{"type":"seq","steps":[{"type":"gamma","gamma":"two"}]}`, `{"type":"seq","steps":"load"}`)
		fails = true
		if kind == "bad step" {
			text = `{"type":"seq","steps":[{"type":"` + vk.OneOf(g, "nosuch", "", "stackk", "Load") + `"}]}`
			if g.Chance(2, 3) { // after steps that would leave a file
				write(filepath.Join(dir, "frame.fits"), fx.Float32Image([]int{9, 7}, make([]float32, 63)))
				bad := vk.OneOf(g, `{"type":"nosuch"}`, `{}`, `{"type":3}`, `"save"`, `3`, `{"type":"gamma","gamma":"x"}`, `{"type":"bin","binSize":1.5}`, `{"type":"seq","steps":[{"type":"nosuch"}]}`, `{"type":"stackBatches","perBatch":{"type":"seq","steps":[{"type":"save","filePattern":3}]}}`)
				text = `{"type":"seq","steps":[{"type":"loadMany","filePatterns":["frame.fits"]},{"type":"save","filePattern":"o%d.fits"},` + bad + vk.OneOf(g, ``, `,{"type":"save","filePattern":"p%d.fits"}`) + `]}`
			}
		}
		if kind == "failing job" {
			text = vk.OneOf(g, `{"type":"seq","steps":[{"type":"loadMany","filePatterns":["none*.fits"]}]}`, `{"type":"seq","steps":[{"type":"load","fileName":"none.fits"}]}`, `{"type":"seq","steps":[{"type":"loadMany","filePatterns":["j.json"]}]}`)
		}
		if kind == "empty job" {
			text, fails = `{"type":"seq","steps":[]}`, false
		}
		write(filepath.Join(dir, "j.json"), []byte(text))
		a = append(a, "-job", "j.json", "run")
	case "bad log":
		a = append(args(g, given, s), "-log", "no/such/dir.log", "version")
		fails, parsed = true, false
	}
	before := ls(dir)
	t.Desc("nightlight %q", a)
	r := call(t, dir, a...)
	if (r.code != 0) != fails {
		t.Fail("exit status %d; output %q", r.code, tail(r.out+r.err))
	}
	for _, x := range says {
		if !strings.Contains(strings.ToUpper(r.out), strings.ToUpper(x)) {
			t.Fail("output lacks %q: %q", x, tail(r.out))
		}
	}
	if fails && r.out+r.err == "" {
		t.Fail("fails without a message")
	}
	if kind == "help" || kind == "?" || kind == "none" || kind == "unknown" || kind == "bad flag" {
		for _, n := range names {
			if !strings.Contains(r.out+r.err, "  -"+n+" ") {
				t.Fail("the help does not mention -%s", n)
			}
		}
		for _, n := range []string{"stats", "stack", "stretch", "rgb", "run", "legal", "version"} {
			if !strings.Contains(r.out+r.err, "\n  "+n+" ") {
				t.Fail("the help does not mention the command %s", n)
			}
		}
	}
	want := append([]string{}, before...)
	if l := s.auto("log", ".log"); l != "" && parsed {
		want = append(want, l)
	}
	sort.Strings(want)
	if got := ls(dir); strings.Join(got, "|") != strings.Join(want, "|") {
		t.Fail("files are %q, want %q", got, want)
	}
	if parsed {
		sameLog(t, dir, s, r, false)
	}
}
