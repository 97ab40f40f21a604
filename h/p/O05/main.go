// O05: exported statistics contain every frame once, with its own values.

//go:debug randseednop=0
package main

import (
	"encoding/json"
	"errors"
	"io"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

func inDir(t *vk.T) func() {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(t.Dir, "c")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	return func() {
		os.Chdir(old)
		os.RemoveAll(dir)
	}
}

type frame struct {
	id     int
	naxisn []int32
	data   []float32
	stars  int
	hfr    float32
	res    int // 0 fine, 1 dropped before, 2 fails to load, 3 dropped between the exports
	ready  *fits.Image
}

func drawFrames(g *vk.G, n int, same bool) []*frame {
	s := g.Stream()
	mag := math.Pow(10, s.Float(-2, 5))
	neg := s.Int(0, 3) == 0
	ids := g.Perm(n)
	shuffled := g.Bool()
	drops := g.Chance(1, 2)
	fs := make([]*frame, n)
	for i := range fs {
		f := &frame{id: i}
		if shuffled {
			f.id = ids[i]
		}
		f.naxisn = []int32{int32(s.Int(1, 9)), int32(s.Int(1, 9))}
		if s.Int(0, 5) == 0 {
			f.naxisn = append(f.naxisn, 3)
		}
		if same {
			f.naxisn = []int32{96, 64}
		}
		k := 1
		for _, a := range f.naxisn {
			k *= int(a)
		}
		f.data = make([]float32, k)
		level := s.Float(0, mag)
		for p := range f.data {
			f.data[p] = float32(level + s.Unit()*mag/10)
			if neg {
				f.data[p] -= float32(mag / 2)
			}
		}
		f.stars = vk.OneOf(g, 0, s.Int(0, 5), s.Int(0, 2000))
		f.hfr = float32(s.Float(0, 9))
		if drops {
			f.res = []int{0, 0, 0, 0, 1, 3}[s.Int(0, 5)]
		}
		fs[i] = f
	}
	return fs
}

func (f *frame) promise(pause int) ops.Promise {
	return func() (*fits.Image, error) {
		for k := 0; k < pause; k++ {
			runtime.Gosched()
		}
		if pause == 6 {
			time.Sleep(30 * time.Microsecond)
		}
		switch f.res {
		case 1:
			return nil, nil
		case 2:
			return nil, errors.New("cannot load")
		}
		i := fits.NewImageFromNaxisn(f.naxisn, append([]float32{}, f.data...))
		i.ID, i.HFR, i.Exposure = f.id, f.hfr, 1
		if f.stars > 0 {
			i.Stars = make([]star.Star, f.stars)
		}
		f.ready = i
		return i, nil
	}
}

// diskFull lets files grow up to the given size only, 0 for any size
func diskFull(limit int64) {
	var r syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
	r.Cur = r.Max
	if limit > 0 {
		r.Cur = uint64(limit)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
}

type row [8]float64

// expected row after scaling pixels
func (f *frame) row(scale, offset float32) (r row) {
	lo, hi, sum, sq := math.Inf(1), math.Inf(-1), 0.0, 0.0
	for _, v := range f.data {
		v := float64(v*scale + offset)
		lo, hi, sum = math.Min(lo, v), math.Max(hi, v), sum+v
	}
	mean := sum / float64(len(f.data))
	for _, v := range f.data {
		v := float64(v*scale + offset)
		sq += (v - mean) * (v - mean)
	}
	dev := math.Sqrt(sq / float64(len(f.data)))
	loc, scl := mean, dev
	if stats.LSEstimator != stats.LSEMeanStdDev {
		i := fits.NewImageFromNaxisn(f.naxisn, nil)
		for k, v := range f.data {
			i.Data[k] = v*scale + offset
		}
		loc, scl = float64(i.Stats.Location()), float64(i.Stats.Scale())
	}
	return row{float64(f.id), lo, mean, hi, loc, scl, float64(f.stars), float64(f.hfr)}
}

// parse checks a document is well-formed and returns its rows.
func parse(t *vk.T, name string) (rows []row) {
	b, err := os.ReadFile(name)
	if err != nil {
		t.Fail("no statistics written: %v", err)
	}
	s := string(b)
	for _, tag := range []string{"html", "head", "body"} {
		if strings.Count(s, "<"+tag+">") != 1 || strings.Count(s, "</"+tag+">") != 1 {
			t.Fail("%s: document has %d <%s> and %d </%s>", name, strings.Count(s, "<"+tag+">"), tag, strings.Count(s, "</"+tag+">"), tag)
		}
	}
	if a, b := strings.Count(s, "<script"), strings.Count(s, "</script>"); a != b || a == 0 {
		t.Fail("%s: document has %d <script> and %d </script>", name, a, b)
	}
	if !strings.HasPrefix(strings.TrimSpace(s), "<html>") || !strings.HasSuffix(strings.TrimSpace(s), "</html>") {
		t.Fail("%s: document starts with %.20q and ends with %.20q", name, s, s[max(0, len(s)-20):])
	}
	_, s, ok := strings.Cut(s, "dataArray =\n")
	if !ok {
		t.Fail("%s: no data", name)
	}
	p := 0
	skip := func() {
		for p < len(s) && strings.IndexByte(" \t\r\n", s[p]) >= 0 {
			p++
		}
	}
	expect := func(c byte) {
		skip()
		if p >= len(s) || s[p] != c {
			t.Fail("%s: %q expected at %.40q in the data", name, c, s[min(p, len(s)):])
		}
		p++
	}
	more := func() bool { // a comma, else the closing bracket
		skip()
		if p < len(s) && s[p] == ',' {
			p++
			return true
		}
		expect(']')
		return false
	}
	expect('[')
	expect('[')
	titles := 0
	for {
		expect('\'')
		e := strings.IndexByte(s[p:], '\'')
		if e <= 0 {
			t.Fail("%s: bad column title", name)
		}
		if want := []string{"ID", "Min", "Mean", "Max", "Location", "Scale", "Stars", "HFR"}; titles >= len(want) || s[p:p+e] != want[titles] {
			t.Fail("%s: column %d is %q", name, titles, s[p:p+e])
		}
		p += e + 1
		titles++
		if !more() {
			break
		}
	}
	for more() {
		expect('[')
		var r row
		for i := range r {
			skip()
			e := strings.IndexAny(s[p:], ",]")
			if e < 0 {
				t.Fail("%s: unfinished row", name)
			}
			v, err := strconv.ParseFloat(strings.TrimSpace(s[p:p+e]), 64)
			if err != nil {
				t.Fail("%s: bad number %q", name, s[p:p+e])
			}
			r[i] = v
			p += e
			if got := more(); got != (i < len(r)-1) {
				t.Fail("%s: row of another length than %d", name, len(r))
			}
		}
		rows = append(rows, r)
	}
	expect(';')
	if strings.Contains(s[p:], "['ID'") || strings.Contains(s[p:], ",[0") {
		t.Fail("%s: further data after the end", name)
	}
	return rows
}

func compare(t *vk.T, name string, rows, want []row) {
	seen := map[float64]bool{}
	byID := map[float64]row{}
	for _, r := range want {
		byID[r[0]] = r
	}
	for _, r := range rows {
		if seen[r[0]] {
			t.Fail("%s: several rows for frame %g", name, r[0])
		}
		seen[r[0]] = true
		w, ok := byID[r[0]]
		if !ok {
			t.Fail("%s: row for frame %g, which was not processed", name, r[0])
		}
		size := math.Max(math.Abs(w[1]), math.Abs(w[3]))
		for i := range r {
			if !vk.Close(r[i], w[i], 2e-6+size*2e-5, 1e-5) || (i == 6 || i == 0) && r[i] != w[i] {
				t.Fail("%s: row of frame %g is %v instead of %v", name, r[0], r, w)
			}
		}
	}
	for _, w := range want {
		if !seen[w[0]] {
			t.Fail("%s: no row for frame %g", name, w[0])
		}
	}
}

func viaJSON(t *vk.T, op ops.Operator) ops.Operator {
	b, err := json.Marshal(ops.NewOpSequence(op))
	if err != nil {
		t.Fail("cannot save: %v", err)
	}
	var seq ops.OpSequence
	if err := json.Unmarshal(b, &seq); err != nil {
		t.Fail("cannot load job %s: %v", b, err)
	}
	return &seq
}

func law(g *vk.G, t *vk.T) {
	stats.LSEstimator = vk.OneOf(g, stats.LSEMeanStdDev, stats.LSEHistogram, stats.LSEIKSS)
	defer inDir(t)()
	rand.Seed(int64(g.U32()))
	n := g.Int(1, 24)
	if g.Chance(1, 30) {
		n = g.Int(100, 300) // more than a buffer full
	}
	batched := g.Chance(1, 4)
	threads := vk.OneOf(g, 1, 2, 4, 16)
	names := []string{vk.OneOf(g, "out.html", "stats.html", "")}
	if g.Chance(1, 3) {
		names = append(names, vk.OneOf(g, "second.html", ""))
	}
	broken := g.Chance(1, 12)
	if broken {
		names[len(names)-1] = vk.OneOf(g, "nodir/out.html", "/dev/full", ".", "out.html/x")
	}
	runs := 1
	if !broken && g.Chance(1, 4) {
		runs = 2
	}
	job := g.Bool()
	scaleAt := g.Int(0, 2) // scale pixels before which export
	scale, offset := float32(g.Int(1, 4)), float32(g.Int(-3, 9))
	if stats.LSEstimator != stats.LSEMeanStdDev { // estimators of the mode are sensitive to rounding
		scale, offset = vk.OneOf(g, float32(1), 2, 4), 0
	}

	var fs []*frame
	middle := &ops.OpUnaryBase{OpBase: ops.OpBase{Type: "middle"}}
	middle.Apply = func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
		for _, x := range fs {
			if x.id == f.ID && x.res == 3 {
				return nil, nil
			}
		}
		return f, nil
	}
	var mu sync.Mutex
	var passed []*fits.Image
	tail := &ops.OpUnaryBase{OpBase: ops.OpBase{Type: "tail"}}
	tail.Apply = func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
		mu.Lock()
		passed = append(passed, f)
		mu.Unlock()
		return f, nil
	}
	var steps []ops.Operator
	for i, name := range names {
		if scaleAt == i+1 {
			steps = append(steps, pre.NewOpScaleOffset(scale, offset))
		}
		var op ops.Operator = ref.NewOpExportStats(name)
		if job {
			op = viaJSON(t, op)
		}
		steps = append(steps, op, middle)
	}
	steps = append(steps, tail)
	t.Desc("%d frames, %d threads, files %q, batched %v, %d runs, job %v", n, threads, names, batched, runs, job)
	if n < 2 || names[0] == "" && len(names) == 1 {
		t.Trivial()
	}
	seq := ops.NewOpSequence(steps...)
	if batched {
		t.Class("batches")
	}
	for run := 0; run < runs; run++ {
		fs = drawFrames(g, n, batched)
		passed = nil
		failing := g.Chance(1, 12)
		if failing {
			fs[g.Int(0, n-1)].res = 2
			t.Class("frame cannot be loaded")
		}
		var ins []ops.Promise
		st := g.Stream()
		for _, f := range fs {
			ins = append(ins, f.promise(st.Int(0, 6)))
		}
		mem := 1000
		if batched {
			mem = 1 // 42 frames of 24 kB
			if n < 40 {
				for _, f := range fs {
					f.naxisn = []int32{256, 64} // 16 frames
					d := make([]float32, 256*64)
					for i := range d {
						d[i] = f.data[i%len(f.data)]
					}
					f.data = d
				}
			}
		}
		c := ops.NewContext(io.Discard, mem, stats.LSEMeanStdDev)
		c.MaxThreads = threads
		var outs []*fits.Image
		var err error
		limit := int64(0)
		if !broken && !failing && g.Chance(1, 12) {
			limit = int64(g.Int(100, 8000))
			defer diskFull(0)
			diskFull(limit)
		}
		if batched {
			ps, e := stack.NewOpStackBatches(ops.NewOpSequence(seq, stack.NewOpStack(stack.StMean, stack.StWeightNone, 2, 2))).MakePromises(ins, c)
			if e != nil {
				t.Fail("unexpected error %v", e)
			}
			_, err = ps[0]()
			if err != nil && !failing && !broken && limit == 0 {
				t.Discard("a batch without frames")
			}
		} else {
			ps, e := seq.MakePromises(ins, c)
			if e != nil {
				t.Fail("unexpected error %v", e)
			}
			outs, err = ops.MaterializeAll(ps, threads, false)
		}
		if limit > 0 {
			diskFull(0)
			t.Class("disk full")
			if err != nil {
				return
			} // or else the documents must be complete
		}
		if broken {
			t.Class("file cannot be written")
			last := 0
			for _, f := range fs {
				if f.res == 0 || f.res == 3 && len(names) == 1 {
					last++
				}
			}
			if err == nil && last > 0 {
				t.Fail("statistics cannot be written to %q, but no error is reported", names[len(names)-1])
			}
			return
		}
		if failing {
			if err == nil {
				t.Fail("a frame cannot be loaded, but no error is reported")
			}
			if batched {
				return // other batches may not have been started
			}
		} else if err != nil {
			t.Fail("unexpected error %v", err)
		}
		sc, of := float32(1), float32(0)
		var left []*frame
		for _, f := range fs {
			if f.res == 0 || f.res == 3 {
				left = append(left, f)
			}
		}
		for i, name := range names {
			if scaleAt == i+1 {
				sc, of = scale, offset
			}
			if name != "" && len(left) > 0 {
				var want []row
				for _, f := range left {
					want = append(want, f.row(sc, of))
				}
				compare(t, name, parse(t, name), want)
				t.Class("document with all frames")
				if len(want) > 100 {
					t.Class("long document")
				}
			}
			var next []*frame
			for _, f := range left {
				if f.res != 3 {
					next = append(next, f)
				}
			}
			left = next
		}
		if len(passed) != len(left) {
			t.Fail("%d frames passed on instead of %d", len(passed), len(left))
		}
		for _, f := range left {
			if i := f.ready; len(i.Data) != len(f.data) || i.ID != f.id || i.HFR != f.hfr || len(i.Stars) != f.stars {
				t.Fail("frame %d is changed", f.id)
			}
			for p, v := range f.data {
				if batched {
					break // given up for stacking
				}
				if v*sc+of != f.ready.Data[p] {
					t.Fail("pixel %d of frame %d is changed", p, f.id)
				}
			}
		}
		if !batched && !failing {
			if len(outs) != len(left) {
				t.Fail("%d results instead of %d", len(outs), len(left))
			}
			for i, f := range left {
				if outs[i] != f.ready {
					t.Fail("result %d is frame %d instead of %d", i, outs[i].ID, f.id)
				}
			}
		}
		if run > 0 {
			t.Class("second run of a job")
		}
		if ents, _ := os.ReadDir("."); len(ents) > 2 {
			t.Fail("%d files written", len(ents))
		}
	}
}

func main() {
	signal.Ignore(syscall.SIGXFSZ)
	vk.Main("O05", []string{
		"location and scale are mean and standard deviation, or those of the histogram and IKSS estimators for the frame, which are deterministic; numbers are compared to the six decimals printed",
	},
		&vk.Law{Name: "export", Quick: 6000, Thorough: 300000, Timeout: 60 * time.Second,
			Rule: "1-24, sometimes up to 300 frames of random extents, levels, stars and IDs, some dropped before or between or failing, through one or two exports before or after scaling, in one go or in stacking batches, with 1-16 threads, job built directly or read, run once or twice; documents are parsed strictly and their rows compared with statistics computed separately; unwritable files and disks becoming full must be reported, an empty name means no file, frames pass unchanged in order; non-trivial if >1 frames and a file",
			Run:  law},
		&vk.Law{Name: "export-raced", Quick: 200, Thorough: 20000, Timeout: 300 * time.Second, Race: true,
			Rule: "as export, with Go's race detector", Run: law},
	)
}
