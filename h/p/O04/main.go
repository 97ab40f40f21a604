// O04: reference selection picks the best frame, and every frame sees it.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

func inDir(t *vk.T) func() {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(t.Dir, "c")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	return func() {
		os.Chdir(old)
		os.RemoveAll(dir)
	}
}

// What a frame is like. The model works on these.
type frame struct {
	id      int
	w, h    int
	level   float64
	noise   []float32
	stars   int
	hfr     float32
	dropped bool
	fails   bool
	ready   *fits.Image // as delivered
	loads   int
	data    []float32
}

func (f *frame) mean() float64 {
	s := 0.0
	for _, v := range f.data {
		s += float64(v)
	}
	return s / float64(len(f.data))
}

func (f *frame) score() float64 {
	if f.stars == 0 || f.hfr == 0 {
		return 0
	}
	return float64(f.stars) / float64(f.hfr)
}

func (f *frame) image() *fits.Image {
	i := fits.NewImageFromNaxisn([]int32{int32(f.w), int32(f.h)}, append([]float32{}, f.data...))
	i.ID = f.id
	i.HFR = f.hfr
	i.Stars = f.list()
	return i
}

func (f *frame) list() []star.Star {
	var l []star.Star
	for k := 0; k < f.stars; k++ {
		l = append(l, star.Star{Index: int32(f.id*1000 + k), X: float32(f.id), Y: float32(k), Value: 1, Mass: 10 - float32(k), HFR: f.hfr})
	}
	return l
}

// candidates returns the frames a rule may choose; more than one in case of ties.
func candidates(fs []*frame, mode string) (r []*frame) {
	var left []*frame
	for _, f := range fs {
		if !f.dropped {
			left = append(left, f)
		}
	}
	if mode == "%rgb" {
		if len(fs) > 3 && !fs[3].dropped {
			return []*frame{fs[3]}
		}
		mode = "%starsHFR"
	}
	switch mode {
	case "%starsHFR":
		best := 0.0
		for _, f := range left {
			best = math.Max(best, f.score())
		}
		for _, f := range left {
			if f.score() >= best*(1-1e-6) {
				r = append(r, f)
			}
		}
	case "%location":
		if len(left) == 0 {
			return nil
		}
		var locs []float64
		for _, f := range left {
			locs = append(locs, f.mean())
		}
		s := append([]float64{}, locs...)
		sort.Float64s(s)
		n := len(s)
		eps := 1e-6 * (1 + math.Abs(s[n-1]))
		for i, f := range left {
			ok := false
			for _, m := range []float64{s[n/2], s[(n-1)/2], (s[n/2] + s[(n-1)/2]) / 2} {
				d := math.Abs(locs[i] - m)
				best := math.Inf(1)
				for _, l := range locs {
					best = math.Min(best, math.Abs(l-m))
				}
				ok = ok || d <= best+eps
			}
			if ok {
				r = append(r, f)
			}
		}
	default:
		if id, err := strconv.Atoi(mode); err == nil {
			for _, f := range left {
				if f.id == id {
					r = append(r, f)
				}
			}
		}
	}
	return r
}

func drawFrames(g *vk.G, n int) []*frame {
	s := g.Stream()
	ids := g.Perm(n)
	off := vk.OneOf(g, 0, 0, 0, 0, 5)
	style := g.Int(0, 3)
	dropping := g.Chance(1, 2)
	fs := make([]*frame, n)
	for i := range fs {
		f := &frame{id: i + off, w: s.Int(2, 6), h: s.Int(2, 6)}
		if style&1 != 0 {
			f.id = ids[i] + off
		}
		f.level = math.Floor(s.Float(1, 100))
		if style == 2 {
			f.level = float64(s.Int(1, 4))
		}
		f.data = make([]float32, f.w*f.h)
		for k := range f.data {
			f.data[k] = float32(f.level) + float32(s.Int(0, 8))/4
		}
		f.stars = s.Int(0, 12)
		f.hfr = float32(s.Int(4, 24)) / 4
		if s.Int(0, 5) == 0 {
			f.stars = 0
		}
		if s.Int(0, 8) == 0 {
			f.hfr = 0
		}
		f.dropped = dropping && s.Int(0, 3) == 0
		fs[i] = f
	}
	return fs
}

// stage is a selection step with the references it may choose
type stage struct {
	target ref.SelRefTarget
	mode   string
	cands  []*frame
	file   *fits.Image // reference frame from a file
	none   bool        // nothing to select
	failed bool
	filter int // or a filter with a minimum number of stars
}

// what a frame passing a probe sees
type sight struct {
	f      *fits.Image
	naxisn []int32
	stars  []star.Star
	hfr    float32
	histo  *stats.Stats
	lo, hi float32
	loc    float32
	refErr error
}

type prober struct {
	mu    sync.Mutex
	seen  []sight
	order map[int]int
}

func (p *prober) op() ops.Operator {
	u := &ops.OpUnaryBase{OpBase: ops.OpBase{Type: "probe"}}
	u.Apply = func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
		p.mu.Lock()
		defer p.mu.Unlock()
		s := sight{f: f, naxisn: append([]int32{}, c.AlignNaxisn...), stars: append([]star.Star{}, c.AlignStars...), hfr: c.AlignHFR, histo: c.MatchHisto, refErr: c.RefFrameError}
		if c.AlignStars == nil {
			s.stars = nil
		}
		if c.MatchHisto != nil {
			s.lo, s.hi, s.loc = c.MatchHisto.Min(), c.MatchHisto.Max(), c.MatchHisto.Location()
		}
		p.seen = append(p.seen, s)
		return f, nil
	}
	return u
}

func (f *frame) bounds() (lo, hi float32) {
	lo, hi = f.data[0], f.data[0]
	for _, v := range f.data {
		lo, hi = min(lo, v), max(hi, v)
	}
	return
}

func sameStars(a, b []star.Star) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// isAlign tells whether the sight shows f as alignment reference
func (s *sight) isAlign(f *frame) bool {
	return len(s.naxisn) == 2 && int(s.naxisn[0]) == f.w && int(s.naxisn[1]) == f.h && s.hfr == f.hfr && sameStars(s.stars, f.list()) && s.stars != nil
}

func (s *sight) isHisto(f *frame) bool {
	lo, hi := f.bounds()
	return s.histo != nil && s.lo == lo && s.hi == hi && vk.Close(float64(s.loc), f.mean(), 1e-4, 1e-5)
}

func (s *sight) check(t *vk.T, st *stage, when string) {
	if st.none {
		if st.target == ref.SRAlign && s.stars != nil || st.target == ref.SRHisto && s.histo != nil {
			t.Fail("%s: a reference is there though none was asked for", when)
		}
		return
	}
	if st.file != nil {
		if st.target == ref.SRAlign && !(fits.EqualInt32Slice(s.naxisn, st.file.Naxisn) && s.hfr == st.file.HFR && sameStars(s.stars, st.file.Stars)) {
			t.Fail("%s: alignment reference has extent %v, %d stars, HFR %g, the file has %v, %d, %g", when, s.naxisn, len(s.stars), s.hfr, st.file.Naxisn, len(st.file.Stars), st.file.HFR)
		}
		if st.target == ref.SRHisto && (s.histo == nil || s.lo != st.file.Stats.Min() || s.hi != st.file.Stats.Max() || s.loc != st.file.Stats.Location()) {
			t.Fail("%s: histogram reference is %v, range %g..%g, the file has %g..%g", when, s.histo != nil, s.lo, s.hi, st.file.Stats.Min(), st.file.Stats.Max())
		}
		return
	}
	for _, f := range st.cands {
		if st.target == ref.SRAlign && s.isAlign(f) || st.target == ref.SRHisto && s.isHisto(f) {
			return
		}
	}
	var ids []int
	for _, f := range st.cands {
		ids = append(ids, f.id)
	}
	if st.target == ref.SRAlign {
		t.Fail("%s: alignment reference by rule %q has extent %v, stars %d, HFR %g; the rule names frame %v", when, st.mode, s.naxisn, len(s.stars), s.hfr, ids)
	}
	t.Fail("%s: histogram reference by rule %q is there %v, range %g..%g, location %g; the rule names frame %v", when, st.mode, s.histo != nil, s.lo, s.hi, s.loc, ids)
}

func viaJSON(t *vk.T, op ops.Operator) ops.Operator {
	b, err := json.Marshal(ops.NewOpSequence(op))
	if err != nil {
		t.Fail("cannot save: %v", err)
	}
	var seq ops.OpSequence
	if err := json.Unmarshal(b, &seq); err != nil {
		t.Fail("cannot load job %s: %v", b, err)
	}
	return &seq
}

// a small star field in a file
func writeField(name string, s *vk.Stream) {
	const w = 40
	d := make([]float32, w*w)
	for i := range d {
		d[i] = float32(100 + s.Norm()*2)
	}
	for k := s.Int(0, 5); k > 0; k-- {
		x, y := s.Float(8, 32), s.Float(8, 32)
		for i := range d {
			dx, dy := float64(i%w)-x, float64(i/w)-y
			d[i] += float32(800 * math.Exp(-(dx*dx+dy*dy)/4.5))
		}
	}
	if err := os.WriteFile(name, fx.Float32Image([]int{w, w}, d), 0644); err != nil {
		panic(err)
	}
}

func detector() *pre.OpStarDetect { return pre.NewOpStarDetect(6, 10, 0, 1.4, "") }

func law(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	defer inDir(t)()
	n := g.Int(1, 16)
	batches := 1 + g.Pick(4, 2, 1)
	threads := vk.OneOf(g, 1, 2, 3, 8)
	s := g.Stream()
	files := false

	// the steps
	var stages []*stage
	haveAlign, haveHisto := false, false
	for k := g.Int(1, 3); k > 0; k-- {
		st := &stage{}
		if g.Chance(1, 4) {
			st.filter = g.Int(1, 4)
		} else {
			st.target = ref.SelRefTarget(g.Int(0, 1))
			if st.target == ref.SRAlign && haveAlign || st.target == ref.SRHisto && haveHisto {
				continue
			}
			haveAlign, haveHisto = haveAlign || st.target == ref.SRAlign, haveHisto || st.target == ref.SRHisto
			st.mode = vk.OneOf(g, "%starsHFR", "%location", "%rgb", "id", "id", "ref.fits", "ref.fits", "", "%starsHFR", "%location", "%rgb", "id", "%starsHFR", "%location", "gone.fits")
			if st.mode == "id" {
				st.mode = strconv.Itoa(g.Int(0, n))
			}
			files = files || st.mode == "ref.fits"
		}
		stages = append(stages, st)
	}
	var fileRef *fits.Image
	if files {
		writeField("ref.fits", s)
		c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
		seq := ops.NewOpSequence(ops.NewOpLoad(-3, "ref.fits"), detector())
		ps, err := seq.MakePromises(nil, c)
		if err != nil {
			t.Fail("unexpected error %v", err)
		}
		if fileRef, err = ps[0](); err != nil {
			t.Fail("unexpected error %v", err)
		}
	}
	job := g.Bool()
	after := g.Bool() // change frames in place afterwards
	probe := &prober{}
	seq := ops.NewOpSequence()
	desc := ""
	add := func(op ops.Operator) {
		if job {
			op = viaJSON(t, op)
		}
		seq.Append(op)
	}
	for _, st := range stages {
		if st.filter > 0 {
			add(ref.NewOpFilter(st.filter))
			desc += fmt.Sprintf(" filter(%d)", st.filter)
			continue
		}
		sd := detector()
		add(ref.NewOpSelectReference(st.target, st.mode, sd))
		desc += fmt.Sprintf(" %s(%q)", []string{"align", "histo"}[st.target], st.mode)
	}
	seq.Append(probe.op())
	if after {
		add(pre.NewOpScaleOffset(3, 7))
		seq.Append(probe.op())
	}
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = threads
	t.Desc("%d frames, %d threads, %d batches, job %v, in place %v:%s", n, threads, batches, job, after, desc)
	if n == 1 || !haveAlign && !haveHisto {
		t.Trivial()
	}
	for b := 0; b < batches; b++ {
		if b > 0 {
			t.Class("later batch")
			if g.Chance(1, 3) && b == 1 { // another job with the same steps
				c = ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
				c.MaxThreads = threads
				for _, st := range stages {
					*st = stage{target: st.target, mode: st.mode, filter: st.filter}
				}
				t.Class("other context")
			}
		}
		fs := drawFrames(g, vk.OneOf(g, n, n, g.Int(1, n)))
		failing := g.Chance(1, 15)
		if failing {
			f := vk.OneOf(g, fs...)
			f.fails, f.dropped = true, false
		}
		// model
		cur := append([]*frame{}, fs...)
		bad := failing
		for _, st := range stages {
			if bad {
				break
			}
			if st.filter > 0 {
				var next []*frame
				for _, f := range cur {
					d := *f
					d.dropped = f.dropped || f.stars < st.filter
					next = append(next, &d)
				}
				cur = next
				continue
			}
			if st.cands != nil || st.file != nil || st.none {
				continue // already selected
			}
			if _, err := strconv.Atoi(st.mode); err == nil {
				t.Class("rule number")
			} else {
				t.Class("rule %q", st.mode)
			}
			switch st.mode {
			case "":
				st.none = true
			case "gone.fits":
				bad = true
			case "ref.fits":
				st.file = fileRef
			default:
				st.cands = candidates(cur, st.mode)
				if len(st.cands) == 0 {
					bad = true
				}
			}
		}
		probe.seen = nil
		var mu sync.Mutex
		var ins []ops.Promise
		for _, f := range fs {
			f := f
			pause := s.Int(0, 6)
			ins = append(ins, func() (*fits.Image, error) {
				for k := 0; k < pause; k++ {
					runtime.Gosched()
				}
				if pause == 6 {
					time.Sleep(50 * time.Microsecond)
				}
				mu.Lock()
				defer mu.Unlock()
				f.loads++
				if f.fails {
					return nil, errors.New("cannot load")
				}
				if f.dropped {
					return nil, nil
				}
				f.ready = f.image()
				return f.ready, nil
			})
		}
		var outs []*fits.Image
		ps, err := seq.MakePromises(ins, c)
		if err == nil {
			if len(ps) != len(ins) {
				t.Fail("%d results for %d frames", len(ps), len(ins))
			}
			outs, err = ops.MaterializeAll(ps, threads, false)
		}
		if bad {
			t.Class("error expected")
			if err == nil {
				t.Fail("reference does not exist, or a frame cannot be loaded, but no error is reported")
			}
			return
		}
		if err != nil {
			t.Fail("unexpected error %v", err)
		}
		for _, f := range fs {
			if f.loads != 1 {
				t.Fail("frame %d is loaded %d times", f.id, f.loads)
			}
		}
		k := 0
		left := 0
		for i, f := range cur {
			if f.dropped {
				continue
			}
			left++
			if k >= len(outs) {
				t.Fail("frame %d is missing from the results", f.id)
			}
			if outs[k] != fs[i].ready {
				t.Fail("result %d is frame %d instead of %d", k, outs[k].ID, f.id)
			}
			o := outs[k]
			k++
			if o.ID != f.id || o.HFR != f.hfr || !sameStars(o.Stars, f.list()) || len(o.Data) != len(f.data) {
				t.Fail("frame %d is changed", f.id)
			}
			for p, v := range f.data {
				if after {
					v = v*3 + 7
				}
				if o.Data[p] != v {
					t.Fail("frame %d: pixel %d is %g instead of %g", f.id, p, o.Data[p], v)
				}
			}
		}
		if k != len(outs) {
			t.Fail("%d results instead of %d", len(outs), k)
		}
		probes := 1
		if after {
			probes = 2
		}
		if len(probe.seen) != left*probes {
			t.Fail("%d frames reach the next steps instead of %d", len(probe.seen), left)
		}
		for _, st := range stages {
			if st.filter > 0 {
				continue
			}
			for i := range probe.seen {
				probe.seen[i].check(t, st, fmt.Sprintf("batch %d frame %d", b, probe.seen[i].f.ID))
			}
			// all agree on one of the candidates
			if len(probe.seen) > 0 {
				a := probe.seen[0]
				for _, z := range probe.seen {
					if st.target == ref.SRAlign && (z.hfr != a.hfr || !sameStars(z.stars, a.stars)) || st.target == ref.SRHisto && (z.lo != a.lo || z.hi != a.hi || z.loc != a.loc) {
						t.Fail("frames %d and %d see different references", a.f.ID, z.f.ID)
					}
				}
			}
		}
		// later batches must keep what was chosen
		if len(probe.seen) > 0 {
			a := probe.seen[0]
			for _, st := range stages {
				if len(st.cands) > 1 {
					for _, f := range st.cands {
						if st.target == ref.SRAlign && a.isAlign(f) || st.target == ref.SRHisto && a.isHisto(f) {
							st.cands = []*frame{f}
							break
						}
					}
				}
			}
		}
	}
}

func main() {
	vk.Main("O04", []string{
		"locations are frame means (as with the mean/standard deviation estimator); for an even number of frames, the frame closest to the lower, upper or mean median will do",
		"ties may be resolved either way, but the same for all frames",
	},
		&vk.Law{Name: "select", Quick: 60000, Thorough: 800000, Timeout: 60 * time.Second,
			Rule: "1-16 frames of random IDs, levels, stars and star sizes, some dropped or failing, through 1-3 selection and filter steps by rule, ID or file (existing or not), built directly or read from a job, in 1-3 batches sharing a context or with a new one, with 1-8 threads; what a step behind sees for every frame is compared with a model choosing the reference; frames come out once, unchanged and in order; non-trivial if >1 frames and a selection",
			Run:  law},
		&vk.Law{Name: "select-raced", Quick: 300, Thorough: 20000, Timeout: 300 * time.Second, Race: true,
			Rule: "as select, with Go's race detector", Run: law},
	)
}
