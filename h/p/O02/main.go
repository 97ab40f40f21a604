// O02: concurrent job execution runs every step once, in order, within limits.
package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

// gate controls in which order pending evaluations complete.
type gate struct {
	mu      sync.Mutex
	rng     *vk.Stream
	running map[int]chan bool
	order   []int // keys of running
	count   map[int]int
	max     int
	total   int
	stop    chan bool
	policy  int
	pause   time.Duration
}

func newGate(g *vk.G, maxPause time.Duration) *gate {
	x := &gate{rng: g.Stream(), running: map[int]chan bool{}, count: map[int]int{}, stop: make(chan bool), policy: g.Int(0, 3)}
	x.pause = vk.OneOf(g, 0, 0, 20*time.Microsecond, 200*time.Microsecond)
	if x.pause > maxPause {
		x.pause = maxPause
	}
	go func() {
		for {
			select {
			case <-x.stop:
				return
			default:
			}
			if x.pause == 0 {
				runtime.Gosched()
			} else {
				time.Sleep(x.pause)
			}
			x.mu.Lock()
			if n := len(x.order); n > 0 {
				i := 0
				switch x.policy {
				case 0:
					i = x.rng.Int(0, n-1)
				case 1: // last in, first out
					i = n - 1
				case 2: // first in, first out
				case 3: // the first one completes last
					i = n - 1
					if n == 1 && x.rng.Int(0, 3) > 0 {
						x.mu.Unlock()
						continue
					}
				}
				k := x.order[i]
				x.order = append(x.order[:i:i], x.order[i+1:]...)
				close(x.running[k])
				delete(x.running, k)
			}
			x.mu.Unlock()
		}
	}()
	return x
}

// pass blocks until the gate lets evaluation number id complete
func (x *gate) pass(id int) {
	ch := make(chan bool)
	x.mu.Lock()
	x.count[id]++
	x.total++
	key := x.total
	x.running[key] = ch
	x.order = append(x.order, key)
	x.mu.Unlock()
	<-ch
}

type load struct {
	mu       sync.Mutex
	cur, max int
}

func (l *load) enter() {
	l.mu.Lock()
	l.cur++
	if l.cur > l.max {
		l.max = l.cur
	}
	l.mu.Unlock()
}
func (l *load) leave() { l.mu.Lock(); l.cur--; l.mu.Unlock() }

func frame(id int) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{2, 1}, []float32{float32(id), 1})
	f.ID = id
	return f
}

// outcome of one evaluation
const (
	good = iota
	drop
	fail
)

func ids(fs []*fits.Image) (r []int) {
	for _, f := range fs {
		if f == nil {
			r = append(r, -1)
		} else {
			r = append(r, f.ID)
		}
	}
	return
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func materialize(g *vk.G, t *vk.T) {
	n := g.Int(2, 60)
	if g.Chance(1, 6) {
		n = g.Size(0, 6)
	}
	threads := vk.OneOf(g, g.Int(1, 8), g.Int(1, 8), g.Int(1, 3), 1, g.Int(8, 80), 0)
	forget := g.Chance(1, 4)
	kind := make([]int, n)
	mode := g.Int(0, 3)
	msgs := g.Int(1, 3)
	errs := make([]error, n)
	var want []int
	failed := map[string]bool{}
	for i := range kind {
		switch mode {
		case 1:
			kind[i] = g.Pick(6, 2, 0)
		case 2:
			kind[i] = g.Pick(6, 1, 1)
		case 3:
			kind[i] = g.Pick(1, 1, 3)
		}
		switch kind[i] {
		case good:
			want = append(want, i)
		case fail:
			errs[i] = fmt.Errorf("failure #%d", g.Int(1, msgs))
			if g.Chance(1, 4) {
				errs[i] = fmt.Errorf("failure of %d", i)
			}
			failed[errs[i].Error()] = true
		}
	}
	x := newGate(g, time.Second)
	defer close(x.stop)
	var l load
	var ins []ops.Promise
	frames := make([]*fits.Image, n)
	for i := 0; i < n; i++ {
		i := i
		frames[i] = frame(i)
		ins = append(ins, func() (*fits.Image, error) {
			l.enter()
			x.pass(i)
			defer l.leave()
			switch kind[i] {
			case drop:
				return nil, nil
			case fail:
				return nil, errs[i]
			}
			return frames[i], nil
		})
	}
	t.Desc("%d images, limit %d, %d failures, %d left, forget %v, order %d", n, threads, len(failed), len(want), forget, x.policy)
	t.Class("order %d", x.policy)
	if n < 2 {
		t.Trivial()
	}
	if threads > 1 && n > threads {
		t.Class("more images than threads")
	}
	if len(failed) > 0 {
		t.Class("failures")
	}
	outs, err := ops.MaterializeAll(ins, threads, forget)
	x.mu.Lock()
	defer x.mu.Unlock()
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.cur != 0 {
		t.Fail("returned while %d evaluations are still running", l.cur)
	}
	for i := 0; i < n; i++ {
		if x.count[i] != 1 {
			t.Fail("image %d evaluated %d times", i, x.count[i])
		}
	}
	limit := threads
	if limit < 1 {
		limit = 1
	}
	if l.max > limit {
		t.Fail("%d evaluations at a time with limit %d", l.max, threads)
	}
	if len(failed) > 0 {
		if err == nil {
			t.Fail("evaluations failed with %v, but no error is reported", failed)
		}
		found := false
		for m := range failed {
			found = found || strings.Contains(err.Error(), m)
		}
		if !found {
			t.Fail("error %q names none of the failures %v", err, failed)
		}
		return
	}
	if err != nil {
		t.Fail("unexpected error %v", err)
	}
	if forget {
		if len(outs) != 0 {
			t.Fail("%d images returned though they should be forgotten", len(outs))
		}
		return
	}
	if got := ids(outs); !same(got, want) {
		t.Fail("results %v instead of %v", got, want)
	}
	for _, f := range outs {
		if f != frames[f.ID] {
			t.Fail("result %d is another image", f.ID)
		}
	}
}

// ---- sequences of steps ----

// A step for tests. Steps multiply an image's value with a prime and add a number, which shows their order.
type step struct {
	kind int // 0 unary, 1 reduce, 2 drops some, 3 fails on some, 4 fails to start, 5 doubles the number of images, 6 splits in two halves one after the other
	arg  int
}

type val struct {
	id int
	v  uint64
}

func (s step) apply(a val) (b val, res int) {
	switch s.kind {
	case 2:
		if (a.id+s.arg)%3 == 0 {
			return a, drop
		}
	case 3:
		if (a.id+s.arg)%17 == 0 {
			return a, fail
		}
	}
	return val{a.id, a.v*31 + uint64(s.arg) + 1}, good
}

func reduce(s step, in []val) val {
	r := val{1000 + s.arg, 7}
	for _, a := range in {
		r.v = r.v*131 + a.v
	}
	return r
}

type world struct {
	mu    sync.Mutex
	vals  map[*fits.Image]val
	calls map[string]int
	nils  int
	x     *gate
	l     load
}

func (w *world) get(f *fits.Image) val    { w.mu.Lock(); defer w.mu.Unlock(); return w.vals[f] }
func (w *world) set(f *fits.Image, v val) { w.mu.Lock(); w.vals[f] = v; w.mu.Unlock() }
func (w *world) called(k string)          { w.mu.Lock(); w.calls[k]++; w.mu.Unlock() }
func (w *world) make(v val) *fits.Image   { f := frame(v.id); w.set(f, v); return f }
func (w *world) operator(i int, s step) ops.Operator {
	switch s.kind {
	case 0, 2, 3:
		u := &ops.OpUnaryBase{OpBase: ops.OpBase{Type: "test"}}
		u.Apply = func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
			if f == nil {
				w.mu.Lock()
				w.nils++
				w.mu.Unlock()
				return nil, nil
			}
			a := w.get(f)
			w.called(fmt.Sprintf("step %d image %d", i, a.id))
			b, res := s.apply(a)
			switch res {
			case drop:
				return nil, nil
			case fail:
				return nil, errors.New("boom")
			}
			return w.make(b), nil
		}
		return u
	}
	return &multi{w, i, s}
}

type multi struct {
	w *world
	i int
	s step
}

func (m *multi) GetType() string { return "multi" }
func (m *multi) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	switch m.s.kind {
	case 4:
		return nil, errors.New("cannot start")
	case 5:
		var outs []ops.Promise
		for k, in := range ins {
			k, in := k, in
			outs = append(outs, in, func() (*fits.Image, error) { return m.w.make(val{2000 + k, uint64(k)}), nil })
		}
		return outs, nil
	}
	return []ops.Promise{func() (*fits.Image, error) {
		fs, err := ops.MaterializeAll(ins, c.MaxThreads, false)
		if err != nil {
			return nil, err
		}
		var vs []val
		for _, f := range fs {
			vs = append(vs, m.w.get(f))
		}
		m.w.called(fmt.Sprintf("step %d reduce", m.i))
		return m.w.make(reduce(m.s, vs)), nil
	}}, nil
}

func group(g *vk.G, list []ops.Operator, depth int) *ops.OpSequence {
	s := ops.NewOpSequence()
	for i := 0; i < len(list); {
		n := g.Size(1, len(list)-i)
		if depth > 0 && g.Chance(1, 3) {
			s.Append(group(g, list[i:i+n], depth-1))
		} else {
			s.Append(list[i : i+n]...)
		}
		i += n
		if g.Chance(1, 8) {
			s.Append(ops.NewOpSequence())
		}
	}
	return s
}

func sequence(g *vk.G, t *vk.T) {
	w := &world{vals: map[*fits.Image]val{}, calls: map[string]int{}, x: newGate(g, time.Second)}
	defer close(w.x.stop)
	n := g.Size(1, 24)
	threads := g.Int(1, 8)
	var ins []ops.Promise
	var cur []*val // model: pending images, nil if dropped
	srcErr := g.Chance(1, 12)
	failAt := g.Int(0, n-1)
	startErr, runErr := false, srcErr
	for i := 0; i < n; i++ {
		i := i
		v := val{i, uint64(i * 3)}
		d := g.Chance(1, 12)
		if d {
			cur = append(cur, nil)
		} else {
			cur = append(cur, &v)
		}
		ins = append(ins, func() (*fits.Image, error) {
			w.l.enter()
			w.x.pass(i)
			defer w.l.leave()
			if srcErr && i == failAt {
				return nil, errors.New("boom")
			}
			if d {
				return nil, nil
			}
			return w.make(v), nil
		})
	}
	var list []ops.Operator
	var kinds []int
	wantCalls := map[string]int{}
	for k := g.Int(2, 8); k > 0; k-- {
		s := step{g.Pick(10, 2, 3, 1, 1, 1), g.Int(0, 50)}
		if s.kind == 4 && !g.Chance(1, 3) {
			s.kind = 0
		}
		i := len(list)
		list = append(list, w.operator(i, s))
		kinds = append(kinds, s.kind)
		if startErr || runErr {
			startErr = startErr || s.kind == 4
			continue
		}
		var next []*val
		switch s.kind {
		case 0, 2, 3:
			for _, p := range cur {
				if p == nil {
					next = append(next, nil)
					continue
				}
				wantCalls[fmt.Sprintf("step %d image %d", i, p.id)]++
				b, res := s.apply(*p)
				switch res {
				case good:
					next = append(next, &b)
				case drop:
					next = append(next, nil)
				case fail:
					runErr = true
				}
			}
		case 1:
			var in []val
			for _, p := range cur {
				if p != nil {
					in = append(in, *p)
				}
			}
			wantCalls[fmt.Sprintf("step %d reduce", i)]++
			b := reduce(s, in)
			next = []*val{&b}
		case 4:
			startErr = true
		case 5:
			for k, p := range cur {
				next = append(next, p, &val{2000 + k, uint64(k)})
			}
		}
		cur = next
	}
	t.Desc("%d images, limit %d, steps %v, start error %v, run error %v", n, threads, kinds, startErr, runErr)
	if len(list) < 2 {
		t.Trivial()
	}
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = threads
	seq := group(g, list, 2)
	ps, err := seq.MakePromises(ins, c)
	if startErr {
		t.Class("fails to start")
		if err == nil {
			t.Fail("a step fails to start, but no error is reported")
		}
		return
	}
	if err != nil {
		t.Fail("unexpected error %v", err)
	}
	w.x.mu.Lock()
	if w.x.total > 0 {
		t.Fail("images are evaluated before the job is run")
	}
	w.x.mu.Unlock()
	outs, err := ops.MaterializeAll(ps, threads, false)
	if w.nils > 0 {
		t.Fail("a step is applied to a dropped image")
	}
	if runErr {
		t.Class("fails")
		if err == nil {
			t.Fail("a step fails, but no error is reported")
		}
		return
	}
	if err != nil {
		t.Fail("unexpected error %v", err)
	}
	if w.l.max > threads && !multiple(kinds) {
		t.Fail("%d evaluations at a time with limit %d", w.l.max, threads)
	}
	for i := 0; i < n; i++ {
		if w.x.count[i] != 1 {
			t.Fail("image %d evaluated %d times", i, w.x.count[i])
		}
	}
	var want []val
	for _, p := range cur {
		if p != nil {
			want = append(want, *p)
		}
	}
	if len(outs) != len(want) {
		t.Fail("%d results instead of %d", len(outs), len(want))
	}
	for i, f := range outs {
		if got := w.get(f); got != want[i] {
			t.Fail("result %d is %v, applying steps one after the other gives %v", i, got, want[i])
		}
	}
	for k, v := range wantCalls {
		if w.calls[k] != v {
			t.Fail("%s applied %d times instead of %d", k, w.calls[k], v)
		}
	}
	for k, v := range w.calls {
		if wantCalls[k] != v {
			t.Fail("%s applied %d times instead of %d", k, v, wantCalls[k])
		}
	}
}

// a step materializing its inputs next to other steps has a limit of its own
func multiple(kinds []int) bool {
	r := false
	for i, k := range kinds {
		if k == 1 {
			for _, l := range kinds[i+1:] {
				r = r || l == 5
			}
		}
	}
	return r
}

// ---- a complete stacking job ----

func job(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	n := g.Int(2, 60)
	if g.Chance(1, 8) {
		n = g.Size(1, 8)
	}
	w, h := 128, 128 // 16 frames per MiB
	mem := vk.OneOf(g, 1, 2, g.Int(2, 6), 100)
	s := g.Stream()
	kind := make([]int, n)
	dropMode := g.Int(0, 3)
	fewStars := make([]bool, n)
	minStars := g.Int(0, 3)
	left, firstOf := 0, -1
	fails := g.Chance(1, 10)
	for i := range kind {
		if dropMode == 1 {
			kind[i] = g.Pick(5, 1)
		} else if dropMode == 2 && i < n/3 {
			kind[i] = drop
		} else if dropMode == 3 {
			fewStars[i] = g.Chance(1, 5)
		}
	}
	if fails {
		kind[g.Int(0, n-1)] = fail
	}
	levels := make([]float64, n)
	sum := 0.0
	for i := range kind {
		levels[i] = math.Floor(s.Float(1, 200))
		if kind[i] == good && !(fewStars[i] && minStars > 0) {
			left++
			sum += levels[i]
			if firstOf < 0 {
				firstOf = i
			}
		}
	}
	x := newGate(g, 20*time.Microsecond)
	defer close(x.stop)
	var l load
	var ins []ops.Promise
	for i := 0; i < n; i++ {
		i := i
		ins = append(ins, func() (*fits.Image, error) {
			l.enter()
			defer l.leave()
			x.pass(i)
			switch kind[i] {
			case drop:
				return nil, nil
			case fail:
				return nil, fmt.Errorf("cannot read frame %d", i)
			}
			d := make([]float32, w*h)
			for k := range d {
				d[k] = float32(levels[i] + float64(k%5) - 2)
			}
			f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, d)
			f.ID, f.Exposure = i, 10
			ns := 5
			if fewStars[i] {
				ns = 0
			}
			for k := 0; k < ns; k++ {
				f.Stars = append(f.Stars, star.Star{X: float32(10 + 7*k*k), Y: float32(20 + 11*k), Value: 1, Mass: 10, HFR: 2})
			}
			f.HFR = 2
			return f, nil
		})
	}
	var mu sync.Mutex
	applied := map[int]int{}
	probe := &ops.OpUnaryBase{OpBase: ops.OpBase{Type: "probe"}}
	probe.Apply = func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
		mu.Lock()
		applied[f.ID]++
		mu.Unlock()
		return f, nil
	}
	var steps []ops.Operator
	var desc []string
	add := func(name string, op ops.Operator) { steps = append(steps, op); desc = append(desc, name) }
	add("probe", probe)
	if g.Bool() {
		add("histo", ref.NewOpSelectReference(ref.SRHisto, vk.OneOf(g, "%location", "%starsHFR", ""), pre.NewOpStarDetectDefault()))
	}
	if g.Bool() {
		add("ref", ref.NewOpSelectReference(ref.SRAlign, vk.OneOf(g, "%starsHFR", "%location", ""), pre.NewOpStarDetectDefault()))
	}
	add("filter", ref.NewOpFilter(minStars))
	if g.Bool() {
		add("scale", pre.NewOpScaleOffset(1, 0))
	}
	if g.Bool() {
		add("match", post.NewOpMatchHistogram(post.HNMNone))
	}
	add("stack", stack.NewOpStack(stack.StMean, stack.StWeightNone, 3, 3))
	c := ops.NewContext(io.Discard, mem, stats.LSEMeanStdDev)
	seq := ops.NewOpSequence(stack.NewOpStackBatches(ops.NewOpSequence(steps...)))
	t.Desc("%d frames, %d to be stacked, memory for %d, drops %d, fails %v: %v", n, left, mem*16, dropMode, fails, desc)
	t.Class("drops %d", dropMode)
	if n < 2 {
		t.Trivial()
	}
	if mem*16 < n {
		t.Class("several batches")
	}
	ps, err := seq.MakePromises(ins, c)
	if err != nil {
		t.Fail("unexpected error %v", err)
	}
	outs, err := ops.MaterializeAll(ps, runtime.GOMAXPROCS(0), false)
	if l.max > runtime.GOMAXPROCS(0) {
		t.Fail("%d evaluations at a time with %d processors", l.max, runtime.GOMAXPROCS(0))
	}
	if l.cur != 0 {
		t.Fail("returned while %d evaluations are still running", l.cur)
	}
	if fails {
		if err == nil {
			t.Fail("reading a frame fails, but no error is reported")
		}
		return
	}
	if left == 0 {
		t.Class("nothing left")
		if err == nil {
			t.Fail("all frames dropped, but no error is reported")
		}
		return
	}
	if err != nil {
		if strings.Contains(err.Error(), "memory constraints") || strings.Contains(err.Error(), "no frames to stack") || strings.Contains(err.Error(), "Unable to select reference") {
			t.Discard("no frames left in a batch, or not enough memory")
		}
		t.Fail("unexpected error %v", err)
	}
	for i := range kind {
		if kind[i] == good && x.count[i] != 1 {
			t.Fail("frame %d read %d times", i, x.count[i])
		}
		if want := 1 - kind[i]; applied[i] != want {
			t.Fail("step applied %d times to frame %d", applied[i], i)
		}
	}
	if len(outs) != 1 {
		t.Fail("%d results", len(outs))
	}
	m := 0.0
	for _, v := range outs[0].Data {
		m += float64(v) / float64(w*h)
	}
	if want := sum/float64(left) - 2 + meanOffset(w*h); !vk.Close(m, want, 1e-3, 1e-5) {
		t.Fail("mean %g instead of %g", m, want)
	}
	if outs[0].Exposure != float32(10*left) {
		t.Fail("exposure %g instead of %g", outs[0].Exposure, float32(10*left))
	}
}

func meanOffset(n int) float64 {
	s := 0
	for k := 0; k < n; k++ {
		s += k % 5
	}
	return float64(s) / float64(n)
}

func main() {
	vk.Main("O02", []string{
		"completion orders are forced by gates inside the pending evaluations; the scheduling of goroutines between them is left to the runtime",
		"a step gathering several images, used twice side by side in one job, has a thread limit of its own",
	},
		&vk.Law{Name: "execute", Quick: 2500, Thorough: 300000, Timeout: 60 * time.Second,
			Rule: "0-60 pending images with random successes, drops and failures (same or different messages), thread limits from 0 to 80, results kept or forgotten; evaluations block on a gate that completes them in random, reverse, forward or first-one-last order; each is evaluated once, no more run at a time than the limit, nothing runs on after return, results are in input order without dropped ones, a failure is reported; non-trivial if at least two images",
			Run:  materialize},
		&vk.Law{Name: "sequence", Quick: 2000, Thorough: 200000, Timeout: 60 * time.Second,
			Rule: "1-24 gated images through 1-7 steps (per image, dropping some, failing on some, gathering all, adding images, failing to start), grouped at random into nested sequences, against a model applying one step after the other; each step is applied once to each image left, never to a dropped one, results and order agree, failures are reported; non-trivial if at least two steps",
			Run:  sequence},
		&vk.Law{Name: "together", Quick: 1000, Thorough: 60000, Timeout: 120 * time.Second,
			Rule: "1-4 real steps which treat frames one by one (calibration, bad pixels, debayering, banding, binning, background, stars, matching, alignment, stretching, color steps, saving), same objects applied to 3-16 differing frames (from memory or loaded from files) by 2-8 threads at a time; each frame and each file written equals, bit by bit, what fresh steps make of that frame alone; non-trivial unless a step fails",
			Run:  together},
		&vk.Law{Name: "job", Quick: 200, Thorough: 20000, Timeout: 120 * time.Second,
			Rule: "a stacking job of real steps (reference selection, filter, scaling, matching, stacking in one or several batches) on 1-60 gated frames, some dropped before or by the filter, some failing; each frame is read once and each step applied once to it, within the number of processors, a failure is reported, the result is the mean of the frames; non-trivial if at least two frames",
			Run:  job},
		&vk.Law{Name: "together-raced", Quick: 40, Thorough: 4000, Timeout: 300 * time.Second, Race: true,
			Rule: "as together, with Go's race detector: no data is accessed by two threads without synchronisation, one of them writing",
			Run:  together},
		&vk.Law{Name: "execute-raced", Quick: 100, Thorough: 10000, Timeout: 300 * time.Second, Race: true,
			Rule: "as execute, with Go's race detector",
			Run:  materialize},
		&vk.Law{Name: "job-raced", Quick: 150, Thorough: 4000, Timeout: 300 * time.Second, Race: true,
			Rule: "as job, with Go's race detector",
			Run:  job},
	)
}
