// K03: batched stacking uses every frame exactly once.

//go:debug randseednop=0
package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
	"time"
)

// spy records which frames come through in which batch.
type spy struct {
	ops.OpBase
	mu      sync.Mutex
	batches [][]int
	drop    map[int]bool // frames to leave out
	threads []int
}

func (s *spy) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	s.mu.Lock()
	b := len(s.batches)
	s.batches = append(s.batches, nil)
	s.threads = append(s.threads, c.MaxThreads)
	s.mu.Unlock()
	outs := make([]ops.Promise, len(ins))
	for i := range ins {
		in := ins[i]
		outs[i] = func() (*fits.Image, error) {
			f, err := in()
			if err == nil && f != nil {
				s.mu.Lock()
				s.batches[b] = append(s.batches[b], f.ID)
				s.mu.Unlock()
				if s.drop[f.ID] {
					return nil, nil
				}
			}
			return f, err
		}
	}
	return outs, nil
}

type world struct {
	n, w, h    int
	data       [][]float32
	mu         sync.Mutex
	evals      []int
	live, peak int
	fail       int
	absent     map[int]bool // frames left out before batching
	failErr    error
	yield      int
}

func (w *world) promises() []ops.Promise {
	ps := make([]ops.Promise, w.n)
	for i := range ps {
		i := i
		ps[i] = func() (*fits.Image, error) {
			w.mu.Lock()
			w.evals[i]++
			w.live++
			if w.live > w.peak {
				w.peak = w.live
			}
			w.mu.Unlock()
			for k := 0; k < (i*7+w.yield)%5; k++ {
				runtime.Gosched()
			}
			defer func() { w.mu.Lock(); w.live--; w.mu.Unlock() }()
			if i == w.fail {
				return nil, w.failErr
			}
			if w.absent[i] {
				return nil, nil
			}
			f := fits.NewImageFromNaxisn([]int32{int32(w.w), int32(w.h)}, append([]float32{}, w.data[i]...))
			f.ID = i
			f.FileName = fmt.Sprintf("frame%d", i)
			f.Exposure = float32(i%7 + 1)
			return f, nil
		}
	}
	return ps
}

func law(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	procs := vk.OneOf(g, 1, 2, 3, 4, 8)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	w := &world{fail: -1, yield: g.Int(0, 4)}
	mb := g.Int(1, 2)
	avail := g.Size(2, 40) // frames that fit
	w.w = g.Int(20, 200)
	w.h = mb * 1024 * 1024 / 4 / avail / w.w
	if w.h < 3 {
		w.h = 3
	}
	if w.h > 700 {
		w.h = 700
	}
	px := w.w * w.h
	avail = mb * 1024 * 1024 / (4 * px)
	w.n = g.Size(1, 60)
	if g.Chance(1, 3) { // around a multiple of the number that fits
		w.n = avail*g.Int(1, 3) + g.Int(-4, 4)
	}
	if w.n > 90 {
		w.n = 90
	}
	if w.n < 1 {
		w.n = 1
	}
	if w.n > 400000/px+4 { // keep cases cheap
		w.n = 400000/px + 4
	}
	s := g.Stream()
	w.data = make([][]float32, w.n)
	w.evals = make([]int, w.n)
	for i := range w.data {
		w.data[i] = make([]float32, px)
		for p := range w.data[i] {
			w.data[i][p] = float32(s.U64() % 64)
		}
	}
	c := ops.NewContext(io.Discard, mb, stats.LSEMeanStdDev)
	extra := 0
	cal := g.Int(0, 3)
	if cal&1 != 0 {
		c.DarkFrame = fits.NewImageFromNaxisn([]int32{int32(w.w), int32(w.h)}, nil)
		extra++
	}
	if cal&2 != 0 {
		c.FlatFrame = fits.NewImageFromNaxisn([]int32{int32(w.w), int32(w.h)}, nil)
		extra++
	}
	seed := int64(g.U32())
	rand.Seed(seed)
	failing := g.Chance(1, 6)
	if failing {
		w.fail = g.Int(0, w.n-1)
		w.failErr = errors.New("cannot load")
	}
	t.Desc("%d frames of %dx%d, %d fit into %d MB, %d threads, dark/flat %d, seed %d, failing frame %d", w.n, w.w, w.h, avail, mb, procs, cal, seed, w.fail)
	sp := &spy{drop: map[int]bool{}}
	if !failing && g.Chance(1, 4) {
		for k := g.Int(1, 4); k > 0 && len(sp.drop) < w.n-1; k-- {
			sp.drop[s.Int(0, w.n-1)] = true
		}
	}
	w.absent = map[int]bool{}
	if !failing && len(sp.drop) == 0 && w.n > 1 && g.Chance(1, 4) {
		if g.Bool() { // all before some frame
			for k := g.Int(1, w.n-1); k > 0; k-- {
				w.absent[k-1] = true
			}
		} else {
			for k := g.Int(1, 4); k > 0 && len(w.absent) < w.n-1; k-- {
				w.absent[s.Int(0, w.n-1)] = true
			}
		}
		t.Class("frames left out before")
	}
	gone := func(i int) bool { return sp.drop[i] || w.absent[i] }
	op := stack.NewOpStackBatches(ops.NewOpSequence(sp, stack.NewOpStack(stack.StMean, stack.StWeightNone, 2, 2)))
	outs, err := op.MakePromises(w.promises(), c)
	if err != nil || len(outs) != 1 {
		t.Fail("%d results, error %v", len(outs), err)
	}
	r, err := outs[0]()
	base := avail - 1 - extra // with a single thread
	frames := w.n
	for i := 0; cal == 0 && w.absent[i]; i++ { // seen when estimating the memory needed
		frames--
	}
	fits1 := base >= 2 && frames <= base
	fitsMany := base-2 >= 2
	if failing {
		if err == nil {
			t.Fail("job succeeds although frame %d cannot be loaded", w.fail)
		}
		t.Class("failing frame")
		return
	}
	if len(sp.drop) > 0 {
		t.Class("frames left out")
		for _, ids := range sp.batches {
			all := true
			for _, id := range ids {
				all = all && sp.drop[id]
			}
			if all {
				t.Discard("batch without frames")
			}
		}
	}
	if len(w.absent) > 0 {
		for _, ids := range sp.batches {
			if len(ids) == 0 {
				t.Discard("batch without frames")
			}
		}
	}
	if err != nil {
		if fits1 || fitsMany {
			t.Fail("job fails although memory suffices: %v", err)
		}
		t.Class("not enough memory")
		t.Trivial()
		return
	}
	if !fits1 && !fitsMany {
		t.Fail("job runs in %d batches although not even the smallest batch fits", len(sp.batches))
	}
	t.Class("%d batches", min(len(sp.batches), 5))
	if frames%len(sp.batches) != 0 {
		t.Class("uneven batches")
	}
	if len(sp.batches) < 2 {
		t.Trivial()
	}
	seen := make([]int, w.n)
	for b, ids := range sp.batches {
		if len(ids) == 0 {
			t.Fail("batch %d is empty", b)
		}
		for _, id := range ids {
			seen[id]++
		}
		need := len(ids) + sp.threads[b] + extra
		if len(sp.batches) > 1 {
			need += 2
		}
		if need > avail {
			t.Fail("batch %d of %d frames with %d threads needs memory for %d frames, %d fit", b, len(ids), sp.threads[b], need, avail)
		}
		if sp.threads[b] < 1 || sp.threads[b] > procs {
			t.Fail("batch uses %d threads of %d", sp.threads[b], procs)
		}
	}
	for i, k := range seen {
		if w.absent[i] {
			k++
		}
		if k != 1 {
			t.Fail("frame %d is stacked %d times; batches %v", i, k, sp.batches)
		}
		if w.evals[i] > 1 {
			t.Fail("frame %d is loaded %d times", i, w.evals[i])
		}
	}
	if w.peak > sp.threads[0] {
		t.Fail("%d frames are loaded at the same time with %d threads", w.peak, sp.threads[0])
	}
	if len(r.Data) != px || !fits.EqualInt32Slice(r.Naxisn, []int32{int32(w.w), int32(w.h)}) {
		t.Fail("stack is %v", r.Naxisn)
	}
	exp := 0
	for i := 0; i < w.n; i++ {
		if !gone(i) {
			exp += i%7 + 1
		}
	}
	if !vk.Close(float64(r.Exposure), float64(exp), 0, 1e-5) {
		t.Fail("exposure of the stack is %g, the frames add up to %d", r.Exposure, exp)
	}
	mn, mx := float32(64), float32(0)
	for p := range r.Data {
		sum := 0.0
		for i := range w.data {
			if !gone(i) {
				sum += float64(w.data[i][p])
			}
		}
		if want := sum / float64(w.n-len(sp.drop)-len(w.absent)); !vk.Close(float64(r.Data[p]), want, 2e-4, 0) {
			t.Fail("pixel %d is %g, the mean of all %d frames is %g; batches %v", p, r.Data[p], w.n-len(sp.drop)-len(w.absent), want, sp.batches)
		}
		mn, mx = min(mn, r.Data[p]), max(mx, r.Data[p])
	}
	if r.Stats.Min() != mn || r.Stats.Max() != mx {
		t.Fail("statistics of the stack report range %g..%g, it is %g..%g", r.Stats.Min(), r.Stats.Max(), mn, mx)
	}
}

func main() {
	vk.Main("K03", []string{"memory need of a batch is counted in mono frames: the batch, one per thread, dark, flat and, with several batches, two more"},
		&vk.Law{Name: "batches", Quick: 6000, Thorough: 150000, Rule: "1..90 frames, 2..40 frames fitting in memory, 1..8 threads, dark and flat present or not, seeded partition, optionally one frame failing or some left out by a step; a recording step notes frames, threads and batches; non-trivial if >1 batch", Run: law},
		&vk.Law{Name: "batches-raced", Quick: 100, Thorough: 8000, Timeout: 300 * time.Second, Race: true,
			Rule: "as batches, with Go's race detector", Run: law},
	)
}
