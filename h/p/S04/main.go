// S04: alignment recovers the true transform and rejects false matches.
package main

import (
	"io"
	"math"
	"sort"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/vk"
)

type pt struct{ x, y float64 }

// field scatters n points at least sep apart; it may return fewer if there is no room.
func field(s *vk.Stream, n int, w, h, sep float64) []pt {
	var ps []pt
next:
	for tries := 0; len(ps) < n && tries < 200*n; tries++ {
		p := pt{s.Float(0, w-1), s.Float(0, h-1)}
		for _, q := range ps {
			if math.Hypot(p.x-q.x, p.y-q.y) < sep {
				continue next
			}
		}
		ps = append(ps, p)
	}
	return ps
}

type tstar struct {
	star.Star
	id int // of the point it shows, or -1
}

func mkStar(p pt, w int, mass float64, id int) tstar {
	x, y := float32(p.x), float32(p.y)
	return tstar{star.Star{Index: int32(math.Floor(p.x+.5)) + int32(w)*int32(math.Floor(p.y+.5)), Value: float32(mass / 10), X: x, Y: y, Mass: float32(mass), HFR: 2}, id}
}

// brightestFirst sorts as star detection does.
func brightestFirst(ts []tstar) ([]star.Star, []int) {
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].Mass > ts[j].Mass })
	out, ids := make([]star.Star, len(ts)), make([]int, len(ts))
	for i, s := range ts {
		out[i], ids[i] = s.Star, s.id
	}
	return out, ids
}

// sim is a similarity: frame position = k R(phi) (reference position - centre) + centre of frame + shift.
type sim struct{ a, b, cx, cy, dx, dy float64 }

func (m sim) apply(p pt) pt {
	x, y := p.x-m.cx, p.y-m.cy
	return pt{m.a*x - m.b*y + m.dx, m.b*x + m.a*y + m.dy}
}

func (m sim) back(p pt) pt {
	x, y, d := p.x-m.dx, p.y-m.dy, m.a*m.a+m.b*m.b
	return pt{(m.a*x+m.b*y)/d + m.cx, (-m.b*x+m.a*y)/d + m.cy}
}

func lawRecover(g *vk.G, t *vk.T) {
	w, h := g.Int(900, 4000), g.Int(900, 4000)
	n := g.Int(24, 90)
	k := vk.OneOf(g, 50, 50, 20, 35)
	s := g.Stream()
	fw, fh := float64(w), float64(h)
	pts := field(s, n, fw, fh, 24)
	n = len(pts)
	frameScale := 1.0
	if g.Chance(1, 5) {
		frameScale = vk.OneOf(g, 0.5, 2)
		t.Class("binned differently")
	}
	phi := 0.0
	switch g.Pick(4, 4, 2) {
	case 0:
		phi = g.Float(-0.05, 0.05)
	case 1:
		phi = g.Float(-math.Pi, math.Pi)
		t.Class("any rotation")
	case 2:
		phi = math.Pi
		t.Class("meridian flip")
	}
	sx, sy := g.Float(-0.1, 0.1)*fw, g.Float(-0.1, 0.1)*fh
	sn, cs := math.Sincos(phi)
	m := sim{frameScale * cs, frameScale * sn, fw / 2, fh / 2, frameScale * (fw/2 + sx), frameScale * (fh/2 + sy)}
	noise := g.Float(0, 0.3)
	drop, add := g.Float(0, 0.12), g.Float(0, 0.12)
	massNoise := g.Float(0, 0.1)
	fW, fH := int(fw*frameScale), int(fh*frameScale)
	var rs, fs []tstar
	for i, p := range pts {
		mass := 100 * math.Pow(s.Unit()+1e-3, -1)
		rs = append(rs, mkStar(p, w, mass, i))
		if s.Unit() < drop {
			continue
		}
		q := m.apply(p)
		q.x += noise * frameScale * math.Max(-2, math.Min(2, s.Norm()))
		q.y += noise * frameScale * math.Max(-2, math.Min(2, s.Norm()))
		if q.x < 0 || q.y < 0 || q.x > float64(fW-1) || q.y > float64(fH-1) {
			continue
		}
		fs = append(fs, mkStar(q, fW, mass*(1+massNoise*s.Norm()), i))
	}
	common := len(fs)
	spurious := int(add * float64(len(fs)))
	for i := 0; i < spurious; i++ {
		fs = append(fs, mkStar(pt{s.Float(0, float64(fW-1)), s.Float(0, float64(fH-1))}, fW, 100*math.Pow(s.Unit()+1e-3, -1), -1))
	}
	t.Desc("%dx%d, %d stars, k %d, rotated by %.3f shifted by %.0f,%.0f scale %g, %d stars in common, %d spurious, noise %.2f", w, h, n, k, phi, sx, sy, frameScale, common, spurious, noise)
	if common < 20 || common*2 < n {
		t.Discard("less than half of the stars in common")
	}
	ref, _ := brightestFirst(rs)
	refCopy := append([]star.Star{}, ref...)
	stars, ids := brightestFirst(fs)
	starCopy := append([]star.Star{}, stars...)
	a := star.NewAligner([]int32{int32(w), int32(h)}, ref, int32(k))
	tr, res := a.Align([]int32{int32(fW), int32(fH)}, stars, 1)
	if !(res <= 1) {
		t.Fail("not aligned: residual %g", res)
	}
	var worst, sum float64
	for i, id := range ids {
		if id < 0 {
			continue
		}
		q := tr.Apply(star.Point2D{X: stars[i].X, Y: stars[i].Y})
		d := math.Hypot(float64(q.X)-pts[id].x, float64(q.Y)-pts[id].y)
		worst = math.Max(worst, d)
		sum += d * d
	}
	rms := math.Sqrt(sum / float64(common))
	if !(worst <= 0.4+3.2*noise) || !(rms <= 0.1+1.6*noise) {
		t.Fail("stars are mapped up to %.2f px (rms %.2f) away from their counterparts with centroid noise %.2f by %v (residual %g)", worst, rms, noise, tr, res)
	}
	// the residual is the root of the summed squared distances over the number of matches
	if want := rms / math.Sqrt(float64(common)); spurious == 0 && math.Abs(float64(res)-want) > 0.02+0.3*want {
		t.Fail("residual %g reported for a root mean square distance of %g between %d pairs", res, rms, common)
	}
	for i := range ref {
		if ref[i] != refCopy[i] {
			t.Fail("reference star %d changes", i)
		}
	}
	for i := range stars {
		if stars[i] != starCopy[i] {
			t.Fail("star %d of the frame changes", i)
		}
	}
}

// unrelated makes two star fields which have nothing in common.
func unrelated(g *vk.G, lo, hi int) (w, h int, ref, stars []star.Star) {
	w, h = g.Int(1500, 4000), g.Int(1500, 4000)
	n, nf := g.Int(24, 60), g.Int(lo, hi)
	s := g.Stream()
	var rs, fs []tstar
	for i, p := range field(s, n, float64(w), float64(h), 24) {
		rs = append(rs, mkStar(p, w, 100*math.Pow(s.Unit()+1e-3, -1), i))
	}
	for i, p := range field(s, nf, float64(w), float64(h), 24) {
		fs = append(fs, mkStar(p, w, 100*math.Pow(s.Unit()+1e-3, -1), i))
	}
	ref, _ = brightestFirst(rs)
	stars, _ = brightestFirst(fs)
	return
}

func lawReject(g *vk.G, t *vk.T) {
	w, h, ref, stars := unrelated(g, 24, 60)
	k := vk.OneOf(g, 50, 50, 20, 35)
	t.Desc("%dx%d, %d reference stars, %d others, k %d", w, h, len(ref), len(stars), k)
	nx := []int32{int32(w), int32(h)}
	tr, res := star.NewAligner(nx, ref, int32(k)).Align(nx, stars, 1)
	if !(res > 1) {
		t.Fail("a frame which shows other stars is aligned by %v with residual %g", tr, res)
	}
}

// lawFew: too few stars on one side or the other. Three or more, but few, false stars are a known finding.
func lawFew(g *vk.G, t *vk.T) {
	w, h, ref, stars := unrelated(g, 1, 11)
	k := vk.OneOf(g, 50, 20, 3, 2, 1)
	if g.Chance(1, 3) {
		nr := g.Int(1, 2)
		ref = ref[:nr]
	}
	t.Desc("%dx%d, %d reference stars, %d others, k %d", w, h, len(ref), len(stars), k)
	nx := []int32{int32(w), int32(h)}
	tr, res := star.NewAligner(nx, ref, int32(k)).Align(nx, stars, 1)
	usable := len(stars) >= 3 && len(ref) >= 3 && k >= 3
	if !usable && !(res > 1) {
		t.Fail("%d stars are aligned with %d reference stars by %v, residual %g", len(stars), len(ref), tr, res)
	}
	if usable && !(res > 1) {
		t.Class("three to eleven unrelated stars accepted")
		t.Known("few-false-stars", "a frame with three to eleven stars is aligned to a reference showing other stars")
	}
}

// judge checks that every common star is mapped within lim of its counterpart.
func judge(t *vk.T, tr star.Transform2D, stars []star.Star, ids []int, pts []pt, lim float64) {
	for i, id := range ids {
		if id < 0 {
			continue
		}
		q := tr.Apply(star.Point2D{X: stars[i].X, Y: stars[i].Y})
		if d := math.Hypot(float64(q.X)-pts[id].x, float64(q.Y)-pts[id].y); !(d <= lim) {
			t.Fail("star %d is mapped %.2f px away from its counterpart by %v", i, d, tr)
		}
	}
}

// lawOverlap: the frame shows part of the reference, and part of its surroundings.
func lawOverlap(g *vk.G, t *vk.T) {
	w, h := g.Int(900, 4000), g.Int(900, 4000)
	n := g.Int(60, 160)
	s := g.Stream()
	fw, fh := float64(w), float64(h)
	// sky of twice the extent, of which both frames show a part
	var sky []pt
	for _, p := range field(s, n, 2*fw, 2*fh, 30) {
		sky = append(sky, pt{p.x - fw/2, p.y - fh/2})
	}
	sn, cs := math.Sincos(vk.OneOf(g, 0, math.Pi, g.Float(-0.1, 0.1)))
	sx, sy := g.Float(-0.4, 0.4)*fw, g.Float(-0.4, 0.4)*fh
	m := sim{cs, sn, fw / 2, fh / 2, fw/2 + sx, fh/2 + sy}
	noise := g.Float(0, 0.1)
	in := func(p pt) bool { return p.x >= 0 && p.y >= 0 && p.x <= fw-1 && p.y <= fh-1 }
	var rs, fs []tstar
	common := 0
	for i, p := range sky {
		mass := 100 * math.Pow(s.Unit()+1e-3, -1)
		if in(p) {
			rs = append(rs, mkStar(p, w, mass, i))
		}
		q := m.apply(p)
		q.x, q.y = q.x+noise*math.Max(-2, math.Min(2, s.Norm())), q.y+noise*math.Max(-2, math.Min(2, s.Norm()))
		if in(q) {
			id := -1
			if in(p) {
				id = i
				common++
			}
			fs = append(fs, mkStar(q, w, mass*(1+0.05*s.Norm()), id))
		}
	}
	t.Desc("%dx%d, %d stars in the reference, %d in the frame, %d in common, rotated by %.2f shifted by %.0f,%.0f noise %.2f", w, h, len(rs), len(fs), common, math.Atan2(sn, cs), sx, sy, noise)
	if common < 12 || common*100 < 42*len(fs) {
		t.Discard("too few stars in common")
	}
	t.Class("%d%% in common", common*10/len(fs)*10)
	ref, _ := brightestFirst(rs)
	stars, ids := brightestFirst(fs)
	nx := []int32{int32(w), int32(h)}
	tr, res := star.NewAligner(nx, ref, 50).Align(nx, stars, 1)
	if !(res <= 1) {
		t.Fail("not aligned: residual %g", res)
	}
	judge(t, tr, stars, ids, sky, 0.6+5*noise)
}

// lawSparse: few stars, in frames of any size, all of them in common.
func lawSparse(g *vk.G, t *vk.T) {
	w, h := g.Int(100, 1200), g.Int(100, 1200)
	n := vk.OneOf(g, 3, 4, g.Int(5, 24))
	s := g.Stream()
	fw, fh := float64(w), float64(h)
	pts := field(s, n, fw, fh, math.Max(12, fh/20+1))
	n = len(pts)
	sn, cs := math.Sincos(vk.OneOf(g, 0, math.Pi, g.Float(-0.1, 0.1)))
	m := sim{cs, sn, fw / 2, fh / 2, fw/2 + g.Float(-0.1, 0.1)*fw, fh/2 + g.Float(-0.1, 0.1)*fh}
	var rs, fs []tstar
	for i, p := range pts {
		mass := 100 * math.Pow(s.Unit()+1e-3, -1)
		rs = append(rs, mkStar(p, w, mass, i))
		fs = append(fs, mkStar(m.apply(p), w, mass*(1+0.02*s.Norm()), i))
	}
	t.Desc("%dx%d, %d stars rotated by %.2f shifted by %.0f,%.0f", w, h, n, math.Atan2(sn, cs), m.dx-fw/2, m.dy-fh/2)
	if n < 3 {
		t.Discard("fewer than three stars")
	}
	t.Class("%d stars", n)
	if n <= 4 {
		// three stars define a transform well only if they span some area
		best := 0.0
		for i := range pts {
			for j := range pts {
				for l := range pts {
					best = math.Max(best, (pts[j].x-pts[i].x)*(pts[l].y-pts[i].y)-(pts[j].y-pts[i].y)*(pts[l].x-pts[i].x))
				}
			}
		}
		if best < 0.05*fw*fh {
			t.Discard("stars nearly on a line")
		}
	}
	ref, _ := brightestFirst(rs)
	stars, ids := brightestFirst(fs)
	nx := []int32{int32(w), int32(h)}
	tr, res := star.NewAligner(nx, ref, 50).Align(nx, stars, 1)
	if !(res <= 1) {
		t.Fail("not aligned: residual %g", res)
	}
	judge(t, tr, stars, ids, pts, 0.5)
}

// lawThinned: one side shows many more stars than the other, as through thin clouds or in a shorter exposure.
func lawThinned(g *vk.G, t *vk.T) {
	w, h := g.Int(900, 4000), g.Int(900, 4000)
	n := g.Int(40, 150)
	s := g.Stream()
	fw, fh := float64(w), float64(h)
	pts := field(s, n, fw, fh, math.Max(24, fh/20+1))
	n = len(pts)
	keep := g.Int(12, 30)
	fewRef := g.Chance(1, 3) // it is the reference which shows few stars
	sn, cs := math.Sincos(vk.OneOf(g, 0, math.Pi, g.Float(-0.1, 0.1)))
	m := sim{cs, sn, fw / 2, fh / 2, fw/2 + g.Float(-0.1, 0.1)*fw, fh/2 + g.Float(-0.1, 0.1)*fh}
	noise := g.Float(0, 0.1)
	var rs, fs []tstar
	for i, p := range pts {
		mass := 100 * math.Pow(s.Unit()+1e-3, -1)
		rs = append(rs, mkStar(p, w, mass, i))
		q := m.apply(p)
		q.x, q.y = q.x+noise*math.Max(-2, math.Min(2, s.Norm())), q.y+noise*math.Max(-2, math.Min(2, s.Norm()))
		fs = append(fs, mkStar(q, w, mass, i))
	}
	ref, _ := brightestFirst(rs)
	stars, ids := brightestFirst(fs)
	if fewRef {
		if len(ref) > keep {
			ref = ref[:keep]
		}
	} else if len(stars) > keep {
		stars, ids = stars[:keep], ids[:keep]
	}
	t.Desc("%dx%d, %d stars in the reference, %d in the frame, rotated by %.2f shifted by %.0f,%.0f noise %.2f", w, h, len(ref), len(stars), math.Atan2(sn, cs), m.dx-fw/2, m.dy-fh/2, noise)
	if fewRef && len(ref)*100 < 42*len(stars) {
		t.Discard("too few of the stars in common")
	}
	t.Class("%d times as many stars", max(len(ref), len(stars))/min(len(ref), len(stars)))
	nx := []int32{int32(w), int32(h)}
	tr, res := star.NewAligner(nx, ref, 50).Align(nx, stars, 1)
	if !(res <= 1) {
		t.Fail("not aligned: residual %g", res)
	}
	judge(t, tr, stars, ids, pts, 0.6+5*noise)
}

// scene is a smooth image.
type scene struct{ lvl, a1, a2, k1, k2, p1, p2 float64 }

func (s scene) at(x, y float64) float64 {
	return s.lvl + s.a1*math.Sin(s.k1*x+s.p1) + s.a2*math.Cos(s.k2*y+s.p2+0.3*s.k1*x)
}

func lawOperator(g *vk.G, t *vk.T) {
	w, h := g.Int(420, 620), g.Int(420, 620)
	n := g.Int(24, 32)
	s := g.Stream()
	pts := field(s, n, float64(w), float64(h), 22)
	sc := scene{s.Float(50, 200), s.Float(1, 20), s.Float(1, 20), s.Float(0.005, 0.03), s.Float(0.005, 0.03), s.Float(0, 6), s.Float(0, 6)}
	mode := post.OutOfBoundsMode(g.Int(0, 2))
	frames := g.Int(1, 5)
	refAt := g.Int(-1, frames-1) // -1: the reference is not among the frames
	threads := g.Int(1, 4)
	k := int32(50)
	if g.Chance(1, 8) {
		k = int32(g.Int(-1, 0))
	}
	refLoc := float32(s.Float(10, 1000))
	setup := g.Pick(12, 1, 1, 1)
	var rs []tstar
	for i, p := range pts {
		rs = append(rs, mkStar(p, w, 100*math.Pow(s.Unit()+1e-3, -1), i))
	}
	ref, _ := brightestFirst(rs)
	type frame struct {
		img   *fits.Image
		m     sim
		kind  int
		orig  []float32
		loc   float32
		exact bool // no centroid noise
		rms   float64
	}
	fr := make([]frame, frames)
	desc := ""
	jitter, threshold := 0.02, float32(1)
	if g.Chance(1, 4) {
		jitter, threshold = vk.OneOf(g, 0.02, 0.5, 1, 1.5), vk.OneOf[float32](g, 1, 0.3, 0.1, 0.03)
	}
	for i := range fr {
		f := &fr[i]
		f.kind = g.Pick(6, 1, 1, 1) // shifted, without stars, other stars, dropped before
		fw, fh := w, h
		if g.Chance(1, 4) {
			fh = h + g.Int(-80, 80)
			if f.kind == 0 && i != refAt {
				t.Class("other height")
			}
		}
		if i == refAt {
			f.kind, f.m, fw, fh = 4, sim{a: 1}, w, h
		} else {
			sn, cs := math.Sincos(g.Float(-0.1, 0.1))
			if g.Chance(1, 4) {
				sn, cs = -sn, -cs
			}
			f.m = sim{cs, sn, float64(w) / 2, float64(h) / 2, float64(w)/2 + g.Float(-30, 30), float64(h)/2 + g.Float(-30, 30)}
			switch g.Pick(4, 1, 1, 1) { // frames which the reference resembles in some respect
			case 1:
				f.m = sim{1, 0, 0, 0, 0, g.Float(-30, 30)}
				f.exact = true
			case 2:
				f.m = sim{1, 0, 0, 0, g.Float(-30, 30), 0}
				f.exact = true
			case 3: // rotated about the brightest star
				b := ref[0]
				f.m = sim{cs, sn, float64(b.X), float64(b.Y), float64(b.X), float64(b.Y)}
				f.exact = true
			}
		}
		desc += string("ABCDE"[f.kind])
		if f.kind == 3 {
			continue
		}
		d := make([]float32, fw*fh)
		for y := 0; y < fh; y++ {
			for x := 0; x < fw; x++ {
				p := f.m.back(pt{float64(x), float64(y)})
				d[y*fw+x] = float32(sc.at(p.x, p.y))
			}
		}
		img := fits.NewImageFromNaxisn([]int32{int32(fw), int32(fh)}, d)
		img.ID, img.FileName, img.Exposure, img.HFR = 10+i, "f.fits", 5, 2.5
		switch f.kind {
		case 0:
			var fs []tstar
			for j, p := range pts {
				q := f.m.apply(p)
				j1, j2 := s.Float(-jitter, jitter), s.Float(-jitter, jitter)
				if f.exact {
					j1, j2 = 0, 0
				}
				f.rms += (j1*j1 + j2*j2) / float64(len(pts))
				fs = append(fs, mkStar(pt{q.x + j1, q.y + j2}, fw, float64(rs[j].Mass), j))
			}
			f.rms = math.Sqrt(f.rms)
			img.Stars, _ = brightestFirst(fs)
		case 2:
			// stars clustered such that no eight of them can meet reference stars by chance
			var fs []tstar
			for j := 0; j < 60; j++ {
				fs = append(fs, mkStar(pt{s.Float(0, float64(fw-1)), s.Float(0, float64(fh-1))}, fw, s.Float(100, 1000), j))
			}
			img.Stars, _ = brightestFirst(fs)
			f.kind = 2
		case 4:
			img.Stars = ref
		}
		f.loc = img.Stats.Location()
		f.img, f.orig = img, append([]float32{}, d...)
	}
	t.Desc("%dx%d, %d stars, frames %s (A same stars, B none, C others, D dropped, E reference), k %d, outside mode %d, %d threads, setup %d, centroids off by up to %g, threshold %g", w, h, len(pts), desc, k, mode, threads, setup, jitter, threshold)
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = threads
	nx := []int32{int32(w), int32(h)}
	refImg := fits.NewImageFromNaxisn(nx, make([]float32, w*h))
	for i := range refImg.Data {
		refImg.Data[i] = refLoc
	}
	refImg.Data[0]++ // some spread
	refLoc = refImg.Stats.Location()
	switch setup {
	case 0:
		c.AlignNaxisn, c.AlignStars, c.MatchHisto = nx, ref, refImg.Stats
	case 1: // no reference frame
		t.Class("no reference")
	case 2: // reference without stars
		c.AlignNaxisn, c.AlignStars = nx, []star.Star{}
		t.Class("starless reference")
	case 3: // impossible demands
		c.AlignNaxisn, c.AlignStars, c.MatchHisto = nx, ref, refImg.Stats
		threshold = -1
		t.Class("negative threshold")
	}
	op := post.NewOpAlign(k, threshold, mode)
	ins := make([]ops.Promise, frames)
	var mu sync.Mutex
	for i := range ins {
		i := i
		ins[i] = func() (*fits.Image, error) { mu.Lock(); defer mu.Unlock(); return fr[i].img, nil }
	}
	outs, err := op.MakePromises(ins, c)
	if err != nil {
		t.Fail("%v", err)
	}
	// the same promises, each evaluated once, keeping the position
	got := make([]*fits.Image, frames)
	errs := make([]error, frames)
	for i := range outs {
		i, o := i, outs[i]
		outs[i] = func() (*fits.Image, error) { got[i], errs[i] = o(); return got[i], errs[i] }
	}
	_, err = ops.MaterializeAll(outs, threads, false)
	aligning := 0
	for i := range fr {
		f, r := fr[i], got[i]
		if f.kind == 3 {
			if r != nil || errs[i] != nil {
				t.Fail("a frame dropped before becomes %v, %v", r, errs[i])
			}
			continue
		}
		if k <= 0 || f.kind == 4 && (setup == 0 || setup == 3) {
			if r != f.img || errs[i] != nil {
				t.Fail("frame %d should pass, but becomes %v, %v", i, r, errs[i])
			}
			if j, ok := vk.SameBits(r.Data, f.orig); !ok {
				t.Fail("frame %d should pass, but changes at pixel %d", i, j)
			}
			if r.Trans != star.IdentityTransform2D() {
				t.Fail("frame %d passes with transform %v", i, r.Trans)
			}
			continue
		}
		if setup == 1 || setup == 2 {
			if errs[i] == nil || r != nil {
				t.Fail("without reference stars frame %d becomes %v", i, r)
			}
			if err == nil {
				t.Fail("error %v gets lost", errs[i])
			}
			continue
		}
		if errs[i] != nil {
			t.Fail("frame %d: %v", i, errs[i])
		}
		if f.kind == 1 || f.kind == 2 || setup == 3 {
			if r != nil {
				t.Fail("frame %d of kind %d is aligned by %v, residual %g", i, f.kind, r.Trans, r.Residual)
			}
			continue
		}
		// the fit takes up some of the noise, and may end up off the optimum
		res := f.rms / math.Sqrt(float64(len(pts)))
		if r == nil {
			if res < 0.6*float64(threshold) {
				t.Fail("frame %d is not aligned", i)
			}
			t.Class("beyond threshold")
			continue
		}
		if res > 1.6*float64(threshold)+0.01 {
			t.Fail("frame %d is kept with residual %g beyond the threshold of %g, its stars are %.2f px off", i, r.Residual, threshold, f.rms)
		}
		aligning++
		if len(r.Naxisn) != 2 || int(r.Naxisn[0]) != w || int(r.Naxisn[1]) != h || len(r.Data) != w*h {
			t.Fail("frame %d is aligned to %v with %d pixels instead of %dx%d", i, r.Naxisn, len(r.Data), w, h)
		}
		if r.ID != 10+i || r.Exposure != 5 || r.HFR != 2.5 || r.FileName != "f.fits" {
			t.Fail("frame %d loses its identification: %d %q exposure %g HFR %g", i, r.ID, r.FileName, r.Exposure, r.HFR)
		}
		if !(r.Residual >= 0 && r.Residual <= threshold) {
			t.Fail("frame %d is kept with residual %g", i, r.Residual)
		}
		oob := []float32{float32(math.NaN()), refLoc, f.loc}[mode]
		fw, fh := float64(f.img.Naxisn[0]), float64(f.img.Naxisn[1])
		slope := sc.a1*sc.k1 + sc.a2*(sc.k2+0.3*sc.k1)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				q := f.m.apply(pt{float64(x), float64(y)})
				v := r.Data[y*w+x]
				if q.x < -0.6-jitter || q.y < -0.6-jitter || q.x > fw-0.4+jitter || q.y > fh-0.4+jitter {
					if !(v == oob || v != v && oob != oob) {
						t.Fail("frame %d: pixel %d,%d lies at %.2f,%.2f outside of the frame, but becomes %g instead of %g", i, x, y, q.x, q.y, v, oob)
					}
					continue
				}
				if q.x < 0.6+jitter || q.y < 0.6+jitter || q.x > fw-1.6-jitter || q.y > fh-1.6-jitter {
					continue
				}
				if want := sc.at(float64(x), float64(y)); !(math.Abs(float64(v)-want) <= (0.6+jitter)*slope+1e-3) {
					t.Fail("frame %d: pixel %d,%d is %g in the aligned frame, the scene is %g there (slope up to %g), transform %v", i, x, y, v, want, slope, r.Trans)
				}
			}
		}
	}
	if aligning == 0 {
		t.Trivial()
	} else {
		t.Class("%d aligned", aligning)
	}
}

func main() {
	vk.Main("S04", []string{"centroid noise up to 0.3 pixel", "at least 20 common stars, at least half of those in the reference", "unrelated frames of at least 24 stars; three to eleven unrelated stars are a known finding"},
		&vk.Law{Name: "recover", Quick: 700, Thorough: 20000, Rule: "star patterns of 24 to 90 stars seen rotated, shifted, binned differently, with centroid and brightness noise, missing and spurious stars: every common star is mapped onto its counterpart; all non-trivial", Run: lawRecover},
		&vk.Law{Name: "overlap", Quick: 300, Thorough: 10000, Rule: "frames which overlap in part with a reference: at least 12 stars and 42% of those in the frame in common; every common star is mapped onto its counterpart; all non-trivial", Run: lawOverlap},
		&vk.Law{Name: "sparse", Quick: 1000, Thorough: 30000, Rule: "three to 24 stars in frames of 100 to 1200 pixels, shifted and rotated: every star is mapped onto its counterpart; all non-trivial", Run: lawSparse},
		&vk.Law{Name: "thinned", Quick: 300, Thorough: 10000, Rule: "one side shows only the 12 to 30 brightest of up to 150 stars: every star is mapped onto its counterpart; all non-trivial", Run: lawThinned},
		&vk.Law{Name: "reject", Quick: 500, Thorough: 20000, Rule: "unrelated star fields are not aligned; all non-trivial", Run: lawReject},
		&vk.Law{Name: "few", Quick: 500, Thorough: 20000, Rule: "one or two stars in the frame, the reference or the selection are never aligned; all non-trivial", Run: lawFew},
		&vk.Law{Name: "operator-raced", Quick: 40, Thorough: 3000, Timeout: 300 * time.Second, Race: true,
			Rule: "the same under Go's race detector, which fails on unsynchronised access to shared data: " + "1 to 5 frames of a smooth scene through the align step at 1 to 4 threads, among them the reference, frames without stars, with other stars, dropped ones, missing references and thresholds nothing meets: extent, pixel positions, fill values, drops and errors; trivial if no frame is aligned", Run: lawOperator},
		&vk.Law{Name: "operator", Quick: 200, Thorough: 5000, Rule: "1 to 5 frames of a smooth scene through the align step at 1 to 4 threads, among them the reference, frames without stars, with other stars, dropped ones, missing references and thresholds nothing meets: extent, pixel positions, fill values, drops and errors; trivial if no frame is aligned", Run: lawOperator},
	)
}
