// O01: a job description means the same after saving and loading it.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/steps"
	"github.com/mlnoga/nightlight/verif/vk"
)

// kinds of input a step is run on
const (
	none  = steps.None
	mono  = steps.Mono
	chans = steps.Chans
	color = steps.Color
	huesl = steps.HSL
)

// One kind of step: its constructor, its documented defaults, and arguments it can sensibly be run with.
type kind struct {
	name  string
	ctor  interface{}
	def   string // default parameters
	input int
	args  func(g *vk.G) []interface{}
}

var kinds = func() (ks []kind) {
	for _, k := range steps.Kinds {
		ks = append(ks, kind{k.Name, k.Ctor, k.Def, k.Input, k.Args})
	}
	return append(ks, kind{"seq", nil, `{"steps":null}`, mono, nil})
}()

func f32(g *vk.G, lo, hi float64) float32 { return float32(g.Float(lo, hi)) }

type av = []interface{}

func call(ctor interface{}, args []reflect.Value) ops.Operator {
	return reflect.ValueOf(ctor).Call(args)[0].Interface().(ops.Operator)
}

func values(ctor interface{}, a av) (res []reflect.Value) {
	t := reflect.TypeOf(ctor)
	for i, x := range a {
		res = append(res, reflect.ValueOf(x).Convert(t.In(i)))
	}
	return
}

// wild draws any value of a type: what a job may hold, not what makes sense
func wild(g *vk.G, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t {
	case reflect.TypeOf((*pre.OpDebayer)(nil)):
		if g.Bool() {
			v.Set(reflect.ValueOf(pre.NewOpDebayer(wildString(g), wildString(g))))
		}
		return v
	case reflect.TypeOf((*pre.OpStarDetect)(nil)):
		return wildOp(g, "starDetect", depth)
	case reflect.TypeOf((*ops.OpSequence)(nil)):
		return reflect.ValueOf(wildSeq(g, depth-1))
	}
	switch t.Kind() {
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(wildFloat(g)))
	case reflect.Int, reflect.Int32, reflect.Int64:
		n := vk.OneOf(g, int64(g.Int(0, 9)), -int64(g.Int(0, 9)), int64(int32(g.U32())), math.MaxInt32, math.MinInt32)
		if t.Kind() == reflect.Int && g.Chance(1, 5) {
			n = int64(g.U64())
		}
		v.SetInt(n)
	case reflect.String:
		v.SetString(wildString(g))
	case reflect.Slice:
		for n := g.Size(0, 4); n > 0; n-- {
			v.Set(reflect.Append(v, wild(g, t.Elem(), depth)))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(wild(g, t.Field(i).Type, depth))
		}
	default:
		panic("no generator for " + t.String())
	}
	return v
}

func wildFloat(g *vk.G) float32 {
	switch g.Int(0, 5) {
	case 0:
		return float32(g.Int(0, 10))
	case 1:
		return vk.OneOf(g, float32(math.MaxFloat32), -math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Copysign(0, -1)), 1e21, 1e-7, 1<<24+2)
	case 2:
		return float32(g.Float(-100, 100))
	case 3:
		for {
			f := math.Float32frombits(g.U32())
			if !math.IsNaN(float64(f)) && !math.IsInf(float64(f), 0) {
				return f
			}
		}
	}
	return float32(g.Unit())
}

func wildString(g *vk.G) string {
	var b strings.Builder
	for n := g.Size(0, 8); n > 0; n-- {
		b.WriteString(vk.OneOf(g, "a", "%d", "%04d", "/", "..", "*", "?", "[a-z]", `\`, `"`, "<", ">", "&", "\n", "\x00", "\u2028", "é", "星", "😀", " ", "%", "{", "]", ".fits", "%auto", "null"))
	}
	return b.String()
}

func wildOp(g *vk.G, name string, depth int) reflect.Value {
	for _, k := range kinds {
		if k.name == name {
			if k.ctor == nil {
				return reflect.ValueOf(wildSeq(g, depth-1))
			}
			t := reflect.TypeOf(k.ctor)
			var args []reflect.Value
			for i := 0; i < t.NumIn(); i++ {
				args = append(args, wild(g, t.In(i), depth))
			}
			return reflect.ValueOf(call(k.ctor, args))
		}
	}
	panic(name)
}

func wildSeq(g *vk.G, depth int) *ops.OpSequence {
	s := ops.NewOpSequence()
	for n := g.Int(vk.OneOf(g, 0, 1, 2), 6); n > 0; n-- {
		k := kinds[g.Int(0, len(kinds)-1)]
		if depth <= 0 && (k.name == "seq" || k.name == "stackBatches") {
			continue
		}
		s.Append(wildOp(g, k.name, depth).Interface().(ops.Operator))
	}
	return s
}

func size(op ops.Operator) (n, depth int) {
	n = 1
	var steps []ops.Operator
	switch o := op.(type) {
	case *ops.OpSequence:
		if o == nil {
			return 0, 0
		}
		steps = o.Steps
	case *stack.OpStackBatches:
		steps = []ops.Operator{o.PerBatch}
	}
	for _, s := range steps {
		a, b := size(s)
		n += a
		if b+1 > depth {
			depth = b + 1
		}
	}
	return
}

// differs reports the first difference of exported parameters
func differs(a, b reflect.Value, path string) string {
	if a.Kind() != b.Kind() {
		return fmt.Sprintf("%s: %v vs %v", path, a.Kind(), b.Kind())
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: only one is missing", path)
			}
			return ""
		}
		if a.Elem().Type() != b.Elem().Type() {
			return fmt.Sprintf("%s: %v became %v", path, a.Elem().Type(), b.Elem().Type())
		}
		return differs(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || f.Type.Kind() == reflect.Func || f.Name == "StepsRaw" {
				continue
			}
			if d := differs(a.Field(i), b.Field(i), path+"."+f.Name); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d became %d entries", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := differs(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %g became %g", path, a.Float(), b.Float())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d became %d", path, a.Int(), b.Int())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q became %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v became %v", path, a.Bool(), b.Bool())
		}
	}
	return ""
}

func marshal(t *vk.T, op interface{}) []byte {
	b, err := json.Marshal(op)
	if err != nil {
		t.Fail("serialising fails: %v", err)
	}
	return b
}

func tree(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		panic(err)
	}
	return x
}

// load parses the JSON of a single step the way a job file would
func load(b []byte) (ops.Operator, error) {
	var seq ops.OpSequence
	if err := json.Unmarshal([]byte(`{"type":"seq","steps":[`+string(b)+`]}`), &seq); err != nil {
		return nil, err
	}
	if len(seq.Steps) != 1 {
		return nil, fmt.Errorf("%d steps", len(seq.Steps))
	}
	return seq.Steps[0], nil
}

// ---- running steps ----

type world struct {
	in    [][]float32 // mono frames
	w, h  int
	lum   []float32
	color []float32
	stars []star.Star
	hfr   float32
}

func newWorld(g *vk.G, n int) *world {
	e := &world{w: g.Int(24, 56), h: g.Int(24, 48)}
	s := g.Stream()
	type st struct{ x, y, a float64 }
	var ss []st
	for i := s.Int(4, 14); i > 0; i-- {
		ss = append(ss, st{s.Float(4, float64(e.w-5)), s.Float(4, float64(e.h-5)), s.Float(0.2, 0.9)})
	}
	sc := vk.OneOf(g, 1.0, 1.0, 1000.0)
	render := func(dx, dy, gain float64) []float32 {
		d := make([]float32, e.w*e.h)
		for y := 0; y < e.h; y++ {
			for x := 0; x < e.w; x++ {
				v := 0.05 + 0.003*s.Norm() + 0.0005*float64(x)
				for _, p := range ss {
					r2 := (float64(x)-p.x-dx)*(float64(x)-p.x-dx) + (float64(y)-p.y-dy)*(float64(y)-p.y-dy)
					if r2 < 40 {
						v += p.a * math.Exp(-r2/4.5)
					}
				}
				if s.Int(0, 400) == 0 {
					v = s.Unit()
				}
				d[y*e.w+x] = float32(math.Max(0.001, math.Min(1, gain*v)) * sc)
			}
		}
		return d
	}
	for i := 0; i < n; i++ {
		e.in = append(e.in, render(float64(s.Int(-2, 2)), float64(s.Int(-2, 2)), s.Float(0.7, 1)))
	}
	sc = 1
	e.lum = render(0, 0, 1)
	for c := 0; c < 3; c++ {
		e.color = append(e.color, render(0, 0, s.Float(0.6, 1))...)
	}
	for i := 0; i < e.w*e.h; i++ { // stars as found in the reference
		e.lum[i] *= 1
	}
	for _, p := range ss {
		e.stars = append(e.stars, star.Star{X: float32(p.x), Y: float32(p.y), Index: int32(p.x+0.5) + int32(e.w)*int32(p.y+0.5), Value: float32(p.a), Mass: float32(p.a * 14), HFR: 1.5})
	}
	sort.Slice(e.stars, func(i, j int) bool { return e.stars[i].Mass > e.stars[j].Mass })
	e.hfr = 1.5
	return e
}

func (e *world) frames(kind int) (res []*fits.Image) {
	mk := func(d []float32, nax ...int32) *fits.Image {
		f := fits.NewImageFromNaxisn(nax, append([]float32{}, d...))
		f.Stars = append([]star.Star{}, e.stars...)
		f.HFR, f.Exposure = e.hfr, 30
		f.ID = len(res)
		f.MedianDiffStats = stats.NewStats(append([]float32{}, d...), nax[0])
		return f
	}
	w, h := int32(e.w), int32(e.h)
	switch kind {
	case mono:
		for _, d := range e.in {
			res = append(res, mk(d, w, h))
		}
	case chans:
		for i := 0; i < 3+len(e.in)%2; i++ {
			res = append(res, mk(e.in[i%len(e.in)], w, h))
		}
	case color:
		res = append(res, mk(e.color, w, h, 3))
	case huesl:
		d := append([]float32{}, e.color...)
		n := e.w * e.h
		for i := 0; i < n; i++ {
			d[i] *= 359
		}
		res = append(res, mk(d, w, h, 3))
	}
	return
}

// run executes an operator on fresh copies of the world in a directory of its own, and returns all it did.
func (e *world) run(t *vk.T, op ops.Operator, kind int) string {
	dir, err := os.MkdirTemp(t.Dir, "r")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	w, h := int32(e.w), int32(e.h)
	for i := 0; i < 2; i++ {
		f := fits.NewImageFromNaxisn([]int32{w, h}, append([]float32{}, e.in[i%len(e.in)]...))
		if err := f.WriteFile(fmt.Sprintf("in%d.fits", i)); err != nil {
			panic(err)
		}
	}
	c := ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = 1
	stats.LSEstimator = stats.LSEMeanStdDev
	c.LumFrame = fits.NewImageFromNaxisn([]int32{w, h}, append([]float32{}, e.lum...))
	if op.GetType() != "selectRef" && op.GetType() != "seq" {
		c.AlignNaxisn, c.AlignStars, c.AlignHFR = []int32{w, h}, e.stars, e.hfr
		c.MatchHisto = stats.NewStats(append([]float32{}, e.in[len(e.in)-1]...), w)
	}
	var ins []ops.Promise
	for _, f := range e.frames(kind) {
		f := f
		ins = append(ins, func() (*fits.Image, error) { return f, nil })
	}
	var out strings.Builder
	ps, err := op.MakePromises(ins, c)
	if err != nil {
		return "refused: " + err.Error()
	}
	fs, err := ops.MaterializeAll(ps, 1, false)
	if err != nil {
		fmt.Fprintf(&out, "error: %v\n", err)
	}
	sum := func(d []float32) uint64 {
		hash := fnv.New64a()
		for _, v := range d {
			b := math.Float32bits(v)
			hash.Write([]byte{byte(b), byte(b >> 8), byte(b >> 16), byte(b >> 24)})
		}
		return hash.Sum64()
	}
	for _, f := range fs {
		fmt.Fprintf(&out, "frame %d %v %g stars %d HFR %g data %x\n", f.ID, f.Naxisn, f.Exposure, len(f.Stars), f.HFR, sum(f.Data))
	}
	if op.GetType() == "selectRef" {
		fmt.Fprintf(&out, "align %v %d %g histo %v", c.AlignNaxisn, len(c.AlignStars), c.AlignHFR, c.MatchHisto != nil)
		if c.MatchHisto != nil {
			fmt.Fprintf(&out, " %g", c.MatchHisto.Mean())
		}
	}
	var names []string
	filepath.Walk(".", func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			names = append(names, p)
		}
		return nil
	})
	sort.Strings(names)
	for _, n := range names {
		b, _ := os.ReadFile(n)
		if strings.HasSuffix(n, ".html") { // the order of rows depends on the schedule
			lines := strings.Split(string(b), "\n")
			sort.Strings(lines)
			b = []byte(strings.Join(lines, "\n"))
		}
		hash := fnv.New64a()
		hash.Write(b)
		fmt.Fprintf(&out, "file %s %d %x\n", n, len(b), hash.Sum64())
	}
	return out.String()
}

func compareRuns(t *vk.T, e *world, op ops.Operator, js []byte, kind int) (string, ops.Operator) {
	a, err := load(js)
	if err != nil {
		t.Fail("saved job %s cannot be loaded: %v", js, err)
	}
	b, err := load(js)
	if err != nil {
		t.Fail("%v", err)
	}
	ra, rb := e.run(t, a, kind), e.run(t, b, kind)
	if ra != rb {
		t.Discard("the job does not give the same result twice")
	}
	ro := e.run(t, op, kind)
	if ro != ra {
		for i := 0; i < 8; i++ { // steps which draw random samples prove nothing
			if again, err := load(js); err == nil && e.run(t, again, kind) != ra {
				t.Discard("the job does not give the same result twice")
			}
		}
		t.Fail("job %s\ngives before saving:\n%s\nand after loading:\n%s", js, ro, ra)
	}
	return ro, a
}

func plain(g *vk.G, k kind) ops.Operator { return call(k.ctor, values(k.ctor, k.args(g))) }

var monoSteps, wantDefaults = func() (m []kind, d map[string]interface{}) {
	d = map[string]interface{}{}
	for _, k := range kinds {
		if k.input == mono && k.ctor != nil && k.name != "stack" && k.name != "stackBatches" {
			m = append(m, k)
		}
		x := tree([]byte(k.def)).(map[string]interface{})
		x["type"] = k.name
		d[k.name] = x
	}
	return
}()

// Steps which may turn pixels outside their domain into NaN, which other steps cannot cope with. They end a job.
var lastOnly = map[string]bool{"gamma": true, "gammaPP": true, "midtones": true, "stretch": true, "scaleBlack": true, "calibrate": true, "matchHist": true, "normRange": true}

func pipeline(g *vk.G, depth, max int, over *bool) *ops.OpSequence {
	s := ops.NewOpSequence()
	for n := g.Int(vk.OneOf(g, 0, 1, 2, 2, 3), max); n > 0 && !*over; n-- {
		if depth > 0 && g.Chance(1, 6) {
			s.Append(pipeline(g, depth-1, 3, over))
			continue
		}
		if depth > 1 && g.Chance(1, 10) {
			inner := pipeline(g, 0, 3, over)
			inner.Append(stack.NewOpStack(stack.StackMode(g.Int(0, 6)), stack.StackWeighting(g.Int(0, 1)), f32(g, 1, 4), f32(g, 1, 4)))
			s.Append(stack.NewOpStackBatches(inner))
			continue
		}
		op := plain(g, monoSteps[g.Int(0, len(monoSteps)-1)])
		if a, ok := op.(*post.OpAlign); ok && a.OobMode == post.OOBModeNaN { // other steps cannot cope with NaN
			a.OobMode = post.OOBModeOwnLocation
		}
		if lastOnly[op.GetType()] {
			if n > 1 && g.Chance(3, 4) {
				continue
			}
			*over = true
		}
		if d, ok := op.(*pre.OpStarDetect); ok {
			d.BadPixelSigma = 0 // else it draws random samples
		}
		s.Append(op)
	}
	return s
}

// ---- parameters left out ----

// norm drops differences which mean nothing: numbers written differently, null and empty lists
func norm(x interface{}) interface{} {
	switch v := x.(type) {
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, e := range v {
			r[k] = norm(e)
		}
		return r
	case []interface{}:
		if len(v) == 0 {
			return nil
		}
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = norm(e)
		}
		return r
	case json.Number:
		var f float64
		if err := json.Unmarshal([]byte(v), &f); err == nil {
			if i, err := v.Int64(); err == nil {
				return i
			}
			return float32(f)
		}
	}
	return x
}

// overlay gives the parameters that a step must have if only the given ones are present
func overlay(def, given interface{}) interface{} {
	d, ok := def.(map[string]interface{})
	gv, ok2 := given.(map[string]interface{})
	if !ok || !ok2 {
		return given
	}
	r := map[string]interface{}{}
	for k, v := range d {
		r[k] = v
	}
	for k, v := range gv {
		if v == nil {
			continue
		}
		base := r[k]
		if k == "debayer" && base == nil {
			base = map[string]interface{}{"type": "debayer", "channel": "", "colorFilterArray": "RGGB"}
		}
		if base != nil {
			r[k] = overlay(base, v)
		} else {
			r[k] = v
		}
	}
	return r
}

// thin leaves out random parameters
func thin(g *vk.G, x interface{}, removed *int) interface{} {
	m, ok := x.(map[string]interface{})
	if !ok {
		return x
	}
	r := map[string]interface{}{}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k != "type" && g.Chance(2, 5) {
			*removed++
			continue
		}
		r[k] = thin(g, m[k], removed)
	}
	return r
}

// ---- corruption ----

type spot struct {
	set  func(v interface{})
	cur  interface{}
	path string
}

func spots(x interface{}, path string) (res []spot) {
	switch v := x.(type) {
	case map[string]interface{}:
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			res = append(res, spot{func(n interface{}) { v[k] = n }, v[k], path + "." + k})
			res = append(res, spots(v[k], path+"."+k)...)
		}
	case []interface{}:
		for i := range v {
			i := i
			res = append(res, spot{func(n interface{}) { v[i] = n }, v[i], fmt.Sprintf("%s[%d]", path, i)})
			res = append(res, spots(v[i], fmt.Sprintf("%s[%d]", path, i))...)
		}
	}
	return
}

func mutate(g *vk.G, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := g.Size(1, 4); n > 0; n-- {
		if len(b) == 0 {
			b = []byte("{}")
		}
		i := g.Int(0, len(b)-1)
		switch g.Int(0, 6) {
		case 0:
			b[i] ^= 1 << uint(g.Int(0, 7))
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			tok := vk.OneOf(g, "null", "true", "{", "}", "[", "]", ",", ":", `"`, "1e999", "-", "0", `{"type":"seq","steps":[]}`, `\`, "\x00", "\xff", "9223372036854775808", `"type":`, `"steps":`)
			b = append(b[:i:i], append([]byte(tok), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := g.Int(0, len(b)-1)
			if i > j {
				i, j = j, i
			}
			b = append(b[:i:i], b[j:]...)
		case 5:
			j := g.Int(0, len(b)-1)
			if i > j {
				i, j = j, i
			}
			if j-i < 300 {
				b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
			}
		case 6:
			b[i] = byte(vk.OneOf(g, '{', '}', '[', ']', '"', ',', ':', '0', 'n', ' '))
		}
	}
	return b
}

func main() {
	vk.Main("O01", []string{
		"file names and other strings in a job are valid UTF-8 and numbers are finite, since JSON cannot express anything else",
		"same output is judged on one thread and with the mean and standard deviation as location and scale estimators, which do not depend on random samples",
		"only steps that the program registers for job files are part of a job",
	},
		&vk.Law{Name: "round-trip", Quick: 4000, Thorough: 400000, Timeout: 60 * time.Second,
			Rule: "a random tree of steps of all 45 kinds, nested sequences and batches included, built with arbitrary parameters (any finite float, any integer, strings with quotes, control and non-ASCII characters), is saved and loaded: same steps, order and parameters, and the same JSON again, compact or indented; non-trivial if at least two steps",
			Run: func(g *vk.G, t *vk.T) {
				s := wildSeq(g, 3)
				n, depth := size(s)
				t.Desc("%d steps, depth %d", n, depth)
				t.Class("depth %d", depth)
				if n < 3 {
					t.Trivial()
				}
				js := marshal(t, s)
				text := js
				if g.Bool() {
					var err error
					if text, err = json.MarshalIndent(s, "", "  "); err != nil {
						t.Fail("%v", err)
					}
				}
				got := ops.NewOpSequence()
				switch g.Int(0, 2) {
				case 0:
					got = &ops.OpSequence{} // as for a job file
				case 1: // over an existing job
					got = ops.NewOpSequence(ops.NewOpSaveDefault())
				}
				if err := json.Unmarshal(text, got); err != nil {
					t.Fail("cannot load saved job %s: %v", text, err)
				}
				if d := differs(reflect.ValueOf(s), reflect.ValueOf(got), "job"); d != "" {
					t.Fail("%s in %s", d, text)
				}
				again := marshal(t, got)
				if !bytes.Equal(js, again) && !reflect.DeepEqual(norm(tree(js)), norm(tree(again))) {
					t.Fail("saved as %s, after loading as %s", js, again)
				}
			}},
		&vk.Law{Name: "same-output-step", Quick: 700, Thorough: 40000, Timeout: 60 * time.Second,
			Rule: "one step of any kind with sensible parameters is run on synthetic star frames, colour or hue images before saving and after loading; same frames bit by bit, same files, same errors; non-trivial if the step with default parameters does something else",
			Run: func(g *vk.G, t *vk.T) {
				e := newWorld(g, g.Int(1, 4))
				k := kinds[g.Int(0, len(kinds)-2)]
				op := plain(g, k)
				js := marshal(t, op)
				t.Desc("%s on %d frames of %dx%d", js, len(e.in), e.w, e.h)
				t.Class("%s", k.name)
				out, _ := compareRuns(t, e, op, js, k.input)
				def := ops.GetOperatorFactory(k.name)()
				if k.name == "exportStats" || k.name == "stackBatches" || out == e.run(t, def, k.input) {
					t.Trivial()
				}
			}},
		&vk.Law{Name: "same-output-job", Quick: 250, Thorough: 20000, Timeout: 120 * time.Second,
			Rule: "a job of up to five steps on two to four star frames, with nested sequences and batches, is run before saving and after loading: same frames bit by bit, same files, same errors; non-trivial if it has at least two steps and does not fail outright",
			Run: func(g *vk.G, t *vk.T) {
				e := newWorld(g, g.Int(2, 4))
				op := pipeline(g, 2, 5, new(bool))
				n, depth := size(op)
				js := marshal(t, op)
				t.Desc("%s", js)
				t.Class("depth %d", depth)
				out, _ := compareRuns(t, e, op, js, mono)
				if n < 3 || strings.HasPrefix(out, "refused") {
					t.Trivial()
				}
				if strings.HasPrefix(out, "error") {
					t.Class("reports an error")
				}
			}},
		&vk.Law{Name: "defaults", Quick: 3000, Thorough: 100000, Timeout: 60 * time.Second,
			Rule: "a step of any kind with arbitrary parameters from which a random selection, nested ones included, is left out, set to null or accompanied by unknown ones; after loading it has the given parameters and the documented defaults (a table kept in the check) for those left out; non-trivial if some are left out",
			Run: func(g *vk.G, t *vk.T) {
				k := kinds[g.Int(0, len(kinds)-1)]
				if k.name == "seq" || k.name == "stackBatches" {
					k = kinds[0]
				}
				full := tree(marshal(t, wildOp(g, k.name, 1).Interface()))
				removed := 0
				given := thin(g, full, &removed)
				if g.Chance(1, 4) {
					removed = 1
					given = map[string]interface{}{"type": k.name}
				}
				m := given.(map[string]interface{})
				if g.Chance(1, 4) {
					for key := range wantDefaults[k.name].(map[string]interface{}) {
						if _, ok := m[key]; !ok {
							if _, isObj := wantDefaults[k.name].(map[string]interface{})[key].(map[string]interface{}); !isObj {
								m[key] = nil
							}
						}
					}
				}
				want := norm(overlay(wantDefaults[k.name], given))
				if g.Chance(1, 5) {
					m["someFutureParameter"] = vk.OneOf[interface{}](g, 1, "x", nil, []interface{}{1}, map[string]interface{}{"type": "x"})
				}
				js, _ := json.Marshal(given)
				t.Desc("%s", js)
				t.Class("%s", k.name)
				if removed == 0 {
					t.Trivial()
				}
				op, err := load(js)
				if err != nil {
					t.Fail("cannot load %s: %v", js, err)
				}
				got := norm(tree(marshal(t, op)))
				for key, v := range want.(map[string]interface{}) {
					if gv := got.(map[string]interface{})[key]; !reflect.DeepEqual(v, gv) {
						t.Fail("%s loads with %s=%v instead of %v", js, key, gv, v)
					}
				}
			}},
		&vk.Law{Name: "defaults-output", Quick: 250, Thorough: 10000, Timeout: 60 * time.Second,
			Rule: "a step of any kind loaded from JSON that gives only its type must give the output of the same step with all default parameters spelled out; non-trivial always",
			Run: func(g *vk.G, t *vk.T) {
				e := newWorld(g, g.Int(1, 4))
				k := kinds[g.Int(0, len(kinds)-2)]
				t.Desc("%s", k.name)
				t.Class("%s", k.name)
				full, _ := json.Marshal(wantDefaults[k.name])
				a, err := load(full)
				if err != nil {
					t.Fail("%s: %v", full, err)
				}
				compareRuns(t, e, a, []byte(fmt.Sprintf(`{"type":%q}`, k.name)), k.input)
			}},
		&vk.Law{Name: "corrupt-bytes", Quick: 6000, Thorough: 600000, Timeout: 60 * time.Second,
			Rule: "one to four byte-level corruptions (bit flips, deletions, insertions of JSON tokens, truncations, duplications) of a saved job; malformed JSON is refused, anything accepted can be saved and loaded again with the same meaning, nothing crashes; non-trivial if the text changed",
			Run: func(g *vk.G, t *vk.T) {
				js := marshal(t, wildSeq(g, 2))
				bad := mutate(g, js)
				t.Desc("%q", bad)
				if bytes.Equal(js, bad) {
					t.Trivial()
				}
				s := &ops.OpSequence{}
				err := json.Unmarshal(bad, s)
				if !json.Valid(bad) {
					t.Class("malformed")
					if err == nil {
						t.Fail("malformed job %q is accepted", bad)
					}
					return
				}
				if err != nil {
					t.Class("valid JSON, refused")
					return
				}
				t.Class("accepted")
				again := marshal(t, s)
				s2 := &ops.OpSequence{}
				if err := json.Unmarshal(again, s2); err != nil {
					t.Fail("job %q is accepted, but saved as %q, which is refused: %v", bad, again, err)
				}
				if d := differs(reflect.ValueOf(s), reflect.ValueOf(s2), "job"); d != "" {
					t.Fail("%s after saving and loading %q", d, bad)
				}
			}},
		&vk.Law{Name: "wrong-types", Quick: 4000, Thorough: 200000, Timeout: 60 * time.Second,
			Rule: "one value anywhere in a saved job is replaced with one of another JSON type, out of range or, for types of steps, by an unknown name; loading is refused with an error; non-trivial always",
			Run: func(g *vk.G, t *vk.T) {
				s := wildSeq(g, 2)
				if len(s.Steps) == 0 {
					s.Append(wildOp(g, kinds[g.Int(0, len(kinds)-1)].name, 1).Interface().(ops.Operator))
				}
				root := tree(marshal(t, s))
				sp := spots(root, "job")
				var use []spot
				for _, p := range sp {
					if p.cur != nil {
						use = append(use, p)
					}
				}
				p := use[g.Int(0, len(use)-1)]
				var repl []interface{}
				switch p.cur.(type) {
				case json.Number:
					repl = av{"3", true, av{}, map[string]interface{}{}, json.Number("1e999")}
				case string:
					repl = av{json.Number("3"), false, av{}, map[string]interface{}{}}
					if strings.HasSuffix(p.path, "].type") || p.path == "job.type" || strings.HasSuffix(p.path, ".perBatch.type") {
						repl = append(repl, "noSuchStep", "Seq ", "starDetect2")
						if strings.HasSuffix(p.path, "].type") {
							repl = append(repl, "", nil)
						}
					}
				case []interface{}:
					repl = av{json.Number("3"), "x", true, map[string]interface{}{"a": json.Number("1")}}
				case map[string]interface{}:
					repl = av{json.Number("3"), "x", true, av{json.Number("1")}}
					if strings.HasSuffix(p.path, "]") {
						repl = append(repl, nil)
					}
				}
				r := repl[g.Int(0, len(repl)-1)]
				p.set(r)
				bad, _ := json.Marshal(root)
				t.Desc("%s := %v in %s", p.path, r, bad)
				t.Class("%T to %T", p.cur, r)
				if err := json.Unmarshal(bad, &ops.OpSequence{}); err == nil {
					t.Fail("%s replaced with %v is accepted in %s", p.path, r, bad)
				}
			}},
		&vk.Law{Name: "null", Quick: 250, Thorough: 10000, Timeout: 60 * time.Second,
			Rule: "one parameter of a step of any kind, at any depth, is null; if the step loads, running it gives a result or an error without crashing, and the same after saving and loading once more; non-trivial if a parameter is null",
			Run: func(g *vk.G, t *vk.T) {
				e := newWorld(g, g.Int(1, 3))
				k := kinds[g.Int(0, len(kinds)-2)]
				root := tree(marshal(t, plain(g, k)))
				sp := spots(root, "step")
				p := sp[g.Int(0, len(sp)-1)]
				if p.path == "step.type" && len(sp) > 1 {
					p = sp[g.Int(0, len(sp)-2)]
				}
				p.set(nil)
				js, _ := json.Marshal(root)
				t.Desc("%s", js)
				t.Class("%s", k.name)
				op, err := load(js)
				if err != nil {
					t.Class("refused")
					return
				}
				compareRuns(t, e, op, marshal(t, op), k.input)
			}},
	)
}
