// O03: jobs cannot read files outside the working directory, and load every file matching a pattern once.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

const (
	size   = 16
	secret = 100000 // markers of files outside the working directory start here
)

// tree is a directory tree with a working directory somewhere in it. Each file shows its marker in its pixels.
type tree struct {
	root, work string         // absolute
	files      map[string]int // path relative to the working directory -> marker
	outside    []string       // absolute paths of files outside
	dirs       []string       // relative to the working directory
	back       string
	names      []string
}

var fileNames = []string{"a1.fits", "a2.fits", "a10.fits", "b1.fits", "b2.fit", "x..fits", "...fits", "a..b.fits", "..a.fits", ".h.fits", "c[1].fits", "w *.fits", "é1.fits", "UP.FITS", "ab.fits", "a-b.fits", "a?b.fits", "z\\1.fits"}
var dirNames = []string{"a", "ab", "sub", "n1", "..d", "d..", "[x]", "a1.fits.d"}

func write(p string, marker int) {
	d := make([]float32, size*size)
	for i := range d {
		d[i] = float32(marker) + float32(i%3)*0.25
	}
	if err := os.WriteFile(p, fx.Float32Image([]int{size, size}, d), 0644); err != nil {
		panic(err)
	}
}

func mkdir(p string) {
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
}

func build(g *vk.G, t *vk.T) *tree {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	root, err := os.MkdirTemp(t.Dir, "t")
	if err != nil {
		panic(err)
	}
	root, err = filepath.EvalSymlinks(root)
	if err != nil {
		panic(err)
	}
	w := &tree{root: root, files: map[string]int{}, back: old}
	w.work = filepath.Join(root, vk.OneOf(g, "work", "a", "sub", "p/work"))
	mkdir(w.work)
	w.dirs = []string{""}
	for k := g.Size(0, 4); k > 0; k-- {
		d := path.Join(vk.OneOf(g, w.dirs...), vk.OneOf(g, dirNames...))
		if strings.Count(d, "/") > 2 {
			continue
		}
		dup := false
		for _, e := range w.dirs {
			dup = dup || e == d
		}
		if dup {
			continue
		}
		mkdir(filepath.Join(w.work, d))
		w.dirs = append(w.dirs, d)
	}
	n := g.Int(3, 16)
	if g.Chance(1, 6) {
		n = g.Size(0, 3)
	}
	for i := 0; i < n; i++ {
		p := path.Join(vk.OneOf(g, w.dirs...), vk.OneOf(g, fileNames...))
		if _, ok := w.files[p]; ok {
			continue
		}
		w.files[p] = 10 + i
		w.names = append(w.names, p)
		write(filepath.Join(w.work, p), 10+i)
	}
	// files of like names next to, above and far from the working directory
	for _, d := range []string{root, filepath.Dir(w.work), w.work + "2", filepath.Join(root, "sub2"), w.work + "..", filepath.Join(root, "..a")} {
		mkdir(d)
		for _, n := range []string{"a1.fits", "secret.fits", vk.OneOf(g, fileNames...)} {
			p := filepath.Join(d, n)
			if _, err := os.Lstat(p); err == nil {
				continue
			}
			write(p, secret+len(w.outside))
			w.outside = append(w.outside, p)
		}
	}
	if err := os.Chdir(w.work); err != nil {
		panic(err)
	}
	return w
}

func (w *tree) close() {
	os.Chdir(w.back)
	os.RemoveAll(w.root)
}

// marker returns the marker of an image, or -1 if it is none of the tree's images.
func marker(data []float32) int {
	if len(data) != size*size {
		return -1
	}
	m := int(data[0])
	for i, v := range data {
		if v != float32(m)+float32(i%3)*0.25 {
			return -1
		}
	}
	return m
}

// kinds of names
const (
	plain  = iota // stays below the working directory
	within        // uses ".." but stays below
	above         // absolute, or leads above
)

func classify(name string) int {
	if strings.HasPrefix(name, "/") {
		return above
	}
	depth, up := 0, false
	for _, e := range strings.Split(name, "/") {
		switch e {
		case "", ".":
		case "..":
			up = true
			depth--
			if depth < 0 {
				return above
			}
		default:
			depth++
		}
	}
	if up {
		return within
	}
	return plain
}

// draw returns a file name, most often leading to some file.
func (w *tree) draw(g *vk.G) string {
	var p string
	switch k := g.Pick(6, 3, 2, 2, 3); {
	case k == 0 && len(w.names) > 0:
		p = vk.OneOf(g, w.names...)
	case k == 1: // absolute
		p = vk.OneOf(g, w.outside...)
		if len(w.names) > 0 && g.Bool() {
			p = filepath.Join(w.work, vk.OneOf(g, w.names...))
		}
		if g.Chance(1, 4) {
			p = "/" + p
		}
		return p
	case k == 2: // above and back
		if len(w.names) > 0 {
			p = "../" + filepath.Base(w.work) + "/" + vk.OneOf(g, w.names...)
		}
	default:
		rel, err := filepath.Rel(w.work, vk.OneOf(g, w.outside...))
		if err != nil {
			panic(err)
		}
		p = rel
		if k == 3 {
			p = path.Join(vk.OneOf(g, w.dirs...), vk.OneOf(g, fileNames...))
		}
	}
	// disguise
	for k := g.Pick(4, 2, 1); k > 0; k-- {
		el := strings.Split(p, "/")
		i := g.Int(0, len(el)-1)
		ins := vk.OneOf(g, ".", "", "sub/..", "a/..", "./.", "a/../sub/..", "sub/../..", "..", "...")
		if i == 0 && ins == "" {
			continue
		}
		if i == 0 && len(w.dirs) > 1 && g.Bool() { // through an existing directory
			d := vk.OneOf(g, w.dirs[1:]...)
			ins = d + strings.Repeat("/..", strings.Count(d, "/")+1)
		}
		p = strings.Join(append(append(append([]string{}, el[:i]...), ins), el[i:]...), "/")
	}
	if g.Chance(1, 20) {
		p = vk.OneOf(g, "", ".", "..", "/", "../", "~/a1.fits", "file:///etc/hosts", p+"\x00", p+"/", p+"/..", strings.ReplaceAll(p, "/", "\\"))
	}
	return p
}

// expected marker of a plain or within name, 0 if there is no such file
func (w *tree) lookup(name string) int {
	if strings.ContainsRune(name, 0) || name == "" || strings.HasSuffix(name, "/") {
		return 0
	}
	return w.files[path.Clean(name)]
}

func context() *ops.Context {
	return ops.NewContext(io.Discard, 1000, stats.LSEMeanStdDev)
}

// viaJSON saves an operator as a job description and loads it again.
func viaJSON(t *vk.T, op ops.Operator) ops.Operator {
	b, err := json.Marshal(ops.NewOpSequence(op))
	if err != nil {
		t.Fail("cannot save: %v", err)
	}
	var seq ops.OpSequence
	if err := json.Unmarshal(b, &seq); err != nil {
		t.Fail("cannot load job %s: %v", b, err)
	}
	return &seq
}

func names(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	w := build(g, t)
	defer w.close()
	name := w.draw(g)
	kind := classify(name)
	want := w.lookup(name)
	how := g.Int(0, 5)
	job := g.Bool()
	via := []string{"load", "dark", "flat", "alignment reference", "histogram reference", "loadMany"}[how]
	t.Desc("%s of %q in %s, files %q, job %v", via, name, strings.TrimPrefix(w.work, w.root), w.names, job)
	if name == "" && how >= 1 && how <= 4 {
		t.Discard("no name")
	}
	if _, err := fmt.Sscan(name, new(int)); err == nil && (how == 3 || how == 4) {
		t.Discard("number")
	}
	c := context()
	var op ops.Operator
	light := func() (*fits.Image, error) {
		f := fits.NewImageFromNaxisn([]int32{size, size}, nil)
		for i := range f.Data {
			f.Data[i] = 5
		}
		return f, nil
	}
	ins := []ops.Promise{light}
	sd := func() *pre.OpStarDetect { return pre.NewOpStarDetect(4, 10, 0, 1.4, "") }
	switch how {
	case 0:
		op, ins = ops.NewOpLoad(7, name), nil
	case 1:
		op = pre.NewOpCalibrate(name, "")
	case 2:
		op = pre.NewOpCalibrate("", name)
	case 3:
		op = ref.NewOpSelectReference(ref.SRAlign, name, sd())
	case 4:
		op = ref.NewOpSelectReference(ref.SRHisto, name, sd())
	case 5:
		op, ins = ops.NewOpLoadMany([]string{name}), nil
		if strings.ContainsAny(name, `*?[\`) {
			t.Discard("pattern")
		}
	}
	if job {
		op = viaJSON(t, op)
	}
	var out *fits.Image
	ps, err := op.MakePromises(ins, c)
	if err == nil {
		if len(ps) != 1 {
			t.Fail("%d results", len(ps))
		}
		out, err = ps[0]()
	}
	got := 0
	if err == nil {
		switch how {
		case 0, 5:
			got = marker(out.Data)
			if want := 7 * (5 - how) / 5; out.ID != want {
				t.Fail("image has number %d instead of %d", out.ID, want)
			}
		case 1:
			got = marker(c.DarkFrame.Data)
			if got > 0 && out.Data[0] != 5-float32(got) {
				t.Fail("dark frame %d subtracted from 5 gives %g", got, out.Data[0])
			}
		case 2:
			got = marker(c.FlatFrame.Data)
		case 3:
			if c.AlignNaxisn == nil || c.AlignNaxisn[0] != size {
				t.Fail("no reference frame")
			}
			got = want // anything goes here
			if kind == above {
				got = -1
			}
		case 4:
			if c.MatchHisto == nil {
				t.Fail("no reference frame")
			}
			got = int(c.MatchHisto.Min())
		}
	}
	switch kind {
	case plain:
		t.Class("plain name")
		if want > 0 {
			t.Class("plain name of a file")
			if strings.Contains(name, "..") {
				t.Class("plain name with dots")
			}
		}
		if want > 0 && err != nil {
			t.Fail("cannot load %q: %v", name, err)
		}
		if want == 0 && err == nil {
			t.Fail("no error for missing file %q", name)
		}
	case within:
		t.Class("name staying below")
	case above:
		t.Class("name leading above")
		if err == nil {
			t.Fail("%q leading outside the working directory is accepted", name)
		}
	}
	if err == nil && got != want {
		t.Fail("got file %d instead of %d", got, want)
	}
	if err != nil {
		for _, f := range []*fits.Image{out, c.DarkFrame, c.FlatFrame} {
			if f != nil && marker(f.Data) >= secret {
				t.Fail("file from outside the working directory is read")
			}
		}
		if c.MatchHisto != nil && c.MatchHisto.Min() >= secret {
			t.Fail("file from outside the working directory is read")
		}
	}
}

// ---- patterns ----

type token struct {
	kind byte // 'c' literal, '?' any, '*' any number, '[' class
	r    rune
	lo   []rune
	hi   []rune
	neg  bool
}

type pattern struct {
	text string
	el   [][]token
	abs  bool
	up   bool
	bad  bool
}

func matchTokens(p []token, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0].kind == '*' {
		return matchTokens(p[1:], s) || len(s) > 0 && matchTokens(p, s[1:])
	}
	if len(s) == 0 {
		return false
	}
	switch p[0].kind {
	case 'c':
		if p[0].r != s[0] {
			return false
		}
	case '[':
		in := false
		for i := range p[0].lo {
			in = in || s[0] >= p[0].lo[i] && s[0] <= p[0].hi[i]
		}
		if in == p[0].neg {
			return false
		}
	}
	return matchTokens(p[1:], s[1:])
}

func escape(r rune) string {
	if strings.ContainsRune(`*?[\`, r) {
		return `\` + string(r)
	}
	return string(r)
}

// element turns a name into a pattern matching it, or similar names
func element(g *vk.G, name string) (text string, toks []token) {
	lit := func(s string) {
		for _, r := range s {
			text += escape(r)
			toks = append(toks, token{kind: 'c', r: r})
		}
	}
	star := func() { text += "*"; toks = append(toks, token{kind: '*'}) }
	rs := []rune(name)
	switch g.Pick(2, 3, 5, 3, 1, 1) {
	case 0:
		lit(name)
	case 1:
		star()
	case 2:
		star()
		lit(path.Ext(name))
	case 3:
		i := g.Int(0, len(rs))
		lit(string(rs[:i]))
		star()
		lit(string(rs[i+g.Int(0, len(rs)-i):]))
	case 4, 5:
		for _, r := range rs {
			switch g.Pick(6, 1, 1) {
			case 0:
				lit(string(r))
			case 1:
				text += "?"
				toks = append(toks, token{kind: '?'})
			case 2:
				tk := token{kind: '[', neg: g.Chance(1, 4)}
				text += "["
				if tk.neg {
					text += "^"
				}
				cls := func(r rune) string {
					if strings.ContainsRune(`]-^\[`, r) {
						return `\` + string(r)
					}
					return string(r)
				}
				for k := g.Int(1, 3); k > 0; k-- {
					lo := r
					if tk.neg || g.Chance(1, 3) {
						lo = rune(g.Int('a', 'z'))
					}
					hi := lo
					if g.Bool() {
						hi += rune(g.Int(1, 3))
						if hi == '/' { // would split the path
							hi++
						}
						text += cls(lo) + "-" + cls(hi)
					} else {
						text += cls(lo)
					}
					tk.lo, tk.hi = append(tk.lo, lo), append(tk.hi, hi)
				}
				text += "]"
				toks = append(toks, tk)
			}
		}
	}
	return
}

func (w *tree) drawPattern(g *vk.G) (p pattern) {
	base := path.Join(vk.OneOf(g, w.dirs...), vk.OneOf(g, fileNames...))
	if len(w.names) > 0 && g.Chance(4, 5) {
		base = vk.OneOf(g, w.names...)
	}
	var texts []string
	for _, e := range strings.Split(base, "/") {
		text, toks := element(g, e)
		texts = append(texts, text)
		p.el = append(p.el, toks)
	}
	p.text = strings.Join(texts, "/")
	switch g.Pick(24, 2, 2, 2, 2, 1, 1) {
	case 1:
		p.text = "./" + p.text
	case 2:
		p.abs = true
		p.text = vk.OneOf(g, w.work, filepath.Dir(w.work), w.root) + "/" + p.text
	case 3:
		p.up = true
		p.text = vk.OneOf(g, "../", "../*/", "../../*/*/", "../"+filepath.Base(w.work)+"/", "*/../../", "*/../", "../?*/") + p.text
	case 4:
		p.up = true
		i := g.Int(0, len(texts))
		p.text = strings.Join(append(append(append([]string{}, texts[:i]...), ".."), texts[i:]...), "/")
	case 5:
		p.bad = true
		p.text += vk.OneOf(g, "[", "[a", "[]", `\`, "[a-]", "*[")
	case 6:
		i := g.Int(0, len(texts)-1)
		for _, e := range texts[:i] {
			if strings.ContainsAny(e, `*?[\`) {
				return
			}
		}
		if i > 0 {
			texts[i] = vk.OneOf(g, "/", "./") + texts[i]
			p.text = strings.Join(texts, "/")
		}
	}
	return
}

func (p *pattern) matches(name string) bool {
	el := strings.Split(name, "/")
	if len(el) != len(p.el) {
		return false
	}
	for i, e := range el {
		if !matchTokens(p.el[i], []rune(e)) {
			return false
		}
	}
	return true
}

func less(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

func patterns(g *vk.G, t *vk.T) {
	stats.LSEstimator = stats.LSEMeanStdDev
	w := build(g, t)
	defer w.close()
	np := g.Pick(1, 20, 12, 8)
	var ps []pattern
	var texts []string
	var want []int
	bad, up, dirs := false, false, false
	sorted := append([]string{}, w.names...)
	sort.Slice(sorted, func(i, j int) bool { return less(sorted[i], sorted[j]) })
	for i := 0; i < np; i++ {
		p := w.drawPattern(g)
		ps = append(ps, p)
		texts = append(texts, p.text)
		if p.bad {
			bad = true
		}
		up = up || p.up
		if p.bad || p.abs || p.up {
			continue
		}
		for _, n := range sorted {
			if p.matches(n) {
				want = append(want, w.files[n])
			}
		}
		for _, d := range w.dirs {
			dirs = dirs || d != "" && p.matches(d)
		}
	}
	t.Desc("patterns %q in %s, files %q, dirs %q, expected %v", texts, strings.TrimPrefix(w.work, w.root), w.names, w.dirs, want)
	if len(want) < 2 {
		t.Trivial()
	}
	c := context()
	var op ops.Operator = ops.NewOpLoadMany(texts)
	if g.Bool() {
		op = viaJSON(t, op)
	}
	proms, err := op.MakePromises(nil, c)
	if bad {
		t.Class("malformed pattern")
		if err != nil {
			return
		} // or else it just matches nothing
	}
	if err == nil && len(proms) == 0 {
		t.Fail("nothing to load, but no error")
	}
	var got []int
	for i, p := range proms {
		f, e := p()
		if e != nil {
			if !dirs && !up {
				t.Fail("loading file %d: %v", i, e)
			}
			continue
		}
		if f.ID != i {
			t.Fail("file %d is numbered %d", i, f.ID)
		}
		m := marker(f.Data)
		if m >= secret {
			t.Fail("file %s outside the working directory is read", f.FileName)
		}
		if w.files[path.Clean(f.FileName)] != m {
			t.Fail("image is named %s, but has the contents of file number %d", f.FileName, m)
		}
		got = append(got, m)
	}
	if up {
		t.Class("pattern with ..")
		// patterns staying below may be refused; the others must be loaded in any case
		k := 0
		for _, m := range got {
			if k < len(want) && m == want[k] {
				k++
			}
		}
		if k < len(want) {
			t.Fail("loaded %v, expected %v", got, want)
		}
		for _, p := range ps {
			if p.up && strings.HasPrefix(p.text, "../") && np == 1 && err == nil {
				t.Fail("pattern leading outside is accepted")
			}
		}
		return
	}
	if len(want) == 0 {
		t.Class("nothing matches")
		if err == nil && !dirs {
			t.Fail("nothing matches, but no error")
		}
		if len(got) > 0 {
			t.Fail("loaded %v, though nothing matches", got)
		}
		return
	}
	if err != nil {
		t.Fail("unexpected error %v", err)
	}
	if dirs {
		t.Class("directory matches")
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("loaded %v, expected %v", got, want)
	}
	t.Class("files loaded")
}

func main() {
	vk.Main("O03", []string{
		"locations are those of the file names; symbolic links put into the working directory by its owner are not considered",
		"names using .. without leaving the working directory may be refused or loaded",
	},
		&vk.Law{Name: "names", Quick: 3500, Thorough: 300000, Timeout: 60 * time.Second,
			Rule: "a random tree of image files in, next to and above the working directory, each with its own pixel values; a name which is plain, absolute, leads above, leads above and back, or is disguised with ., .. and empty elements, used as load, pattern, dark, flat or reference frame, built directly or read from a job; names leading outside are refused and their contents never turn up, plain names of existing files are loaded with their own contents, missing files are reported; all cases count",
			Run:  names},
		&vk.Law{Name: "patterns", Quick: 3500, Thorough: 300000, Timeout: 60 * time.Second,
			Rule: "0-3 patterns of literals, escapes, ?, * and classes in any path element, some absolute, with .. or malformed, against a separate matcher over the tree: every matching file once in order of names, numbered consecutively with its own contents, none from outside, an error if nothing matches; non-trivial if at least two files match",
			Run:  patterns},
	)
}
