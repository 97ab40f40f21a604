// A02: jobs sent over HTTP run as if run locally.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	_ "github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	_ "github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

type M = map[string]any

func scratch(t *vk.T) (string, func()) {
	dir, err := os.MkdirTemp(t.Dir, "c")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func write(name string, b []byte) {
	if err := os.WriteFile(name, b, 0644); err != nil {
		panic(err)
	}
}

func ls(dir string) (r []string) {
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r
}

// server is a running nightlight server
type server struct {
	cmd    *exec.Cmd
	base   string
	errs   bytes.Buffer
	ended  chan bool
	client *http.Client
}

func start(t *vk.T, dir string, memory int, race bool) *server {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	bin := filepath.Join(filepath.Dir(exe), "nightlight") // built by prepare.sh
	if race {
		bin += "-race"
	}
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		s := &server{base: fmt.Sprintf("http://127.0.0.1:%d", port), ended: make(chan bool)}
		s.cmd = exec.Command(bin, "-log", "", "-port", fmt.Sprint(port), "-stMemory", fmt.Sprint(memory), "serve")
		s.cmd.Dir, s.cmd.Stderr = dir, &s.errs
		s.cmd.Env = append(os.Environ(), "GIN_MODE=release", "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=0 atexit_sleep_ms=0")
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			panic(err)
		}
		go func() { s.cmd.Wait(); close(s.ended) }()
		s.client = &http.Client{Transport: &http.Transport{Proxy: nil, MaxIdleConnsPerHost: 16}, Timeout: 100 * time.Second,
			CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		for k := 0; k < 1500 && !s.dead(); k++ {
			if code, b, err := s.get("/api/v1/ping"); err == nil {
				if code != 200 || !strings.Contains(string(b), "pong") {
					break // something else took the port
				}
				// it must be this server, not one of another worker which got the same port
				token := fmt.Sprintf("token-%d-%d", os.Getpid(), port)
				write(filepath.Join(dir, token), []byte(token))
				code, b, err := s.get("/api/v1/files/" + token)
				os.Remove(filepath.Join(dir, token))
				if err != nil || code != 200 || string(b) != token || s.dead() {
					break
				}
				return s
			}
			time.Sleep(10 * time.Millisecond)
		}
		s.stop()
	}
	t.Fail("the server does not start")
	return nil
}

func (s *server) dead() bool {
	select {
	case <-s.ended:
		return true
	default:
		return false
	}
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.ended
	s.client.CloseIdleConnections()
}

func (s *server) do(q *http.Request) (int, []byte, error) {
	r, err := s.client.Do(q)
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, b, err
}

func (s *server) get(path string) (int, []byte, error) {
	q, err := http.NewRequest("GET", s.base+path, nil)
	if err != nil {
		return 0, nil, err
	}
	return s.do(q)
}

func (s *server) post(body []byte) (int, []byte, error) {
	q, err := http.NewRequest("POST", s.base+"/api/v1/job", bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	q.Header.Set("Content-Type", "application/json")
	return s.do(q)
}

func (s *server) alive(t *vk.T, after string) {
	code, b, err := s.get("/api/v1/ping")
	if err != nil || code != 200 || !strings.Contains(string(b), "pong") {
		s.stop()
		t.Fail("after %s the server does not answer: %v %d %s", after, err, code, clip(s.errs.String(), 300))
	}
}

func clip(s string, n int) string { return s[:min(n, len(s))] }

// job is one request: process the frames p_*.fits of a prefix of its own
type job struct {
	prefix string
	n      int
	steps  []any
	fails  bool // at run time
}

// newJob writes n small frames and draws what to do with them; nothing that samples at random
func newJob(g *vk.G, dir, prefix string) *job {
	j := &job{prefix: prefix, n: g.Int(1, 8)}
	w, h := g.Int(4, 40), g.Int(4, 40)
	rng := g.Stream()
	odd := g.Chance(1, 4)
	for k := 0; k < j.n; k++ {
		w := w
		if k > 0 && odd && rng.Unit() < 0.4 { // doesn't fit the dark frame
			w++
		}
		d := make([]float32, w*h)
		for i := range d {
			d[i] = float32(rng.Float(10, 50))
		}
		write(filepath.Join(dir, fmt.Sprintf("%s_%d.fits", prefix, k)), fx.Float32Image([]int{w, h}, d, "EXPOSURE=                   30"))
	}
	j.steps = []any{M{"type": "loadMany", "filePatterns": []any{prefix + "_*.fits"}}}
	for k := g.Int(0, 5); k > 0; k-- {
		var st M
		switch g.Int(0, 8) {
		case 0:
			st = M{"type": "scaleOffset", "scale": g.F32(0.5, 3), "offset": g.F32(-3, 9)}
		case 1:
			st = M{"type": "bin", "binSize": g.Int(0, 2)}
		case 2:
			st = M{"type": "gaussianBlur", "sigma": g.F32(0.6, 1.5)}
		case 3:
			st = M{"type": "debandHoriz", "percentile": g.F32(20, 60), "window": g.Int(3, 20), "sigma": 0}
		case 4:
			st = M{"type": "save", "filePattern": prefix + fmt.Sprintf("-step%d-", k) + "%03d.fits"}
		case 5:
			st = M{"type": "seq", "steps": []any{M{"type": "scaleOffset", "scale": 2, "offset": 1}, M{"type": "bin"}}}
		case 6:
			st = M{"type": "normRange"}
		case 7:
			st = M{"type": "calibrate", "dark": prefix + "_0.fits"}
		case 8:
			st = M{"type": "stackBatches", "perBatch": M{"type": "seq", "steps": []any{M{"type": "scaleOffset", "scale": 2}, M{"type": "stack", "mode": g.Int(0, 4), "weighting": 0}}}}
		}
		j.steps = append(j.steps, st)
	}
	if g.Chance(1, 6) {
		j.fails = true
		j.steps = append(j.steps, vk.OneOf(g, M{"type": "calibrate", "dark": "missing.fits"}, M{"type": "load", "fileName": prefix + "_0.fits"}, M{"type": "rgbToHSLuv"}))
	}
	j.steps = append(j.steps, M{"type": "save", "filePattern": prefix + "-out%d.fits"})
	return j
}

func (j *job) json() []byte {
	b, err := json.Marshal(M{"type": "seq", "steps": j.steps})
	if err != nil {
		panic(err)
	}
	return b
}

// local runs the job by the library in dir
func (j *job) local(dir string, memory int) (string, error) {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	var op ops.OpSequence
	if err := json.Unmarshal(j.json(), &op); err != nil {
		return "", err
	}
	l := &locked{}
	c := ops.NewContext(l, memory, stats.LSESCMedianQn)
	ps, err := op.MakePromises(nil, c)
	if err != nil {
		return l.String(), err
	}
	_, err = ops.MaterializeAll(ps, c.MaxThreads, true)
	return l.String(), err
}

type locked struct {
	sync.Mutex
	bytes.Buffer
}

func (l *locked) Write(b []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	return l.Buffer.Write(b)
}

var reNumber = regexp.MustCompile(`[-+]?[0-9]*\.[0-9]+([eE][-+]?[0-9]+)?|NaN|[-+]Inf`)

// the library can be limited to fewer threads here
var reThreads = regexp.MustCompile(`[0-9]+ (threads|images in parallel)`)

// lines are the sorted lines of a log, without the measured values
func lines(s string) (r []string) {
	for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
		l = reThreads.ReplaceAllString(l, "# $1")
		if l = strings.TrimSpace(reNumber.ReplaceAllString(l, "#")); l != "" {
			r = append(r, l)
		}
	}
	sort.Strings(r)
	return r
}

func main() {
	jobs := &vk.Law{Name: "jobs", Quick: 300, Thorough: 8000, Timeout: 200 * time.Second,
		Rule: "a server gets 1-6 jobs on small frames of their own, one after another or at the same time, mixed with pings, with any memory limit for stacking; each answer must repeat the job, hold the log lines running it by the library writes, all and only its own, and end with an error exactly if the job fails; the files left and served by the server must be those the library leaves; non-trivial if at least two jobs",
		Run:  func(g *vk.G, t *vk.T) { runJobs(g, t, false) }}
	raced := &vk.Law{Name: "jobs-raced", Quick: 60, Thorough: 1500, Timeout: 200 * time.Second,
		Rule: "as jobs, with the server built with Go's race detector, which must not report unsynchronised access",
		Run:  func(g *vk.G, t *vk.T) { runJobs(g, t, true) }}
	files := &vk.Law{Name: "files", Quick: 300, Thorough: 8000, Timeout: 200 * time.Second,
		Rule: "requests for files under plain, nested, escaped, absolute and upward paths; files inside the server's directory must be served byte by byte, and no answer may contain the contents of files outside; the web front end's files are served as they are; non-trivial if a path leads outside",
		Run:  runFiles}
	bad := &vk.Law{Name: "malformed", Quick: 300, Thorough: 8000, Timeout: 200 * time.Second,
		Rule: "bodies that are no JSON, no job, name unknown steps or have values of wrong types must be refused with status 400 and a message, and if only one step of a job is so, the others must not run; jobs with steps missing or null parts or odd values may run or fail; the server must answer afterwards and run a good job; non-trivial always",
		Run:  runBad}
	vk.Main("A02", []string{"The server is built from /repo with a stand-in for the web front end's blockly library, which is a git submodule that is empty here, and runs on a loopback port."}, jobs, raced, files, bad)
}

func runJobs(g *vk.G, t *vk.T, race bool) {
	base, done := scratch(t)
	defer done()
	a, b := filepath.Join(base, "served"), filepath.Join(base, "local")
	os.Mkdir(a, 0755)
	os.Mkdir(b, 0755)
	n := g.Int(1, 6)
	together, memory := g.Bool(), g.Int(2, 3000)
	var js []*job
	desc := ""
	for k := 0; k < n; k++ {
		j := newJob(g, a, fmt.Sprintf("p%d", k))
		js = append(js, j)
		desc += fmt.Sprintf("; %d frames %s", j.n, j.json())
	}
	for _, f := range ls(a) {
		c, err := os.ReadFile(filepath.Join(a, f))
		if err != nil {
			panic(err)
		}
		write(filepath.Join(b, f), c)
	}
	t.Desc("together %v, memory %d%s", together, memory, desc)
	t.Class("together %v", together)
	if n < 2 {
		t.Trivial()
	}
	s := start(t, a, memory, race)
	defer s.stop()
	type answer struct {
		code int
		body []byte
		err  error
	}
	as := make([]answer, n)
	var wg sync.WaitGroup
	for k := range js {
		one := func() {
			defer wg.Done()
			c, b, err := s.post(js[k].json())
			as[k] = answer{c, b, err}
		}
		wg.Add(1)
		if together {
			go one()
		} else {
			one()
			s.alive(t, "a job")
		}
	}
	wg.Wait()
	s.alive(t, "the jobs")
	for k, j := range js {
		log, err := j.local(b, memory)
		r := as[k]
		if r.err != nil || r.code != 200 {
			t.Fail("job %d is answered by %v, status %d %.200s", k, r.err, r.code, r.body)
		}
		body := string(r.body)
		i := strings.Index(body, "{")
		if i < 0 {
			t.Fail("the answer to job %d does not repeat it: %.300q", k, body)
		}
		d := json.NewDecoder(strings.NewReader(body[i:]))
		var echo struct {
			Type  string
			Steps []M
		}
		if e := d.Decode(&echo); e != nil {
			t.Fail("the answer to job %d does not repeat it: %v in %.300q", k, e, body)
		}
		if echo.Type != "seq" || len(echo.Steps) != len(j.steps) {
			t.Fail("the answer to job %d repeats %d steps of %d", k, len(echo.Steps), len(j.steps))
		}
		for i, st := range j.steps {
			if echo.Steps[i]["type"] != st.(M)["type"] {
				t.Fail("step %d of job %d is repeated as %v", i, k, echo.Steps[i])
			}
			for key, v := range st.(M) {
				if f, ok := v.(float32); ok {
					if e, ok := echo.Steps[i][key].(float64); !ok || math.Abs(e-float64(f)) > 1e-6*math.Abs(float64(f)) {
						t.Fail("step %d of job %d is repeated as %v", i, k, echo.Steps[i])
					}
				}
			}
		}
		rest := body[i+int(d.InputOffset()):]
		failed := strings.Contains(rest, "Error")
		if failed != (err != nil) {
			t.Fail("job %d ends %q, but run by the library it returns %v", k, clip(rest[max(0, len(rest)-200):], 200), err)
		}
		if err != nil {
			t.Class("failing")
			continue
		}
		t.Class("succeeding")
		if got, want := lines(rest), lines(log); strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Fail("the answer to job %d holds the log lines %.900q, run by the library it writes %.900q", k, got, want)
		}
	}
	for k, j := range js {
		for _, f := range ls(b) {
			if !strings.HasPrefix(f, j.prefix) || j.fails {
				continue
			}
			want, err := os.ReadFile(filepath.Join(b, f))
			if err != nil {
				panic(err)
			}
			code, got, err := s.get("/api/v1/files/" + f)
			if err != nil || code != 200 {
				t.Fail("result %s of job %d is not served: %v, status %d", f, k, err, code)
			}
			if !sameImage(want, got) {
				t.Fail("result %s of job %d is not the one the library computes", f, k)
			}
		}
	}
	mine := func(dir string) (r []string) {
		for _, f := range ls(dir) {
			for _, j := range js {
				if strings.HasPrefix(f, j.prefix) && !j.fails {
					r = append(r, f)
				}
			}
		}
		return r
	}
	if got, want := strings.Join(mine(a), "|"), strings.Join(mine(b), "|"); got != want {
		t.Fail("files are %q, want %q", got, want)
	}
	if race {
		s.stop()
		if i := strings.Index(s.errs.String(), "WARNING: DATA RACE"); i >= 0 {
			t.Fail("%s", clip(s.errs.String()[i:], 2500))
		}
	}
}

func sameImage(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	p, err := fx.Parse(a)
	if err != nil {
		return false
	}
	q, err := fx.Parse(b)
	if err != nil || fmt.Sprint(p.Axes) != fmt.Sprint(q.Axes) {
		return false
	}
	x, y := p.Physical(), q.Physical()
	for i := range x {
		if !vk.Close(x[i], y[i], 1e-3, 1e-4) {
			return false
		}
	}
	return true
}

func runFiles(g *vk.G, t *vk.T) {
	base, done := scratch(t)
	defer done()
	dir := filepath.Join(base, "served")
	os.MkdirAll(filepath.Join(dir, "sub", "deep"), 0755)
	secret := fmt.Sprintf("secret-%x", g.U64())
	write(filepath.Join(base, "secret.txt"), []byte(secret))
	os.MkdirAll(filepath.Join(base, "other"), 0755)
	write(filepath.Join(base, "other", "secret.txt"), []byte(secret))
	write(filepath.Join(base, "served2"), []byte(secret))
	type in struct {
		path string
		data []byte
	}
	var ins []in
	rng := g.Stream()
	for k := 0; k < g.Int(1, 4); k++ {
		d := make([]byte, g.Size(0, 5000))
		for i := range d {
			d[i] = byte(rng.U64())
		}
		p := vk.OneOf(g, "", "sub/", "sub/deep/") + vk.OneOf(g, "f%d.fits", "a b%d.jpg", "x%d", "l.%d.html", "..f%d")
		p = fmt.Sprintf(p, k)
		write(filepath.Join(dir, p), d)
		ins = append(ins, in{p, d})
	}
	s := start(t, dir, 1000, false)
	defer s.stop()
	var asked []string
	outside := false
	for k := g.Int(1, 10); k > 0; k-- {
		if g.Bool() {
			f := ins[g.Int(0, len(ins)-1)]
			p := "/api/v1/files/" + strings.ReplaceAll(f.path, " ", "%20")
			asked = append(asked, p)
			code, b, err := s.get(p)
			if err != nil || code != 200 || !bytes.Equal(b, f.data) {
				t.Fail("%s: %v, status %d, %d bytes of %d", p, err, code, len(b), len(f.data))
			}
			continue
		}
		if g.Chance(1, 6) {
			name := vk.OneOf(g, "index.html", "js/blocks.js", "js/codegen.js", "js/toolbox.js", "icons/favicon.svg", "icons/favicon.png", "")
			code, b, err := s.get("/" + name)
			if err != nil || code != 200 || len(b) == 0 {
				t.Fail("/%s: %v, status %d, %d bytes", name, err, code, len(b))
			}
			continue
		}
		outside = true
		up := vk.OneOf(g, "..", "%2e%2e", "..%2f..", ".%2e", "..%5c", "sub/../..", "sub/deep/../../..", "./..", "%2e%2e%2f%2e%2e", "....//..", "sub%2f..%2f..")
		target := vk.OneOf(g, "secret.txt", "other/secret.txt", "other%2fsecret.txt", "served2", "served/../secret.txt")
		p := vk.OneOf(g, "/api/v1/files/", "/js/", "/icons/", "/blockly/", "/api/v1/files//", "/") + up + vk.OneOf(g, "/", "%2f", "//") + target
		if g.Chance(1, 4) {
			p = vk.OneOf(g, "/api/v1/files/", "/api/v1/files", "/api/v1/files/%2f") + base + "/secret.txt"
		}
		asked = append(asked, p)
		// written to the socket as is
		conn, err := net.DialTimeout("tcp", strings.TrimPrefix(s.base, "http://"), 20*time.Second)
		if err != nil {
			t.Fail("no connection: %v", err)
		}
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		fmt.Fprintf(conn, "GET %s HTTP/1.0\r\nHost: localhost\r\n\r\n", p)
		b, err := io.ReadAll(conn)
		conn.Close()
		if err != nil {
			t.Fail("%s: %v", p, err)
		}
		if bytes.Contains(b, []byte(secret)) {
			t.Fail("%s serves a file outside the server's directory", p)
		}
	}
	s.alive(t, "the requests")
	t.Desc("%q", asked)
	if !outside {
		t.Trivial()
	}
}

func runBad(g *vk.G, t *vk.T) {
	dir, done := scratch(t)
	defer done()
	good := newJob(g, dir, "good")
	good.steps = []any{good.steps[0], M{"type": "scaleOffset", "scale": 2}, M{"type": "save", "filePattern": "good-out%d.fits"}}
	d := make([]float32, 64*48)
	for i := range d {
		d[i] = float32(100 + i*i*31%7)
		if i%64%16 == 8 && i/64%16 == 8 {
			d[i] = 900
		}
	}
	for k := 0; k < 3; k++ {
		write(filepath.Join(dir, fmt.Sprintf("in%d.fits", k)), fx.Float32Image([]int{64, 48}, d, "EXPOSURE=                   30"))
	}
	s := start(t, dir, 1000, false)
	defer s.stop()
	var sent []string
	for k := g.Int(1, 6); k > 0; k-- {
		var body []byte
		refused := g.Bool()
		if refused {
			body = []byte(vk.OneOf(g, "", "{", "x", "[]", "[1]", `"seq"`, "3", `{"type":"seq","steps":3}`, `{"type":"seq","steps":{}}`, `{"type":"seq","steps":["load"]}`, `{"type":"seq","steps":[{"type":"nosuch"}]}`, `{"type":"seq","steps":[{}]}`,
				`{"type":"seq","steps":[{"type":3}]}`, `{"type":"seq","steps":[{"type":"gamma","gamma":"x"}]}`, `{"type":"seq","steps":[{"type":"loadMany","filePatterns":"a"}]}`, `{"type":"seq","steps":[{"type":"bin","binSize":1.5}]}`, `{"type":"seq","steps":[{"type":"stackBatches","perBatch":[]}]}`,
				`{"type":"seq","steps":[{"type":"seq","steps":[{"type":"nope"}]}]}`, `{"type":"seq","steps":[`, `{"type":"seq","steps":[{"type":"save","saveMode":"x"}]}`))
			if g.Bool() {
				body = spoilt(g)
			}
		} else {
			body = odd(g)
		}
		sent = append(sent, string(body))
		code, b, err := s.post(body)
		if err != nil || s.dead() {
			s.stop()
			t.Fail("on %s the server ends: %v; %s", body, err, head(s.errs.String()))
		}
		if refused && (code != 400 || !strings.Contains(string(b), "error")) {
			t.Fail("%s is not refused: status %d, %.200s", body, code, b)
		}
		if refused {
			for _, n := range ls(dir) {
				if strings.Contains(n, "spoilt") {
					t.Fail("%s is refused, but its first steps have run: %s", body, n)
				}
			}
		}
		t.Class("status %d", code)
	}
	t.Desc("%q", sent)
	s.alive(t, "malformed jobs")
	code, b, err := s.post(good.json())
	if err != nil || code != 200 || strings.Contains(string(b), "Error") {
		t.Fail("a good job after malformed ones: %v, status %d, %.300s", err, code, b)
	}
	for i := 0; i < good.n; i++ {
		if _, err := os.Stat(filepath.Join(dir, fmt.Sprintf("good-out%d.fits", i))); err != nil {
			t.Fail("a good job after malformed ones: %v", err)
		}
	}
}

// spoilt is a job whose steps are fine and would leave files, but for one
func spoilt(g *vk.G) []byte {
	wrap := func(st []any) any { return M{"type": "seq", "steps": st} }
	save := func(n int) any { return M{"type": "save", "filePattern": fmt.Sprintf("spoilt%d", n) + "-%d.fits"} }
	var bad any = vk.OneOf[any](g, M{"type": "nosuch"}, M{}, M{"type": 3}, "save", 3, []any{}, M{"type": "gamma", "gamma": "x"}, M{"type": "bin", "binSize": 1.5}, M{"type": "scaleOffset", "scale": "2"}, M{"type": "seq", "steps": M{}}, M{"type": "save", "filePattern": 3})
	for n := g.Int(0, 2); n > 0; n-- {
		st := []any{}
		if g.Bool() {
			st = append(st, save(n))
		}
		st = append(st, bad)
		if g.Bool() {
			st = append(st, save(10+n))
		}
		bad = wrap(st)
		if g.Chance(1, 3) {
			bad = M{"type": "stackBatches", "perBatch": bad}
		}
	}
	st := []any{M{"type": "loadMany", "filePatterns": []any{"in*.fits"}}, save(0)}
	if g.Bool() {
		st = append(st, M{"type": "scaleOffset", "scale": 2})
	}
	st = append(st, bad)
	if g.Bool() {
		st = append(st, save(20))
	}
	b, err := json.Marshal(wrap(st))
	if err != nil {
		panic(err)
	}
	return b
}

func head(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	return clip(s, 700)
}

var kinds = []string{"calibrate", "badPixel", "debayer", "debandHoriz", "debandVert", "scaleOffset", "bin", "starDetect", "backExtract", "exportStats", "save", "selectRef", "filter", "matchHist", "align", "stack",
	"normRange", "stretch", "midtones", "gamma", "gammaPP", "scaleBlack", "gaussianBlur", "unsharpMask", "rgbCombine", "rgbBalance", "rgbToHSLuv", "hslApplyLum", "HSLUnsharpMask", "hslNeutralizeBackground",
	"hslSaturationGamma", "hslSelectiveSaturation", "hslRotateHue", "hslSCNR", "hslStretch", "hslMidtones", "hslGamma", "hslGammaPP", "hslScaleOffsetChannel", "hslScaleBlack", "hsluvToRGB", "stackBatches", "seq", "load", "loadMany"}

// odd is a job whose steps make little sense: null or missing parts, unsuitable order
func odd(g *vk.G) []byte {
	var step func(depth int) any
	step = func(depth int) any {
		k := kinds[g.Int(0, len(kinds)-1)]
		m := M{"type": k}
		for _, f := range []string{"save", "debayer", "starDetect", "perBatch", "steps", "filePatterns", "filePattern", "gamma", "fileName", "mode", "channel"} {
			if g.Chance(1, 6) {
				m[f] = nil
			}
		}
		for _, f := range []string{"binSize", "window", "radius", "gridSize", "clip", "k", "block", "minStars", "mode", "weighting", "target", "channelID", "oobMode", "saveMode"} {
			if g.Chance(1, 6) && !(f == "mode" && k == "selectRef") {
				m[f] = vk.OneOf(g, -1, 0, 1, 2, 3, 7, 60, 1000, -1000000)
			}
		}
		for _, f := range []string{"percentile", "sigma", "sigmaLow", "sigmaHigh", "badPixelSigma", "inOutRatio", "scale", "offset", "location", "threshold", "gain", "hfrFactor", "border", "skipBright", "skipDim", "mid", "black", "from", "to", "factor", "gamma"} {
			if g.Chance(1, 6) {
				m[f] = vk.OneOf(g, -1, 0, 1, 0.5, -0.5, 3, 20, 100, 101, -300, 300)
			}
		}
		if k == "stackBatches" && depth < 2 && g.Chance(2, 3) {
			var st []any
			for n := g.Int(0, 3); n > 0; n-- {
				st = append(st, step(depth+1))
			}
			m["perBatch"] = M{"type": "seq", "steps": st}
		}
		if k == "seq" && depth < 2 && g.Chance(2, 3) {
			var st []any
			for n := g.Int(0, 3); n > 0; n-- {
				st = append(st, step(depth+1))
			}
			m["steps"] = st
		}
		return m
	}
	st := []any{}
	if g.Chance(5, 6) {
		st = append(st, M{"type": "loadMany", "filePatterns": []any{"in*.fits"}})
	}
	for n := g.Size(0, 4); n > 0; n-- {
		if g.Chance(1, 12) {
			st = append(st, nil)
		} else {
			st = append(st, step(0))
		}
	}
	b, err := json.Marshal(M{"type": "seq", "steps": st})
	if err != nil {
		panic(err)
	}
	return b
}
