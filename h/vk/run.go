package vk

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Law is one generated check: a generator plus an oracle.
type Law struct {
	Name     string
	Rule     string        // how cases are made and what makes one non-trivial
	Quick    int           // number of cases in the quick tier
	Thorough int           // number of cases in the thorough tier
	Shards   int           // max number of worker processes to use, 0=automatic
	Timeout  time.Duration // per-case hang limit; 0=default
	Init     func()        // run once per worker process before the first case
	Race     bool          // run the worker processes with Go's race detector: any data race is a failure
	Run      func(g *G, t *T)
}

// T is the handle of one case.
type T struct {
	desc    string
	classes []string
	trivial bool
	known   map[string]string
	Dir     string // scratch directory of the worker
	idx     int
}

type failure struct{ msg string }
type discard struct{ why string }

// Fail reports that the property is violated by this case.
func (t *T) Fail(format string, a ...interface{}) { panic(failure{fmt.Sprintf(format, a...)}) }

// Desc describes the case in words, for samples and replay files.
func (t *T) Desc(format string, a ...interface{}) { t.desc = fmt.Sprintf(format, a...) }

// Class counts the case under a label.
func (t *T) Class(format string, a ...interface{}) {
	t.classes = append(t.classes, fmt.Sprintf(format, a...))
}

// Trivial marks the case as trivial by the law's rule.
func (t *T) Trivial() { t.trivial = true }

// Discard abandons a case that is outside the domain of the law.
func (t *T) Discard(why string) { panic(discard{why}) }

// Known reports a violation that falls under the finding id. It is a violation unless the id is listed in
// the known-findings file.
func (t *T) Known(id, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if knownIDs[id] {
		if t.known == nil {
			t.known = map[string]string{}
		}
		t.known[id] = msg
		return
	}
	panic(failure{"[" + id + "] " + msg})
}

var knownIDs = map[string]bool{}
var knownText = map[string]string{}

type caseResult struct {
	status  int // 0 ok 1 fail 2 discard
	msg     string
	stack   string
	choices []uint64
	t       *T
}

func runCase(l *Law, g *G, dir string, idx int) (r caseResult) {
	t := &T{Dir: dir, idx: idx}
	r.t = t
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case failure:
				r.status, r.msg = 1, x.msg
			case discard:
				r.status, r.msg = 2, x.why
			case exhausted:
				r.status, r.msg = 2, "choice limit"
			default:
				r.status, r.msg = 1, fmt.Sprintf("panic: %v", e)
				r.stack = string(debug.Stack())
			}
		}
		r.choices = g.rec
	}()
	l.Run(g, t)
	return
}

// Replay is the format of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Law      string   `json:"law"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Index    int      `json:"index"`
	Message  string   `json:"message"`
	Case     string   `json:"case"`
	Stack    string   `json:"stack,omitempty"`
	Kind     string   `json:"kind"` // fail, crash, hang
	Choices  []uint64 `json:"choices"`
	Shrunk   bool     `json:"shrunk"`
	Command  string   `json:"replay_command"`
}

type workerOut struct {
	Evals      int               `json:"evals"`
	NonTrivial int               `json:"nontrivial"`
	Discards   map[string]int    `json:"discards"`
	Classes    map[string]int    `json:"classes"`
	Samples    []string          `json:"samples"`
	Known      map[string]string `json:"known"`
	KnownN     map[string]int    `json:"known_n"`
	Fail       *Replay           `json:"fail"`
	Done       bool              `json:"done"`
	ElapsedS   float64           `json:"elapsed"`
}

func caseSeed(seed int64, law string, idx int) uint64 {
	return mix(mix(uint64(seed)*0x9e3779b97f4a7c15+hashStr(law)) + uint64(idx)*0xd1342543de82ef95 + 77)
}

func hashChoices(c []uint64) uint64 {
	h := uint64(1469598103934665603)
	for _, v := range c {
		h = mix(h ^ v + 0x9e3779b97f4a7c15*h)
	}
	return h
}

var (
	fProp     = flag.String("property", "", "")
	fTier     = flag.String("tier", "quick", "")
	fSeed     = flag.Int64("seed", 1, "")
	fWorker   = flag.Bool("worker", false, "")
	fLaw      = flag.String("law", "", "")
	fShard    = flag.Int("shard", 0, "")
	fShards   = flag.Int("shards", 1, "")
	fOut      = flag.String("out", "", "")
	fCase     = flag.Int("case", -1, "")
	fChoices  = flag.String("choices", "", "")
	fReplay   = flag.String("replay", "", "")
	fEvidence = flag.String("evidence", "", "")
	fReplays  = flag.String("replays", "", "")
	fKnown    = flag.String("known", "", "")
	fScale    = flag.Float64("scale", 1, "multiply case counts")
	fJobs     = flag.Int("jobs", 0, "")
	fVerbose  = flag.Bool("v", false, "")
)

// Main runs the check of one property.
func Main(property string, assumptions []string, laws ...*Law) {
	flag.Parse()
	*fProp = property
	loadKnown(*fKnown, property)
	if *fWorker {
		worker(laws)
		return
	}
	if *fReplay != "" {
		os.Exit(replayFile(laws))
	}
	os.Exit(parent(property, assumptions, laws))
}

func loadKnown(path, property string) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		// finding: property=<id> id=<finding id> <text>
		if !strings.HasPrefix(line, "finding:") {
			continue
		}
		f := strings.Fields(line)
		if len(f) < 4 || f[1] != "property="+property || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		id := f[2][3:]
		knownIDs[id] = true
		knownText[id] = strings.Join(f[3:], " ")
	}
}

func findLaw(laws []*Law, name string) *Law {
	for _, l := range laws {
		if l.Name == name {
			return l
		}
	}
	return nil
}

func count(l *Law, tier string) int {
	n := l.Quick
	if tier == "thorough" {
		n = l.Thorough
		if n == 0 {
			n = l.Quick * 20
		}
	}
	n = int(float64(n) * *fScale)
	if n < 1 {
		n = 1
	}
	return n
}

func worker(laws []*Law) {
	l := findLaw(laws, *fLaw)
	if l == nil {
		fmt.Fprintf(os.Stderr, "VKERROR no law %s\n", *fLaw)
		os.Exit(3)
	}
	debug.SetTraceback("all")
	dir, _ := os.Getwd()
	if l.Init != nil {
		l.Init()
	}
	// single case, by choices: used to shrink and replay crashes
	if *fChoices != "" {
		b, err := os.ReadFile(*fChoices)
		if err != nil {
			os.Exit(3)
		}
		var ch []uint64
		if json.Unmarshal(b, &ch) != nil {
			os.Exit(3)
		}
		emit(runCase(l, replayG(ch), dir, 0), l)
		return
	}
	if *fCase >= 0 { // single case by index, recording choices as they are drawn
		g := newG(caseSeed(*fSeed, l.Name, *fCase))
		f, err := os.Create(*fOut + ".choices")
		if err != nil {
			os.Exit(3)
		}
		w := bufio.NewWriterSize(f, 1)
		g.onDraw = func(v uint64) { fmt.Fprintf(w, "%d\n", v); w.Flush() }
		emit(runCase(l, g, dir, *fCase), l)
		return
	}
	pf, err := os.Create(*fOut + ".progress")
	if err != nil {
		fmt.Fprintln(os.Stderr, "VKERROR", err)
		os.Exit(3)
	}
	hf, err := os.Create(*fOut + ".hashes")
	if err != nil {
		fmt.Fprintln(os.Stderr, "VKERROR", err)
		os.Exit(3)
	}
	hw := bufio.NewWriterSize(hf, 1<<16)
	n := count(l, *fTier)
	out := &workerOut{Discards: map[string]int{}, Classes: map[string]int{}, Known: map[string]string{}, KnownN: map[string]int{}}
	start := time.Now()
	var pb [8]byte
	for i := *fShard; i < n; i += *fShards {
		binary.LittleEndian.PutUint64(pb[:], uint64(i)+1)
		pf.WriteAt(pb[:], 0)
		g := newG(caseSeed(*fSeed, l.Name, i))
		r := runCase(l, g, dir, i)
		switch r.status {
		case 2:
			out.Discards[r.msg]++
			continue
		case 1:
			out.Evals++
			// keep the unshrunk failure on disk in case shrinking hangs or crashes
			out.Fail = &Replay{Property: *fProp, Law: l.Name, Tier: *fTier, Seed: *fSeed, Index: i, Message: r.msg, Case: r.t.desc,
				Stack: clip(r.stack, 6000), Kind: "fail", Choices: r.choices}
			out.Done = true
			b, _ := json.Marshal(out)
			os.WriteFile(*fOut, b, 0644)
			rep := shrink(l, r, dir)
			rep.Index = i
			out.Fail = rep
		case 0:
			out.Evals++
			if !r.t.trivial {
				out.NonTrivial++
				var hb [8]byte
				binary.LittleEndian.PutUint64(hb[:], hashChoices(r.choices))
				hw.Write(hb[:])
				if r.t.desc != "" && (len(out.Samples) < 2 || (len(out.Samples) < 3 && i > n/2)) {
					out.Samples = append(out.Samples, clip(r.t.desc, 400))
				}
			} else {
				out.Classes["(trivial)"]++
			}
			for _, c := range r.t.classes {
				out.Classes[c]++
			}
			for k, v := range r.t.known {
				if _, ok := out.Known[k]; !ok {
					out.Known[k] = clip(v, 400)
				}
				out.KnownN[k]++
			}
		}
		if out.Fail != nil {
			break
		}
	}
	hw.Flush()
	out.Done = true
	out.ElapsedS = time.Since(start).Seconds()
	b, _ := json.Marshal(out)
	if err := os.WriteFile(*fOut, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "VKERROR", err)
		os.Exit(3)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func emit(r caseResult, l *Law) {
	m := map[string]interface{}{"status": r.status, "msg": clip(r.msg, 4000), "case": r.t.desc, "stack": r.stack, "choices": r.choices}
	b, _ := json.Marshal(m)
	if *fOut != "" {
		os.WriteFile(*fOut, b, 0644)
	}
	if *fVerbose {
		fmt.Printf("status %d\nmessage: %s\ncase: %s\n%s\n", r.status, r.msg, r.t.desc, r.stack)
	}
}

// shrink reduces the failing choice sequence while it keeps failing.
func shrink(l *Law, r caseResult, dir string) *Replay {
	best := r
	evals, maxEvals := 0, 3000
	deadline := time.Now().Add(20 * time.Second)
	try := func(c []uint64) bool {
		if evals >= maxEvals || time.Now().After(deadline) {
			return false
		}
		evals++
		x := runCase(l, replayG(c), dir, -1)
		if x.status == 1 && less(x.choices, best.choices) {
			best = x
			return true
		}
		return false
	}
	shrinkLoop(func() []uint64 { return best.choices }, try, func() bool { return evals >= maxEvals || time.Now().After(deadline) })
	return &Replay{Property: *fProp, Law: l.Name, Tier: *fTier, Seed: *fSeed, Message: best.msg, Case: best.t.desc,
		Stack: clip(best.stack, 6000), Kind: "fail", Choices: best.choices, Shrunk: evals > 0}
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func shrinkLoop(cur func() []uint64, try func([]uint64) bool, stop func() bool) {
	for !stop() {
		progress := false
		for sz := len(cur()) / 2; sz >= 1 && !stop(); sz /= 2 {
			for i := 0; i+sz <= len(cur()) && !stop(); {
				c := cur()
				d := append(append([]uint64{}, c[:i]...), c[i+sz:]...)
				if try(d) {
					progress = true
				} else {
					i += sz
				}
			}
		}
		for sz := len(cur()) / 2; sz >= 1 && !stop(); sz /= 2 {
			for i := 0; i+sz <= len(cur()) && !stop(); i += sz {
				c := cur()
				z := true
				for _, v := range c[i : i+sz] {
					if v != 0 {
						z = false
					}
				}
				if z {
					continue
				}
				d := append([]uint64{}, c...)
				for j := i; j < i+sz; j++ {
					d[j] = 0
				}
				if try(d) {
					progress = true
				}
			}
		}
		for i := 0; i < len(cur()) && !stop(); i++ {
			v := cur()[i]
			lo, hi := uint64(0), v
			for lo < hi && !stop() {
				mid := lo + (hi-lo)/2
				c := cur()
				if i >= len(c) {
					break
				}
				d := append([]uint64{}, c...)
				d[i] = mid
				if try(d) {
					progress = true
					if i >= len(cur()) {
						break
					}
					hi = mid
				} else {
					lo = mid + 1
				}
			}
		}
		if !progress {
			return
		}
	}
}

type task struct {
	l             *Law
	shard, shards int
}

type crash struct {
	kind, msg string
	index     int
	law       *Law
}

func selfCmd(l *Law, dir string, args ...string) *exec.Cmd {
	exe, _ := os.Executable()
	if l.Race {
		exe += "-race" // built by check.sh
	}
	c := exec.Command(exe, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 atexit_sleep_ms=0")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c
}

func isCrash(stderr string) bool {
	if strings.Contains(stderr, "VKERROR") {
		return false
	}
	if strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate memory") || strings.Contains(stderr, "errno=12") {
		return false
	}
	return strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "SIGSEGV") || strings.Contains(stderr, "DATA RACE")
}

func crashHead(stderr string) string {
	for _, line := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(line, "panic:") || strings.HasPrefix(line, "fatal error:") || strings.Contains(line, "DATA RACE") {
			return line
		}
	}
	return clip(stderr, 200)
}

// runWatched runs a worker command, killing it when the same case runs longer than limit.
// Returns exit error kind: "", "hang", "crash", "error".
func runWatched(c *exec.Cmd, progress string, limit time.Duration) (kind, stderr string) {
	var eb bytes.Buffer
	lw := &limitedWriter{b: &eb, n: 1 << 20}
	c.Stderr = lw
	c.Stdout = io.Discard
	if err := c.Start(); err != nil {
		return "error", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	last := uint64(0)
	lastT := time.Now()
	for {
		select {
		case err := <-done:
			if err == nil {
				return "", ""
			}
			if isCrash(eb.String()) {
				return "crash", eb.String()
			}
			return "error", fmt.Sprintf("%v: %s", err, clip(eb.String(), 2000))
		case <-tick.C:
			v := uint64(0)
			if progress != "" {
				if b, err := os.ReadFile(progress); err == nil && len(b) >= 8 {
					v = binary.LittleEndian.Uint64(b)
				}
			}
			if v != last {
				last, lastT = v, time.Now()
			} else if time.Since(lastT) > limit {
				c.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					c.Process.Kill()
					<-done
				}
				return "hang", eb.String()
			}
		}
	}
}

type limitedWriter struct {
	b *bytes.Buffer
	n int
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.n {
		w.b.Write(p)
	}
	return len(p), nil
}

func parent(property string, assumptions []string, laws []*Law) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vk-"+property+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	jobs := *fJobs
	if jobs == 0 {
		jobs = runtime.NumCPU()
		if jobs > 8 {
			jobs = 8
		}
	}
	var tasks []task
	for _, l := range laws {
		if *fLaw != "" && l.Name != *fLaw {
			continue
		}
		n := count(l, *fTier)
		sh := l.Shards
		if sh == 0 {
			sh = jobs
		}
		if sh > n {
			sh = n
		}
		for s := 0; s < sh; s++ {
			tasks = append(tasks, task{l, s, sh})
		}
	}
	outs := make([]*workerOut, len(tasks))
	hashes := map[string]map[uint64]bool{}
	var mu sync.Mutex
	var crashes []crash
	var errs []string
	stop := map[string]bool{} // laws that already failed
	hung := false
	sem := make(chan bool, jobs)
	var wg sync.WaitGroup
	for ti, tk := range tasks {
		sem <- true
		mu.Lock()
		skip := stop[tk.l.Name] || hung
		mu.Unlock()
		if skip {
			<-sem
			continue
		}
		wg.Add(1)
		go func(ti int, tk task) {
			defer wg.Done()
			defer func() { <-sem }()
			wd := filepath.Join(tmp, fmt.Sprintf("w%d", ti))
			os.Mkdir(wd, 0755)
			defer os.RemoveAll(wd)
			of := filepath.Join(tmp, fmt.Sprintf("o%d", ti))
			limit := tk.l.Timeout
			if limit == 0 {
				limit = 60 * time.Second
			}
			cmd := selfCmd(tk.l, wd, "-worker", "-law", tk.l.Name, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10),
				"-shard", strconv.Itoa(tk.shard), "-shards", strconv.Itoa(tk.shards), "-out", of, "-known", *fKnown, "-scale", fmt.Sprint(*fScale))
			kind, se := runWatched(cmd, of+".progress", limit)
			mu.Lock()
			defer mu.Unlock()
			if kind == "crash" || kind == "hang" {
				o := &workerOut{}
				if b, err := os.ReadFile(of); err == nil && json.Unmarshal(b, o) == nil && o.Fail != nil {
					outs[ti] = o
					stop[tk.l.Name] = true
					return
				}
			}
			switch kind {
			case "":
				b, err := os.ReadFile(of)
				o := &workerOut{}
				if err != nil || json.Unmarshal(b, o) != nil || !o.Done {
					errs = append(errs, fmt.Sprintf("law %s shard %d: no result", tk.l.Name, tk.shard))
					return
				}
				outs[ti] = o
				hb, _ := os.ReadFile(of + ".hashes")
				hs := hashes[tk.l.Name]
				if hs == nil {
					hs = map[uint64]bool{}
					hashes[tk.l.Name] = hs
				}
				for i := 0; i+8 <= len(hb); i += 8 {
					hs[binary.LittleEndian.Uint64(hb[i:])] = true
				}
				if o.Fail != nil {
					stop[tk.l.Name] = true
				}
				os.Remove(of + ".hashes")
			case "crash", "hang":
				idx := -1
				if b, err := os.ReadFile(of + ".progress"); err == nil && len(b) >= 8 {
					idx = int(binary.LittleEndian.Uint64(b)) - 1
				}
				crashes = append(crashes, crash{kind, se, idx, tk.l})
				stop[tk.l.Name] = true
				hung = hung || kind == "hang" // others may hang as well: start no more, and report this one
			default:
				errs = append(errs, fmt.Sprintf("law %s shard %d: %s", tk.l.Name, tk.shard, se))
			}
		}(ti, tk)
	}
	wg.Wait()

	var fails []*Replay
	type lawSum struct {
		Evals      int            `json:"evaluations"`
		NonTrivial int            `json:"nontrivial"`
		Distinct   int            `json:"distinct_nontrivial"`
		Classes    map[string]int `json:"classes,omitempty"`
		Discards   map[string]int `json:"discards,omitempty"`
		Rule       string         `json:"rule"`
		CPUS       float64        `json:"worker_s"`
	}
	sums := map[string]*lawSum{}
	var samples []string
	known := map[string]string{}
	knownN := map[string]int{}
	perLawSamples := map[string]int{}
	failLaw := map[string]bool{}
	for ti, o := range outs {
		if o == nil {
			continue
		}
		l := tasks[ti].l
		s := sums[l.Name]
		if s == nil {
			s = &lawSum{Classes: map[string]int{}, Discards: map[string]int{}, Rule: l.Rule}
			sums[l.Name] = s
		}
		s.Evals += o.Evals
		s.NonTrivial += o.NonTrivial
		s.CPUS += o.ElapsedS
		for k, v := range o.Classes {
			s.Classes[k] += v
		}
		for k, v := range o.Discards {
			s.Discards[k] += v
		}
		for _, x := range o.Samples {
			if perLawSamples[l.Name] < 3 {
				perLawSamples[l.Name]++
				samples = append(samples, l.Name+": "+x)
			}
		}
		for k, v := range o.Known {
			if _, ok := known[k]; !ok {
				known[k] = v
			}
			knownN[k] += o.KnownN[k]
		}
		if o.Fail != nil && !failLaw[l.Name] {
			failLaw[l.Name] = true
			fails = append(fails, o.Fail)
		}
	}
	for name, hs := range hashes {
		if sums[name] != nil {
			sums[name].Distinct = len(hs)
		}
	}
	// confirm crashes and hangs in a fresh process; shrink crashes
	for _, c := range crashes {
		if failLaw[c.law.Name] || len(fails) > 0 && time.Since(start) > 3*time.Minute {
			continue
		}
		rep, e := confirmCrash(tmp, c)
		if rep != nil {
			failLaw[c.law.Name] = true
			fails = append(fails, rep)
		} else {
			errs = append(errs, e)
		}
	}

	evals, distinct := 0, 0
	rules := []string{}
	names := []string{}
	for n := range sums {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := sums[n]
		evals += s.Evals
		distinct += s.Distinct
		rules = append(rules, n+": "+s.Rule)
		fmt.Printf("law %-28s evaluations %8d non-trivial %8d distinct %8d  %.1fs", n, s.Evals, s.NonTrivial, s.Distinct, s.CPUS)
		if len(s.Discards) > 0 {
			fmt.Printf(" discards %v", s.Discards)
		}
		fmt.Println()
		if *fVerbose {
			ks := []string{}
			for k := range s.Classes {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("      %-40s %d\n", k, s.Classes[k])
			}
		}
		if s.Evals > 20 && s.Distinct*5 < s.Evals && len(fails) == 0 && !strings.Contains(s.Rule, "[few]") {
			fmt.Printf("  warning: only %d of %d cases distinct and non-trivial\n", s.Distinct, s.Evals)
		}
	}
	wall := time.Since(start).Seconds()
	if *fEvidence != "" {
		excl := map[string]int{}
		for k, v := range knownN {
			excl[k] = v
		}
		ev := map[string]interface{}{
			"property": property, "tier": *fTier, "seed": *fSeed, "level": "exploration",
			"coverage": map[string]interface{}{
				"evaluations": evals, "distinct_nontrivial": distinct,
				"rule":    "A case is one generated input (its sequence of recorded choices); distinct = distinct choice sequences. " + strings.Join(rules, " | "),
				"samples": samples, "laws": sums, "known_finding_hits": excl,
			},
			"assumptions": assumptions, "wall_s": wall, "violations": len(fails),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*fEvidence), 0755)
		if err := os.WriteFile(*fEvidence, b, 0644); err != nil {
			errs = append(errs, err.Error())
		}
	}
	kk := []string{}
	for k := range knownIDs {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		if m, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (hit %d times; e.g. %s)\n", property, k, knownText[k], knownN[k], clip(m, 200))
		} else if *fLaw == "" {
			fmt.Printf("note: listed finding %s was not observed in this run\n", k)
		}
	}
	for _, f := range fails {
		path := filepath.Join(*fReplays, fmt.Sprintf("%s-%s-%016x.json", property, f.Law, hashChoices(f.Choices)))
		f.Command = "bash /verif/check.sh replay " + path
		os.MkdirAll(*fReplays, 0755)
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("law %s %s: %s\n  case: %s\n", f.Law, f.Kind, clip(f.Message, 1500), clip(f.Case, 1500))
		if f.Stack != "" {
			fmt.Println(clip(f.Stack, 2500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", property, path)
	}
	if len(fails) > 0 {
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Printf("ERROR %s\n", e)
		}
		return 2
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", property, *fTier, *fSeed, evals, distinct, wall)
	return 0
}

func confirmCrash(tmp string, c crash) (*Replay, string) {
	l := c.law
	limit := l.Timeout
	if limit == 0 {
		limit = 60 * time.Second
	}
	limit = limit * 5 / 4
	wd := filepath.Join(tmp, "confirm-"+l.Name)
	os.Mkdir(wd, 0755)
	of := filepath.Join(tmp, "confirm-"+l.Name+".out")
	rep := &Replay{Property: *fProp, Law: l.Name, Tier: *fTier, Seed: *fSeed, Index: c.index}
	attempt := func(args ...string) (kind, se string) {
		os.Remove(of)
		a := append([]string{"-worker", "-law", l.Name, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10), "-out", of, "-known", *fKnown}, args...)
		return runWatched(selfCmd(l, wd, a...), "", limit)
	}
	kind, se := "", ""
	for i := 0; i < 3 && kind != "crash" && kind != "hang"; i++ {
		kind, se = attempt("-case", strconv.Itoa(c.index))
	}
	if kind != "crash" && kind != "hang" {
		if c.kind == "crash" && strings.Contains(c.msg, "mlnoga/nightlight/internal") {
			// A genuine crash inside the code under test that depends on scheduling: still a violation.
			rep.Kind, rep.Message, rep.Stack = "crash", "(schedule dependent) "+crashHead(c.msg), clip(c.msg, 6000)
			return rep, ""
		}
		return nil, fmt.Sprintf("law %s case %d: %s not reproduced: %s", l.Name, c.index, c.kind, clip(c.msg, 1500))
	}
	rep.Kind, rep.Stack = kind, clip(se, 6000)
	rep.Message = crashHead(se)
	if kind == "hang" {
		rep.Message = fmt.Sprintf("case does not terminate within %v (confirmed in a fresh process)", limit)
	}
	if b, err := os.ReadFile(of + ".choices"); err == nil {
		for _, s := range strings.Fields(string(b)) {
			v, _ := strconv.ParseUint(s, 10, 64)
			rep.Choices = append(rep.Choices, v)
		}
	}
	if kind == "crash" && len(rep.Choices) > 0 && len(rep.Choices) < 20000 {
		evals := 0
		deadline := time.Now().Add(30 * time.Second)
		cf := filepath.Join(tmp, "choices.json")
		stop := func() bool { return evals > 200 || time.Now().After(deadline) }
		try := func(ch []uint64) bool {
			if stop() {
				return false
			}
			evals++
			b, _ := json.Marshal(ch)
			os.WriteFile(cf, b, 0644)
			k, s := attempt("-choices", cf)
			if k == "crash" {
				rep.Choices, rep.Stack, rep.Message, rep.Shrunk = ch, clip(s, 6000), crashHead(s), true
				return true
			}
			return false
		}
		shrinkLoop(func() []uint64 { return rep.Choices }, try, stop)
	}
	return rep, ""
}

func replayFile(laws []*Law) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	l := findLaw(laws, r.Law)
	if l == nil {
		fmt.Println("no law", r.Law)
		return 2
	}
	if exe, _ := os.Executable(); l.Race && !strings.HasSuffix(exe, "-race") {
		c := selfCmd(l, "", "-replay", *fReplay, "-known", *fKnown)
		b, err := c.CombinedOutput()
		os.Stdout.Write(b)
		if err != nil && isCrash(string(b)) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *fReplay)
			return 1
		}
		return c.ProcessState.ExitCode()
	}
	tmp, _ := os.MkdirTemp("", "vk-replay-")
	defer os.RemoveAll(tmp)
	os.Chdir(tmp)
	if l.Init != nil {
		l.Init()
	}
	x := runCase(l, replayG(r.Choices), tmp, 0)
	fmt.Printf("law %s\ncase: %s\n", l.Name, x.t.desc)
	if x.status == 1 {
		fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", x.msg, x.stack, r.Property, *fReplay)
		return 1
	}
	fmt.Println("not reproduced (the case passes)")
	return 0
}
