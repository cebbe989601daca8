package main

// The runner: one orchestrating process, several worker processes. Workers
// draw cases from rapid, journal each before running it, and report counts,
// samples and the shrunk failing case. The orchestrator confirms the deaths
// and hangs of workers in fresh processes, writes evidence and replay files
// and decides the outcome of the check.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Outcome of running one case.
type Outcome struct {
	Fail    string   // the property is violated, and how
	Trivial bool     // the case does not count as non-trivial
	Labels  []string // classification
	Known   []string // known findings met
	Infra   string   // the check could not decide (missing tool, no memory)
}

func fail(format string, args ...any) Outcome {
	return Outcome{Fail: fmt.Sprintf(format, args...)}
}

// Sub is one generated check of a property.
type Sub struct {
	Name     string
	Quick    int // cases in the quick tier, all shards together
	Thorough int
	Single   bool         // run all cases in one shard
	Fixed    func() []any // cases run once, before generated ones, by shard 0
	gen      func(g *G) any
	check    func(c any) Outcome
	decode   func(js []byte) (any, error)
}

func mk[C any](name string, quick, thorough int, gen func(g *G) C, check func(c C) Outcome) *Sub {
	s := &Sub{
		Name: name, Quick: quick, Thorough: thorough,
		check: func(c any) Outcome { return check(c.(C)) },
		decode: func(js []byte) (any, error) {
			var c C
			err := json.Unmarshal(js, &c)
			return c, err
		},
	}
	if gen != nil {
		s.gen = func(g *G) any { return gen(g) }
	}
	return s
}

// Prop is a property with its generated checks.
type Prop struct {
	ID    string
	Level string
	Rule  string // how cases are made and what makes one non-trivial
	Subs  []*Sub
	Init  func(env *Env) error // runs in every worker
}

// Env is what workers know about their run.
type Env struct {
	Tier    string
	Scratch string // private to the run, removed afterwards
	CLI     string // the built command
	Seed    int64
	Budget  time.Duration // for generated cases
}

var env Env

// quickScale multiplies the quick budgets of properties whose cases are cheap.
var quickScale = map[string]int{
	"C01": 10, "C02": 8, "C03": 10, "C04": 4, "C05": 30, "C06": 8, "C07": 20, "C08": 8,
	"C09": 20, "C10": 36, "C11": 18, "C12": 10, "C13": 14, "C14": 48, "C15": 20,
	"C16": 10, "C17": 2, "C19": 6, "C20": 3,
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// knownFindings are the recorded defects: "property id" to their description.
var knownFindings = map[string]string{}

func loadKnown() {
	path := os.Getenv("VERIF_KNOWN")
	if path == "" {
		path = filepath.Join(verifDir(), "known_findings.txt")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" {
			knownFindings[strings.TrimPrefix(f[1], "property=")+" "+strings.TrimPrefix(f[2], "id=")] = f[3]
		}
	}
}

// settle turns a finding that is not recorded into a failure.
func settle(p *Prop, out Outcome) Outcome {
	for _, k := range out.Known {
		if _, ok := knownFindings[p.ID+" "+k]; !ok && out.Fail == "" {
			out.Fail = "finding " + k + ", which known_findings.txt does not list for this property"
		}
	}
	return out
}

// replayCase is the content of a replay file.
type replayCase struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	How      string          `json:"how"`
	Case     json.RawMessage `json:"case"`
}

// shardResult is what a worker reports.
type shardResult struct {
	Done    bool
	Evals   map[string]int
	Trivial int
	Labels  map[string]int
	Known   map[string]int
	Hashes  []uint64
	Samples map[string][]json.RawMessage
	Fail    *replayCase
	Infra   string
}

// ---- worker

type workerTB struct {
	name   string
	failed bool
	log    bytes.Buffer
}

type stopTB struct{}

func (w *workerTB) Helper()                 {}
func (w *workerTB) Name() string            { return w.name }
func (w *workerTB) Logf(f string, a ...any) { w.Log(fmt.Sprintf(f, a...)) }
func (w *workerTB) Log(a ...any) {
	if w.log.Len() < 1<<16 {
		fmt.Fprintln(&w.log, a...)
	}
}
func (w *workerTB) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (w *workerTB) Skip(a ...any)             { panic(stopTB{}) }
func (w *workerTB) SkipNow()                  { panic(stopTB{}) }
func (w *workerTB) Errorf(f string, a ...any) { w.Logf(f, a...); w.failed = true }
func (w *workerTB) Error(a ...any)            { w.Log(a...); w.failed = true }
func (w *workerTB) Fatalf(f string, a ...any) { w.Logf(f, a...); w.FailNow() }
func (w *workerTB) Fatal(a ...any)            { w.Log(a...); w.FailNow() }
func (w *workerTB) FailNow()                  { w.failed = true; panic(stopTB{}) }
func (w *workerTB) Fail()                     { w.failed = true }
func (w *workerTB) Failed() bool              { return w.failed }

type journal struct{ f *os.File }

// put records the case about to run.
func (j *journal) put(sub string, js []byte) {
	if j.f == nil {
		return
	}
	rec := make([]byte, 0, len(js)+len(sub)+24)
	rec = append(rec, fmt.Sprintf("%012d ", len(js))...)
	rec = append(rec, sub...)
	rec = append(rec, '\n')
	rec = append(rec, js...)
	if _, err := j.f.WriteAt(rec, 0); err != nil {
		fmt.Fprintln(os.Stderr, "journal:", err)
		os.Exit(4)
	}
}

func readJournal(path string) (sub string, js []byte, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 13 {
		return "", nil, false
	}
	n, err := strconv.Atoi(string(b[:12]))
	if err != nil {
		return "", nil, false
	}
	i := bytes.IndexByte(b, '\n')
	if i < 0 || i+1+n > len(b) {
		return "", nil, false
	}
	return string(b[13:i]), b[i+1 : i+1+n], true
}

// guarded runs a check and turns a panic inside the code under test into a
// failure. Other panics are defects of the harness and end the worker.
func guarded(s *Sub, c any) (out Outcome) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if i := strings.Index(stack, "panic("); i >= 0 {
				stack = stack[i:]
			}
			// The first frames after panic belong to whoever panicked.
			lines := strings.Split(stack, "\n")
			blame := false
			for _, l := range lines {
				if strings.HasPrefix(l, "main.") {
					break
				}
				if strings.Contains(l, "mmcloughlin/ssarules/") {
					blame = true
					break
				}
			}
			if !blame {
				fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, debug.Stack())
				os.Exit(4)
			}
			out = fail("panic in the code under test: %v", r)
		}
	}()
	return s.check(c)
}

func runWorker(p *Prop, shard, shards int, seed int64, only string, outPath, journalPath string) {
	limitWorker()
	res := &shardResult{Evals: map[string]int{}, Labels: map[string]int{}, Known: map[string]int{}, Samples: map[string][]json.RawMessage{}}
	var j journal
	if journalPath != "" {
		f, err := os.Create(journalPath)
		if err != nil {
			fatalf("%v", err)
		}
		j.f = f
	}
	if p.Init != nil {
		if err := p.Init(&env); err != nil {
			fatalf("init: %v", err)
		}
	}
	hashes := map[uint64]bool{}
	finish := func() {
		for h := range hashes {
			res.Hashes = append(res.Hashes, h)
		}
		res.Done = true
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(outPath, b, 0o644)
		}
		if err != nil {
			fatalf("%v", err)
		}
	}
	one := func(s *Sub, c any) (js []byte, out Outcome) {
		js, err := json.Marshal(c)
		if err != nil {
			fatalf("marshal: %v", err)
		}
		j.put(s.Name, js)
		out = settle(p, guarded(s, c))
		if out.Infra != "" {
			res.Infra = s.Name + ": " + out.Infra
			finish()
			os.Exit(0)
		}
		return js, out
	}
	record := func(s *Sub, js []byte, out Outcome) {
		res.Evals[s.Name]++
		for _, l := range out.Labels {
			res.Labels[s.Name+"/"+l]++
		}
		for _, k := range out.Known {
			res.Known[k]++
		}
		if out.Trivial {
			res.Trivial++
			return
		}
		h := fnv.New64a()
		h.Write([]byte(s.Name))
		h.Write(js)
		hashes[h.Sum64()] = true
		n := res.Evals[s.Name]
		if shard == 0 && len(js) < 4000 && (n&(n-1)) == 0 && n >= 4 && len(res.Samples[s.Name]) < 6 {
			res.Samples[s.Name] = append(res.Samples[s.Name], append(json.RawMessage(nil), js...))
		}
	}
	end := time.Now().Add(env.Budget)
	for si, s := range p.Subs {
		if only != "" && s.Name != only {
			continue
		}
		// Each check gets an equal share of the time that is left.
		share := time.Now().Add(time.Until(end) / time.Duration(len(p.Subs)-si))
		if s.Fixed != nil && shard == 0 {
			for _, c := range s.Fixed() {
				js, out := one(s, c)
				record(s, js, out)
				if out.Fail != "" {
					res.Fail = &replayCase{Property: p.ID, Sub: s.Name, Message: out.Fail, How: "fixed case", Case: js}
					finish()
					return
				}
			}
		}
		if s.gen == nil {
			continue
		}
		total := s.Quick
		if k := quickScale[p.ID]; k > 0 && s.Name != "deep" && s.Name != "huge" && s.Name != "crowd" {
			total *= k
		}
		if env.Tier == "thorough" {
			total = s.Thorough
		}
		n := total / shards
		if shard < total%shards {
			n++
		}
		if s.Single {
			n = 0
			if shard == si%shards {
				n = total
			}
		}
		if n == 0 {
			continue
		}
		var failJS []byte
		var failMsg string
		// The last part of the time is for guided search.
		guided := canGuide(p, s)
		randomEnd, guidedN := share, 0
		if guided {
			guidedN = n / 2
			n -= guidedN
			randomEnd = time.Now().Add(time.Until(share) / 2)
		}
		began := time.Now()
		pool := newPool()
		prop := func(t *rapid.T) {
			if failJS == nil && time.Now().After(randomEnd) {
				res.Labels[s.Name+"/workers out of time"] = 1
				return
			}
			g := &G{t: t}
			c := s.gen(g)
			if guided {
				pool.watch()
			}
			js, out := one(s, c)
			if guided && failJS == nil {
				pool.consider(g.list, g.spans)
			}
			if out.Fail != "" {
				failJS, failMsg = js, out.Fail
				t.Fatalf("%s: property violated", s.Name)
			}
			if failJS == nil {
				record(s, js, out)
			}
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%s/%d/%d", p.ID, s.Name, seed, shard)
		rs := h.Sum64()>>1 | 1
		flag.Set("rapid.seed", strconv.FormatUint(rs, 10))
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "20s")
		tb := &workerTB{name: p.ID + s.Name}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopTB); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, prop)
		}()
		if failJS != nil {
			res.Fail = &replayCase{Property: p.ID, Sub: s.Name, Message: failMsg, How: fmt.Sprintf("rapid seed %d, shrunk", rs), Case: failJS}
			finish()
			return
		}
		if tb.failed {
			res.Infra = s.Name + ": generator: " + tb.log.String()
			finish()
			return
		}
		if guided && len(pool.seen) > 0 {
			rnd := guidedRand(rs)
			// Lists that reach much are long, so their cases take longer.
			guidedEnd := time.Now().Add(time.Since(began)*3/2 + 2*time.Second)
			var spans []span
			run := func(plan plan) ([]choice, []byte, Outcome) {
				g := &G{tape: &tape{rnd: rnd, plan: plan}}
				c := s.gen(g)
				pool.watch()
				js, out := one(s, c)
				spans = g.spans
				return g.list, js, out
			}
			pool.begin(newExchange(filepath.Dir(env.Scratch), s.Name, shard, shards))
			var plans [][]choice
			for k := guidedN; k > 0 && failJS == nil; k-- {
				if time.Now().After(share) {
					res.Labels[s.Name+"/workers out of time"] = 1
					break
				}
				if time.Now().After(guidedEnd) {
					break
				}
				if k%100 == 0 {
					plans = append(plans, pool.share.get()...)
				}
				var next plan
				if n := len(plans); n > 0 {
					next.list = plans[n-1]
					plans = plans[:n-1]
				} else {
					next = pool.change(rnd)
				}
				list, js, out := run(next)
				if out.Fail == "" {
					pool.consider(list, spans)
					record(s, js, out)
					res.Labels[s.Name+"/guided"]++
					continue
				}
				failJS, failMsg = js, out.Fail
				if len(list) > maxChoices {
					break
				}
				shrinkChoices(append([]choice(nil), list...), func(list []choice) ([]choice, bool) {
					list, js, out := run(plan{list: list})
					if out.Fail != "" && len(js) <= len(failJS) {
						failJS, failMsg = js, out.Fail
					}
					return list, out.Fail != ""
				})
			}
			res.Labels[s.Name+"/guided: features"] += len(pool.seen)
			if failJS != nil {
				res.Fail = &replayCase{Property: p.ID, Sub: s.Name, Message: failMsg, How: fmt.Sprintf("guided search, seed %d, shrunk", rs), Case: failJS}
				finish()
				return
			}
		}
	}
	finish()
}

// limitWorker bounds the memory of this process, so that a case that allocates
// without end ends this process rather than the sandbox.
func limitWorker() {
	debug.SetMaxStack(512 << 20)
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

func fatalf(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(4)
}

// ---- replay

// runReplay runs the case of a replay file once. Exit status 1 if it fails.
func runReplay(path string) {
	limitWorker()
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var rc replayCase
	if err := json.Unmarshal(b, &rc); err != nil {
		fatalf("%v", err)
	}
	p := props[rc.Property]
	if p == nil {
		fatalf("unknown property %q", rc.Property)
	}
	if p.Init != nil {
		if err := p.Init(&env); err != nil {
			fatalf("init: %v", err)
		}
	}
	for _, s := range p.Subs {
		if s.Name != rc.Sub {
			continue
		}
		c, err := s.decode(rc.Case)
		if err != nil {
			fatalf("%v", err)
		}
		out := settle(p, guarded(s, c))
		if out.Infra != "" {
			fatalf("%s", out.Infra)
		}
		if out.Fail != "" {
			fmt.Printf("%s/%s fails:\n%s\n", rc.Property, rc.Sub, out.Fail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rc.Property, path)
			os.Exit(1)
		}
		for _, k := range out.Known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", rc.Property, knownFindings[p.ID+" "+k])
		}
		fmt.Printf("%s/%s holds for this case\n", rc.Property, rc.Sub)
		return
	}
	fatalf("unknown check %q", rc.Sub)
}

// ---- orchestrator

const hangAfter = 90 * time.Second // without progress, before a case is suspected
const hangCPU = 60                 // seconds of CPU that confirm it

type shardRun struct {
	id      int
	out     string
	journal string
	stderr  bytes.Buffer
	err     error
	hung    atomic.Bool
	res     *shardResult
}

// budget is how many seconds a worker may take for generated cases.
func budget(par, shards int) int {
	secs, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil || secs <= 0 {
		secs = 420
		if env.Tier == "thorough" {
			secs = 660
		}
	}
	return secs * par / shards
}

func orchestrate(p *Prop, seed int64, only string) int {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	const shards = 8
	par := runtime.NumCPU()
	if par > shards {
		par = shards
	}
	sem := make(chan bool, par)
	runs := make([]*shardRun, shards)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var procs []*exec.Cmd
	stopped := false
	stop := func() {
		mu.Lock()
		defer mu.Unlock()
		if stopped {
			return
		}
		stopped = true
		for _, c := range procs {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		}
	}
	for i := range runs {
		r := &shardRun{id: i, out: filepath.Join(env.Scratch, fmt.Sprintf("out%d.json", i)), journal: filepath.Join(env.Scratch, fmt.Sprintf("journal%d", i))}
		runs[i] = r
		os.Remove(r.out)
		os.Remove(r.journal)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			dir := filepath.Join(env.Scratch, fmt.Sprintf("w%d", r.id))
			os.MkdirAll(dir, 0o755)
			cmd := exec.Command(self, "worker", p.ID, strconv.Itoa(r.id), strconv.Itoa(shards), strconv.FormatInt(seed, 10), only, r.out, r.journal, env.Tier, dir, env.CLI, strconv.Itoa(budget(par, shards)))
			cmd.Dir = dir
			cmd.Stderr = &r.stderr
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", raceOptions(dir))
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			mu.Lock()
			if stopped {
				mu.Unlock()
				return
			}
			r.err = cmd.Start()
			if r.err == nil {
				procs = append(procs, cmd)
			}
			mu.Unlock()
			if r.err != nil {
				return
			}
			done := make(chan bool)
			go func() {
				// Watch for a lack of progress.
				last, lastT := time.Time{}, time.Now()
				for {
					select {
					case <-done:
						return
					case <-time.After(time.Second):
					}
					if st, err := os.Stat(r.journal); err == nil && st.ModTime() != last {
						last, lastT = st.ModTime(), time.Now()
					}
					if time.Since(lastT) > hangAfter {
						r.hung.Store(true)
						syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
						return
					}
				}
			}()
			r.err = cmd.Wait()
			close(done)
			if b, err := os.ReadFile(r.out); err == nil {
				var res shardResult
				if json.Unmarshal(b, &res) == nil {
					r.res = &res
					if res.Fail != nil {
						stop()
					}
				}
			}
			if r.res == nil {
				stop()
			}
		}()
	}
	wg.Wait()

	// Merge.
	total, trivial := 0, 0
	evals := map[string]int{}
	labels := map[string]int{}
	known := map[string]int{}
	distinct := map[uint64]bool{}
	samples := map[string][]json.RawMessage{}
	var failure *replayCase
	problem := ""
	for _, r := range runs {
		if r.res == nil {
			continue
		}
		for k, v := range r.res.Evals {
			evals[k] += v
			total += v
		}
		for k, v := range r.res.Labels {
			labels[k] += v
		}
		for k, v := range r.res.Known {
			known[k] += v
		}
		trivial += r.res.Trivial
		for _, h := range r.res.Hashes {
			distinct[h] = true
		}
		for k, v := range r.res.Samples {
			samples[k] = append(samples[k], v...)
		}
		if f := r.res.Fail; f != nil && (failure == nil || len(f.Case) < len(failure.Case)) {
			failure = f
		}
		if r.res.Infra != "" && problem == "" {
			problem = r.res.Infra
		}
	}
	if failure == nil {
		for _, r := range runs {
			if r.res != nil || r.err == nil && !r.hung.Load() {
				continue
			}
			if f, why := confirmDeath(p, self, r); f != nil {
				failure = f
				break
			} else if problem == "" && why != "" {
				problem = why
			}
		}
	}

	violations := 0
	replayPath := ""
	if failure != nil {
		violations = 1
		replayPath = writeReplay(failure)
	}
	flat := []any{}
	var subs []string
	for _, s := range p.Subs {
		subs = append(subs, s.Name)
	}
	for _, s := range subs {
		for _, js := range samples[s] {
			flat = append(flat, map[string]any{"check": s, "case": js})
		}
	}
	if failure != nil {
		flat = append(flat, map[string]any{"check": failure.Sub, "violating": true, "case": failure.Case})
	}
	if len(flat) > 24 {
		flat = flat[:24]
	}
	ev := map[string]any{
		"property": p.ID, "tier": env.Tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": flat, "per_check": evals, "trivial": trivial, "classes": labels,
			"known_findings_met": known,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
	}
	if only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		evPath := filepath.Join(verifDir(), "evidence", p.ID+".json")
		os.MkdirAll(filepath.Dir(evPath), 0o755)
		if err := os.WriteFile(evPath, append(b, '\n'), 0o644); err != nil {
			fatalf("%v", err)
		}
	}
	if failure != nil {
		fmt.Printf("%s/%s: %s\n", failure.Property, failure.Sub, failure.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		return 1
	}
	if problem != "" {
		fmt.Fprintf(os.Stderr, "%s: check could not decide: %s\n", p.ID, problem)
		return 3
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, knownFindings[p.ID+" "+k])
	}
	fmt.Printf("%s: held on %d cases (%d distinct and non-trivial) in %.1fs, tier %s, seed %d\n", p.ID, total, len(distinct), time.Since(start).Seconds(), env.Tier, seed)
	if os.Getenv("VERIF_STATS") != "" {
		var ls []string
		for l := range labels {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			fmt.Printf("  %-40s %d\n", l, labels[l])
		}
	}
	return 0
}

func writeReplay(rc *replayCase) string {
	dir := filepath.Join(verifDir(), "replays", rc.Property)
	os.MkdirAll(dir, 0o755)
	h := fnv.New64a()
	h.Write([]byte(rc.Sub))
	h.Write(rc.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", rc.Sub, h.Sum64()))
	b, _ := json.MarshalIndent(rc, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	return path
}

// confirmDeath reruns the last journalled case of a dead or stuck worker in a
// fresh process. Only a death or an exhausted CPU allowance that repeats
// there, without any sign of outside causes, is a violation.
func confirmDeath(p *Prop, self string, r *shardRun) (*replayCase, string) {
	describe := fmt.Sprintf("worker %d ended: %v: %s", r.id, r.err, tail(r.stderr.String(), 2000))
	if r.hung.Load() {
		describe = fmt.Sprintf("worker %d made no progress for %v", r.id, hangAfter)
	}
	for _, l := range strings.Split(r.stderr.String(), "\n") {
		if strings.HasPrefix(l, "harness: ") || strings.HasPrefix(l, "harness panic: ") || strings.HasPrefix(l, "journal: ") {
			return nil, describe
		}
	}
	sub, js, ok := readJournal(r.journal)
	if !ok {
		return nil, describe + " (no journal)"
	}
	rc := &replayCase{Property: p.ID, Sub: sub, How: "journalled case of a worker that ended", Case: append(json.RawMessage(nil), js...)}
	tmp := filepath.Join(env.Scratch, "confirm.json")
	b, _ := json.Marshal(rc)
	os.WriteFile(tmp, b, 0o644)
	cmd := exec.Command("bash", "-c", fmt.Sprintf("ulimit -t %d; exec \"$0\" \"$@\"", hangCPU), self, "replay", tmp, env.Tier, env.Scratch, env.CLI)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", raceOptions(env.Scratch))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	timer := time.AfterFunc(5*time.Minute, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	inTime := timer.Stop()
	if err == nil {
		return nil, describe + " (not reproduced)"
	}
	ee, _ := err.(*exec.ExitError)
	ws, _ := ee.Sys().(syscall.WaitStatus)
	switch {
	case !inTime:
		// It neither ended nor used its CPU allowance: blocked.
		rc.Message = "the operation does not return (blocked for 5 minutes)"
		return rc, ""
	case ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL) && cpuOf(cmd) >= hangCPU-5:
		rc.Message = fmt.Sprintf("the operation does not end within %d s of CPU time", hangCPU)
		return rc, ""
	case ws.Exited() && ws.ExitStatus() == 2 && blames(stderr.String()):
		rc.Message = "the process dies: " + firstLines(stderr.String(), 3)
		return rc, ""
	case ws.Exited() && ws.ExitStatus() == 1:
		rc.Message = "fails when run on its own"
		return rc, ""
	}
	return nil, describe + "; rerun: " + err.Error() + " " + tail(stderr.String(), 1000)
}

// raceOptions make the race detector report every race to a file.
func raceOptions(dir string) string {
	return "GORACE=log_path=" + filepath.Join(dir, "race") + " suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0"
}

// blames reports whether a crash report is one of the code under test: a fatal
// error of the runtime with frames of it on the stack.
func blames(stderr string) bool {
	if !strings.Contains(stderr, "mmcloughlin/ssarules/") {
		return false
	}
	for _, x := range []string{"stack overflow", "out of memory", "concurrent map", "all goroutines are asleep", "panic:", "cannot allocate memory"} {
		if strings.Contains(stderr, x) {
			return true
		}
	}
	return false
}

func cpuOf(cmd *exec.Cmd) int {
	if cmd.ProcessState == nil {
		return 0
	}
	return int((cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()).Seconds())
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func firstLines(s string, n int) string {
	lines := strings.SplitN(s, "\n", n+1)
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, " | ")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}
