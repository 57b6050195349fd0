// Package drv is the common main program of every harness: it distributes
// exploration jobs over worker processes, confirms and minimises violations,
// writes the evidence file and reports.
package drv

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/mc/mc/vcrand"
	"verif.local/mc/mc/vrand"
	"verif.local/mc/mc/vsched"
	"verif.local/mc/mc/vsync"
)

// Unit is one bounded space to explore completely.
type Unit struct {
	Name    string
	Bound   int  // deviation bound
	Thread  bool // controlled scheduler (otherwise sequential)
	Delay   bool // count every non-default thread choice as a deviation
	Early   int  // early clock steps
	Exact   bool // no early clock steps in stalled schedules
	Steps   int  // per-execution horizon (0: default)
	Spin    int
	Stall   int // turns a waiting thread may take before the others go on (0: none)
	Shards  int // processes that split this unit (0: 1)
	Split   int // sequential sharding: number of leading choices hashed
	BFS     bool
	States  int // BFS: state limit
	Pool    int // pool answers: 0 last, 1 last or new, 2 any
	PoolDev bool
	NoReset []string // packages whose state need not be reset before each execution
	Setup   func()
	Body    func()
}

// Check describes one property's check.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Bounds      string
	Assumptions []string
	Units       func(thorough bool) []Unit
}

type job struct {
	Unit     int     `json:"unit"`
	Shard    int     `json:"shard"`
	Shards   int     `json:"shards"`
	Bound    int     `json:"bound"`
	Deadln   int64   `json:"deadline"`
	Replay   []int32 `json:"replay,omitempty"`
	Start    []int32 `json:"start,omitempty"`
	IsReplay bool    `json:"is_replay,omitempty"`
}

type result struct {
	Job   job                `json:"job"`
	Stats *vsched.Stats      `json:"stats,omitempty"`
	Fail  *vsched.FailureRec `json:"fail,omitempty"`
	Note  string             `json:"note,omitempty"`
}

// Thorough tells harness bodies which tier runs.
var Thorough bool

// Notes are extra facts for the evidence file, produced by workers.
var thoroughFlag = flag.Bool("thorough", false, "thorough tier")
var workerFlag = flag.Bool("worker", false, "internal")
var replayFlag = flag.String("replay", "", "replay a recorded violation")
var unitFlag = flag.String("unit", "", "only units whose name contains this")
var budgetFlag = flag.Int("budget", 0, "wall-clock budget in seconds")
var outFlag = flag.String("evidence", "", "evidence file")
var verbose = flag.Bool("v", false, "print each unit's numbers")

func unitOpts(u *Unit) vsched.Options {
	o := vsched.Options{Bound: u.Bound, Seq: !u.Thread, MaxEarly: u.Early, Delay: u.Delay, MaxSteps: u.Steps, Spin: u.Spin, Stall: u.Stall, ShardLen: u.Split}
	if !u.Thread && !u.BFS {
		if o.Bound == 0 {
			o.Bound = 1 << 20
		}
	}
	return o
}

func prep(u *Unit) {
	vsync.PoolMode = u.Pool
	vsync.PoolDev = u.PoolDev
	vrand.HeightHook, vrand.Pick = nil, nil
	vcrand.Reset()
	vsched.ClockStep = 0
	vsched.NoReset = u.NoReset
	if u.Setup != nil {
		u.Setup()
	}
}

func runJob(u *Unit, j job) *vsched.Stats {
	s := runJob1(u, j)
	if len(s.Failures) > 0 && s.Failures[0].Kind == "divergence" && !vsched.ResetSeq {
		// The package keeps state between executions.
		vsched.ResetSeq = true
		s = runJob1(u, j)
	}
	return s
}

func runJob1(u *Unit, j job) *vsched.Stats {
	prep(u)
	o := unitOpts(u)
	if j.Bound >= 0 {
		o.Bound = j.Bound
	}
	if u.BFS {
		return vsched.BFS(o, u.States, u.Body)
	}
	o.Shard, o.Shards, o.Start = j.Shard, j.Shards, j.Start
	return vsched.Explore(o, u.Body)
}

func replayJob(u *Unit, j job) *vsched.FailureRec {
	f := replayJob1(u, j)
	if (f == nil || f.Kind == "divergence") && !vsched.ResetSeq {
		vsched.ResetSeq = true
		f = replayJob1(u, j)
	}
	return f
}

func replayJob1(u *Unit, j job) *vsched.FailureRec {
	prep(u)
	o := unitOpts(u)
	if j.Bound >= 0 {
		o.Bound = j.Bound
	}
	if u.BFS {
		o.Bound = 1 << 20
	}
	f, tr := vsched.Replay(o, j.Replay, u.Body)
	if f == nil {
		return nil
	}
	return &vsched.FailureRec{Kind: f.Kind, Msg: f.Msg, Choices: j.Replay, Trace: tr}
}

func worker(units []Unit) {
	in := bufio.NewReader(os.Stdin)
	out := os.NewFile(3, "results")
	var mu sync.Mutex
	emit := func(r result) {
		mu.Lock()
		defer mu.Unlock()
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
	var cur job
	vsched.RSSLimit = 1200 << 20
	vsched.Watch(20*time.Second, 3500<<20, func(rec vsched.FailureRec) {
		emit(result{Job: cur, Fail: &rec, Note: "killed"})
		os.Exit(0)
	})
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if json.Unmarshal(line, &j) != nil {
			return
		}
		cur = j
		vsched.Deadline = time.Unix(0, j.Deadln)
		u := &units[j.Unit]
		if j.IsReplay {
			emit(result{Job: j, Fail: replayJob(u, j)})
			continue
		}
		emit(result{Job: j, Stats: runJob(u, j)})
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
	dir string

	hist []job // what it has been asked to do
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[:1<<13]...)
	}
	return len(p), nil
}

func start(args []string) (*proc, error) {
	exe, _ := os.Executable()
	c := exec.Command(exe, append(args, "-worker")...)
	dir, err := os.MkdirTemp(os.TempDir(), "vw")
	if err != nil {
		return nil, err
	}
	c.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"), "GOMAXPROCS=2")
	c.Dir = dir
	in, _ := c.StdinPipe()
	rp, wp, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.ExtraFiles = []*os.File{wp}
	t := &tail{}
	c.Stderr = t
	c.Stdout = t
	if err := c.Start(); err != nil {
		return nil, err
	}
	wp.Close()
	return &proc{c, in, bufio.NewReaderSize(rp, 1<<20), t, dir, nil}, nil
}

func (p *proc) do(j job) (result, error) {
	p.hist = append(p.hist, j)
	b, _ := json.Marshal(j)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return result{}, err
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return result{}, err
	}
	var r result
	err = json.Unmarshal(line, &r)
	return r, err
}

func (p *proc) close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	os.RemoveAll(p.dir)
}

func (p *proc) raceText() string {
	fs, _ := filepath.Glob(filepath.Join(p.dir, "race.*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if len(b) > 0 {
			s := string(b)
			if len(s) > 3000 {
				s = s[:3000]
			}
			return s
		}
	}
	return ""
}

// Main runs the check.
func Main(c Check) {
	flag.Parse()
	Thorough = *thoroughFlag
	units := c.Units(Thorough)
	if *workerFlag {
		debug.SetGCPercent(400)
		worker(units)
		return
	}
	os.Exit(parent(c, units))
}

type replayFile struct {
	Property  string   `json:"property"`
	Unit      string   `json:"unit"`
	Thorough  bool     `json:"thorough"`
	Bound     int      `json:"bound"`
	Choices   []int32  `json:"choices"`
	Kind      string   `json:"kind"`
	Message   string   `json:"message"`
	Trace     []string `json:"trace"`
	Race      string   `json:"race_report,omitempty"`
	Confirmed string   `json:"confirmed"`
	Jobs      []job    `json:"jobs,omitempty"`
	Command   string   `json:"command"`
}

func parent(c Check, units []Unit) int {
	begin := time.Now()
	tier := "quick"
	budget := 240
	if Thorough {
		tier = "thorough"
		budget = 1500
	}
	if *budgetFlag > 0 {
		budget = *budgetFlag
	}
	deadline := begin.Add(time.Duration(budget) * time.Second)
	args := []string{}
	if Thorough {
		args = append(args, "-thorough")
	}
	if *replayFlag != "" {
		return doReplay(c, units, args)
	}
	var jobs []job
	for i := range units {
		if *unitFlag != "" && !strings.Contains(units[i].Name, *unitFlag) {
			continue
		}
		n := units[i].Shards
		if n == 0 || units[i].BFS {
			n = 1
		}
		for s := 0; s < n; s++ {
			jobs = append(jobs, job{Unit: i, Shard: s, Shards: n, Bound: -1, Deadln: deadline.UnixNano()})
		}
	}
	nw := runtime.NumCPU()
	if nw > len(jobs) {
		nw = len(jobs)
	}
	jobc := make(chan job)
	type outcome struct {
		r    result
		err  error
		tail string
		race string
		hist []job
	}
	resc := make(chan outcome, len(jobs))
	stop := make(chan struct{})
	var stopOnce sync.Once
	var mu sync.Mutex
	var procs []*proc
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.close()
				}
			}()
			for j := range jobc {
				if p == nil {
					var err error
					p, err = start(args)
					if err != nil {
						resc <- outcome{err: err}
						return
					}
					mu.Lock()
					procs = append(procs, p)
					mu.Unlock()
				}
				r, err := p.do(j)
				for err == nil && r.Stats != nil && r.Stats.Resume != nil && len(r.Stats.Failures) == 0 {
					// continue in a fresh process
					so := r.Stats
					j.Start, so.Resume = so.Resume, nil
					p.close()
					if p, err = start(args); err != nil {
						break
					}
					mu.Lock()
					procs = append(procs, p)
					mu.Unlock()
					if r, err = p.do(j); err == nil && r.Stats != nil {
						fl := r.Stats.Failures
						r.Stats.Failures = nil
						rs := r.Stats.Resume
						so.Merge(r.Stats)
						so.Failures, so.Resume = fl, rs
						r.Stats = so
					}
				}
				if p == nil {
					resc <- outcome{r: result{Job: j}, err: err}
					continue
				}
				if err != nil {
					select {
					case <-stop:
						return
					default:
					}
					p.cmd.Wait()
					p.err.mu.Lock()
					t := string(p.err.b)
					p.err.mu.Unlock()
					resc <- outcome{r: result{Job: j}, err: err, tail: t}
					p.close()
					p = nil
					continue
				}
				o := outcome{r: r, hist: p.hist}
				if r.Stats != nil && len(r.Stats.Failures) > 0 && r.Stats.Failures[0].Kind == "race" {
					o.race = p.raceText()
				}
				resc <- o
				if r.Note == "killed" {
					p.close()
					p = nil
				}
			}
		}()
	}
	go func() {
		defer close(jobc)
		for _, j := range jobs {
			select {
			case jobc <- j:
			case <-stop:
				return
			}
		}
	}()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()

	per := map[int]*vsched.Stats{}
	finished := map[int]int{}
	type failing struct {
		j    job
		rec  vsched.FailureRec
		race string
		hist []job
	}
	var fails []failing
	var crash string
	collect := func(o outcome) {
		if o.err != nil {
			crash = fmt.Sprintf("worker ended unexpectedly in unit %q: %v\n%s", units[o.r.Job.Unit].Name, o.err, o.tail)
			if k := crashKind(o.tail); k != "" {
				fails = append(fails, failing{o.r.Job, vsched.FailureRec{Kind: "crash", Msg: k}, "", nil})
			}
			stopOnce.Do(func() { close(stop) })
			return
		}
		u := o.r.Job.Unit
		finished[u]++
		if o.r.Fail != nil {
			fails = append(fails, failing{o.r.Job, *o.r.Fail, "", o.hist})
			stopOnce.Do(func() { close(stop) })
		}
		if o.r.Stats != nil {
			if per[u] == nil {
				per[u] = &vsched.Stats{Exhaustive: true}
			}
			fl := o.r.Stats.Failures
			o.r.Stats.Failures = nil
			per[u].Merge(o.r.Stats)
			for _, f := range fl {
				fails = append(fails, failing{o.r.Job, f, o.race, o.hist})
				stopOnce.Do(func() { close(stop) })
			}
		}
	}
	expected := len(jobs)
	got := 0
loop:
	for got < expected {
		select {
		case o := <-resc:
			got++
			collect(o)
			if len(fails) > 0 || crash != "" {
				break loop
			}
		case <-done:
			for {
				select {
				case o := <-resc:
					got++
					collect(o)
					continue
				default:
				}
				break loop
			}
		}
	}
	stopOnce.Do(func() { close(stop) })
	mu.Lock()
	for _, p := range procs {
		p.cmd.Process.Kill()
	}
	mu.Unlock()
	<-done

	violations := 0
	code := 0
	if len(fails) > 0 {
		sort.SliceStable(fails, func(a, b int) bool { return fails[a].rec.Cost < fails[b].rec.Cost })
		f := fails[0]
		u := &units[f.j.Unit]
		bound := f.j.Bound
		if bound < 0 {
			bound = unitOpts(u).Bound
		}
		if f.rec.Kind == "divergence" {
			fmt.Printf("INTERNAL: replay divergence in unit %q: %s\n", u.Name, f.rec.Msg)
			code = 3
		} else {
			// minimise: look for a counterexample with fewer deviations
			if u.Thread && f.rec.Kind != "hang" && f.rec.Kind != "crash" && f.rec.Kind != "memory" {
				for b := 0; b < bound && b < 3; b++ {
					dl := time.Now().Add(20 * time.Second)
					r, race, err := oneShot(args, job{Unit: f.j.Unit, Shards: 1, Bound: b, Deadln: dl.UnixNano()})
					if err != nil {
						break
					}
					if r.Stats != nil && len(r.Stats.Failures) > 0 && r.Stats.Failures[0].Kind != "divergence" {
						f.rec, f.race, bound = r.Stats.Failures[0], race, b
						break
					}
				}
			}
			// confirm by replaying
			// A failure is one real execution; one more of the same choices
			// confirms it.  The race detector samples what it remembers and
			// Go randomises map iteration, so not every replay shows it.
			n, need := 5, 1
			switch f.rec.Kind {
			case "hang", "memory":
				n = 2
			case "race":
				n = 20
			}
			hits := 0
			var trace []string
			if f.rec.Kind == "crash" {
				// the process died: re-run the whole job
				for i := 0; i < 2; i++ {
					_, _, err := oneShot(args, f.j)
					if err != nil {
						hits++
					}
				}
				n, need = 2, 2
			} else {
				for i := 0; i < n && (i < 5 || hits == 0); i++ {
					r, race, err := oneShot(args, job{Unit: f.j.Unit, Bound: bound, Replay: f.rec.Choices, IsReplay: true, Deadln: deadline.UnixNano()})
					if err == nil && r.Fail != nil && r.Fail.Kind != "divergence" {
						hits++
						if trace == nil {
							trace = r.Fail.Trace
							if race != "" {
								f.race = race
							}
							if r.Fail.Kind == f.rec.Kind {
								f.rec.Msg = r.Fail.Msg
							}
						}
					}
				}
			}
			if f.rec.Kind == "race" && strings.Contains(f.race, "/repo/") {
				need = 0 // the report of the two accesses stands by itself
			}
			conf := fmt.Sprintf("%d of %d replays fail", hits, n)
			var jobs []job
			if hits < need && f.rec.Kind != "race" {
				// The execution may depend on what the process did before:
				// repeat the exploration that led to it in a fresh process.
				if rec := repeat(args, f.hist, f.rec.Kind); rec != nil {
					jobs, hits = f.hist, need
					f.rec = *rec
					conf = "fails again when the executions before it are repeated in one process"
				}
			}
			if hits >= need {
				violations = 1
				code = 1
				rp := writeReplay(c, u, f.rec, bound, trace, f.race, conf, jobs)
				fmt.Printf("%s: %s\n", u.Name, firstLines(f.rec.Kind+": "+f.rec.Msg, 12))
				fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
			} else {
				fmt.Printf("INTERNAL: a failure (%s: %s) in unit %q did not reproduce (%d of %d replays)\n", f.rec.Kind, f.rec.Msg, u.Name, hits, n)
				fmt.Println(f.rec.Choices, f.race)
				code = 3
			}
		}
	} else if crash != "" {
		fmt.Println("INTERNAL:", crash)
		code = 3
	}
	writeEvidence(c, units, per, finished, tier, begin, violations)
	if code == 0 {
		tot := &vsched.Stats{Exhaustive: true}
		for _, s := range per {
			tot.Merge(s)
		}
		if *verbose {
			for i := range units {
				if s := per[i]; s != nil {
					fmt.Printf("  %-40s bound=%d exec=%d states=%d outcomes=%d depth=%d exhaustive=%v cpu-wall=%.1fs\n", units[i].Name, units[i].Bound, s.Executions, s.States, len(s.Outcomes), s.MaxDepth, s.Exhaustive, s.WallS)
				}
			}
		}
		fmt.Printf("OK property=%s tier=%s executions=%d steps=%d decisions=%d exhaustive=%v wall=%.1fs\n", c.ID, tier, tot.Executions, tot.Steps, tot.Nodes, tot.Exhaustive, time.Since(begin).Seconds())
	}
	return code
}

// crashKind recognises the runtime's own fatal errors: the code under test
// brought the process down.
func crashKind(t string) string {
	if strings.Contains(t, "vsched: watchdog") {
		return ""
	}
	for _, k := range []string{"fatal error: ", "runtime error: ", "stack overflow", "goroutine stack exceeds", "unexpected fault address", "panic: "} {
		if i := strings.Index(t, k); i >= 0 {
			return firstLines(t[i:], 8)
		}
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func oneShot(args []string, j job) (result, string, error) {
	p, err := start(args)
	if err != nil {
		return result{}, "", err
	}
	defer p.close()
	r, err := p.do(j)
	return r, p.raceText(), err
}

func doReplay(c Check, units []Unit, args []string) int {
	b, err := os.ReadFile(*replayFlag)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	if rf.Thorough && !Thorough {
		fmt.Println("this replay was recorded by the thorough tier: add 'thorough'")
		return 2
	}
	if len(rf.Jobs) > 0 {
		rec := repeat(args, rf.Jobs, rf.Kind)
		if rec == nil {
			fmt.Println("the recorded exploration does not fail on this tree")
			return 0
		}
		fmt.Println(rec.Kind+":", rec.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, *replayFlag)
		return 1
	}
	for i := range units {
		if units[i].Name == rf.Unit {
			r, race, err := oneShot(args, job{Unit: i, Bound: rf.Bound, Replay: rf.Choices, IsReplay: true, Deadln: time.Now().Add(time.Hour).UnixNano()})
			if err != nil {
				fmt.Println("worker:", err)
				return 2
			}
			if r.Fail == nil {
				fmt.Println("the recorded execution does not fail on this tree")
				return 0
			}
			for _, l := range r.Fail.Trace {
				fmt.Println(l)
			}
			fmt.Println(r.Fail.Kind+":", r.Fail.Msg)
			if race != "" {
				fmt.Println(race)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, *replayFlag)
			return 1
		}
	}
	fmt.Println("no unit", rf.Unit)
	return 2
}

// repeat gives a fresh process the same jobs and returns the failure of the last.
func repeat(args []string, jobs []job, kind string) *vsched.FailureRec {
	p, err := start(args)
	if err != nil || len(jobs) == 0 {
		return nil
	}
	defer p.close()
	for i, j := range jobs {
		j.Deadln = time.Now().Add(5 * time.Minute).UnixNano()
		r, err := p.do(j)
		if err != nil {
			return nil
		}
		if i == len(jobs)-1 && r.Stats != nil {
			for _, f := range r.Stats.Failures {
				if f.Kind == kind {
					return &f
				}
			}
		}
	}
	return nil
}

func writeReplay(c Check, u *Unit, f vsched.FailureRec, bound int, trace []string, race, conf string, jobs []job) string {
	dir := filepath.Join(filepath.Dir(evPath(c)), "replay")
	os.MkdirAll(dir, 0o755)
	if len(trace) > 400 {
		trace = append(trace[:200:200], trace[len(trace)-200:]...)
	}
	name := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, u.Name)
	path := filepath.Join(dir, c.ID+"-"+name+".json")
	t := ""
	if Thorough {
		t = " thorough"
	}
	rf := replayFile{c.ID, u.Name, Thorough, bound, f.Choices, f.Kind, f.Msg, trace, race, conf, jobs, "./check " + c.ID + t + " -replay " + path}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func evPath(c Check) string {
	if *outFlag != "" {
		return *outFlag
	}
	return "/verif/evidence/" + c.ID + ".json"
}

func writeEvidence(c Check, units []Unit, per map[int]*vsched.Stats, finished map[int]int, tier string, begin time.Time, violations int) {
	tot := &vsched.Stats{Exhaustive: true}
	var us []map[string]any
	states := int64(0)
	trans := int64(0)
	distinct := 0
	keys := make([]int, 0, len(per))
	for k := range per {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		s := per[k]
		u := units[k]
		tot.Merge(s)
		distinct += len(s.Outcomes)
		if u.BFS {
			states += s.States
			trans += s.Transitions
		} else {
			states += s.Nodes + 1
			trans += s.Steps
		}
		m := map[string]any{"unit": u.Name, "executions": s.Executions, "steps": s.Steps, "exhaustive": s.Exhaustive, "distinct_outcomes": len(s.Outcomes), "wall_s": round(s.WallS)}
		switch {
		case u.BFS:
			m["mode"] = "breadth-first over canonical states"
			m["states"], m["transitions"], m["depth"] = s.States, s.Transitions, s.MaxDepth
		case u.Thread:
			m["mode"] = "controlled scheduler, all interleavings within the deviation bound"
			if u.Delay {
				m["mode"] = "controlled scheduler, all interleavings within the delay bound"
			}
			m["deviation_bound"] = u.Bound
			m["early_timers"] = u.Early
			m["decision_points"], m["max_choices_per_execution"] = s.Nodes, s.MaxDepth
		default:
			m["mode"] = "all operation sequences / inputs / environment answers"
			m["decision_points"], m["max_choices_per_execution"] = s.Nodes, s.MaxDepth
		}
		if s.Capped > 0 {
			m["executions_cut_by_declared_bound"] = s.Capped
		}
		if s.ManyOutcomes {
			m["distinct_outcomes_capped"] = true
		}
		us = append(us, m)
	}
	samples := tot.Samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	for i := range samples {
		if len(samples[i]) > 1500 {
			samples[i] = samples[i][:1500] + "..."
		}
	}
	cov := map[string]any{
		"samples":    samples,
		"exhaustive": tot.Exhaustive && violations == 0,
		"units":      us,
		"bounds":     c.Bounds,
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = states
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = tot.Executions
		cov["distinct_outcomes"] = distinct
		cov["rule"] = c.Rule
		cov["counting"] = "states: canonical states (breadth-first units) plus decision points of the execution tree (other units); transitions: operations executed; every explored execution runs the code of /repo itself, so each is a validated trace"
	default:
		cov["evaluations"] = tot.Executions
		cov["distinct_nontrivial"] = distinct
		cov["rule"] = c.Rule
		cov["decision_points"] = tot.Nodes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property":    c.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       c.Level,
		"coverage":    cov,
		"assumptions": c.Assumptions,
		"wall_s":      round(time.Since(begin).Seconds()),
		"violations":  violations,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evPath(c)), 0o755)
	if err := os.WriteFile(evPath(c), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }
