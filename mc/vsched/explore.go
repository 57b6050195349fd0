package vsched

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Stats is what one exploration covered.
type Stats struct {
	Executions   int64            `json:"executions"`
	Steps        int64            `json:"steps"`
	Nodes        int64            `json:"nodes"` // new decision points visited
	Transitions  int64            `json:"transitions"`
	MaxDepth     int              `json:"max_depth"`
	Capped       int64            `json:"capped"` // executions cut by a declared bound
	Exhaustive   bool             `json:"exhaustive"`
	Outcomes     map[string]int64 `json:"outcomes"`
	ManyOutcomes bool             `json:"many_outcomes,omitempty"`
	Failures     []FailureRec     `json:"failures,omitempty"`
	States       int64            `json:"states,omitempty"`
	WallS        float64          `json:"wall_s"`
	Samples      []string         `json:"samples,omitempty"`
	Resume       []int32          `json:"resume,omitempty"`
}

// RSSLimit makes Explore return early, with Resume set, so that the driver can
// continue in a fresh process.
var RSSLimit int64

type FailureRec struct {
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Cost    int      `json:"cost"`
	Choices []int32  `json:"choices"`
	Trace   []string `json:"trace,omitempty"`
}

var Deadline time.Time // soft wall-clock limit of the whole process

func (s *Stats) addOutcome(e *Exec) {
	if s.Outcomes == nil {
		s.Outcomes = map[string]int64{}
	}
	key := strings.Join(e.Outcome, "|")
	if _, ok := s.Outcomes[key]; !ok && len(s.Outcomes) >= 400 {
		s.ManyOutcomes = true
		return
	}
	s.Outcomes[key]++
}

var execSeq int64

var (
	curExec   atomic.Pointer[Exec]
	execStart atomic.Int64
)

func cpuNanos() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano() + 1
}

type statm struct {
	fd  int
	buf [128]byte
}

var statmMain, statmWatch = statm{fd: -1}, statm{fd: -1}

// rss returns the resident set size in bytes.  It runs beside the execution,
// so it neither allocates nor uses shared library state.
func (m *statm) rss() int64 {
	if m.fd < 0 {
		fd, err := syscall.Open("/proc/self/statm", syscall.O_RDONLY, 0)
		if err != nil {
			return 0
		}
		m.fd = fd
	}
	n, err := syscall.Pread(m.fd, m.buf[:], 0)
	if err != nil {
		return 0
	}
	field, v := 0, int64(0)
	for _, c := range m.buf[:n] {
		if c == ' ' {
			if field == 1 {
				return v * 4096
			}
			field++
			v = 0
			continue
		}
		if c >= '0' && c <= '9' {
			v = v*10 + int64(c-'0')
		}
	}
	return 0
}

// Watch reports, through f, an execution that never returns (it has burned
// cpuLimit of processor time) or that exhausts memory.
func Watch(cpuLimit time.Duration, memLimit int64, f func(rec FailureRec)) {
	go func() {
		var last *Exec
		var base int64
		for {
			time.Sleep(200 * time.Millisecond)
			s := execStart.Load()
			e := curExec.Load()
			if s == 0 || e == nil {
				last = nil
				continue
			}
			if e != last || s != base {
				last, base = e, s
				if statmWatch.rss() < memLimit {
					continue
				}
			}
			kind := ""
			if cpuNanos()-base > int64(cpuLimit) {
				kind = "hang"
			} else if statmWatch.rss() > memLimit {
				kind = "memory"
			}
			if kind != "" {
				f(FailureRec{Kind: kind, Msg: "an operation does not return (no progress for " + cpuLimit.String() + " of processor time, or memory exhausted)", Cost: e.cost, Choices: choicesOf(e.trail)})
				return
			}
		}
	}()
}

// CPU is the processor time this process has used, in nanoseconds.
func CPU() int64 { return cpuNanos() }

// Alive tells the watch that a long execution goes on as it should.
func Alive() {
	if execStart.Load() != 0 {
		execStart.Store(cpuNanos())
	}
}

// runOnce executes body once following prefix.
func runOnce(opt *Options, prefix []int32, tracing bool, body func()) *Exec {
	e := &Exec{opt: opt, prefix: prefix, tracing: tracing, seqMode: opt.Seq, clockOn: opt.MaxEarly > 0}
	races := raceErrors()
	execSeq++
	e.id = execSeq
	if stepLimit > 0 || stepInit {
		e.stepOn, e.stepMax = true, stepLimit
	}
	curExec.Store(e)
	execStart.Store(cpuNanos())
	defer execStart.Store(0)
	x = e
	if opt.Seq {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abortT); !ok && e.Fail == nil {
						e.Fail = &Failure{"panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
					}
				}
			}()
			e.cur = &Thread{ID: 0}
			e.threads = []*Thread{e.cur}
			if ResetSeq {
				resetAll()
			}
			body()
		}()
		x = nil
		return e
	}
	e.endCh = make(chan struct{}, 1)
	e.ackCh = make(chan struct{}, 1)
	t0 := e.newThread("main")
	e.cur = t0
	e.launch(t0, func() {
		resetAll()
		body()
	})
	raceOff()
	t0.wake <- struct{}{}
	wd := time.AfterFunc(120*time.Second, func() {
		debug.SetTraceback("all")
		panic("vsched: watchdog: an execution blocked outside the controlled scheduler")
	})
	<-e.endCh
	wd.Stop()
	raceOn()
	e.aborting = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if !t.done {
			e.cur = t
			raceOff()
			t.wake <- struct{}{}
			<-e.ackCh
			raceOn()
		}
		raceAcquire(unsafe.Pointer(&t.hb))
		if t.reuse && t.r != nil {
			idle = append(idle, t.r)
		}
	}
	x = nil
	if n := raceErrors(); n > races && (e.Fail == nil || e.Fail.Kind != "skip") {
		e.Fail = &Failure{"race", "data race reported by the race detector on this schedule"}
	}
	return e
}

// horizon gives MaxSteps its default: generous for a lone thread, whose
// executions may hold very many operations, each using a few atomics.
func (opt *Options) horizon() {
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 100000
		if opt.Seq {
			opt.MaxSteps = 1 << 26
		}
	}
}

// Explore enumerates every execution of body within the options' bounds,
// depth first, and stops at the first failure.
func Explore(opt Options, body func()) *Stats {
	opt.horizon()
	if opt.Spin == 0 {
		opt.Spin = 60
	}
	if opt.Shards == 0 {
		opt.Shards = 1
	}
	if opt.ShardLen == 0 {
		opt.ShardLen = 2
	}
	st := &Stats{Exhaustive: true, Outcomes: map[string]int64{}}
	start := time.Now()
	prefix := append([]int32{}, opt.Start...)
	fresh := len(prefix) // index of first decision not already visited by an earlier run
	for {
		e := runOnce(&opt, prefix, false, body)
		if e.needThreads {
			opt.Seq = false
			opt.MaxEarly = 0
			st = &Stats{Exhaustive: true, Outcomes: map[string]int64{}}
			prefix, fresh = append([]int32{}, opt.Start...), len(opt.Start)
			continue
		}
		// count what is new in this run
		mine := true
		if opt.Shards > 1 && !opt.Seq {
			mine = e.devShard() == opt.Shard
		} else if opt.Shards > 1 && len(e.trail) < opt.ShardLen {
			mine = opt.Shard == 0
		}
		if e.skip {
			mine = false
		}
		if mine {
			st.Executions++
			st.Steps += int64(e.steps)
			if n := len(e.trail) - fresh; n > 0 {
				st.Nodes += int64(n)
			}
			if len(e.trail) > st.MaxDepth {
				st.MaxDepth = len(e.trail)
			}
			st.addOutcome(e)
			if len(st.Samples) < 3 && (st.Executions == 1 || st.Executions == 100 || st.Executions == 5000) {
				st.Samples = append(st.Samples, fmt.Sprintf("choices=%v outcome=%s", choicesOf(e.trail), strings.Join(e.Outcome, "|")))
			}
		}
		if e.Fail != nil && e.Fail.Kind != "skip" {
			if e.Fail.Kind == "capped" {
				st.Capped++
			} else {
				st.Failures = append(st.Failures, FailureRec{Kind: e.Fail.Kind, Msg: e.Fail.Msg, Cost: e.cost, Choices: choicesOf(e.trail)})
				st.Exhaustive = false
				st.WallS = time.Since(start).Seconds()
				return st
			}
		}
		if !Deadline.IsZero() && st.Executions&15 == 0 && time.Now().After(Deadline) {
			st.Exhaustive = false
			break
		}
		// backtrack
		np, f := nextPrefix(&opt, e.trail)
		if np == nil {
			break
		}
		prefix, fresh = np, f
		if RSSLimit > 0 && st.Executions&4095 == 4095 && statmMain.rss() > RSSLimit {
			st.Resume = np
			break
		}
	}
	st.WallS = time.Since(start).Seconds()
	return st
}

func choicesOf(tr []choiceRec) []int32 {
	r := make([]int32, len(tr))
	for i, c := range tr {
		r[i] = c.chosen
	}
	for len(r) > 0 && r[len(r)-1] == 0 {
		r = r[:len(r)-1]
	}
	return r
}

// devShard assigns a run to a shard by its first two departures from the default.
func (e *Exec) devShard() int {
	h, n := uint32(2166136261), 0
	for i, c := range e.trail {
		if c.chosen != 0 {
			h = (h ^ uint32(i*97+int(c.chosen))) * 16777619
			n++
			if n == 2 {
				break
			}
		}
	}
	if n == 0 {
		return 0
	}
	h ^= h >> 15
	return int(h % uint32(e.opt.Shards))
}

func nextPrefix(opt *Options, tr []choiceRec) ([]int32, int) {
	// cost before each position
	cost := 0
	before := make([]int, len(tr))
	devs := make([]int, len(tr)) // departures before position i
	d := 0
	for i, c := range tr {
		before[i] = cost
		devs[i] = d
		if c.chosen > 0 {
			d++
			if c.chosen == c.n-1 {
				cost += int(c.lastCost)
			} else {
				cost += int(c.altCost)
			}
		}
	}
	for i := len(tr) - 1; i >= 0; i-- {
		c := tr[i]
		for alt := c.chosen + 1; alt < c.n; alt++ {
			ac := int(c.altCost)
			if alt == c.n-1 {
				ac = int(c.lastCost)
			}
			if before[i]+ac > opt.Bound {
				continue
			}
			if opt.Shards > 1 && !opt.Seq && devs[i] == 1 {
				// second departure: decide ownership here, skip foreign subtrees
				h := uint32(2166136261)
				for j := 0; j < i; j++ {
					if tr[j].chosen != 0 {
						h = (h ^ uint32(j*97+int(tr[j].chosen))) * 16777619
						break
					}
				}
				h = (h ^ uint32(i*97+int(alt))) * 16777619
				h ^= h >> 15
				if int(h%uint32(opt.Shards)) != opt.Shard {
					continue
				}
			}
			p := make([]int32, i+1)
			for j := 0; j < i; j++ {
				p[j] = tr[j].chosen
			}
			p[i] = alt
			return p, i + 1
		}
	}
	return nil, 0
}

// Replay runs body once along choices and returns the failure (if any) and a trace.
func Replay(opt Options, choices []int32, body func()) (*Failure, []string) {
	opt.horizon()
	if opt.Spin == 0 {
		opt.Spin = 60
	}
	opt.Shards = 1
	e := runOnce(&opt, choices, true, body)
	if e.needThreads {
		opt.Seq = false
		e = runOnce(&opt, choices, true, body)
	}
	if e.Fail != nil && (e.Fail.Kind == "capped" || e.Fail.Kind == "skip") {
		return nil, e.trace
	}
	return e.Fail, e.trace
}

// Merge adds another shard's statistics.
func (s *Stats) Merge(o *Stats) {
	s.Executions += o.Executions
	s.Steps += o.Steps
	s.Nodes += o.Nodes
	s.Transitions += o.Transitions
	s.States += o.States
	s.Capped += o.Capped
	if o.MaxDepth > s.MaxDepth {
		s.MaxDepth = o.MaxDepth
	}
	s.Exhaustive = s.Exhaustive && o.Exhaustive
	s.ManyOutcomes = s.ManyOutcomes || o.ManyOutcomes
	if s.Outcomes == nil {
		s.Outcomes = map[string]int64{}
	}
	for k, v := range o.Outcomes {
		s.Outcomes[k] += v
	}
	s.Failures = append(s.Failures, o.Failures...)
	sort.SliceStable(s.Failures, func(i, j int) bool {
		if s.Failures[i].Cost != s.Failures[j].Cost {
			return s.Failures[i].Cost < s.Failures[j].Cost
		}
		return len(s.Failures[i].Choices) < len(s.Failures[j].Choices)
	})
	if o.WallS > s.WallS {
		s.WallS = o.WallS
	}
	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, o.Samples...)
		if len(s.Samples) > 3 {
			s.Samples = s.Samples[:3]
		}
	}
}
