// Package vsched is a controlled scheduler and stateless explorer.
//
// Code under test is compiled (through a build overlay made from /repo's
// current sources) against shims that call into this package at every
// synchronisation operation.  Exactly one virtual thread runs at a time; at
// every operation the explorer decides which enabled thread continues, when
// the virtual clock advances, and what every nondeterministic environment
// answer (pool reuse, select choice, random draw, injected fault) is.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

type Thread struct {
	ID      int
	Name    string
	wake    chan struct{}
	en      func() bool
	what    string
	done    bool
	waitFor mask // threads that must move before this yielded thread may go on
	streak  int    // consecutive operations without another thread moving
	yields  int    // of which yields
	quiesce bool
	ticks   int
	hb      byte
	drained int
	r       *runner
	reuse   bool
}

// mask is a set of threads.
type mask struct {
	lo uint64
	hi []uint64 // threads 64 and above
}

func (m *mask) set(i int) {
	if i < 64 {
		m.lo |= 1 << uint(i)
		return
	}
	for len(m.hi) <= i/64-1 {
		m.hi = append(m.hi, 0)
	}
	m.hi[i/64-1] |= 1 << uint(i%64)
}

func (m *mask) clear(i int) {
	if i < 64 {
		m.lo &^= 1 << uint(i)
	} else if i/64-1 < len(m.hi) {
		m.hi[i/64-1] &^= 1 << uint(i%64)
	}
}

func (m *mask) has(i int) bool {
	if i < 64 {
		return m.lo&(1<<uint(i)) != 0
	}
	return i/64-1 < len(m.hi) && m.hi[i/64-1]&(1<<uint(i%64)) != 0
}

func (m *mask) empty() bool {
	if m.lo != 0 {
		return false
	}
	for _, w := range m.hi {
		if w != 0 {
			return false
		}
	}
	return true
}

func (m *mask) meets(o *mask) bool {
	if m.lo&o.lo != 0 {
		return true
	}
	for i, w := range m.hi {
		if i < len(o.hi) && w&o.hi[i] != 0 {
			return true
		}
	}
	return false
}

type choiceRec struct {
	n        int32
	chosen   int32
	altCost  uint8 // cost of alternatives 1..n-1
	lastCost uint8 // cost of alternative n-1 (the clock, at thread points)
}

type Event struct {
	Step   int
	Thread int
	Text   string
	Data   any
}

// Exec is one execution.
type Exec struct {
	threads  []*Thread
	cur      *Thread
	clock    int64
	timers   []*vtimer
	tseq     int64
	steps    int
	prefix   []int32
	cand     []*Thread // scratch of schedule
	hi       []uint64  // scratch of schedule
	trail    []choiceRec
	cost     int
	opt      *Options
	aborting bool
	ended    bool
	endCh    chan struct{}
	ackCh    chan struct{}
	seqMode  bool
	depthCut bool

	Fail        *Failure
	Log         []Event
	Outcome     []string
	trace       []string
	tracing     bool
	skip        bool
	early       int
	rng         uint64
	Extra       any
	capped      bool
	needThreads bool
	stepNo      int // harness steps taken (breadth-first search)
	stepMax     int
	stepOn      bool
	stateKey    string
	boundary    bool
	id          int64
	clockOn     bool
}

type Failure struct {
	Kind string // violation kind: assertion, panic, deadlock, livelock, race, ...
	Msg  string
}

type Options struct {
	Bound    int  // deviation bound (preemptions, early timers, environment deviations)
	MaxSteps int  // per-execution horizon
	Stall    int  // times a thread may yield before another must move
	Spin     int  // consecutive operations after which a thread is made to yield
	MaxEarly int  // early clock steps per execution (each also costs a deviation)
	Delay    bool // delay bounding: choosing among threads costs a deviation even where the running one cannot go on
	Seq      bool
	Shard    int
	Shards   int
	ShardLen int     // sequential mode: number of leading choices hashed for sharding
	Start    []int32 // resume the enumeration at this prefix
}

var x *Exec // the running execution (nil: pass-through mode)

type abortT struct{}

const baseUnix = 1_700_000_000 // virtual epoch: 2023-11-14T22:13:20Z

// Active reports whether an execution is being controlled.
func Active() bool { return x != nil }

func cur() *Thread {
	if x == nil {
		return nil
	}
	return x.cur
}

// ThreadID returns the id of the running virtual thread.
func ThreadID() int {
	if x == nil || x.cur == nil {
		return -1
	}
	return x.cur.ID
}

func (e *Exec) tr(format string, a ...any) {
	if e.tracing {
		id := -1
		if e.cur != nil {
			id = e.cur.ID
		}
		e.trace = append(e.trace, fmt.Sprintf("[%d] t%d ", e.steps, id)+fmt.Sprintf(format, a...))
	}
}

// ---------------------------------------------------------------- choices

func (e *Exec) choose(n int, altCost, lastCost uint8) int {
	if n <= 1 {
		return 0
	}
	i := len(e.trail)
	c := 0
	if i < len(e.prefix) {
		c = int(e.prefix[i])
		if c >= n {
			e.failNow("divergence", fmt.Sprintf("replay divergence at choice %d: %d of %d", i, c, n))
		}
	}
	e.trail = append(e.trail, choiceRec{int32(n), int32(c), altCost, lastCost})
	if c > 0 {
		if c == n-1 {
			e.cost += int(lastCost)
		} else {
			e.cost += int(altCost)
		}
	}
	if e.opt.Seq && e.opt.Shards > 1 && len(e.trail) == e.opt.ShardLen {
		if e.shardOf() != e.opt.Shard {
			e.skip = true
			e.failNow("skip", "")
		}
	}
	return c
}

func (e *Exec) shardOf() int {
	h := uint32(2166136261)
	for i := 0; i < len(e.trail) && i < e.opt.ShardLen; i++ {
		h = (h ^ uint32(e.trail[i].chosen)) * 16777619
		h ^= h >> 13
	}
	h *= 0x85ebca6b
	h ^= h >> 16
	return int(h % uint32(e.opt.Shards))
}

// Choose returns an environment choice in [0,n); alternatives are free.
func Choose(n int) int { return x.choose(n, 0, 0) }

// ChooseDev returns an environment choice; every non-zero answer costs one deviation.
func ChooseDev(n int) int { return x.choose(n, 1, 1) }

// ExecID identifies the running execution (0: none).
func ExecID() int64 {
	if x == nil {
		return 0
	}
	return x.id
}

// Aborting reports whether the execution is being torn down.
func Aborting() bool { return x != nil && x.aborting }

// Fatal is an unrecoverable runtime error (unlock of unlocked mutex).
func Fatal(msg string) {
	if x == nil {
		panic(msg)
	}
	if x.aborting {
		return
	}
	x.failNow("fatal", msg)
}

// InExec tells shims whether environment choices are available.
func InExec() bool { return x != nil && !x.aborting }

// ---------------------------------------------------------------- failure

func (e *Exec) failNow(kind, msg string) {
	if e.Fail == nil {
		e.Fail = &Failure{kind, msg}
	}
	if e.seqMode {
		panic(abortT{})
	}
	e.aborting = true
	runtime.Goexit()
}

// Fail records a violation and ends the execution.
func Fail(format string, a ...any) {
	x.failNow("assertion", fmt.Sprintf(format, a...))
}

// FailKind is Fail with an explicit kind.
func FailKind(kind, format string, a ...any) { x.failNow(kind, fmt.Sprintf(format, a...)) }

// Capped marks the execution as cut by a bound (not a violation).
func Capped() {
	x.capped = true
	x.failNow("capped", "")
}

// ---------------------------------------------------------------- points

// point declares the next operation of the running thread, lets the explorer
// decide who moves, and returns once this thread is chosen (and enabled).
func point(what string, en func() bool) {
	e := x
	if e == nil {
		return
	}
	if e.seqMode {
		e.steps++
		if en != nil && !en() {
			e.settle(en, what)
		}
		return
	}
	if e.aborting {
		e.drainPoint(en)
		return
	}
	t := e.cur
	t.what = what
	t.en = en
	e.step(t)
	e.schedule(t)
	t.en = nil
	t.waitFor = mask{}
	e.moved(t)
	if e.tracing {
		e.tr("%s", what)
	}
}

// drainPoint: the execution is over and deferred calls of a killed thread run;
// let their operations take effect without scheduling, within limits.
func (e *Exec) drainPoint(en func() bool) {
	t := e.cur
	t.drained++
	if t == nil || t.drained > 500 || (en != nil && !en()) {
		runtime.Goexit()
	}
}

// settle: sequential mode, the operation is blocked; only the clock can help.
func (e *Exec) settle(en func() bool, what string) {
	for !en() {
		if len(e.timers) == 0 {
			e.failNow("deadlock", "operation can never proceed: "+what)
		}
		e.tick()
	}
}

func (e *Exec) step(t *Thread) {
	e.steps++
	if e.steps > e.opt.MaxSteps {
		e.failNow("livelock", fmt.Sprintf("no termination within %d steps; threads: %s", e.opt.MaxSteps, e.describe()))
	}
	t.streak++
	if t.streak > e.opt.Spin {
		t.streak = 0
		e.yield(t)
	}
}

// moved: thread t performed an operation; yielded threads waiting on it advance.
func (e *Exec) moved(t *Thread) {
	for _, u := range e.threads {
		if u != t {
			u.waitFor.clear(t.ID)
			u.streak, u.yields = 0, 0
		}
	}
}

func (e *Exec) yield(t *Thread) {
	var m mask
	for _, u := range e.threads {
		if u != t && !u.done && u.waitFor.empty() && !u.quiesce && (u.en == nil || u.en()) {
			m.set(u.ID)
		}
	}
	t.waitFor = m
}

func (e *Exec) enabled(t *Thread) bool {
	if t.done || t.quiesce {
		return false
	}
	return t.en == nil || t.en()
}

func (e *Exec) describe() string {
	var b strings.Builder
	for _, t := range e.threads {
		if t.done {
			continue
		}
		fmt.Fprintf(&b, "t%d(%s) at %s; ", t.ID, t.Name, t.what)
	}
	return b.String()
}

// schedule picks the next thread.  me is the calling thread (nil if it ended).
func (e *Exec) schedule(me *Thread) {
	if e.tracing || len(e.threads) > 1 || len(e.timers) > 0 || (me != nil && me.en != nil) || me == nil || me.quiesce {
		// general case below
	} else {
		return
	}
	for {
		cand := e.cand[:0]
		e.hi = e.hi[:0]
		blockedBy := mask{hi: e.hi}
		for _, t := range e.threads {
			if e.enabled(t) {
				blockedBy.set(t.ID)
			}
		}
		meOK := false
		e.hi = blockedBy.hi
		if me != nil && blockedBy.has(me.ID) && !me.waitFor.meets(&blockedBy) {
			cand = append(cand, me)
			meOK = true
		}
		for _, t := range e.threads {
			if t != me && blockedBy.has(t.ID) && !t.waitFor.meets(&blockedBy) {
				cand = append(cand, t)
			}
		}
		n := len(cand)
		e.cand = cand
		if n == 0 && !blockedBy.empty() {
			// every enabled thread waits for another one: release them all
			for _, t := range e.threads {
				t.waitFor = mask{}
			}
			continue
		}
		if n == 0 {
			// nobody can move: a quiescing thread, the clock, or deadlock
			var q *Thread
			for _, t := range e.threads {
				if !t.done && t.quiesce {
					q = t
					break
				}
			}
			if q != nil {
				if e.overdue() {
					e.tick()
					continue
				}
				if q.ticks > 0 && len(e.timers) > 0 {
					q.ticks--
					e.tick()
					continue
				}
				q.quiesce = false
				q.en = nil
				e.transfer(me, q)
				return
			}
			if len(e.timers) > 0 && !e.threads[0].done {
				if e.steps++; e.steps > e.opt.MaxSteps {
					e.stop("livelock", fmt.Sprintf("only timers fire, no progress within %d steps; threads: %s", e.opt.MaxSteps, e.describe()), me)
					return
				}
				e.tick()
				continue
			}
			e.stop("deadlock", "no thread can move: "+e.describe(), me)
			return
		}
		alts := n
		clock := false
		if e.clockOn && len(e.timers) > 0 && e.early < e.opt.MaxEarly {
			clock = true
			alts++
		}
		if e.opt.Stall > 0 && meOK && (me.yields > 6 || me.streak > 40) {
			// it waits for a thread that does not run; when it comes back
			// makes no difference
			e.transfer(me, me)
			return
		}
		ac := uint8(0)
		if meOK || e.opt.Delay {
			ac = 1
		}
		lc := ac
		if clock {
			lc = 1
		}
		var c int
		if e.opt.Bound > 0 || ac == 0 {
			c = e.chooseAt(alts, ac, lc, me)
			if c < 0 {
				return
			}
		}
		if clock && c == alts-1 {
			e.early++
			e.tick()
			continue
		}
		e.transfer(me, cand[c])
		return
	}
}

// chooseAt is choose for scheduler context, where the caller may be a thread
// that already ended (failure must not Goexit through it twice).
func (e *Exec) chooseAt(n int, ac, lc uint8, me *Thread) int {
	if n <= 1 {
		return 0
	}
	i := len(e.trail)
	if i < len(e.prefix) && int(e.prefix[i]) >= n {
		e.stop("divergence", fmt.Sprintf("replay divergence at choice %d: %d of %d", i, e.prefix[i], n), me)
		return -1
	}
	return e.choose(n, ac, lc)
}

// stop ends the execution from scheduler context.
func (e *Exec) stop(kind, msg string, me *Thread) {
	if e.Fail == nil {
		e.Fail = &Failure{kind, msg}
	}
	e.aborting = true
	if me != nil {
		runtime.Goexit()
	}
	e.signalEnd()
}

func (e *Exec) transfer(me, to *Thread) {
	if to == me {
		e.cur = me
		return
	}
	e.cur = to
	raceOff()
	to.wake <- struct{}{}
	if me != nil {
		<-me.wake
	}
	raceOn()
	if me != nil && e.aborting {
		runtime.Goexit()
	}
}

func (e *Exec) signalEnd() {
	if !e.ended {
		e.ended = true
		raceOff()
		e.endCh <- struct{}{}
		raceOn()
	}
}

// ---------------------------------------------------------------- threads

// Go starts a virtual thread.
func Go(f func()) { goNamed("go", f) }

// GoNamed starts a virtual thread with a name and returns it.
func GoNamed(name string, f func()) *Thread { return goNamed(name, f) }

func goNamed(name string, f func()) *Thread {
	e := x
	if e == nil {
		go f()
		return nil
	}
	if e.seqMode {
		// Not modelled sequentially: Explore restarts in scheduler mode.
		e.needThreads = true
		panic(abortT{})
	}
	if e.aborting {
		runtime.Goexit()
	}
	t := e.newThread(name)
	e.launch(t, f)
	if e.tracing {
		e.tr("go %s -> t%d", name, t.ID)
	}
	return t
}

func (e *Exec) newThread(name string) *Thread {
	t := &Thread{ID: len(e.threads), Name: name, what: "start"}
	if t.ID >= 5000 {
		e.failNow("capped", "too many threads")
	}
	e.threads = append(e.threads, t)
	return t
}

// runner is a real goroutine that carries virtual threads, one execution
// after another (never two of the same execution: its program order must not
// order them).
type runner struct {
	wake chan struct{}
	e    *Exec
	t    *Thread
	f    func()
}

var idle []*runner

func (e *Exec) launch(t *Thread, f func()) {
	var r *runner
	raceRelease(unsafe.Pointer(&t.hb))
	if n := len(idle); n > 0 {
		r = idle[n-1]
		idle = idle[:n-1]
	} else {
		r = &runner{wake: make(chan struct{}, 1)}
		raceOff()
		go r.loop()
		raceOn()
	}
	r.e, r.t, r.f = e, t, f
	t.wake = r.wake
	t.r = r
}

func (r *runner) loop() {
	raceOff()
	for {
		<-r.wake
		raceOn()
		if !r.run() {
			raceOff()
			return
		}
		raceOff()
	}
}

// run executes one virtual thread; it reports whether the goroutine survives.
func (r *runner) run() (alive bool) {
	e, t := r.e, r.t
	raceAcquire(unsafe.Pointer(&t.hb))
	normal := false
	defer func() {
		if !normal {
			if rec := recover(); rec != nil {
				if _, ok := rec.(abortT); !ok && e.Fail == nil && !e.aborting {
					e.Fail = &Failure{"panic", fmt.Sprintf("panic in thread %d (%s): %v\n%s", t.ID, t.Name, rec, trimStack(debug.Stack()))}
				}
				e.aborting = true
				alive = true
			}
		}
		t.done = true
		t.what = "done"
		if normal || alive {
			alive = true
			t.reuse = true
		}
		raceReleaseMerge(unsafe.Pointer(&t.hb))
		if e.ended {
			// killed by the explorer
			raceOff()
			e.ackCh <- struct{}{}
			raceOn()
			return
		}
		if e.aborting || t.ID == 0 {
			e.aborting = true
			e.signalEnd()
			return
		}
		e.moved(t)
		e.schedule(nil)
	}()
	if e.aborting {
		normal = true
		return
	}
	r.f()
	normal = true
	return
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// Join waits until t has ended.
func Join(ts ...*Thread) {
	for _, t := range ts {
		t := t
		point("join "+t.Name, func() bool { return t.done })
		raceAcquire(unsafe.Pointer(&t.hb))
	}
}

// Done reports whether a thread ended.
func (t *Thread) Done() bool { return t.done }

// Quiesce blocks until no other thread can move, letting the clock fire up to
// ticks timers while it waits.
func Quiesce(ticks int) {
	e := x
	if e.seqMode {
		for i := 0; i < ticks && len(e.timers) > 0; i++ {
			e.tick()
		}
		return
	}
	if e.aborting {
		runtime.Goexit()
	}
	t := e.cur
	t.quiesce = true
	t.ticks = ticks
	t.what = "quiesce"
	e.step(t)
	e.schedule(t)
	t.quiesce = false
	for _, u := range e.threads {
		if u.done {
			raceAcquire(unsafe.Pointer(&u.hb))
		}
	}
}

// Live returns the number of threads that have not ended, except thread 0.
func Live() int {
	n := 0
	for _, t := range x.threads[1:] {
		if !t.done {
			n++
		}
	}
	return n
}

// LiveNames describes the threads that have not ended.
func LiveNames() string { return x.describe() }

// Gosched is runtime.Gosched: a fair yield.
func Gosched() {
	e := x
	if e == nil {
		runtime.Gosched()
		return
	}
	if e.seqMode {
		e.steps++
		if e.steps > e.opt.MaxSteps {
			e.failNow("livelock", fmt.Sprintf("spinning alone: no termination within %d steps", e.opt.MaxSteps))
		}
		return
	}
	if e.aborting {
		e.drainPoint(nil)
		return
	}
	t := e.cur
	if t.yields++; t.yields > e.opt.Stall {
		t.yields = 0
		e.yield(t)
	}
	e.steps++
	if e.steps > e.opt.MaxSteps {
		e.failNow("livelock", fmt.Sprintf("no termination within %d steps; threads: %s", e.opt.MaxSteps, e.describe()))
	}
	t.what = "gosched"
	t.en = nil
	if e.opt.Stall == 0 {
		t.streak = 0
	}
	e.schedule(t)
	t.waitFor = mask{}
	e.moved(t)
}

// Point is a plain scheduling point (before an atomic operation).
func Point(what string) {
	if x == nil {
		return
	}
	if x.seqMode {
		x.steps++
		if x.steps > x.opt.MaxSteps {
			x.failNow("livelock", fmt.Sprintf("spinning alone: no termination within %d steps", x.opt.MaxSteps))
		}
		return
	}
	point(what, nil)
}

// Note records an operation that needs no scheduling point.
func Note(what string) {
	e := x
	if e == nil {
		return
	}
	e.steps++
	if e.aborting {
		e.drainPoint(nil)
	} else if e.tracing {
		e.tr("%s", what)
	}
}

// Block is a scheduling point with an enabledness predicate.
func Block(what string, en func() bool) { point(what, en) }

// ---------------------------------------------------------------- race edges

func Acquire(p unsafe.Pointer)      { raceAcquire(p) }
func Release(p unsafe.Pointer)      { raceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { raceReleaseMerge(p) }

// ---------------------------------------------------------------- time

type vtimer struct {
	when   int64
	seq    int64
	period int64
	fire   func()
}

func (e *Exec) addTimer(t *vtimer) {
	e.tseq++
	t.seq = e.tseq
	e.timers = append(e.timers, t)
}

func (e *Exec) delTimer(t *vtimer) bool {
	for i, u := range e.timers {
		if u == t {
			e.timers = without(e.timers, i)
			return true
		}
	}
	return false
}

func (e *Exec) overdue() bool {
	for _, t := range e.timers {
		if t.when <= e.clock {
			return true
		}
	}
	return false
}

// tick advances the clock to the earliest timer and fires it.
func (e *Exec) tick() {
	best := 0
	for i, t := range e.timers {
		b := e.timers[best]
		if t.when < b.when || (t.when == b.when && t.seq < b.seq) {
			best = i
		}
	}
	t := e.timers[best]
	if t.when > e.clock {
		e.clock = t.when
	}
	if t.period > 0 {
		t.when += t.period
	} else {
		e.timers = without(e.timers, best)
	}
	if e.tracing {
		e.trace = append(e.trace, fmt.Sprintf("[%d] clock -> %dns", e.steps, e.clock))
	}
	t.fire()
}

// NowNanos is the virtual time since the start of the execution.
func NowNanos() int64 {
	if x == nil {
		return 0
	}
	return x.clock
}

// Advance moves the virtual clock (harness use), firing due timers.
func Advance(d time.Duration) {
	e := x
	target := e.clock + int64(d)
	for len(e.timers) > 0 {
		ok := false
		for _, t := range e.timers {
			if t.when <= target {
				ok = true
			}
		}
		if !ok {
			break
		}
		e.tick()
	}
	e.clock = target
}

// PendingTimers returns the number of armed timers.
func PendingTimers() int { return len(x.timers) }

// EarlyClock allows (or forbids) timers to fire while threads are runnable.
func EarlyClock(on bool) { x.clockOn = on }

// Now is the virtual wall clock.
func Now() time.Time {
	if x == nil {
		return time.Unix(baseUnix, 0)
	}
	return time.Unix(baseUnix, 0).Add(time.Duration(x.clock))
}

// ClockStep moves the virtual clock forward at every read (harness use).
var ClockStep int64

// ReadClock is time.Now as the code under test sees it.
func ReadClock() time.Time {
	if x != nil {
		x.clock += ClockStep
	}
	return Now()
}

type Timer struct{ t vtimer }

// StartTimer arms a timer d from now; fire runs in clock context.
func StartTimer(d time.Duration, period time.Duration, fire func()) *Timer {
	tm := &Timer{}
	tm.t.fire = fire
	tm.Arm(d, period)
	return tm
}

func (tm *Timer) Arm(d, period time.Duration) {
	if x == nil {
		return
	}
	if d < 0 {
		d = 0
	}
	tm.t.when = x.clock + int64(d)
	if tm.t.when < x.clock {
		tm.t.when = 1<<63 - 1
	}
	tm.t.period = int64(period)
	x.addTimer(&tm.t)
}

func (tm *Timer) Disarm() bool {
	if x == nil {
		return false
	}
	return x.delTimer(&tm.t)
}

// SpawnFromTimer starts a thread from clock context (time.AfterFunc).
func SpawnFromTimer(name string, f func()) {
	t := x.newThread(name)
	x.launch(t, f)
}

// ---------------------------------------------------------------- logging

// Logf records an observation in the execution's log.
func Logf(format string, a ...any) {
	if x == nil || x.aborting {
		return
	}
	s := fmt.Sprintf(format, a...)
	x.Log = append(x.Log, Event{x.steps, ThreadID(), s, nil})
	if x.tracing {
		x.tr("LOG %s", s)
	}
}

// LogD records structured data.
func LogD(d any) {
	if x == nil || x.aborting {
		return
	}
	x.Log = append(x.Log, Event{x.steps, ThreadID(), "", d})
	if x.tracing {
		x.tr("LOG %+v", d)
	}
}

// Events returns the log so far.
func Events() []Event { return x.Log }

// Texts returns the log's texts.
func Texts() []string {
	r := make([]string, 0, len(x.Log))
	for _, e := range x.Log {
		if e.Data == nil {
			r = append(r, e.Text)
		}
	}
	return r
}

// Outcome adds to the execution's outcome signature.
func Outcome(format string, a ...any) {
	if x != nil {
		x.Outcome = append(x.Outcome, fmt.Sprintf(format, a...))
	}
}

// Tracing reports whether a replay trace is being recorded.
func Tracing() bool { return x != nil && x.tracing }

// Trace adds a line to the replay trace.
func Trace(format string, a ...any) {
	if x != nil && x.tracing {
		x.tr(format, a...)
	}
}

// Counter is a shared integer for harness bookkeeping, invisible to the
// explorer and the race detector.
type Counter struct{ n, max int64 }

func (c *Counter) Add(d int64) int64 {
	c.n += d
	if c.n > c.max {
		c.max = c.n
	}
	return c.n
}
func (c *Counter) Get() int64  { return c.n }
func (c *Counter) Set(v int64) { c.n = v }
func (c *Counter) Max() int64  { return c.max }

// WaitAtLeast blocks the calling thread until the counter reaches n.
func (c *Counter) WaitAtLeast(n int64) {
	point("wait counter", func() bool { return c.n >= n })
}

// Gate is a harness latch: Wait blocks until Open.
type Gate struct{ open bool }

func (g *Gate) Open()        { g.open = true }
func (g *Gate) Close()       { g.open = false }
func (g *Gate) Wait()        { point("gate", func() bool { return g.open }) }
func (g *Gate) IsOpen() bool { return g.open }

// Steps returns the number of steps taken so far.
func Steps() int { return x.steps }

// IsAbort reports whether a recovered value is the explorer's own abort.
func IsAbort(r any) bool { _, ok := r.(abortT); return ok }

// Step marks a step boundary of a breadth-first search.  key renders the
// canonical state; it is only called where the search needs it.  Step returns
// false when the execution should end normally.
func Step(key func() string) bool {
	e := x
	if e.stepOn && e.stepNo == e.stepMax {
		e.boundary = true
		e.stateKey = key()
		return false
	}
	e.stepNo++
	return true
}

var resets = map[string]func(){}

// RegisterReset is called by instrumented packages.
func RegisterReset(pkg string, f func()) {
	resets[pkg] = f
	resetOrder = append(resetOrder, pkg)
}

var resetOrder []string

// NoReset lists packages (by suffix) whose state is not reset before each
// scheduled execution.
var NoReset []string

// ResetSeq also resets it before each sequential execution.
var ResetSeq bool

// resetAll gives instrumented packages the state they have after
// initialisation, so that an execution does not depend on earlier ones.
func resetAll() {
next:
	for _, p := range resetOrder {
		for _, n := range NoReset {
			if strings.HasSuffix(p, n) {
				continue next
			}
		}
		resets[p]()
	}
}

// ResetPkg repeats the initialisation of an instrumented package.
func ResetPkg(pkg string) {
	f := resets[pkg]
	if f == nil {
		panic("no reset function for " + pkg)
	}
	f()
}
