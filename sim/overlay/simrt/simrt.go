// Package simrt is the deterministic simulator's core: a cooperative scheduler
// that runs exactly one task at a time, a simulated clock, and the single
// source of every nondeterministic choice of a run.
//
// Nothing in here reads a real clock or a real random source. A run is a pure
// function of (workload parameters, choice tables); the choice tables are
// either drawn from a PRNG seeded with the run's seed (record mode) or given
// explicitly (replay mode).
package simrt

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Streams of choices. Each is keyed by a counter; an absent key means the
// default (benign) choice 0.
const (
	StreamSched = "sched" // key: step number, value: 1+task id to switch to
	StreamFault = "fault" // key: fault point number, value: 1+fault kind
	StreamNet   = "net"   // key: request number * 8 + k
	StreamWork  = "work"  // key: draw number
	StreamMisc  = "misc"
)

// Choices is the complete record of one run's non-default choices.
type Choices map[string]map[uint64]uint64

func (c Choices) Get(stream string, key uint64) uint64 { return c[stream][key] }
func (c Choices) Set(stream string, key, v uint64) {
	m := c[stream]
	if m == nil {
		m = map[uint64]uint64{}
		c[stream] = m
	}
	m[key] = v
}
func (c Choices) Clone() Choices {
	o := Choices{}
	for s, m := range c {
		for k, v := range m {
			o.Set(s, k, v)
		}
	}
	return o
}
func (c Choices) Count() int {
	n := 0
	for _, m := range c {
		n += len(m)
	}
	return n
}

// Rand is a small splitmix64 PRNG.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// SchedPolicy is drawn per run (swarm style).
type SchedPolicy struct {
	MeanGap   int // mean number of preemption points between forced switches (0: never preempt)
	BlockRand bool
	// PCT-like: fixed random priorities, lowered at change points
	Priority bool
	Starve   bool // one random task is only run when nothing else can
}

type taskState int

const (
	stRunnable taskState = iota
	stRunning
	stBlocked
	stDead
)

type Task struct {
	id      int
	name    string
	wake    chan struct{}
	state   taskState
	why     string
	prio    uint64
	starved bool
	// wait data used by primitives
	waiting interface{}
	ok      bool
	val     interface{}
	fired   int
}

type timer struct {
	at   int64
	seq  uint64
	f    func()
	dead bool
	idx  int
}
type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	return t
}

// Outcome says how one incarnation of the simulated process ended.
type Outcome struct {
	Kind   string // "returned", "panic", "deadlock", "stuck", "exit", "crash"
	Detail string
	Code   int
	Left   []string // goroutines that were still there when the main one returned
}

// Sim is the state of one simulated run (it may span several process incarnations).
type Sim struct {
	Rng     *Rand // nil in replay mode
	Record  Choices
	Replay  Choices
	Policy  SchedPolicy
	MaxStep uint64

	now      int64
	timers   timerHeap
	timerSeq uint64

	tasks      []*Task // all live tasks in creation order
	run        []*Task // runnable, excluding current
	cur        *Task
	nextTask   int
	countdown  int64
	stopAt     uint64 // step limit of this incarnation
	nextAt     int64  // time of the earliest timer
	replayKeys []uint64

	Steps    uint64
	Switches uint64
	incStart uint64 // Steps at incarnation start
	keys     map[string]uint64

	aborted bool
	outcome Outcome
	done    chan struct{}
	live    int
	allDead chan struct{}

	schedHash uint64
	Events    []string
	EvHash    uint64
	evN       uint64
	KeepLog   bool

	Probes map[string]uint64
}

// S is the current simulation (nil when no simulated process is running).
var S *Sim

func New(rng *Rand, replay Choices, pol SchedPolicy, maxStep uint64) *Sim {
	return &Sim{Rng: rng, Replay: replay, Record: Choices{}, Policy: pol, MaxStep: maxStep,
		keys: map[string]uint64{}, Probes: map[string]uint64{}, schedHash: 14695981039346656037, EvHash: 14695981039346656037}
}

func (s *Sim) mix(h *uint64, v uint64) {
	for i := 0; i < 8; i++ {
		*h ^= v & 0xff
		*h *= 1099511628211
		v >>= 8
	}
}

// Log appends to the event log (hash always; text only when kept). Never draws choices.
func (s *Sim) Log(format string, a ...any) {
	s.evN++
	t := fmt.Sprintf(format, a...)
	f := fnv.New64a()
	f.Write([]byte(t))
	s.mix(&s.EvHash, f.Sum64()^s.Steps)
	if s.KeepLog {
		id := -1
		if s.cur != nil {
			id = s.cur.id
		}
		s.Events = append(s.Events, fmt.Sprintf("step=%d t=%dns task=%d %s", s.Steps, s.now, id, t))
	}
}

func (s *Sim) SchedHash() uint64 { return s.schedHash }

// Mix folds an observation into the run's event hash.
func (s *Sim) Mix(v uint64) { s.mix(&s.EvHash, v) }

// Probe counts a "this condition was reached" event.
func Probe(name string) {
	if S != nil {
		S.Probes[name]++
	}
}

// Draw makes one choice in [0,n) on a stream with the stream's own counter.
func (s *Sim) Draw(stream string, n int) int {
	k := s.keys[stream]
	s.keys[stream] = k + 1
	return s.DrawAt(stream, k, n)
}
func (s *Sim) DrawAt(stream string, key uint64, n int) int {
	if n <= 1 {
		return 0
	}
	if s.Rng == nil {
		v := int(s.Replay.Get(stream, key))
		if v >= n {
			v = v % n
		}
		if v != 0 {
			s.Record.Set(stream, key, uint64(v))
		}
		return v
	}
	v := s.Rng.Intn(n)
	if v != 0 {
		s.Record.Set(stream, key, uint64(v))
	}
	return v
}

// DrawProb returns 0 with probability 1-p, else 1+uniform(n).
func (s *Sim) DrawProb(stream string, p float64, n int) int {
	k := s.keys[stream]
	s.keys[stream] = k + 1
	if s.Rng == nil {
		v := s.Replay.Get(stream, k)
		if v != 0 {
			s.Record.Set(stream, k, v)
		}
		return int(v)
	}
	if s.Rng.Float() >= p {
		return 0
	}
	v := 1 + s.Rng.Intn(n)
	s.Record.Set(stream, k, uint64(v))
	return v
}

func (s *Sim) Now() int64 { return s.now }

// ---------------------------------------------------------------- incarnations

// RunProcess runs f as the main goroutine of a simulated process until it
// returns (then the process exits, killing every other task), or the process
// panics, deadlocks, exits, gets stuck or is crashed.
func (s *Sim) RunProcess(f func()) Outcome {
	s.tasks, s.run, s.cur = nil, nil, nil
	s.timers = nil
	s.aborted = false
	s.outcome = Outcome{Kind: "returned"}
	s.done = make(chan struct{})
	s.incStart = s.Steps
	s.stopAt = s.Steps + s.MaxStep
	s.nextAt = 1 << 62
	s.live = 0
	s.replayKeys = s.replayKeys[:0]
	for k := range s.Replay[StreamSched] {
		s.replayKeys = append(s.replayKeys, k)
	}
	sort.Slice(s.replayKeys, func(i, j int) bool { return s.replayKeys[i] < s.replayKeys[j] })
	S = s
	main := s.newTask("main")
	s.cur = main
	main.state = stRunning
	s.resetCountdown()
	go s.taskBody(main, func() {
		f()
		s.finish(Outcome{Kind: "returned"})
	})
	main.wake <- struct{}{}
	<-s.done
	// Reap every remaining goroutine so that no state leaks into later runs.
	for _, x := range s.tasks {
		if x.state != stDead && x != main {
			s.outcome.Left = append(s.outcome.Left, x.name)
		}
	}
	for {
		var t *Task
		for _, x := range s.tasks {
			if x.state != stDead {
				t = x
				break
			}
		}
		if t == nil {
			break
		}
		s.cur = t
		s.allDead = make(chan struct{}, 1)
		t.wake <- struct{}{}
		<-s.allDead
	}
	S = nil
	return s.outcome
}

func (s *Sim) newTask(name string) *Task {
	t := &Task{id: s.nextTask, name: name, wake: make(chan struct{}, 1), state: stRunnable}
	s.nextTask++
	if s.Rng != nil {
		t.prio = s.Rng.Uint64()
		t.starved = s.Policy.Starve && t.prio%4 == 0
	}
	s.tasks = append(s.tasks, t)
	return t
}

func (s *Sim) taskBody(t *Task, f func()) {
	<-t.wake
	normal := false
	defer func() {
		if !normal {
			r := recover()
			if r != nil && !s.aborted {
				st := string(debug.Stack())
				s.finish(Outcome{Kind: "panic", Detail: fmt.Sprint(r) + "\n" + trimStack(st)})
			}
		}
		t.state = stDead
		for i, x := range s.tasks {
			if x == t {
				s.tasks = append(s.tasks[:i:i], s.tasks[i+1:]...)
				break
			}
		}
		if s.aborted {
			select {
			case <-s.done:
				// reaper is waiting
				s.allDead <- struct{}{}
			default:
				close(s.done)
			}
			return
		}
		s.schedule(true)
	}()
	if !s.aborted {
		f()
	}
	normal = true
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "pudding-shed/") && !strings.Contains(lines[i], "verifsim") {
			out = append(out, strings.TrimSpace(lines[i]))
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// finish ends the current incarnation.
func (s *Sim) finish(o Outcome) {
	if s.aborted {
		return
	}
	s.aborted = true
	s.outcome = o
}

// Abort ends the incarnation from the current task; it does not return.
func (s *Sim) Abort(o Outcome) {
	s.finish(o)
	runtime.Goexit()
}

// Exit is os.Exit.
func Exit(code int) {
	S.Abort(Outcome{Kind: "exit", Code: code, Detail: fmt.Sprintf("os.Exit(%d)", code)})
}

// Dying reports whether the process has already ended and tasks are only being unwound.
func Dying() bool { return S == nil || S.aborted }

// checkDying must be called by anything that could block or loop.
func checkDying() {
	if S.aborted {
		runtime.Goexit()
	}
}

// ---------------------------------------------------------------- scheduling

func (s *Sim) resetCountdown() {
	if s.Rng == nil {
		s.armReplay()
		return
	}
	if s.Policy.MeanGap <= 0 {
		s.countdown = 1 << 60
		return
	}
	// geometric-ish gaps
	g := int64(1)
	m := uint64(s.Policy.MeanGap)
	g += int64(s.Rng.Uint64() % (2 * m))
	s.countdown = g
}

// P is a preemption point.
func P() {
	s := S
	if s == nil {
		return
	}
	s.Steps++
	s.now += stepNs
	s.countdown--
	if s.countdown <= 0 || s.Steps >= s.stopAt || s.now >= s.nextAt {
		s.preempt()
	}
}

const stepNs = 20

// WantReplayKey tells P when the next recorded switch is due.
func (s *Sim) armReplay() {
	// countdown to the next recorded schedule decision
	i := sort.Search(len(s.replayKeys), func(i int) bool { return s.replayKeys[i] > s.Steps })
	if i == len(s.replayKeys) {
		s.countdown = 1 << 60
	} else {
		s.countdown = int64(s.replayKeys[i] - s.Steps)
	}
}

func (s *Sim) preempt() {
	if s.aborted {
		runtime.Goexit()
	}
	if s.Steps >= s.stopAt {
		s.Abort(Outcome{Kind: "stuck", Detail: fmt.Sprintf("no end after %d steps; %s", s.MaxStep, s.taskDump())})
	}
	if s.now >= s.nextAt {
		s.fireTimers()
	}
	if s.countdown > 0 {
		return
	}
	s.resetCountdown()
	if len(s.run) == 0 {
		return
	}
	if s.Rng != nil {
		// choose a task other than current
		t := s.pickRandom()
		s.Record.Set(StreamSched, s.Steps, uint64(t.id)+1)
		s.switchTo(t)
		return
	}
	if v := s.Replay.Get(StreamSched, s.Steps); v != 0 {
		for _, t := range s.run {
			if uint64(t.id)+1 == v {
				s.Record.Set(StreamSched, s.Steps, v)
				s.switchTo(t)
				return
			}
		}
	}
}

func (s *Sim) pickRandom() *Task {
	if s.Policy.Priority {
		var best *Task
		for _, t := range s.run {
			if best == nil || t.prio > best.prio {
				best = t
			}
		}
		// lower the current task's priority at this change point
		s.cur.prio = s.Rng.Uint64() >> 1
		return best
	}
	n := len(s.run)
	t := s.run[s.Rng.Intn(n)]
	if t.starved && n > 1 {
		t = s.run[s.Rng.Intn(n)]
	}
	return t
}

func (s *Sim) removeRun(t *Task) {
	for i, x := range s.run {
		if x == t {
			s.run = append(s.run[:i], s.run[i+1:]...)
			return
		}
	}
}

// switchTo hands the token to t; the current task stays runnable.
func (s *Sim) switchTo(t *Task) {
	me := s.cur
	s.removeRun(t)
	me.state = stRunnable
	s.run = append(s.run, me)
	s.handoff(t)
	<-me.wake
	if s.aborted {
		runtime.Goexit()
	}
}

func (s *Sim) handoff(t *Task) {
	s.Switches++
	s.mix(&s.schedHash, uint64(t.id)<<32|(s.Steps-s.incStart)&0xffffffff)
	s.cur = t
	t.state = stRunning
	t.why = ""
	t.wake <- struct{}{}
}

// park blocks the current task until some other task or timer makes it runnable.
func (s *Sim) park(why string) {
	if s.aborted {
		runtime.Goexit()
	}
	me := s.cur
	me.state = stBlocked
	me.why = why
	s.schedule(false)
	<-me.wake
	if s.aborted {
		runtime.Goexit()
	}
}

func (s *Sim) ready(t *Task) {
	if t.state == stBlocked {
		t.state = stRunnable
		t.why = ""
		s.run = append(s.run, t)
	}
}

// schedule picks the next task when the current one cannot continue.
func (s *Sim) schedule(dying bool) {
	s.Steps++
	s.now += stepNs
	me := s.cur
	for {
		s.fireTimers()
		if len(s.run) > 0 {
			break
		}
		if len(s.timers) == 0 {
			s.finish(Outcome{Kind: "deadlock", Detail: "all tasks asleep: " + s.taskDump()})
			if dying {
				close(s.done)
				return
			}
			// unwind ourselves
			runtime.Goexit()
		}
		// nothing runnable: jump the clock
		if s.timers[0].at > s.now {
			s.now = s.timers[0].at
		}
	}
	if s.Steps >= s.stopAt {
		s.finish(Outcome{Kind: "stuck", Detail: fmt.Sprintf("no end after %d steps; %s", s.MaxStep, s.taskDump())})
		if dying {
			close(s.done)
			return
		}
		runtime.Goexit()
	}
	t := s.run[0]
	if s.Rng != nil {
		if len(s.run) > 1 && (s.Policy.BlockRand || s.Policy.Priority) {
			c := t
			if s.Policy.Priority {
				for _, x := range s.run {
					if x.prio > c.prio {
						c = x
					}
				}
			} else {
				c = s.run[s.Rng.Intn(len(s.run))]
				if c.starved {
					c = s.run[s.Rng.Intn(len(s.run))]
				}
			}
			if c != t {
				t = c
				s.Record.Set(StreamSched, s.Steps, uint64(t.id)+1)
			}
		}
	} else if v := s.Replay.Get(StreamSched, s.Steps); v != 0 {
		for _, x := range s.run {
			if uint64(x.id)+1 == v {
				s.Record.Set(StreamSched, s.Steps, v)
				t = x
				break
			}
		}
	}
	s.removeRun(t)
	s.resetCountdown()
	if t == me && !dying {
		// made runnable again while choosing (timer): token stays here
		s.Switches++
		s.mix(&s.schedHash, uint64(t.id)<<32|(s.Steps-s.incStart)&0xffffffff)
		t.state = stRunning
		t.wake <- struct{}{}
		return
	}
	s.handoff(t)
}

func (s *Sim) taskDump() string {
	var out []string
	for _, t := range s.tasks {
		w := t.why
		if t.state == stRunnable || t.state == stRunning {
			w = "runnable"
		}
		out = append(out, fmt.Sprintf("[%d %s: %s]", t.id, t.name, w))
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], "...")
	}
	return strings.Join(out, " ")
}

func (s *Sim) setNext() {
	if len(s.timers) > 0 {
		s.nextAt = s.timers[0].at
	} else {
		s.nextAt = 1 << 62
	}
}

func (s *Sim) fireTimers() {
	defer s.setNext()
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		t := heap.Pop(&s.timers).(*timer)
		if !t.dead {
			t.dead = true
			t.f()
		}
	}
}

// AfterFunc runs f in scheduler context (must not block) after d nanoseconds.
// It returns a cancel function that reports whether the timer was still pending.
func (s *Sim) AfterFunc(d int64, f func()) func() bool {
	s.timerSeq++
	t := &timer{at: s.now + d, seq: s.timerSeq, f: f}
	heap.Push(&s.timers, t)
	s.setNext()
	return func() bool {
		if t.dead {
			return false
		}
		t.dead = true
		heap.Remove(&s.timers, t.idx)
		s.setNext()
		return true
	}
}

// Sleep blocks the current task for d simulated nanoseconds.
func Sleep(d int64) {
	s := S
	if s == nil {
		return
	}
	checkDying()
	P()
	if d <= 0 {
		return
	}
	me := s.cur
	s.AfterFunc(d, func() { s.ready(me) })
	s.park("sleep")
}

// Others lists the tasks that there are beside the running one.
func Others() (l []string) {
	for _, x := range S.tasks {
		if x.state != stDead && x != S.cur {
			l = append(l, x.name)
		}
	}
	return
}

// Go starts a new task.
func Go(f func()) {
	s := S
	if s == nil {
		panic("simrt.Go outside the simulation")
	}
	checkDying()
	name := "go"
	if pc, _, line, ok := runtime.Caller(1); ok {
		fn := runtime.FuncForPC(pc).Name()
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = fn[i+1:]
		}
		_ = line
		name = fn
	}
	t := s.newTask(name)
	s.run = append(s.run, t)
	go s.taskBody(t, f)
	P()
}

// Gosched is runtime.Gosched: an explicit offer to switch.
func Gosched() {
	s := S
	if s == nil {
		return
	}
	checkDying()
	s.Steps++
	s.now += stepNs
	if len(s.run) == 0 && len(s.timers) > 0 && s.timers[0].at > s.now {
		s.now = s.timers[0].at // let time pass for pollers
	}
	s.fireTimers()
	if s.Steps >= s.stopAt {
		s.Abort(Outcome{Kind: "stuck", Detail: "spinning; " + s.taskDump()})
	}
	s.resetCountdown()
	if len(s.run) > 0 {
		s.switchTo(s.run[0])
	}
}

// CurID is the id of the running task.
func CurID() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return S.cur.id
}

// TaskCount is runtime.NumGoroutine.
func TaskCount() int {
	if S == nil {
		return 1
	}
	return len(S.tasks)
}

// RMW performs x = f(x) with a preemption point between the load and the store,
// as unsynchronised read-modify-write on shared memory can really interleave.
func RMW[T any](p *T, f func(T) T) {
	v := *p
	v = f(v)
	P()
	*p = v
}

// GoFromTimer starts a task from scheduler context.
func (s *Sim) GoFromTimer(f func()) {
	if s.aborted {
		return
	}
	t := s.newTask("timer")
	s.run = append(s.run, t)
	go s.taskBody(t, f)
}

// Hooks lets files added to the repository's packages offer access to their
// insides. A scenario does without a hook that is not there.
var Hooks = map[string]any{}

// Scale is the value the constant named by the rewriter's -scale stands for,
// and ScaleTo what it is to be in this run.
var ScaleTo = 65535

// Scaled is that constant, less d.
func Scaled(d int) int { return ScaleTo - d }

// Swapped counts, by name, the calls that the rewriter sends through Swap and
// BinsPerPass (under "bins").
var Swapped map[string]int

// Swaps holds functions to call in place of those given to Swap, by name.
var Swaps = map[string]any{}

func Swap[T any](name string, f func() T) T {
	if g, ok := Swaps[name].(func() T); ok {
		return g()
	}
	return f()
}

// BinsTo, unless zero, is what BinsPerPass gives.
var BinsTo int64

func BinsPerPass(n int64) int64 {
	if BinsTo > 0 {
		return BinsTo
	}
	return n
}

// DigitsTo, unless zero, is how many digits Digits gives.
var DigitsTo int64

func Digits(n int64) int64 {
	if DigitsTo > 0 {
		return DigitsTo
	}
	return n
}
