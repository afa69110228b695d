package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	simbufio "github.com/KitchenMishap/pudding-shed/verifsim/simbufio"
	simhttp "github.com/KitchenMishap/pudding-shed/verifsim/simhttp"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
	simruntime "github.com/KitchenMishap/pudding-shed/verifsim/simruntime"
)

// Spec names one simulated run completely. With Choices it is an explicit
// schedule and fault trace; without, every choice comes from the PRNG seeded
// with (Seed, Scenario, Index).
type Spec struct {
	Prop     string        `json:"prop,omitempty"`
	Scenario string        `json:"scenario"`
	Seed     uint64        `json:"seed"`
	Index    uint64        `json:"index"`
	Tier     string        `json:"tier"`
	Choices  simrt.Choices `json:"choices,omitempty"`
}

type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Result of one simulated run.
type Result struct {
	Fails    []Failure
	Hash     uint64
	Sched    uint64
	Steps    uint64
	Switches uint64
	SimNs    int64
	Evals    int
	Notes    map[string]uint64
	Faults   map[string]uint64
	Record   simrt.Choices
	Events   []string
	Desc     string
}

// Ctx is what a scenario works with.
type Ctx struct {
	Sim    *simrt.Sim
	Disk   *simos.Disk
	Deep   bool
	Fails  []Failure
	Evals  int
	Notes  map[string]uint64
	Faults map[string]uint64
	Desc   string // the case written out, for the evidence
	disks  []*simos.Disk
	// reading back: an error is an answer once a fault has fired; and one came
	lenient, gaveUp bool
	leaks           bool // what is left open counts
	node            *node
	keep            []string    // files that may stay open
	own             []string    // what may be changed at all; nil: nobody looks
	drawn           bool        // the digits of the address lists are settled
	side            *simrt.Rand // benign randomness derived from the seed in both modes
}

func (c *Ctx) Int(n int) int            { return c.Sim.Draw(simrt.StreamWork, n) }
func (c *Ctx) Range(lo, hi int) int     { return lo + c.Int(hi-lo+1) }
func (c *Ctx) Bool() bool               { return c.Int(2) == 1 }
func (c *Ctx) Chance(pct int) bool      { return c.Int(100) >= 100-pct }
func (c *Ctx) Pick(xs ...int) int       { return xs[c.Int(len(xs))] }
func (c *Ctx) Note(name string)         { c.Notes[name]++ }
func (c *Ctx) NoteN(name string, n int) { c.Notes[name] += uint64(n) }
func (c *Ctx) Fail(class, f string, a ...any) {
	if len(c.Fails) < 4 {
		c.Fails = append(c.Fails, Failure{class, fmt.Sprintf(f, a...)})
	}
	c.Sim.Log("VIOLATION %s: "+f, append([]any{class}, a...)...)
}
func (c *Ctx) Failed() bool { return len(c.Fails) > 0 }

// Check counts one oracle evaluation.
func (c *Ctx) Check(ok bool, class, f string, a ...any) bool {
	c.Evals++
	if !ok {
		c.Fail(class, f, a...)
	}
	return ok
}

// Run runs f as the main goroutine of one process incarnation.
func (c *Ctx) Run(f func()) simrt.Outcome {
	resetGlobals()
	simos.Cur.NewProcess()
	c.keep = nil
	o := c.Sim.RunProcess(f)
	c.Sim.Log("process ended: %s %s", o.Kind, firstLine(o.Detail))
	return o
}

// Closed is called where everything that was opened has been closed, or where a
// job has ended with success: nothing may be left open or running then.
func (c *Ctx) Closed(what string) {
	if !c.leaks || c.Failed() {
		return
	}
	simrt.Sleep(600e9) // whoever is still on the way out gets there
	h, t := c.open(), simrt.Others()
	c.Check(len(h) == 0, "left-open", "%s: files left open: %s (%s)", what, strings.Join(h, " "), c.Desc)
	c.Check(len(t) == 0, "left-running", "%s: goroutines left: %s (%s)", what, strings.Join(t, ", "), c.Desc)
	if c.node != nil {
		c.Check(c.node.open == 0, "left-unread", "%s: %d answers of the node left unclosed (%s)", what, c.node.open, c.Desc)
	}
	c.Note("closed:" + what)
}

// open lists the files that are open, but for those that were when a scenario
// said so.
func (c *Ctx) open() (l []string) {
	keep := map[string]int{}
	for _, n := range c.keep {
		keep[n]++
	}
	for _, n := range simos.Cur.Handles() {
		if keep[n]--; keep[n] < 0 {
			l = append(l, n)
		}
	}
	return
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// UseDisk mounts d.
func (c *Ctx) UseDisk(d *simos.Disk) *simos.Disk {
	c.Disk = d
	simos.Cur = d
	for _, x := range c.disks {
		if x == d {
			return d
		}
	}
	c.disks = append(c.disks, d)
	c.neighbours(d)
	return d
}

// What main() does before a job.
func resetGlobals() {
	chainstorage.PrevFirstTxo = -1
	chainstorage.PrevTrans = -1
}

type scenario struct {
	name    string
	maxStep uint64
	run     func(c *Ctx)
}

var scenarios = map[string]*scenario{}

func register(name string, maxStep uint64, run func(c *Ctx)) {
	scenarios[name] = &scenario{name, maxStep, run}
}

func mixSeed(a uint64, s string, i uint64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", a, s, i)
	return h.Sum64()
}

func runCase(sp *Spec, keep bool) (res Result) {
	sc := scenarios[sp.Scenario]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "harness error: unknown scenario", sp.Scenario)
		os.Exit(3)
	}
	seed := mixSeed(sp.Seed, sp.Scenario, sp.Index)
	var s *simrt.Sim
	if len(sp.Choices) == 0 {
		r := simrt.NewRand(seed)
		pr := simrt.NewRand(seed ^ 0xabcdef)
		// swarm: every run gets its own scheduling style
		pol := simrt.SchedPolicy{BlockRand: true}
		switch pr.Intn(8) {
		case 0:
			pol.MeanGap = 0
			pol.BlockRand = pr.Intn(2) == 0
		case 1:
			pol.MeanGap = 2
		case 2, 3:
			pol.MeanGap = 8
		case 4, 5:
			pol.MeanGap = 60
		case 6:
			pol.MeanGap = 700
		case 7:
			pol.MeanGap = 40 + pr.Intn(300)
			pol.Priority = true
		}
		if pr.Intn(4) == 0 {
			pol.Starve = true
		}
		s = simrt.New(r, nil, pol, sc.maxStep)
	} else {
		s = simrt.New(nil, sp.Choices, simrt.SchedPolicy{}, sc.maxStep)
	}
	s.KeepLog = keep
	c := &Ctx{Sim: s, Notes: map[string]uint64{}, Faults: map[string]uint64{}, Deep: sp.Tier == "thorough", side: simrt.NewRand(seed ^ 0x5151)}
	simhttp.RT = nil
	simruntime.HeapFn = nil
	simruntime.GCFn = nil
	simbufio.Cap = 65536
	blkNeis, trnNeis = allBlkNeis, allTrnNeis
	simrt.DigitsTo, simrt.BinsTo, simrt.Swaps = 0, 0, map[string]any{}
	curCase.Store(fmt.Sprintf("%s seed=%d index=%d", sp.Scenario, sp.Seed, sp.Index))
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "harness error in %s seed=%d index=%d: %v\n%s\n", sp.Scenario, sp.Seed, sp.Index, r, debug.Stack())
			os.Exit(3)
		}
	}()
	c.UseDisk(simos.NewDisk())
	sc.run(c)
	for _, d := range c.disks {
		for k, n := range d.Fired {
			if n > 0 {
				c.Faults["disk:"+simos.FaultNames[k]] += uint64(n)
			}
		}
		if d.FullHits > 0 {
			c.Faults["disk:full"] += uint64(d.FullHits)
		}
	}
	for k, v := range s.Probes {
		c.Notes[k] += v
	}
	h := s.EvHash ^ s.SchedHash()*31
	h = (h ^ s.Steps) * 1099511628211
	h ^= hashChoices(s.Record[simrt.StreamWork])
	for _, f := range c.Fails {
		h = h*31 ^ mixSeed(1, f.Class, 0)
	}
	res = Result{Fails: c.Fails, Hash: h, Sched: s.SchedHash() ^ s.EvHash, Steps: s.Steps, Switches: s.Switches, SimNs: s.Now(), Evals: c.Evals,
		Notes: c.Notes, Faults: c.Faults, Record: s.Record, Events: s.Events, Desc: c.Desc}
	if len(res.Fails) == 0 {
		res.Record = nil
	} else {
		if res.Record == nil {
			res.Record = simrt.Choices{}
		}
		res.Record.Set("explicit", 0, 1) // so that an empty trace stays an explicit one
	}
	return res
}

func hashChoices(m map[uint64]uint64) uint64 {
	ks := make([]uint64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	h := uint64(14695981039346656037)
	for _, k := range ks {
		h = (h ^ k) * 1099511628211
		h = (h ^ m[k]) * 1099511628211
	}
	return h
}
