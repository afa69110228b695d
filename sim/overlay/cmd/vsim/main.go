// Command vsim is the simulated pudding-shed: the real packages, rewritten so
// that every goroutine, channel, lock, clock, file and network access goes
// through a deterministic simulator, together with the workloads and oracles.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"sync/atomic"
	"time"
)

var curCase atomic.Value
var realOut *os.File

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|worker|exec|minimise|run ...")
		os.Exit(3)
	}
	realOut = os.Stdout
	switch os.Args[1] {
	case "check":
		os.Exit(driverMain(os.Args[2:]))
	case "worker":
		caseProcess()
		workerMain()
	case "exec": // exec FILE: run one spec, print the result
		caseProcess()
		os.Exit(execMain(os.Args[2]))
	case "minimise":
		caseProcess()
		minimiseMain(os.Args[2], os.Args[3])
	case "run": // run SCENARIO SEED FROM TO: development aid
		caseProcess()
		devRun(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(3)
	}
}

// caseProcess prepares a process that runs simulated cases.
func caseProcess() {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null // nothing the code under test prints may mix with ours
	}
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	curCase.Store("")
	limit := 100 * time.Second
	if v, err := strconv.Atoi(os.Getenv("VSIM_CASE_LIMIT")); err == nil {
		limit = time.Duration(v) * time.Second
	}
	go func() {
		last, since := "", time.Now()
		for {
			time.Sleep(time.Second)
			now := curCase.Load().(string)
			if now != last {
				last, since = now, time.Now()
				continue
			}
			if now != "" && time.Since(since) > limit {
				fmt.Fprintf(os.Stderr, "harness error: case %s did not finish in %v of real time\n", now, limit)
				if os.Getenv("VSIM_STACKS") != "" {
					b := make([]byte, 1<<20)
					os.Stderr.Write(b[:runtime.Stack(b, true)])
				}
				os.Exit(4)
			}
		}
	}()
}

type job struct {
	Scenario string `json:"s"`
	Seed     uint64 `json:"seed"`
	From     uint64 `json:"from"`
	To       uint64 `json:"to"`
	Tier     string `json:"tier"`
	Hashes   bool   `json:"hashes"`
}
type failedCase struct {
	Spec  Spec      `json:"spec"`
	Fails []Failure `json:"fails"`
}
type jobResult struct {
	Job      job               `json:"job"`
	Runs     int               `json:"runs"`
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	SimNs    int64             `json:"simns"`
	Evals    int               `json:"evals"`
	Empty    int               `json:"empty"` // runs that evaluated nothing
	Notes    map[string]uint64 `json:"notes"`
	Faults   map[string]uint64 `json:"faults"`
	FaultRun int               `json:"faultruns"`
	Sched    []uint64          `json:"sched"`
	Distinct []uint64          `json:"distinct"`
	Hashes   map[string]uint64 `json:"hashes"`
	Failed   []failedCase      `json:"failed"`
	WallMs   int64             `json:"wallms"`
	Sample   string            `json:"sample"`
}

func workerMain() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<24)
	out := json.NewEncoder(realOut)
	for in.Scan() {
		var j job
		if json.Unmarshal(in.Bytes(), &j) != nil {
			os.Exit(3)
		}
		t0 := time.Now()
		r := jobResult{Job: j, Notes: map[string]uint64{}, Faults: map[string]uint64{}, Hashes: map[string]uint64{}}
		classes := map[string]int{}
		for i := j.From; i < j.To; i++ {
			sp := Spec{Scenario: j.Scenario, Seed: j.Seed, Index: i, Tier: j.Tier}
			res := runCase(&sp, false)
			r.Runs++
			r.Steps += res.Steps
			r.Switches += res.Switches
			r.SimNs += res.SimNs
			r.Evals += res.Evals
			if res.Evals == 0 {
				r.Empty++
			} else {
				r.Distinct = append(r.Distinct, res.Hash)
			}
			r.Sched = append(r.Sched, res.Sched)
			for k, v := range res.Notes {
				r.Notes[k] += v
			}
			for k, v := range res.Faults {
				r.Faults[k] += v
			}
			if i == j.From || r.Sample == "" {
				r.Sample = fmt.Sprintf("%s seed %d index %d: %s; %d scheduler steps, %d task switches, faults %v, %d comparisons, %d violations", j.Scenario, j.Seed, i, res.Desc, res.Steps, res.Switches, res.Faults, res.Evals, len(res.Fails))
			}
			if len(res.Faults) > 0 {
				r.FaultRun++
			}
			if j.Hashes || i%16 == 0 {
				r.Hashes[strconv.FormatUint(i, 10)] = res.Hash
			}
			if len(res.Fails) > 0 {
				cl := res.Fails[0].Class
				classes[cl]++
				if classes[cl] <= 2 {
					sp.Choices = res.Record
					r.Failed = append(r.Failed, failedCase{sp, res.Fails})
				} else if classes[cl] <= 20 {
					r.Failed = append(r.Failed, failedCase{sp, res.Fails})
				}
			}
		}
		curCase.Store("")
		r.WallMs = time.Since(t0).Milliseconds()
		out.Encode(r)
	}
}

func devRun(a []string) {
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	from, _ := strconv.ParseUint(a[2], 10, 64)
	to, _ := strconv.ParseUint(a[3], 10, 64)
	keep := len(a) > 4
	tier := os.Getenv("TIER")
	if p := os.Getenv("VSIM_PROFILE"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	notes := map[string]uint64{}
	faults := map[string]uint64{}
	classes := map[string]int{}
	var steps, most uint64
	var slow time.Duration
	slowi := from
	evals := 0
	for i := from; i < to; i++ {
		sp := Spec{Scenario: a[0], Seed: seed, Index: i, Tier: tier}
		t1 := time.Now()
		res := runCase(&sp, keep)
		if d := time.Since(t1); d > slow {
			slow, slowi = d, i
		}
		steps += res.Steps
		most = max(most, res.Steps)
		evals += res.Evals
		for k, v := range res.Notes {
			notes[k] += v
		}
		for k, v := range res.Faults {
			faults[k] += v
		}
		if keep {
			for _, e := range res.Events {
				fmt.Fprintln(realOut, e)
			}
		}
		if len(res.Fails) > 0 {
			cl := res.Fails[0].Class
			classes[cl]++
			if os.Getenv("VSIM_FIRST") != "" {
				fmt.Fprintf(realOut, "FAIL %s index %d: %s: %s\n", a[0], i, cl, res.Fails[0].Msg)
				os.Exit(1)
			}
			if classes[cl] <= 3 {
				fmt.Fprintf(realOut, "index %d steps %d: %s: %s\n", i, res.Steps, cl, res.Fails[0].Msg)
			}
		}
	}
	fmt.Fprintf(realOut, "runs %d steps %d (most %d) evals %d wall %v slowest %v (index %d)\nnotes %v\nfaults %v\nfailing %v\n", to-from, steps, most, evals, time.Since(t0), slow, slowi, notes, faults, classes)
}
