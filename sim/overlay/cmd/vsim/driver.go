package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

// plan of one property: scenarios with the number of runs of the quick tier.
type planItem struct {
	Scenario string
	Quick    int
}
type planT struct {
	ID    string
	Items []planItem
	Real  string // components that ran real code
	Stub  string // components replaced by a stand-in
	Rule  string
}

type known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	What     string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() (out []known) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []known `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		fmt.Fprintln(os.Stderr, "harness error: known-findings.json unreadable")
		os.Exit(2)
	}
	return f.Findings
}

type workerProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

func startWorker() (*workerProc, error) {
	w := &workerProc{}
	w.cmd = exec.Command(os.Args[0], "worker")
	w.cmd.Stderr = &w.err
	var err error
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, w.cmd.Start()
}
func (w *workerProc) do(j job) (*jobResult, error) {
	b, _ := json.Marshal(j)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		w.cmd.Wait()
		return nil, fmt.Errorf("worker died: %v %s", err, tail(w.err.String()))
	}
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		w.cmd.Wait()
		return nil, fmt.Errorf("worker died: %v\n%s", w.cmd.ProcessState, tail(w.err.String()))
	}
	var r jobResult
	if err := json.Unmarshal(line, &r); err != nil {
		return nil, err
	}
	return &r, nil
}
func (w *workerProc) stop() { w.in.Close(); w.cmd.Process.Kill(); w.cmd.Wait() }

func tail(s string) string {
	if len(s) > 6000 {
		s = s[:3000] + "\n...\n" + s[len(s)-2500:]
	}
	return s
}

type outFile struct {
	Spec    Spec      `json:"spec"`
	Fails   []Failure `json:"fails"`
	Hash    string    `json:"hash"`
	Steps   uint64    `json:"steps"`
	Events  []string  `json:"events,omitempty"`
	HowTo   string    `json:"how_to_replay,omitempty"`
	Choices int       `json:"nondefault_choices"`
	Fatal   string    `json:"fatal,omitempty"`
}

// execSpec runs a spec in a fresh process.
func execSpec(sp Spec, dir string) (*outFile, error) {
	f := filepath.Join(dir, fmt.Sprintf("exec-%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(outFile{Spec: sp})
	if err := os.WriteFile(f, b, 0644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	cmd := exec.Command(os.Args[0], "exec", f)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 {
			err = nil
		}
	}
	if err != nil {
		if fl := fatalOf(e.String()); fl != "" {
			return &outFile{Spec: sp, Fails: []Failure{{"fatal", fl}}, Fatal: fl}, nil
		}
		return nil, fmt.Errorf("exec: %v %s", err, tail(e.String()))
	}
	var r outFile
	if err := json.Unmarshal(o.Bytes(), &r); err != nil {
		return nil, err
	}
	return &r, nil
}

// fatalOf recognises a Go runtime death that no recover can catch.
func fatalOf(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "of real time") && strings.HasPrefix(l, "harness error: case ") {
			return "the run never ends: the code computes without end between two visible operations"
		}
		if strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "goroutine stack exceeds") {
			return l
		}
	}
	return ""
}

func execMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var in outFile
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	res := runCase(&in.Spec, true)
	ev := res.Events
	if len(ev) > 400 {
		ev = append(append(append([]string{}, ev[:100]...), "..."), ev[len(ev)-300:]...)
	}
	sp := in.Spec
	if len(sp.Choices) == 0 {
		sp.Choices = res.Record
	}
	json.NewEncoder(realOut).Encode(outFile{Spec: sp, Fails: res.Fails, Hash: fmt.Sprintf("%016x", res.Hash), Steps: res.Steps, Events: ev, Choices: sp.Choices.Count()})
	if len(res.Fails) > 0 {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- minimising

func minimiseMain(in, out string) {
	b, err := os.ReadFile(in)
	if err != nil {
		os.Exit(3)
	}
	var f outFile
	if json.Unmarshal(b, &f) != nil || len(f.Fails) == 0 {
		os.Exit(3)
	}
	class := f.Fails[0].Class
	end := time.Now().Add(45 * time.Second)
	tries := 0
	best := f.Spec.Choices
	try := func(ch simrt.Choices) bool {
		if time.Now().After(end) || tries > 600 {
			return false
		}
		tries++
		sp := f.Spec
		sp.Choices = ch
		r := runCase(&sp, false)
		curCase.Store("")
		for _, x := range r.Fails {
			if x.Class == class {
				if r.Record != nil && r.Record.Count() <= ch.Count() {
					best = r.Record
				} else {
					best = ch
				}
				return true
			}
		}
		return false
	}
	save := func() {
		sp := f.Spec
		sp.Choices = best
		b, _ := json.Marshal(outFile{Spec: sp, Fails: f.Fails, Choices: best.Count()})
		os.WriteFile(out, b, 0644)
	}
	if !try(best) {
		os.Exit(5) // does not replay from its choices
	}
	save()
	drop := func(stream string, keys []uint64) simrt.Choices {
		c := best.Clone()
		for _, k := range keys {
			delete(c[stream], k)
		}
		return c
	}
	order := []string{simrt.StreamSched, simrt.StreamFault, simrt.StreamNet, simrt.StreamMisc, "short", simrt.StreamWork}
	for round := 0; round < 3; round++ {
		before := best.Count()
		for _, st := range order {
			chunk := len(best[st])
			for chunk >= 1 && len(best[st]) > 0 {
				keys := make([]uint64, 0, len(best[st]))
				for k := range best[st] {
					keys = append(keys, k)
				}
				sort.Slice(keys, func(i, j int) bool { return keys[i] > keys[j] })
				progress := false
				for i := 0; i < len(keys); i += chunk {
					e := i + chunk
					if e > len(keys) {
						e = len(keys)
					}
					if try(drop(st, keys[i:e])) {
						progress = true
						save()
						if chunk > 1 {
							break
						}
					}
					if time.Now().After(end) {
						break
					}
				}
				if time.Now().After(end) {
					break
				}
				if !progress || chunk == 1 {
					if chunk == 1 && !progress {
						break
					}
					if chunk == 1 {
						break
					}
					chunk /= 2
				} else if chunk > len(best[st]) {
					chunk = len(best[st])
				}
			}
		}
		// smaller values for workload draws
		for k, v := range best.Clone()[simrt.StreamWork] {
			if v > 1 && time.Now().Before(end) {
				c := best.Clone()
				c.Set(simrt.StreamWork, k, v/2)
				if try(c) {
					save()
				}
			}
		}
		if best.Count() == before || time.Now().After(end) {
			break
		}
	}
	save()
}

// ---------------------------------------------------------------- the check

func driverMain(a []string) int {
	if len(a) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check PROPERTY quick|thorough")
		return 2
	}
	prop, tier := a[0], a[1]
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseUint(v, 10, 64); err == nil {
			seed = n
		} else {
			h := fnv.New64a()
			h.Write([]byte(v))
			seed = h.Sum64()
		}
	}
	plan, ok := plans[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness error: no plan for", prop)
		return 2
	}
	t0 := time.Now()
	budget := 55 * time.Second // wall cap; the run counts normally end first
	mult := 1.0
	if tier == "thorough" {
		budget = 10 * time.Minute
		mult = 60
	}
	if v, err := strconv.Atoi(os.Getenv("VSIM_BUDGET")); err == nil {
		budget = time.Duration(v) * time.Second
	}
	if v, err := strconv.ParseFloat(os.Getenv("VSIM_MULT"), 64); err == nil {
		mult = v
	}
	tmp, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		return 2
	}
	defer os.RemoveAll(tmp)

	// jobs: chunks of every scenario, interleaved
	type prog struct {
		it   planItem
		next uint64
		n    uint64
		step uint64
	}
	var ps []*prog
	for _, it := range plan.Items {
		n := uint64(float64(it.Quick) * mult)
		st := uint64(it.Quick / 32)
		if st < 1 {
			st = 1
		}
		if st > 100 {
			st = 100
		}
		ps = append(ps, &prog{it, 0, n, st})
	}
	var mu sync.Mutex
	deadline := t0.Add(budget)
	capped := false
	stopAll := false
	rr := 0
	next := func() (job, bool) {
		mu.Lock()
		defer mu.Unlock()
		if stopAll {
			return job{}, false
		}
		if time.Now().After(deadline) {
			capped = true
			return job{}, false
		}
		// the scenario that is least far along
		var b *prog
		for i := range ps {
			p := ps[(i+rr)%len(ps)]
			if p.next >= p.n {
				continue
			}
			if b == nil || float64(p.next)/float64(p.n) < float64(b.next)/float64(b.n) {
				b = p
			}
		}
		rr++
		if b == nil {
			return job{}, false
		}
		e := b.next + b.step
		if e > b.n {
			e = b.n
		}
		j := job{Scenario: b.it.Scenario, Seed: seed, From: b.next, To: e, Tier: tier}
		b.next = e
		return j, true
	}
	var results []*jobResult
	var fatals []failedCase
	var herr error
	var wg sync.WaitGroup
	knownList := loadKnown()
	isKnown := func(class string) bool {
		for _, k := range knownList {
			if k.Property == prop && k.Class == class {
				return true
			}
		}
		return false
	}
	nw := 8
	if v, err := strconv.Atoi(os.Getenv("VSIM_WORKERS")); err == nil {
		nw = v
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := startWorker()
			for err == nil {
				j, ok := next()
				if !ok {
					w.stop()
					return
				}
				r, e := w.do(j)
				if e != nil {
					w.stop()
					// find the run that killed the worker
					found := false
					if fatalOf(w.err.String()) != "" {
						for x := j.From; x < j.To; x++ {
							sp := Spec{Scenario: j.Scenario, Seed: j.Seed, Index: x, Tier: j.Tier}
							o, e2 := execSpec(sp, tmp)
							if e2 == nil && o.Fatal != "" {
								mu.Lock()
								fatals = append(fatals, failedCase{sp, []Failure{{"fatal", o.Fatal}}})
								stopAll = true
								mu.Unlock()
								found = true
								break
							}
						}
					}
					if !found {
						mu.Lock()
						if herr == nil {
							herr = fmt.Errorf("scenario %s runs %d-%d: %v", j.Scenario, j.From, j.To, e)
						}
						stopAll = true
						mu.Unlock()
						return
					}
					w, err = startWorker()
					continue
				}
				mu.Lock()
				results = append(results, r)
				for _, f := range r.Failed {
					if !isKnown(f.Fails[0].Class) && tier == "quick" {
						stopAll = true
					}
				}
				mu.Unlock()
			}
			mu.Lock()
			if herr == nil {
				herr = err
			}
			mu.Unlock()
		}()
	}
	wg.Wait()

	// aggregate
	agg := struct {
		runs, evals, empty, faultruns int
		steps, switches               uint64
		simns                         int64
	}{}
	notes, faults := map[string]uint64{}, map[string]uint64{}
	perSc := map[string]int{}
	distinct := map[uint64]bool{}
	scheds := map[uint64]bool{}
	hashes := map[string]uint64{}
	var failed []failedCase
	sort.Slice(results, func(i, j int) bool {
		x, y := results[i].Job, results[j].Job
		if x.Scenario != y.Scenario {
			return x.Scenario < y.Scenario
		}
		return x.From < y.From
	})
	for _, r := range results {
		agg.runs += r.Runs
		agg.evals += r.Evals
		agg.empty += r.Empty
		agg.faultruns += r.FaultRun
		agg.steps += r.Steps
		agg.switches += r.Switches
		agg.simns += r.SimNs
		perSc[r.Job.Scenario] += r.Runs
		for k, v := range r.Notes {
			notes[k] += v
		}
		for k, v := range r.Faults {
			faults[k] += v
		}
		for _, h := range r.Distinct {
			distinct[h] = true
		}
		for _, h := range r.Sched {
			scheds[h] = true
		}
		for k, v := range r.Hashes {
			hashes[r.Job.Scenario+"/"+k] = v
		}
		failed = append(failed, r.Failed...)
	}
	failed = append(failed, fatals...)

	// determinism self-test: run a sample again in another process
	selfRuns, selfBad := 0, ""
	if len(failed) == 0 && herr == nil {
		if w, err := startWorker(); err == nil {
			keys := make([]string, 0, len(hashes))
			for k := range hashes {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			stride := len(keys)/12 + 1
			t1 := time.Now()
			for i := 0; i < len(keys) && time.Since(t1) < 8*time.Second; i += stride {
				sc, ix, _ := strings.Cut(keys[i], "/")
				n, _ := strconv.ParseUint(ix, 10, 64)
				r, e := w.do(job{Scenario: sc, Seed: seed, From: n, To: n + 1, Tier: tier, Hashes: true})
				if e != nil {
					herr = e
					break
				}
				selfRuns++
				if r.Hashes[ix] != hashes[keys[i]] {
					selfBad = keys[i]
				}
			}
			w.stop()
		}
		if selfBad != "" {
			herr = fmt.Errorf("determinism self-test failed: %s gave a different run the second time", selfBad)
		}
	}

	// failures: known or new
	exit := 0
	var violations []map[string]any
	seenKnown := map[string]int{}
	var fresh []failedCase
	for _, f := range failed {
		if isKnown(f.Fails[0].Class) {
			seenKnown[f.Fails[0].Class]++
			continue
		}
		fresh = append(fresh, f)
	}
	for _, k := range knownList {
		if k.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, k.What, seenKnown[k.Class])
		}
	}
	if len(fresh) > 0 {
		sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Spec.Choices.Count() < fresh[j].Spec.Choices.Count() })
		// a failing run with recorded choices first
		f := fresh[0]
		for _, x := range fresh {
			if x.Spec.Choices != nil {
				f = x
				break
			}
		}
		path, msg, err := makeReplay(prop, f, tmp)
		if err != nil {
			// try the next ones before giving up
			for _, x := range fresh[1:] {
				if path, msg, err = makeReplay(prop, x, tmp); err == nil {
					f = x
					break
				}
			}
		}
		if err != nil {
			herr = fmt.Errorf("a failure (%s: %s) did not replay: %v", f.Fails[0].Class, f.Fails[0].Msg, err)
		} else {
			exit = 1
			fmt.Printf("violation class %s: %s\n", f.Fails[0].Class, msg)
			fmt.Printf("scenario %s seed %d index %d\n", f.Spec.Scenario, f.Spec.Seed, f.Spec.Index)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			violations = append(violations, map[string]any{"class": f.Fails[0].Class, "message": msg, "replay": path, "scenario": f.Spec.Scenario, "seed": f.Spec.Seed, "index": f.Spec.Index})
		}
	}
	if herr != nil && exit == 0 {
		fmt.Fprintln(os.Stderr, "harness error:", herr)
		exit = 2
	}

	wall := time.Since(t0).Seconds()
	real := plan.Real
	if real == "" {
		real = defaultReal
	}
	stub := plan.Stub
	if stub == "" {
		stub = defaultStub
	}
	faultsAll := map[string]uint64{}
	for k, v := range faults {
		faultsAll[k] = v
	}
	samples := []string{}
	{
		per := map[string]int{}
		max := 12/len(plan.Items) + 1
		for _, r := range results {
			if per[r.Job.Scenario] < max && r.Sample != "" {
				per[r.Job.Scenario]++
				samples = append(samples, r.Sample)
			}
		}
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed & 0x7fffffffffffffff), "level": "exploration", "wall_s": wall,
		"coverage": map[string]any{
			"evaluations":                    agg.runs,
			"oracle_comparisons":             agg.evals,
			"distinct_nontrivial":            len(distinct),
			"rule":                           "one evaluation is one simulated run (one seed); it counts as non-trivial when at least one oracle comparison was made in it, and as distinct when the hash over its workload draws, complete scheduling trace, file-system mutations and event log differs from every other run's",
			"samples":                        samples,
			"runs_and_seeds_per_hour":        float64(agg.runs) / wall * 3600,
			"runs_by_scenario":               perSc,
			"runs_without_oracle_evaluation": agg.empty,
			"runs_with_a_fault":              agg.faultruns,
			"scheduler_steps":                agg.steps,
			"task_switches":                  agg.switches,
			"simulated_seconds":              float64(agg.simns) / 1e9,
			"distinct_interleavings":         len(scheds),
			"distinct_interleavings_measure": "hash of the sequence (task id, step) of every task switch together with every file-system mutation",
			"faults_injected":                faultsAll,
			"reached":                        notes,
			"wall_cap_reached":               capped,
			"determinism_reruns":             selfRuns,
			"determinism_mismatches":         btoi(selfBad != ""),
			"real_components":                real,
			"stub_components":                stub,
		},
		"assumptions": assumptions,
	}
	if len(violations) > 0 {
		ev["violations"] = len(violations)
		ev["coverage"].(map[string]any)["violation_details"] = violations
	} else {
		ev["violations"] = 0
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		if exit == 0 {
			exit = 2
		}
	}
	fmt.Printf("%s %s: %d simulated runs (%d distinct), %d oracle evaluations, %.1f simulated s, %d faults, %.1f s wall, exit %d\n",
		prop, tier, agg.runs, len(distinct), agg.evals, float64(agg.simns)/1e9, sum(faults), wall, exit)
	return exit
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
func sum(m map[string]uint64) (n uint64) {
	for _, v := range m {
		n += v
	}
	return
}

// makeReplay minimises a failing run and confirms that the replay file
// reproduces the same violation in a fresh process.
func makeReplay(prop string, f failedCase, tmp string) (path, msg string, err error) {
	sp := f.Spec
	class := f.Fails[0].Class
	sp.Prop = prop
	if class == "fatal" {
		sp.Choices = nil // the process dies before it can report its choices
	} else if len(sp.Choices) == 0 {
		o, e := execSpec(sp, tmp)
		if e != nil {
			return "", "", e
		}
		sp.Choices = o.Spec.Choices
	}
	cand := []Spec{}
	if class != "fatal" {
		in, out := filepath.Join(tmp, "min-in.json"), filepath.Join(tmp, "min-out.json")
		os.Remove(out)
		b, _ := json.Marshal(outFile{Spec: sp, Fails: f.Fails})
		os.WriteFile(in, b, 0644)
		cmd := exec.Command(os.Args[0], "minimise", in, out)
		done := make(chan error, 1)
		if cmd.Start() == nil {
			go func() { done <- cmd.Wait() }()
			select {
			case <-done:
			case <-time.After(100 * time.Second):
				cmd.Process.Kill()
				<-done
			}
		}
		if b, e := os.ReadFile(out); e == nil {
			var o outFile
			if json.Unmarshal(b, &o) == nil {
				cand = append(cand, o.Spec)
			}
		}
		cand = append(cand, sp)
	}
	orig := sp
	orig.Choices = nil
	cand = append(cand, orig)
	for _, c := range cand {
		o, e := execSpec(c, tmp)
		if e != nil {
			err = e
			continue
		}
		for _, x := range o.Fails {
			if x.Class == class {
				h := fnv.New32a()
				h.Write([]byte(class))
				dir := filepath.Join(verifDir(), "replays")
				os.MkdirAll(dir, 0755)
				path = filepath.Join(dir, fmt.Sprintf("%s-%08x.json", prop, h.Sum32()))
				o.Spec.Prop = prop
				if len(c.Choices) == 0 {
					o.Spec.Choices = nil
				}
				o.HowTo = "bash /verif/check.sh replay " + path
				b, _ := json.MarshalIndent(o, "", " ")
				if e := os.WriteFile(path, b, 0644); e != nil {
					return "", "", e
				}
				return path, x.Msg, nil
			}
		}
		err = fmt.Errorf("the replay did not fail with class %s", class)
	}
	return "", "", err
}
