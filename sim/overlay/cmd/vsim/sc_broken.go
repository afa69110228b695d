package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"strings"

	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/jobs"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

const jobYears = 2 // the number of years that stands for our chain

// job runs phase p the way main() does (all of them: p = 0).
func (cfg *ingestCfg) job(p int) error { return cfg.jobLimited(p, 0) }

// asShipped: RunIntrinsic can be run with a short chain, and its second phase
// with the parameters of this run instead of those for years of blocks.
func asShipped(p int) bool {
	if _, ok := simrt.Hooks["jobs.years"].(func(int, int64, int64)); !ok {
		return false
	}
	n := simrt.Swapped
	return p == 1 || p == 3 || n["Block"] > 0 && n["Transaction"] > 0 && n["Address"] > 0 && n["bins"] > 0
}

func (cfg *ingestCfg) jobLimited(p int, limit int64) error {
	if !asShipped(p) {
		switch p {
		case 0:
			return cfg.all()
		case 1:
			if err := simos.RemoveAll(cfg.root); err != nil {
				return err
			}
			return cfg.phase1()
		case 2:
			return cfg.phase2()
		}
		return cfg.phase3()
	}
	h := simrt.Hooks["jobs.years"].(func(int, int64, int64))
	h(jobYears, int64(cfg.n), int64(cfg.nt))
	defer h(jobYears, 0, 0)
	type par = *indexedhashes3.HashIndexingParams
	simrt.Swaps["Block"] = func() par { return cfg.bp }
	simrt.Swaps["Transaction"] = func() par { return cfg.tp }
	simrt.Swaps["Address"] = func() par { return cfg.ap }
	simrt.BinsTo = 4
	return jobs.RunIntrinsic(cfg.root, cfg.json, "delegated", jobYears, cfg.threads, cfg.gb, p == 1 || p == 0, p == 2 || p == 0, p == 3 || p == 0, limit, true, cfg.chi, cfg.adaptive)
}

// hashesComplete compares what phase 1 must leave behind.
func (c *Ctx) hashesComplete(root string, m *model, how string) bool {
	want := map[string][]byte{}
	for _, b := range m.chain.blocks[:m.n] {
		want["Blocks"] = append(want["Blocks"], b.hash[:]...)
		for _, t := range b.txs {
			want["Transactions"] = append(want["Transactions"], t.id[:]...)
			for _, o := range t.outs {
				a := sha2once(o.script)
				want["Addresses"] = append(want["Addresses"], a[:]...)
			}
		}
	}
	for _, k := range []string{"Blocks", "Transactions", "Addresses"} {
		got, _ := c.Disk.Get(root + "/" + k + "/Hashes/Hashes.hsh")
		if !c.Check(bytes.Equal(got, want[k]), "phase1-hashes", "%s, phase 1 left a %s hash list of %d bytes that is not the %d bytes of the chain", how, k, len(got), len(want[k])) {
			return false
		}
	}
	return true
}

// ingestBroken: a job meets faults, or is killed, at some point. Whatever it
// reports as done must be right; afterwards, a run in a sound environment must
// succeed, starting from any phase whose input is complete.
func ingestBroken(kill bool) func(c *Ctx) {
	return func(c *Ctx) {
		var ch *gChain
		switch c.Int(4) {
		default:
			ch = c.genChain(genOpts{minBlocks: 1, maxBlocks: 9, extraTx: 3, hot: 50, maxIns: 3, maxOuts: 4, dup: 10})
		case 2:
			ch = c.genChain(genOpts{minBlocks: 3, maxBlocks: 12, extraTx: 4, hot: 95, maxIns: 2, maxOuts: 6})
		case 3:
			ch = c.genChain(genOpts{minBlocks: 20, maxBlocks: 60, extraTx: 0, hot: 60, maxIns: 1, maxOuts: 2, dup: 4})
			if !kill && c.Int(8) == 7 { // more than one batch of headers
				ch = c.genChain(genOpts{minBlocks: 1001, maxBlocks: 1040, extraTx: 0, hot: 50, maxIns: 1, maxOuts: 1})
			}
		}
		m := buildModel(ch, ch.n)
		cfg := c.drawIngest(m)
		nd := c.newNode(ch)
		nd.latency = c.Pick(0, 0, 1)
		at := 1 + c.Int(3) // the phase that meets trouble (if a process per phase)
		split := c.Bool()
		c.Disk.StdoutBad = c.Bool()
		c.Disk.Track = kill
		desc := ""
		if kill {
			c.Disk.Enabled[simos.FCrash] = true
			c.Disk.Prob = []float64{0.003, 0.0005, 0.02, 0.1}[c.Int(4)]
			c.Disk.MaxFaults = 1
			desc = fmt.Sprintf("killed with %g", c.Disk.Prob)
		} else {
			what := c.Int(4)
			if ch.n > 1000 {
				what = 4
			}
			switch what {
			case 4:
				left, kind := 1, []int{nfConn, nf503, nf404, nfTruncate, nfReadErr, nfGarbage, nfCloseErr}[c.Int(7)]
				genesis := revHex(ch.blocks[0].hash)
				nd.always = func(url string) int {
					if nd.armed && left > 0 && strings.Contains(url, "/rest/headers/") && !strings.Contains(url, genesis) {
						left--
						return kind
					}
					return -1
				}
				desc = nfNames[kind] + " at the second batch of headers"
			default:
				c.drawFaults(c.Disk, ioKinds, 0.003, 0.0005, 0.02, 0.1)
				c.Disk.Enabled[simos.FMmapErr] = c.Bool()
				if c.Bool() { // one kind of file has the trouble
					c.Disk.Only = []string{".int", ".iaa", ".hsh", ".bes", ".json", "/Txos/", "/Addresses/", "/Blocks/", "/Transactions/"}[c.Int(9)]
					c.Disk.Prob = []float64{0.01, 0.05, 0.3}[c.Int(3)]
					if c.Bool() {
						c.Disk.Skip = c.side.Intn(c.Pick(20, 5, 100, 400, 2000))
						c.Disk.Prob = 1
					}
				}
				desc = fmt.Sprintf("disk faults with %g in %q, staying %v", c.Disk.Prob, c.Disk.Only, c.Disk.Stays)
			case 2: // headers, too, and blocks more often than they are asked for again
				nd.prob = []float64{0.1, 0.3, 0.6}[c.Int(3)]
				nd.maxHdr, nd.maxURL = c.Pick(1, 0, -1), c.Pick(-1, 2, 5)
				for k := 0; k < nfN; k++ {
					if c.Int(3) > 0 {
						nd.kinds = append(nd.kinds, k)
					}
				}
				desc = fmt.Sprintf("network faults with %g", nd.prob)
			case 3:
				c.Disk.StickyNoSpace = true
				desc = "full disk"
			}
		}
		c.Desc = fmt.Sprintf("%s; %s; %s in phase %d (each its own process: %v)", ch.desc, cfg.desc, desc, at, split)
		c.Sim.Log("case: %s", c.Desc)
		full := desc == "full disk"
		arm := func(on bool) {
			nd.armed = on
			c.Disk.Armed = on
			if full {
				c.Disk.Capacity = 0
				if on {
					base := c.Disk.Used()
					c.Disk.Capacity = base + 1 + int64(c.side.Intn(c.Pick(4000, 400, 60000, 400000)))
				}
			}
		}
		var err error
		fin := 0 // phases completed
		begun := 0
		bad := ""
		phase := func(p int) {
			arm(at == p || at == 1 && !split)
			begun = p
			err = cfg.job(p)
			if err == nil {
				fin = p
			}
		}
		trouble := func(o simrt.Outcome) bool {
			arm(false)
			if o.Kind == "deadlock" || o.Kind == "stuck" {
				c.Fail("ingest-"+o.Kind, "%s: %s", c.Desc, firstLine(o.Detail))
				return true
			}
			if o.Kind != "returned" || err != nil {
				bad = o.Kind
				if err != nil {
					bad = "error"
				}
				c.Note("broken:loud-" + bad)
				n := c.Disk.Faults() + c.Disk.FullHits
				for k := range nfNames {
					n += int(c.Faults[nfNames[k]])
				}
				c.Check(n > 0, "ingest-failed", "nothing went wrong, but the job failed: %s %s %v (%s)", o.Kind, firstLine(o.Detail), err, c.Desc)
				return true
			}
			return false
		}
		if split {
			for p := 1; p <= 3; p++ {
				if trouble(c.Run(func() { phase(p) })) {
					break
				}
				if p == 1 && !c.hashesComplete(cfg.root, m, "reported done") {
					return
				}
			}
		} else {
			trouble(c.Run(func() {
				for p := 1; p <= 3 && err == nil; p++ {
					phase(p)
				}
			}))
		}
		if c.Failed() {
			return
		}
		if kill && bad == "crash" && c.Bool() {
			// the machine went down, not just the process: then nothing can be
			// taken up again, only started afresh
			c.Disk.PowerLoss(func(n int) int { return c.side.Intn(n) })
			c.Faults["power-loss"]++
			fin = 0
		}
		c.Disk.Enabled = [simos.NFaults]bool{}
		if fin >= 1 && !c.hashesComplete(cfg.root, m, "reported done") {
			return
		}
		if bad == "" {
			c.Note("broken:success")
			c.verifyDB(cfg.root, m, "most", c.Int(4) == 3)
			return
		}
		// the user starts again, perhaps with other settings
		from := 1 + c.Int(fin+1)
		if from > 3 {
			from = 3
		}
		if c.Bool() {
			o := c.drawIngest(m)
			o.bp, o.tp, o.ap = cfg.bp, cfg.tp, cfg.ap
			cfg = o
		}
		c.Note(fmt.Sprintf("broken:again-from-phase-%d", from))
		again := func() simrt.Outcome {
			return c.Run(func() {
				for p := from; p <= 3; p++ {
					if err = cfg.job(p); err != nil {
						return
					}
				}
			})
		}
		o := again()
		if from > 1 && begun == 3 && o.Kind == "returned" && err != nil {
			// the job may refuse to take up what a third phase left behind, so
			// long as it says so; starting afresh must then do
			c.Note("broken:refused")
			from = 1
			o = again()
		}
		if !c.Check(o.Kind == "returned" && err == nil, "again-failed", "started again from phase %d after a failure (%s): %s %s %v (%s)", from, bad, o.Kind, firstLine(o.Detail), err, c.Desc) {
			return
		}
		c.verifyDB(cfg.root, m, "most", c.Int(4) == 3)
		if c.Failed() {
			c.Fails[0].Msg = fmt.Sprintf("started again from phase %d after a failure (%s in phase %d): ", from, bad, fin+1) + c.Fails[0].Msg + " (" + c.Desc + ")"
		}
	}
}

func init() {
	register("ingest-faults", 300_000_000, ingestBroken(false))
	register("ingest-killed", 300_000_000, ingestBroken(true))
}

func sha2once(b []byte) h32 { return sha256.Sum256(b) }

// ingestAimed: the same job again and again, each time with one fault at
// another place.
func ingestAimed(c *Ctx) {
	ch := c.smallChain(10)
	m := buildModel(ch, ch.n)
	cfg := c.drawIngest(m)
	c.Disk.StdoutBad = c.Bool()
	at := c.Pick(3, 3, 1, 2)
	c.Desc = fmt.Sprintf("%s; %s; in phase %d", ch.desc, cfg.desc, at)
	var err error
	to := func(from, upto int) simrt.Outcome {
		err = nil
		c.newNode(ch)
		return c.Run(func() {
			for p := from; p <= upto && err == nil; p++ {
				err = cfg.job(p)
			}
		})
	}
	o := to(1, at-1)
	if !c.Check(o.Kind == "returned" && err == nil, "ingest-"+o.Kind, "%s: %v %s", c.Desc, err, firstLine(o.Detail)) {
		return
	}
	base := c.Disk
	only := []string{"", "", ".int", ".hsh", ".bes", ".ovf", "/Txos/", "/Addresses/", "/Blocks/", "/Transactions/", "/Hashes/"}
	if at == 3 {
		only = append(only, ".int", ".iaa", ".int", "/Txis/", "/Parents/")
	}
	kinds := append([]simos.FaultKind{simos.FMmapErr, simos.FRemoveErr}, ioKinds...)
	for trial := 0; trial < 8 && !c.Failed(); trial++ {
		d := base.Clone()
		how := c.aim(d, kinds, only, func(e *simos.Disk) {
			c.UseDisk(e)
			o := to(at, at)
			c.Check(o.Kind == "returned" && err == nil, "ingest-"+o.Kind, "phase %d, though nothing failed: %v %s (%s)", at, err, firstLine(o.Detail), c.Desc)
		})
		if c.Failed() {
			return
		}
		c.UseDisk(d)
		d.Armed = true
		o := to(at, at)
		d.Armed = false
		desc := fmt.Sprintf("phase %d with %s (last: %s)", at, how, d.LastFault)
		from := 1
		switch {
		case o.Kind == "returned" && err == nil:
			c.Note("aimed:success")
			if at == 1 && !c.hashesComplete(cfg.root, m, "reported done") {
				break
			}
			from = at + 1
		case o.Kind == "deadlock" || o.Kind == "stuck":
			c.Fail("ingest-"+o.Kind, "%s: %s", desc, firstLine(o.Detail))
		default:
			c.Note("aimed:loud")
			c.Check(d.Faults() > 0, "ingest-failed", "%s: %s %s %v, though nothing failed", desc, o.Kind, firstLine(o.Detail), err)
			if c.side.Intn(4) > 0 {
				continue
			}
		}
		if !c.Failed() {
			o := to(from, 3)
			if c.Check(o.Kind == "returned" && err == nil, "again-failed", "then, from phase %d: %s %s %v", from, o.Kind, firstLine(o.Detail), err) {
				c.verifyDB(cfg.root, m, "few", c.Bool())
			}
		}
		if c.Failed() {
			c.Fails[0].Msg = desc + ": " + c.Fails[0].Msg
		}
	}
	c.UseDisk(base)
}

func init() { register("ingest-aimed", 600_000_000, ingestAimed) }
