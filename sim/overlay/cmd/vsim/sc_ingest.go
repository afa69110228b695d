package main

// drawChain picks one of the chain styles.
func (c *Ctx) drawChain() *gChain {
	style := c.Int(10)
	if c.Deep && c.Chance(10) {
		style = 10 + c.Int(2)
	}
	var ch *gChain
	switch style {
	default: // small, mixed
		ch = c.genChain(genOpts{minBlocks: 1, maxBlocks: 9, extraTx: 3, hot: 50, maxIns: 3, maxOuts: 4, dup: 10})
	case 3: // no address is ever paid twice
		ch = c.genChain(genOpts{minBlocks: 1, maxBlocks: 6, extraTx: 2, noReuse: true, maxIns: 2, maxOuts: 3})
	case 4: // awkward sizes
		ch = c.genChain(genOpts{minBlocks: 2, maxBlocks: 5, extraTx: 2, hot: 30, maxIns: 4, maxOuts: 4, huge: true})
	case 5: // mostly empty blocks, more of them than the pipeline buffers
		ch = c.genChain(genOpts{minBlocks: 20, maxBlocks: 60, extraTx: 0, hot: 60, maxIns: 1, maxOuts: 2, dup: 4})
	case 6: // one hot address
		ch = c.genChain(genOpts{minBlocks: 3, maxBlocks: 12, extraTx: 4, hot: 95, maxIns: 2, maxOuts: 6})
	case 7:
		ch = c.genChain(genOpts{minBlocks: 100, maxBlocks: 160, extraTx: 0, hot: 30, maxIns: 1, maxOuts: 1})
	case 8: // a block with more than 252 transactions
		ch = c.genChain(genOpts{minBlocks: 2, maxBlocks: 4, extraTx: 1, hot: 40, maxIns: 1, maxOuts: 1, bigEvery: 2})
	case 10: // several batches of headers
		ch = c.genChain(genOpts{minBlocks: 990, maxBlocks: 1015, extraTx: 0, hot: 50, maxIns: 1, maxOuts: 1})
	case 11:
		ch = c.genChain(genOpts{minBlocks: 1990, maxBlocks: 2210, extraTx: 0, hot: 50, maxIns: 1, maxOuts: 1})
	}
	return ch
}

func (c *Ctx) drawNet(nd *node) {
	nd.latency = c.Pick(0, 0, 1, 20)
	switch c.Int(4) {
	case 1:
		nd.prob = 0.02
	case 2:
		nd.prob = 0.15
	}
	if nd.prob > 0 {
		for k := 0; k < nfN; k++ {
			if c.Bool() {
				nd.kinds = append(nd.kinds, k)
			}
		}
	}
}

func init() {
	register("ingest", 300_000_000, func(c *Ctx) {
		ch := c.drawChain()
		m := buildModel(ch, ch.n)
		cfg := c.drawIngest(m)
		nd := c.newNode(ch)
		c.drawNet(nd)
		c.Disk.StdoutBad = c.Bool()
		c.Desc = ch.desc + "; " + cfg.desc
		c.Sim.Log("chain: %s", c.Desc)
		var err error
		// phases in one process or one each, called like the job or as the job
		steps := []func() error{cfg.all}
		limit := int64(0)
		switch c.Int(5) {
		case 1:
			steps = []func() error{cfg.phase1, cfg.phase2, cfg.phase3}
		case 2, 3:
			if asShipped(0) {
				if c.Chance(30) { // a limit that the chain does not reach
					limit = int64(m.n + c.Int(2))
				}
				steps = []func() error{func() error { return cfg.jobLimited(0, limit) }}
				c.Note("ingest:whole-job")
			}
		case 4:
			steps = []func() error{func() error { return cfg.job(1) }, func() error { return cfg.job(2) }, func() error { return cfg.job(3) }}
		}
		for i, f := range steps {
			o := c.Run(func() {
				if err = f(); err == nil {
					c.Closed("an ingest phase")
				}
			})
			if !c.Check(o.Kind == "returned", "ingest-"+o.Kind, "step %d (%s; %s): %s %s", i, ch.desc, cfg.desc, o.Kind, firstLine(o.Detail)) {
				return
			}
			if !c.Check(err == nil, "ingest-error", "step %d (%s; %s): %v", i, ch.desc, cfg.desc, err) {
				return
			}
		}
		nd.armed = false
		c.verifyDB(cfg.root, m, "all", c.Int(4) == 3)
	})
}
