package main

import (
	"fmt"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

func (c *Ctx) smallChain(dup int) *gChain {
	switch c.Int(3) {
	case 1:
		return c.genChain(genOpts{minBlocks: 2, maxBlocks: 4, extraTx: 2, hot: 95, maxIns: 2, maxOuts: 4, dup: dup})
	case 2:
		return c.genChain(genOpts{minBlocks: 4, maxBlocks: 9, extraTx: 0, hot: 60, maxIns: 1, maxOuts: 2, dup: dup})
	}
	return c.genChain(genOpts{minBlocks: 1, maxBlocks: 5, extraTx: 2, hot: 50, maxIns: 2, maxOuts: 3, dup: dup})
}

// aim draws how the disk is to fail: one fault at an exact place among those
// that a sound run passes, or faults at random.
func (c *Ctx) aim(d *simos.Disk, kinds []simos.FaultKind, only []string, sound func(d *simos.Disk)) string {
	d.Enabled = [simos.NFaults]bool{}
	all := c.side.Intn(3) == 0
	for _, k := range kinds {
		d.Enabled[k] = all || c.side.Intn(3) == 0
	}
	d.Enabled[kinds[c.side.Intn(len(kinds))]] = true
	d.Only = only[c.side.Intn(len(only))]
	d.Stays = c.side.Intn(3) == 0
	d.Fresh = []int{0, 0, 1, 2}[c.side.Intn(4)]
	d.MaxFaults = 1
	if c.side.Intn(5) == 0 {
		d.Prob = []float64{0.003, 0.02, 0.1}[c.side.Intn(3)]
		d.MaxFaults = 1 + c.side.Intn(4)
		return fmt.Sprintf("faults with %g in %q", d.Prob, d.Only)
	}
	d.Prob = 1
	// count the places
	e := d.Clone()
	e.Skip = 1 << 40
	e.Armed = true
	sound(e)
	n := e.Skipped()
	if n == 0 {
		return "nowhere to fail"
	}
	d.Skip = c.side.Intn(n)
	return fmt.Sprintf("fault at place %d of %d in %q", d.Skip, n, d.Only)
}

func init() {
	// a finished database is read from a failing disk
	register("dbread-faults", 600_000_000, func(c *Ctx) {
		ch := c.smallChain(10)
		m := buildModel(ch, ch.n)
		cfg := c.drawIngest(m)
		c.newNode(ch)
		var err error
		c.Desc = ch.desc + "; " + cfg.desc
		o := c.Run(func() { err = cfg.all() })
		if !c.Check(o.Kind == "returned" && err == nil, "ingest-"+o.Kind, "%s: %v %s", c.Desc, err, firstLine(o.Detail)) {
			return
		}
		base := c.Disk
		kinds := []simos.FaultKind{simos.FReadErr, simos.FShortRead, simos.FOpenErr, simos.FStatErr, simos.FSeekErr, simos.FMmapErr, simos.FCloseErr}
		only := []string{"", "", ".int", ".iaa", ".hsh", ".bes", ".json", "/Txos/", "/Addresses/", "/Blocks/", "/Transactions/", "/Hashes/"}
		for trial := 0; trial < 12; trial++ {
			inRam, hInRam := c.Bool(), c.Bool()
			sel := c.side.Uint64()
			hits := 0 // what had failed when the database was open
			run := func(d *simos.Disk) simrt.Outcome {
				c.side, c.gaveUp = simrt.NewRand(sel), false
				c.UseDisk(d)
				return c.Run(func() {
					var rd *dbReader
					if rd, err = openReader(cfg.root, inRam, hInRam); err != nil {
						if !d.Armed || d.Faults() == 0 {
							c.Fail("dbread-open", "the database can not be opened, though nothing failed: %v", err)
						}
						c.Note("dbread:open-refused")
						return
					}
					hits = d.Hits()
					c.readBack(rd, m, "few")
					if c.Failed() || d.Faults() == 0 {
						return
					}
					if c.gaveUp {
						c.Note("dbread:told")
					} else {
						c.Note("dbread:not-met")
					}
					// the disk recovers: the same readers must give right answers
					hits = d.Hits()
					d.Armed, c.lenient, c.gaveUp = false, false, false
					c.readBack(rd, m, "few")
				})
			}
			rest := simrt.NewRand(sel + 1)
			c.side = rest
			d := base.Clone()
			c.lenient = false
			how := c.aim(d, kinds, only, func(e *simos.Disk) { run(e) })
			if c.Failed() {
				return
			}
			d.Armed, c.lenient = true, true
			o := run(d)
			c.lenient = false
			if c.Failed() {
				c.Fails[0].Msg = fmt.Sprintf("reading with %s (last: %s; in memory %v %v): %s", how, d.LastFault, inRam, hInRam, c.Fails[0].Msg)
				return
			}
			switch o.Kind {
			case "returned":
			case "panic", "exit":
				c.Note("dbread:loud-" + o.Kind)
				if !c.Check(d.Hits() > hits, "dbread-"+o.Kind, "reading with %s (last: %s): %s, though nothing failed just then", how, d.LastFault, firstLine(o.Detail)) {
					return
				}
			default:
				c.Fail("dbread-"+o.Kind, "reading with %s (last: %s): %s", how, d.LastFault, firstLine(o.Detail))
				return
			}
		}
		c.UseDisk(base)
	})

	// a database is copied block by block while the disk fails
	register("copy-faults", 600_000_000, func(c *Ctx) {
		ch := c.smallChain(0)
		m := buildModel(ch, ch.n)
		cfg := c.drawIngest(m)
		c.newNode(ch)
		var err error
		c.Desc = ch.desc + "; " + cfg.desc
		o := c.Run(func() { err = cfg.all() })
		if !c.Check(o.Kind == "returned" && err == nil, "ingest-"+o.Kind, "%s: %v %s", c.Desc, err, firstLine(o.Detail)) {
			return
		}
		dst := "/data/copy"
		before := c.Disk.Snapshot(cfg.root)
		for _, k := range []string{"Blocks", "Transactions", "Addresses"} {
			for p, b := range c.Disk.Snapshot(cfg.root + "/" + k + "/Hashes") {
				c.Disk.Put(dst+"/"+k+"/Hashes"+p, b)
			}
		}
		base := c.Disk
		only := []string{"", "", ".int", ".iaa", ".hsh", ".bes", "/copy/", "/copy/Txos/", "/copy/Addresses/", "/copy/Blocks/", "/copy/Transactions/", "/db/"}
		for trial := 0; trial < 8; trial++ {
			inRam, hInRam, dstHInRam := c.Bool(), c.Bool(), c.Bool()
			sessions := c.Pick(10, 0, 40)
			sel := c.side.Uint64()
			run := func(d *simos.Disk) simrt.Outcome {
				rnd := simrt.NewRand(sel)
				c.UseDisk(d)
				err = nil
				return c.Run(func() {
					var src *dbReader
					if src, err = openReader(cfg.root, inRam, hInRam); err != nil {
						return
					}
					var acc *chainstorage.ConcreteAppendableChainCreator
					if acc, err = chainstorage.NewConcreteAppendableChainCreator(dst, blkNeis, trnNeis, false, false, dstHInRam); err != nil {
						return
					}
					if err = acc.CreateFromHashStores(); err != nil {
						return
					}
					var ac chainstorage.IAppendableChain
					if ac, err = acc.Open(); err != nil {
						return
					}
					var hb chainreadinterface.IBlockHandle = src.chain.GenesisBlock()
					for !hb.IsInvalid() {
						if err = ac.AppendBlock(src.chain, hb); err != nil {
							return
						}
						if rnd.Intn(100) < sessions {
							if err = ac.Sync(); err != nil {
								return
							}
							if rnd.Intn(2) == 0 {
								ac.Close()
								if ac, err = acc.Open(); err != nil {
									return
								}
							}
						}
						if hb, err = src.chain.NextBlock(hb); err != nil {
							return
						}
					}
					if err = ac.Sync(); err == nil {
						ac.Close()
					}
				})
			}
			d := base.Clone()
			how := c.aim(d, ioKinds, only, func(e *simos.Disk) {
				o := run(e)
				c.Check(o.Kind == "returned" && err == nil, "copy-"+o.Kind, "copying, though nothing failed: %v %s (%s)", err, firstLine(o.Detail), c.Desc)
			})
			if c.Failed() {
				return
			}
			d.Armed = true
			o := run(d)
			d.Armed = false
			desc := fmt.Sprintf("copying with %s (last: %s)", how, d.LastFault)
			switch {
			case o.Kind == "returned" && err == nil:
				c.Note("copy:success")
				c.verifyDB(dst, m, "few", c.Bool())
			case o.Kind == "returned":
				c.Note("copy:told")
				c.Check(d.Faults() > 0, "copy-failed", "%s: %v, though nothing failed", desc, err)
			case o.Kind == "panic" || o.Kind == "exit":
				c.Note("copy:loud-" + o.Kind)
				c.Check(d.Faults() > 0, "copy-failed", "%s: %s, though nothing failed", desc, firstLine(o.Detail))
			default:
				c.Fail("copy-"+o.Kind, "%s: %s", desc, firstLine(o.Detail))
			}
			if !c.Failed() {
				c.sameFiles("source-changed", before, d.Snapshot(cfg.root), "copying a database")
			}
			if c.Failed() {
				c.Fails[0].Msg = desc + ": " + c.Fails[0].Msg
				return
			}
		}
		c.UseDisk(base)
	})
}
