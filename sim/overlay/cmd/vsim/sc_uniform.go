package main

import (
	"encoding/binary"
	"fmt"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
)

// uniform: the older index, a table of bins with overflow files, built by
// passes over a file of hashes.
func uniform(faulty bool) func(c *Ctx) {
	return func(c *Ctx) {
		g := c.newHashGen()
		n := c.Pick(60, 0, 1, 3, 150, 400, 900)
		// one bin for every 75 of the hashes expected, but never fewer than two
		expected := int64(c.Pick(0, 75, 150, 225, 300, 750, 1000, 5000))
		digits := c.Pick(2, 1, 3)
		perPass := int64(c.Pick(1<<20, 832, 832*2+100, 832*3, 832*7))
		edge := c.Int(4) == 3
		before := 0
		if c.Int(3) == 2 {
			before = c.Pick(30, 200, 700)
		}
		fault := faulty && c.drawFaults(c.Disk, ioKinds, 0.003, 0.02, 0.1)
		if fault {
			c.target(c.Disk, "BinOverflows", ".ovf", "BinStarts", "Hashes.hsh", ".json")
		}
		c.Disk.Armed = false
		c.Desc = fmt.Sprintf("%d hashes, %s, %d expected, digits %d, %d bytes a pass, at the ends %v, indexed before %d, faults %v", n, g.desc, expected, digits, perPass, edge, before, fault)
		c.Sim.Log("case: %s", c.Desc)
		var old []h32
		for i := 0; i < before; i++ {
			old = append(old, g.next())
		}
		g.all = nil
		for i := 0; i < n; i++ {
			h := g.next()
			if edge && c.side.Intn(3) == 0 { // the first and last bins
				copy(h[:8], make([]byte, 8))
				if c.side.Intn(2) == 0 {
					binary.LittleEndian.PutUint64(h[:8], ^uint64(0)-uint64(c.side.Intn(3)))
				}
				g.all[i] = h
			}
		}
		index := func() error {
			defer c.Only("the indexing of hashes", "/data/U", "!/data/U/Hashes.hsh")()
			cr, _, err := indexedhashes.NewUniformHashStoreCreatorAndPreloaderFromFile("/data", "U", 1)
			if err != nil {
				return err
			}
			return indexedhashes.NewMultipassPreloader(cr, perPass).IndexTheHashes()
		}
		put := func(hs []h32) {
			var b []byte
			for _, h := range hs {
				b = append(b, h[:]...)
			}
			c.Disk.Put("/data/U/Hashes.hsh", b)
		}
		create := func() error {
			cr, _ := indexedhashes.NewUniformHashStoreCreatorAndPreloader("/data", "U", expected, digits, 1)
			if err := cr.CreateHashStore(); err != nil {
				return err
			}
			if !c.Check(cr.HashStoreExists() || c.Disk.Faults() > 0, "uniform-exists", "a store that was created does not exist (%s)", c.Desc) {
				return nil
			}
			return nil
		}
		verify := func(how string) bool {
			o := c.Run(func() {
				cr, _, err := indexedhashes.NewUniformHashStoreCreatorAndPreloaderFromFile("/data", "U", 1)
				if !c.Check(err == nil, "uniform-open", "%s: %v (%s)", how, err, c.Desc) {
					return
				}
				var rd indexedhashes.HashReader
				if c.Bool() {
					rd, err = cr.OpenHashStore()
				} else {
					defer c.Only("reading a uniform store")()
					rd, err = cr.OpenHashStoreReadOnly()
				}
				if !c.Check(err == nil, "uniform-open", "%s: %v (%s)", how, err, c.Desc) {
					return
				}
				if t, ok := rd.(*indexedhashes.UniformHashStore); ok && g.dup == 0 && len(g.all) < 500 && c.side.Intn(4) == 0 {
					good, err := t.Test()
					if !c.Check(good && err == nil, "uniform-test", "%s: the store's own test says %v, %v (%s)", how, good, err, c.Desc) {
						return
					}
				}
				if c.checkHashes(rd, g, g.all, true, 300, how+" ("+c.Desc+")") {
					c.Check(rd.Close() == nil, "uniform-close", "%s: Close (%s)", how, c.Desc)
					c.Closed("a uniform store")
				}
			})
			return c.Check(o.Kind == "returned", "uniform-read-"+o.Kind, "%s: %s (%s)", how, firstLine(o.Detail), c.Desc) && !c.Failed()
		}
		c.Disk.Put("/data/placeholder", nil)
		done, loud := false, false
		step := func(f func() error, what string) bool {
			var err error
			c.Disk.Armed = fault
			hits := c.Disk.Hits()
			o := c.Run(func() {
				if err = f(); err == nil {
					c.Closed("uniform indexing")
				}
			})
			c.Disk.Armed = false
			c.Check(o.Kind != "deadlock" && o.Kind != "stuck", "uniform-"+o.Kind, "%s: %s (%s)", what, firstLine(o.Detail), c.Desc)
			if o.Kind != "returned" || err != nil {
				loud = true
				c.Check(c.Disk.Hits() > hits, "uniform-failed", "%s with a disk that was sound meanwhile: %s %s %v (%s)", what, o.Kind, firstLine(o.Detail), err, c.Desc)
				return false
			}
			return !c.Failed()
		}
		if step(create, "CreateHashStore") {
			ok := true
			if before > 0 {
				put(old)
				ok = step(index, "first indexing")
			}
			if ok {
				put(g.all)
				done = step(index, "IndexTheHashes")
			}
		}
		if c.Failed() {
			return
		}
		if done {
			c.Note("uniform:success")
			if faulty && g.dup == 0 && c.side.Intn(4) == 0 && !c.readFaulty(g, "U", func() (indexedhashes.HashReader, error) {
				cr, _, err := indexedhashes.NewUniformHashStoreCreatorAndPreloaderFromFile("/data", "U", 1)
				if err != nil {
					return nil, err
				}
				if c.Bool() {
					return cr.OpenHashStore()
				}
				return cr.OpenHashStoreReadOnly()
			}) {
				return
			}
			if !verify("indexed") {
				return
			}
		}
		if loud {
			c.Note("uniform:loud-failure")
			c.Disk.Enabled = [simos.NFaults]bool{}
			fault = false
			loud = false
			if !step(func() error {
				if err := create(); err != nil {
					return err
				}
				put(g.all)
				return index()
			}, "indexing again") {
				c.Check(c.Failed() || !loud, "uniform-again", "indexing again after a failure does not succeed (%s)", c.Desc)
				return
			}
			verify("indexed again")
		}
	}
}

func init() {
	register("uniform", 100_000_000, uniform(false))
	register("uniform-faults", 100_000_000, uniform(true))
}
