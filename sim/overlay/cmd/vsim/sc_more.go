package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
)

// sameFiles compares two folders.
func (c *Ctx) sameFiles(class string, a, b map[string][]byte, what string) bool {
	names := map[string]bool{}
	for k := range a {
		names[k] = true
	}
	for k := range b {
		names[k] = true
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, okx := a[k]
		y, oky := b[k]
		if !c.Check(okx && oky, class, "%s: the file %s exists on one side only", what, k) {
			return false
		}
		if bytes.Equal(x, y) {
			continue
		}
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		c.Fail(class, "%s: the file %s differs from byte %d on (%d and %d bytes)", what, k, i, len(x), len(y))
		return false
	}
	return true
}

func init() {
	// the same chain, ingested twice with everything different that must not matter
	register("ingest-twice", 600_000_000, func(c *Ctx) {
		ch := c.drawChain()
		m := buildModel(ch, ch.n)
		cfg := c.drawIngest(m)
		var snaps [2]map[string][]byte
		desc := ""
		for i := 0; i < 2; i++ {
			if i == 1 {
				o := c.drawIngest(m)
				o.bp, o.tp, o.ap = cfg.bp, cfg.tp, cfg.ap
				cfg = o
				c.UseDisk(simos.NewDisk())
			}
			resetGlobals()
			nd := c.newNode(ch)
			c.drawNet(nd)
			c.Disk.StdoutBad = c.Bool()
			desc += fmt.Sprintf("; [json=%v chi=%v adaptive=%v threads=%d]", cfg.json, cfg.chi, cfg.adaptive, cfg.threads)
			var err error
			how := cfg.all
			if c.Bool() {
				how = func() error { return cfg.job(0) }
			}
			o := c.Run(func() { err = how() })
			if !c.Check(o.Kind == "returned" && err == nil, "ingest-"+o.Kind, "%s (%s): %v %s", ch.desc, cfg.desc, err, firstLine(o.Detail)) {
				return
			}
			snaps[i] = c.Disk.Snapshot(cfg.root)
		}
		c.Desc = ch.desc + desc
		c.sameFiles("not-reproducible", snaps[0], snaps[1], c.Desc)
	})

	// a database copied block by block from another one, in several sessions
	register("copy", 600_000_000, func(c *Ctx) {
		var ch *gChain
		switch c.Int(3) {
		default:
			ch = c.genChain(genOpts{minBlocks: 1, maxBlocks: 9, extraTx: 3, hot: 50, maxIns: 3, maxOuts: 4})
		case 1:
			ch = c.genChain(genOpts{minBlocks: 3, maxBlocks: 12, extraTx: 4, hot: 95, maxIns: 2, maxOuts: 6})
		case 2:
			ch = c.genChain(genOpts{minBlocks: 10, maxBlocks: 25, extraTx: 0, hot: 60, maxIns: 1, maxOuts: 2})
		}
		m := buildModel(ch, ch.n)
		cfg := c.drawIngest(m)
		c.newNode(ch)
		var err error
		c.Desc = ch.desc + "; " + cfg.desc
		o := c.Run(func() { err = cfg.all() })
		if !c.Check(o.Kind == "returned" && err == nil, "ingest-"+o.Kind, "%s: %v %s", c.Desc, err, firstLine(o.Detail)) {
			return
		}
		dst := "/data/copy"
		before := c.Disk.Snapshot(cfg.root)
		for _, k := range []string{"Blocks", "Transactions", "Addresses"} {
			for p, b := range c.Disk.Snapshot(cfg.root + "/" + k + "/Hashes") {
				c.Disk.Put(dst+"/"+k+"/Hashes"+p, b)
			}
		}
		inRam := c.Bool()
		sessions := c.Pick(10, 0, 30) // percentage of closing after a block
		resetGlobals()
		n := 0
		o = c.Run(func() {
			defer c.Only("copying", dst, "!"+dst+"/Blocks/Hashes", "!"+dst+"/Transactions/Hashes", "!"+dst+"/Addresses/Hashes")()
			var src *dbReader
			if src, err = openReader(cfg.root, inRam, c.Bool()); err != nil {
				return
			}
			c.keep = simos.Cur.Handles() // the source has no Close
			var acc *chainstorage.ConcreteAppendableChainCreator
			if acc, err = chainstorage.NewConcreteAppendableChainCreator(dst, blkNeis, trnNeis, false, false, c.Bool()); err != nil {
				return
			}
			if err = acc.CreateFromHashStores(); err != nil {
				return
			}
			var ac chainstorage.IAppendableChain
			if ac, err = acc.Open(); err != nil {
				return
			}
			var hb chainreadinterface.IBlockHandle = src.chain.GenesisBlock()
			for !hb.IsInvalid() {
				if err = ac.AppendBlock(src.chain, hb); err != nil {
					return
				}
				n++
				switch x := c.side.Intn(100); {
				case x < sessions:
					if c.side.Intn(2) == 0 {
						if err = ac.Sync(); err != nil {
							return
						}
					}
					ac.Close()
					if ac, err = acc.Open(); err != nil {
						return
					}
				case x < sessions+4:
					if err = ac.Sync(); err != nil {
						return
					}
				case x < sessions+30:
					if !c.peek(ac.GetAsChainReadInterface(), m, n) {
						return
					}
				}
				if hb, err = src.chain.NextBlock(hb); err != nil {
					return
				}
			}
			if err = ac.Sync(); err == nil {
				ac.Close()
			}
			if err == nil {
				c.Closed("a copy")
			}
		})
		if c.Failed() || !c.Check(o.Kind == "returned" && err == nil && n == m.n, "copy-"+o.Kind, "copying, after %d of %d blocks: %v %s (%s)", n, m.n, err, firstLine(o.Detail), c.Desc) {
			return
		}
		if c.verifyDB(dst, m, "all", c.Int(4) == 3) {
			c.sameFiles("source-changed", before, c.Disk.Snapshot(cfg.root), "reading a database")
		}
	})
}

// peek looks at a few facts about the first n blocks through the readable view
// of a chain that is being appended to.
func (c *Ctx) peek(rd chainreadinterface.IBlockChain, m *model, n int) bool {
	last := len(m.txs)
	if n < m.n { // the extent of the latest one is only known once there is a next
		last = m.firstTx[n] - 1
	}
	if last < 1 {
		return true
	}
	ok := true
	bad := func(class, f string, a ...any) bool {
		c.Fail(class, f, a...)
		ok = false
		return true
	}
	for k := 0; k < 3 && ok; k++ {
		th := c.side.Intn(last)
		h, err := rd.GenesisTransaction()
		for i := 0; i < th && err == nil; i++ {
			h, err = rd.NextTransaction(h)
		}
		if err != nil || h.Height() != int64(th) {
			return !bad("view", "walking to transaction %d of the %d appended: at %d, %v", th, last, h.Height(), err)
		}
		t := &m.txs[th]
		ti, err := rd.TransInterface(h)
		if err != nil {
			return !bad("view", "transaction %d: %v", th, err)
		}
		no, err := ti.TxoCount()
		if c.Evals++; err != nil || no != int64(len(t.tx.outs)) {
			return !bad("view", "outputs of transaction %d of the %d appended so far: %d, %v, want %d", th, last, no, err, len(t.tx.outs))
		}
		ni, err := ti.TxiCount()
		want := len(t.tx.ins)
		if th == m.firstTx[t.block] {
			want = 0
		}
		if c.Evals++; err != nil || ni != int64(want) {
			return !bad("view", "inputs of transaction %d of the %d appended so far: %d, %v, want %d", th, last, ni, err, want)
		}
		for i := range t.tx.outs {
			ho, err := ti.NthTxo(int64(i))
			if err != nil {
				return !bad("view", "output %d of transaction %d: %v", i, th, err)
			}
			to, err := rd.TxoInterface(ho)
			if err != nil {
				return !bad("view", "output %d of transaction %d: %v", i, th, err)
			}
			s, err := to.Satoshis()
			if c.Evals++; err != nil || s != m.txoVal[t.firstTxo+i] {
				return !bad("view", "value of output %d: %d, %v", t.firstTxo+i, s, err)
			}
			a, err := to.Address()
			if c.Evals++; err != nil || a.Height() != int64(m.txoAddr[t.firstTxo+i]) {
				return !bad("view", "address of output %d: %v", t.firstTxo+i, err)
			}
		}
	}
	return ok
}
