package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
	"github.com/KitchenMishap/pudding-shed/weddingcake"
	"github.com/KitchenMishap/pudding-shed/weddingcakefront"
)

// A chain or a store of hashes is appended to and synced, and then the process
// dies or the power fails: what Sync had returned for is there.
func init() {
	register("synced", 600_000_000, func(c *Ctx) {
		switch c.Int(3) {
		case 0:
			syncedHashes(c)
		case 1:
			syncedChain(c)
		case 2:
			syncedStore(c)
		}
	})
}

// stop is the death of the process or of the machine.
func (c *Ctx) stop() string {
	if c.Int(4) == 3 {
		c.Faults["process-death"]++
		return "the process died"
	}
	c.NoteN("power-loss:writes-lost", c.Disk.PowerLoss(func(n int) int { return c.side.Intn(n) }))
	c.Faults["power-loss"]++
	return "the power failed"
}

// the hashes of a chain, from blocks
func syncedHashes(c *Ctx) {
	ch := c.genChain(genOpts{minBlocks: 1, maxBlocks: 12, extraTx: 4, hot: 50, maxIns: 3, maxOuts: 5})
	m := buildModel(ch, ch.n)
	mc := &memChain{c: c, m: m, style: c.Int(3)}
	chi := memChi{mc}
	root := "/data/copy"
	at := 1 + c.side.Intn(m.n)                      // blocks when it is synced
	to := min(m.n, at+c.Pick(0, 0, 1, 3))           // blocks when it ends
	early, sessions := c.Pick(0, 30), c.Pick(0, 20) // percentages
	c.Desc = fmt.Sprintf("hashes of %s; synced after %d blocks, ended after %d", ch.desc, at, to)
	var err error
	o := c.Run(func() {
		hcc := chainstorage.NewConcreteHashesChainCreator(root)
		if err = hcc.Create(); err != nil {
			return
		}
		c.Disk.Settle()
		var hc chainstorage.IAppendableHashesChain
		if hc, err = hcc.Open(); err != nil {
			return
		}
		for h := 0; h < to; h++ {
			if c.side.Intn(2) == 0 {
				err = hc.AppendHashesChi(chi, chi.handle(h))
			} else {
				err = hc.AppendHashesCri(mc, mc.block(h), int64(h))
			}
			if err != nil {
				return
			}
			if h+1 == at || h+1 < at && c.side.Intn(100) < early {
				if err = hc.Sync(); err != nil {
					return
				}
			}
			if h+1 < at && c.side.Intn(100) < sessions {
				hc.Close()
				if hc, err = hcc.Open(); err != nil {
					return
				}
			}
		}
	})
	if !c.Check(o.Kind == "returned" && err == nil, "synced-"+o.Kind, "%v %s (%s)", err, firstLine(o.Detail), c.Desc) {
		return
	}
	how := c.stop()
	txs := len(m.txs)
	if at < m.n {
		txs = m.firstTx[at]
	}
	var want [3][]byte
	for h := 0; h < at; h++ {
		b := m.chain.blocks[h].hash
		want[0] = append(want[0], b[:]...)
	}
	for th := 0; th < txs; th++ {
		want[1] = append(want[1], m.txs[th].id[:]...)
		for i := range m.txs[th].tx.outs {
			x := m.txoHash[m.txs[th].firstTxo+i]
			want[2] = append(want[2], x[:]...)
		}
	}
	for i, k := range []string{"Blocks", "Transactions", "Addresses"} {
		b, _ := c.Disk.Get(root + "/" + k + "/Hashes/Hashes.hsh")
		c.Check(bytes.HasPrefix(b, want[i]), "synced-lost", "after %s, of the %d hashes of %s synced before, only %d are there (%s)", how, len(want[i])/32, k, same(b, want[i])/32, c.Desc)
	}
	c.NoteN("synced:hashes-checked", (len(want[0])+len(want[1])+len(want[2]))/32)
}

func same(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// the records of a chain
func syncedChain(c *Ctx) {
	ch := c.genChain(genOpts{minBlocks: 1, maxBlocks: 10, extraTx: 3, hot: 50, maxIns: 3, maxOuts: 4})
	m := buildModel(ch, ch.n)
	cfg := c.drawIngest(m)
	cfg.root = "/data/copy"
	c.drawNeis(m)
	mc := &memChain{c: c, m: m, style: c.Int(3)}
	chi := memChi{mc}
	at := 1 + c.side.Intn(m.n)
	early, sessions := c.Pick(0, 30), c.Pick(0, 20)
	c.Desc = fmt.Sprintf("%s; ints %v %v; %s; synced after %d blocks", ch.desc, blkNeis, trnNeis, cfg.desc, at)
	var err error
	var snap map[string][]byte
	o := c.Run(func() {
		hcc := chainstorage.NewConcreteHashesChainCreator(cfg.root)
		if err = hcc.Create(); err != nil {
			return
		}
		var hc chainstorage.IAppendableHashesChain
		if hc, err = hcc.Open(); err != nil {
			return
		}
		for h := 0; h < m.n; h++ {
			if err = hc.AppendHashesChi(chi, chi.handle(h)); err != nil {
				return
			}
		}
		if err = hc.Sync(); err != nil {
			return
		}
		hc.Close()
		if err = cfg.phase2(); err != nil {
			return
		}
		var acc *chainstorage.ConcreteAppendableChainCreator
		if acc, err = chainstorage.NewConcreteAppendableChainCreator(cfg.root, blkNeis, trnNeis, false, false, c.Bool()); err != nil {
			return
		}
		if err = acc.CreateFromHashStores(); err != nil {
			return
		}
		c.Disk.Settle() // all this was long ago
		var ac chainstorage.IAppendableChain
		if ac, err = acc.Open(); err != nil {
			return
		}
		for h := 0; h < at; h++ {
			if c.side.Intn(2) == 0 {
				err = ac.AppendBlockChi(chi, chi.handle(h))
			} else {
				err = ac.AppendBlock(mc, mc.block(h))
			}
			if err != nil {
				return
			}
			if h+1 == at || c.side.Intn(100) < early {
				if err = ac.Sync(); err != nil {
					return
				}
			}
			if h+1 < at && c.side.Intn(100) < sessions {
				ac.Close()
				if ac, err = acc.Open(); err != nil {
					return
				}
			}
		}
		snap = c.Disk.Snapshot(cfg.root)
	})
	if !c.Check(o.Kind == "returned" && err == nil, "synced-"+o.Kind, "%v %s (%s)", err, firstLine(o.Detail), c.Desc) {
		return
	}
	how := c.stop()
	var names []string
	for p := range snap {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		if !strings.HasSuffix(p, ".int") { // arrays are written without being forced to the disk
			continue
		}
		b, _ := c.Disk.Get(cfg.root + p)
		c.Check(bytes.Equal(b, snap[p]), "synced-lost", "after %s, %s has %d bytes, of which %d are as when it was synced, with %d bytes (%s)", how, p, len(b), same(b, snap[p]), len(snap[p]), c.Desc)
		c.Note("synced:files-checked")
	}
	if c.Failed() {
		return
	}
	o = c.Run(func() {
		var rd *dbReader
		if rd, err = openReader(cfg.root, c.Bool(), c.Bool()); err != nil {
			return
		}
		for i := 0; i < 4 && !c.Failed(); i++ {
			c.peek(rd.chain, m, at)
		}
	})
	c.Check(o.Kind == "returned" && err == nil, "synced-unreadable", "after %s: %v %s (%s)", how, err, firstLine(o.Detail), c.Desc)
}

// one store of hashes
func syncedStore(c *Ctx) {
	g := c.newHashGen()
	n := c.Pick(20, 1, 100, 300)
	more := c.Pick(0, 0, 10, 100)
	var create func() error
	var cr indexedhashes.HashStoreCreator
	var cake weddingcakefront.LegacyHashStoreCreator
	what := ""
	switch c.Int(5) {
	case 0:
		bits, bytes, cpc := int64(c.Pick(8, 2, 4, 12)), int64(c.Pick(3, 4, 5, 7)), int64(c.Pick(3, 2))
		mem, app := c.Int(4) == 3, c.Bool()
		x, err := indexedhashes.NewConcreteHashStoreCreator("H", "/data", bits, bytes, cpc, mem, app)
		if err != nil {
			panic(err)
		}
		cr = x
		what = fmt.Sprintf("lookup store, %d bits, %d bytes, %d collisions per chunk, lookup in memory %v, append optimised %v", bits, bytes, cpc, mem, app)
	case 1:
		cr, what = basicCreator{c.Bool()}, "plain store"
	case 2:
		cr, what = tierZero{weddingcake.NewTierZeroCreator("/data")}, "tier zero"
	case 3:
		x, err := indexedhashes.NewConcreteHashStoreCreatorMemory("H", "/data")
		if err != nil {
			panic(err)
		}
		cr, what = x, "store with its index in memory"
	case 4:
		defer func() { simrt.ScaleTo = 65535 }()
		size := c.Pick(65535, 5, 12, 30)
		quotas := []byte{5, 255, 255, 255}
		if c.Bool() {
			quotas = []byte{2, 3, 2, 3}
		}
		reassure := byte(c.Pick(2, 0, 4))
		cake = weddingcakefront.NewCakeCreator("/cake", reassure)
		if size < 65535 {
			if f, ok := simrt.Hooks["cake.creator"].(func(string, byte, []byte) weddingcakefront.LegacyHashStoreCreator); ok {
				simrt.ScaleTo = size
				cake = f("/cake", reassure, quotas)
				n = size*c.Int(8) + 1 + c.Int(size)
				more = min(more, size)
			}
		}
		what = fmt.Sprintf("cake, tier of %d, quotas %v, %d reassurance bytes", size, quotas, reassure)
	}
	c.Desc = fmt.Sprintf("%s; %d hashes, then %d more; hashes %s", what, n, more, g.desc)
	if cake != nil {
		create = cake.CreateHashStore
	} else {
		create = cr.CreateHashStore
	}
	var err error
	var list []h32
	o := c.Run(func() {
		if err = create(); err != nil {
			return
		}
		c.Disk.Settle()
		var app func(h h32) error
		var sync func() error
		if cake != nil {
			rw, e := cake.OpenHashStore()
			if err = e; err != nil {
				return
			}
			app = func(h h32) error { q := weddingcakefront.Sha256(h); _, e := rw.AppendHash(&q); return e }
			sync = rw.Sync
		} else {
			rw, e := cr.OpenHashStore()
			if err = e; err != nil {
				return
			}
			app = func(h h32) error { q := indexedhashes.Sha256(h); _, e := rw.AppendHash(&q); return e }
			sync = rw.Sync
		}
		for i := 0; i < n; i++ {
			h := g.next()
			if err = app(h); err != nil {
				return
			}
			list = append(list, h)
			if c.side.Intn(40) == 0 {
				if err = sync(); err != nil {
					return
				}
			}
		}
		if err = sync(); err != nil {
			return
		}
		for i := 0; i < more; i++ {
			if err = app(g.next()); err != nil {
				return
			}
		}
	})
	if !c.Check(o.Kind == "returned" && err == nil, "synced-"+o.Kind, "%v %s (%s)", err, firstLine(o.Detail), c.Desc) {
		return
	}
	how := c.stop()
	o = c.Run(func() {
		var get func(i int) (h32, error)
		if cake != nil {
			rd, e := cake.OpenHashStoreReadOnly()
			if err = e; err != nil {
				return
			}
			get = func(i int) (h32, error) {
				var q weddingcakefront.Sha256
				e := rd.GetHashAtIndex(int64(i), &q)
				return h32(q), e
			}
		} else {
			rd, e := cr.OpenHashStoreReadOnly()
			if err = e; err != nil {
				return
			}
			get = func(i int) (h32, error) {
				var q indexedhashes.Sha256
				e := rd.GetHashAtIndex(int64(i), &q)
				return h32(q), e
			}
		}
		for i, h := range list {
			x, e := get(i)
			if !c.Check(e == nil && x == h, "synced-lost", "after %s, hash %d of the %d synced before is %x, %v (%s)", how, i, len(list), x[:4], e, c.Desc) {
				return
			}
		}
		c.NoteN("synced:hashes-checked", len(list))
	})
	if more > 0 && (o.Kind != "returned" || err != nil) { // a torn end may be refused
		c.Note("synced:refused")
		return
	}
	c.Check(o.Kind == "returned" && err == nil, "synced-unreadable", "after %s: %v %s (%s)", how, err, firstLine(o.Detail), c.Desc)
}
