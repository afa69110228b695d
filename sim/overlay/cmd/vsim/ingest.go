package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	simbufio "github.com/KitchenMishap/pudding-shed/verifsim/simbufio"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

var (
	allBlkNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
	allTrnNeis = []string{"size", "vsize", "weight"}
	// what the run at hand stores (see drawNeis)
	blkNeis, trnNeis = allBlkNeis, allTrnNeis
)

// one configuration of the ingest job
type ingestCfg struct {
	c                   *Ctx
	json, chi, adaptive bool
	threads             int
	gb                  int
	bp, tp, ap          *indexedhashes3.HashIndexingParams
	root                string
	n, nt               int
	desc                string
}

func minSortBytes(bins int64) int64 {
	div := (uint64(1) << 63) / (uint64(bins) >> 1)
	n := int64(0)
	for div-1 > 0 {
		n++
		div >>= 8
		if div == 0 {
			break
		}
	}
	return n
}

// drawParams draws valid hash index parameters for about count hashes.
func (c *Ctx) drawParams(count int, maxBins int) *indexedhashes3.HashIndexingParams {
	bins := []int{2, 4, 16, 256, 6, 10, 64, 1024}
	var ok []int
	for _, b := range bins {
		if b <= maxBins {
			ok = append(ok, b)
		}
	}
	b := int64(c.Pick(ok...))
	bits := int64(1)
	for 1<<bits < count+1 {
		bits++
	}
	bits += int64(c.Pick(0, 0, 3, 9))
	entries := int64(c.Pick(1, 3, 8, 40, 2))
	sb := minSortBytes(b)
	for div := (uint64(1) << 63) / (uint64(b) >> 1); sb < 8 && div>>(8*sb) > 0; {
		sb++
	}
	sb += int64(c.Int(int(9 - sb)))
	est := int64(count)
	switch c.Int(4) {
	case 1:
		est = 1
	case 2:
		est = int64(count) * 100
	case 3:
		est = int64(count) / 3
	}
	return indexedhashes3.NewHashStoreParams(bits, est, c.Pick(2, 1, 3), b, entries, sb)
}

func paramStr(p *indexedhashes3.HashIndexingParams) string {
	return fmt.Sprintf("(bits %d est %d digits %d bins %d entries %d sort %d)", p.BitsPerHashIndex(), p.HashCountEstimate(), p.DigitsPerNumberedFolder(), p.NumberOfBins(), p.EntriesInBinStart(), p.BytesPerSortNum())
}

func (c *Ctx) drawIngest(m *model) *ingestCfg {
	cfg := &ingestCfg{c: c, root: "/data/db", n: m.n, nt: len(m.txs)}
	cfg.json = c.Bool()
	cfg.chi = c.Bool()
	cfg.adaptive = c.Bool()
	cfg.threads = c.Pick(1, 2, 3, 4, 8)
	if cfg.adaptive {
		cfg.gb = c.Pick(1, 0)
	} else {
		cfg.gb = 1
	}
	cfg.bp = c.drawParams(m.n, 256)
	cfg.tp = c.drawParams(len(m.txs), 256)
	cfg.ap = c.drawParams(len(m.txoVal), 256)
	simbufio.Cap = c.Pick(65536, 4096, 512, 8192)
	if !c.drawn { // (the same for every job of a run)
		simrt.DigitsTo = int64(c.Pick(2, 1, 2, 1, 2, 3, 2, 1, 3, 4, 0))
		c.Note(fmt.Sprintf("ingest:digits-%d", simrt.DigitsTo))
		c.drawn = true
	}
	cfg.desc = fmt.Sprintf("json=%v chi=%v adaptive=%v threads=%d gb=%d blocks%s trans%s addr%s", cfg.json, cfg.chi, cfg.adaptive, cfg.threads, cfg.gb, paramStr(cfg.bp), paramStr(cfg.tp), paramStr(cfg.ap))
	return cfg
}

// only is Only for what is below the root of the database.
func (cfg *ingestCfg) only(what string, roots ...string) func() {
	if cfg.c == nil {
		return func() {}
	}
	l := make([]string, len(roots))
	for i, r := range roots {
		if l[i] = cfg.root + r; r != "" && r[0] == '!' {
			l[i] = "!" + cfg.root + r[1:]
		}
	}
	return cfg.c.Only(what, l...)
}

func (cfg *ingestCfg) phase1() error {
	if cfg.chi {
		return jobs.PhaseOneParallelIntrinsicChi(cfg.root, cfg.json, int64(cfg.n), int64(cfg.nt), cfg.threads, "\n")
	}
	return jobs.PhaseOneParallelIntrinsic(cfg.root, cfg.json, int64(cfg.n), int64(cfg.nt), cfg.threads, "\n")
}

type preloader interface{ IndexTheHashes(threads int) error }

func (cfg *ingestCfg) phase2() error {
	defer cfg.only("the second phase", "/Blocks/Hashes", "/Transactions/Hashes", "/Addresses/Hashes", "!/Blocks/Hashes/Hashes.hsh", "!/Transactions/Hashes/Hashes.hsh", "!/Addresses/Hashes/Hashes.hsh")()
	names := []string{"Addresses/Hashes", "Transactions/Hashes", "Blocks/Hashes"}
	params := []*indexedhashes3.HashIndexingParams{cfg.ap, cfg.tp, cfg.bp}
	var pl [3]preloader
	ba := indexedhashes3.NewBinsArray(cfg.ap.EntriesInBinStart(), cfg.ap.BytesPerBinEntry(), 4)
	for _, i := range []int{2, 1, 0} {
		if cfg.adaptive {
			_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(cfg.root, names[i], params[i], cfg.gb)
			if err != nil {
				return err
			}
			pl[i] = p
		} else {
			_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloader(cfg.root, names[i], params[i], cfg.gb, ba)
			if err != nil {
				return err
			}
			pl[i] = p
		}
	}
	for _, p := range pl {
		if err := p.IndexTheHashes(cfg.threads); err != nil {
			return err
		}
	}
	return nil
}

func (cfg *ingestCfg) phase3() error {
	defer cfg.only("the third phase", "", "!/Blocks/Hashes", "!/Transactions/Hashes", "!/Addresses/Hashes")()
	acc, err := chainstorage.NewConcreteAppendableChainCreator(cfg.root, blkNeis, trnNeis, true, false, true)
	if err != nil {
		return err
	}
	if err = acc.CreateFromHashStores(); err != nil {
		return err
	}
	ac, ind, err := acc.OpenWithIndexer()
	if err != nil {
		return err
	}
	var ti transactionindexing.ITransactionIndexer = ind
	if cfg.chi {
		return jobs.PhaseThreeParallelIntrinsicChi(int64(cfg.n), cfg.json, int64(cfg.nt), ac, ti, cfg.threads, "\n")
	}
	return jobs.PhaseThreeParallelIntrinsic(int64(cfg.n), cfg.json, int64(cfg.nt), ac, ti, cfg.threads, "\n")
}

func (cfg *ingestCfg) all() error {
	if err := cfg.phase1(); err != nil {
		return fmt.Errorf("phase 1: %w", err)
	}
	if err := cfg.phase2(); err != nil {
		return fmt.Errorf("phase 2: %w", err)
	}
	if err := cfg.phase3(); err != nil {
		return fmt.Errorf("phase 3: %w", err)
	}
	return nil
}

// ---- reading the database back

type dbReader struct {
	chain chainreadinterface.IBlockChain
	hc    chainreadinterface.IHandleCreator
	par   chainstorage.IParents
	priv  chainstorage.IPrivilegedFiles
}

func openReader(root string, inRam, hashesInRam bool) (*dbReader, error) {
	acc, err := chainstorage.NewConcreteAppendableChainCreator(root, blkNeis, trnNeis, true, inRam, hashesInRam)
	if err != nil {
		return nil, err
	}
	a, b, d, e, err := acc.OpenReadOnly()
	if err != nil {
		return nil, err
	}
	return &dbReader{a, b, d, e}, nil
}

// verifyDB compares everything the readers report with the model. what: "all",
// or "addresses" for address histories only. It stops at the first difference.
func (c *Ctx) verifyDB(root string, m *model, what string, inRam bool) bool {
	var rd *dbReader
	var err error
	o := c.Run(func() {
		defer c.Only("reading a database")()
		rd, err = openReader(root, inRam, false)
		if err != nil {
			return
		}
		c.readBack(rd, m, what)
	})
	if err != nil {
		c.Fail("db-unreadable", "the finished database cannot be opened: %v", err)
		return false
	}
	if o.Kind != "returned" {
		c.Fail("db-read-"+o.Kind, "reading the finished database: %s %s", o.Kind, firstLine(o.Detail))
		return false
	}
	return !c.Failed()
}

func (c *Ctx) readBack(rd *dbReader, m *model, what string) {
	bad := func(class, f string, a ...any) bool {
		if c.Failed() || c.gaveUp {
			return true
		}
		if c.lenient && c.Disk.Faults() > 0 {
			for _, x := range a {
				if e, ok := x.(error); ok && e != nil {
					c.gaveUp = true // the reader was told: that is all it can ask for
					return true
				}
			}
		}
		c.Fail(class, f, a...)
		return true
	}
	eq := func(class string, err error, got, want int64, f string, a ...any) bool {
		c.Evals++
		if err != nil {
			return !bad(class, "%s: error %v, want %d", fmt.Sprintf(f, a...), err, want)
		}
		if got != want {
			return !bad(class, "%s: got %d, want %d", fmt.Sprintf(f, a...), got, want)
		}
		return true
	}
	if what != "addresses" {
		c.readBlocks(rd, m, bad, eq)
		if !c.Failed() && !c.gaveUp {
			c.readDirect(rd, m, bad, eq)
		}
	}
	if c.Failed() || c.gaveUp {
		return
	}
	// address histories
	keys := make([]h32, 0, len(m.addrTxos))
	for k := range m.addrTxos {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return m.addrTxos[keys[i]][0] < m.addrTxos[keys[j]][0] })
	// every history costs one read of a 100 000-entry group: beyond a limit,
	// the most used ones and a spread of the others
	lim := 22
	switch what {
	case "addresses":
		lim = 70
	case "most":
		lim = 9
	case "few":
		lim = 3
	}
	if d := simrt.DigitsTo; d > 0 && d < 4 {
		lim *= 6
	}
	if len(keys) > lim && what == "few" {
		k := c.side.Intn(len(keys) - lim + 1)
		keys = keys[k : k+lim : k+lim]
	}
	if len(keys) > lim {
		used := append([]h32{}, keys...)
		sort.SliceStable(used, func(i, j int) bool { return len(m.addrTxos[used[i]]) > len(m.addrTxos[used[j]]) })
		sel := append(append([]h32{}, keys[:lim/6]...), used[:lim/3]...)
		sel = append(sel, keys[len(keys)-lim/8-1:]...)
		for len(sel) < lim {
			sel = append(sel, keys[c.side.Intn(len(keys))])
		}
		keys = sel
	}
	for _, k := range keys {
		want := m.addrTxos[k]
		h, err := rd.hc.AddressHandleByHash(indexedhashes.Sha256(k))
		if err != nil {
			bad("address-missing", "address of outputs %v is not found: %v", short(want), err)
			return
		}
		if !eq("address-height", nil, h.Height(), int64(want[0]), "height of the address first paid by output %d", want[0]) {
			return
		}
		if h, err = rd.hc.AddressHandleByString(m.addrText[k]); err != nil {
			bad("address-missing", "address of outputs %v is not found by its text: %v", short(want), err)
			return
		}
		if !eq("address-height", nil, h.Height(), int64(want[0]), "height by its text of the address first paid by output %d", want[0]) {
			return
		}
		a, err := rd.chain.AddressInterface(h)
		if err != nil {
			bad("address-error", "AddressInterface: %v", err)
			return
		}
		var got []int
		history := func() error {
			got = []int{}
			n, err := a.TxoCount()
			for i := int64(0); i < n && err == nil; i++ {
				t, e := a.NthTxo(i)
				if e != nil {
					return e
				}
				got = append(got, int(t.TxoHeight()))
			}
			return err
		}
		err = history()
		if err != nil && c.lenient {
			// the same object is asked again, perhaps of a disk that works again
			if e := history(); e == nil {
				c.Note("dbread:asked-again")
				err = nil
			}
		}
		c.Evals++
		if err != nil {
			bad("address-history", "history of the address first paid by output %d: error %v (want %v)", want[0], err, short(want))
			return
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			bad("address-history", "history of the address first paid by output %d: got %v, want %v", want[0], short(got), short(want))
			return
		}
		if a.Hash() != indexedhashes.Sha256(k) {
			bad("address-hash", "hash of the address first paid by output %d is %x", want[0], a.Hash())
			return
		}
	}
	var none indexedhashes.Sha256
	for i := 0; i < 3; i++ {
		copy(none[:], c.sideBytes(32))
		if h, err := rd.hc.AddressHandleByHash(none); err == nil {
			bad("phantom", "a hash that was never stored is reported as address %d", h.Height())
		}
		if h, err := rd.hc.AddressHandleByString(string(none[:])); err == nil {
			bad("phantom", "an address that was never paid is reported as address %d", h.Height())
		}
		if h, err := rd.hc.TransactionHandleByHash(none); err == nil {
			bad("phantom", "a hash that was never stored is reported as transaction %d", h.Height())
		}
		if h, err := rd.hc.BlockHandleByHash(none); err == nil {
			bad("phantom", "a hash that was never stored is reported as block %d", h.Height())
		}
	}
}

func short(x []int) string {
	if len(x) > 12 {
		return fmt.Sprintf("%v... (%d)", x[:12], len(x))
	}
	return fmt.Sprint(x)
}

func (c *Ctx) readBlocks(rd *dbReader, m *model, bad func(string, string, ...any) bool, eq func(string, error, int64, int64, string, ...any) bool) {
	lb, err := rd.chain.LatestBlock()
	if err != nil {
		bad("latest", "LatestBlock: %v", err)
		return
	}
	if !eq("block-count", nil, lb.Height(), int64(m.n-1), "height of the latest block") {
		return
	}
	lt, err := rd.chain.LatestTransaction()
	if err != nil {
		bad("latest", "LatestTransaction: %v", err)
		return
	}
	if !eq("trans-count", nil, lt.Height(), int64(len(m.txs)-1), "height of the latest transaction") {
		return
	}
	hb := rd.chain.GenesisBlock()
	for h := 0; h < m.n; h++ {
		b := m.chain.blocks[h]
		if hb.IsInvalid() || hb.Height() != int64(h) {
			bad("block-walk", "walking the chain: expected block %d, got %d", h, hb.Height())
			return
		}
		bi, err := rd.chain.BlockInterface(hb)
		if err != nil {
			bad("block-read", "block %d: %v", h, err)
			return
		}
		hs, err := bi.Hash()
		c.Evals++
		if err != nil || h32(hs) != b.hash {
			bad("block-hash", "hash of block %d: %v %v, want %s", h, revHex(h32(hs)), err, revHex(b.hash))
			return
		}
		g, err := rd.hc.BlockHandleByHash(indexedhashes.Sha256(b.hash))
		if err != nil {
			bad("block-lookup", "block %d is not found by its hash: %v", h, err)
			return
		}
		if !eq("block-lookup", nil, g.Height(), int64(h), "block %d looked up by hash", h) {
			return
		}
		n, err := bi.TransactionCount()
		if !eq("block-trans-count", err, n, int64(len(b.txs)), "number of transactions of block %d", h) {
			return
		}
		ni, err := bi.NonEssentialInts()
		if err != nil {
			bad("block-ints", "block %d: %v", h, err)
			return
		}
		for _, k := range blkNeis {
			v, ok := (*ni)[k]
			if !ok {
				v = -1
			}
			if !eq("block-"+k, nil, v, m.blkInt(h, k), "%s of block %d", k, h) {
				return
			}
		}
		for i := range b.txs {
			ht, err := bi.NthTransaction(int64(i))
			if err != nil {
				bad("trans-read", "transaction %d of block %d: %v", i, h, err)
				return
			}
			if !eq("trans-height", nil, ht.Height(), int64(m.firstTx[h]+i), "height of transaction %d of block %d", i, h) {
				return
			}
		}
		if hb, err = rd.chain.NextBlock(hb); err != nil {
			bad("block-walk", "NextBlock after %d: %v", h, err)
			return
		}
	}
	if !hb.IsInvalid() {
		bad("block-walk", "the chain goes on after its last block: %d", hb.Height())
		return
	}
	ht, err := rd.chain.GenesisTransaction()
	if err != nil {
		bad("trans-walk", "%v", err)
		return
	}
	for th := range m.txs {
		t := &m.txs[th]
		if ht.IsInvalid() || ht.Height() != int64(th) {
			bad("trans-walk", "walking the transactions: expected %d, got %d", th, ht.Height())
			return
		}
		if !c.readTrans(rd, m, th, t, ht, bad, eq) {
			return
		}
		if ht, err = rd.chain.NextTransaction(ht); err != nil {
			bad("trans-walk", "NextTransaction after %d: %v", th, err)
			return
		}
	}
	if !ht.IsInvalid() {
		bad("trans-walk", "there is a transaction after the last one: %d", ht.Height())
	}
	// direct access used by the server
	pf := rd.priv
	n, err := pf.TxoSatsFile().CountWords()
	eq("count-txos", err, n, int64(len(m.txoVal)), "number of outputs")
	n, err = pf.TxiTxFile().CountWords()
	eq("count-txis", err, n, int64(len(m.txiTx)), "number of inputs")
	n, err = pf.TxiVoutFile().CountWords()
	eq("count-txis", err, n, int64(len(m.txiTx)), "number of input vouts")
	n, err = pf.TransFirstTxiFile().CountWords()
	eq("count-first", err, n, int64(len(m.txs)), "number of first-input entries")
	n, err = pf.TransFirstTxoFile().CountWords()
	eq("count-first", err, n, int64(len(m.txs)), "number of first-output entries")
}

func (c *Ctx) readTrans(rd *dbReader, m *model, th int, t *mTx, ht chainreadinterface.ITransHandle, bad func(string, string, ...any) bool, eq func(string, error, int64, int64, string, ...any) bool) bool {
	ti, err := rd.chain.TransInterface(ht)
	if err != nil {
		return !bad("trans-read", "transaction %d: %v", th, err)
	}
	first := m.txFirst[t.id] == th
	hs, err := ti.Hash()
	c.Evals++
	if err != nil || first && h32(hs) != t.id {
		return !bad("trans-hash", "hash of transaction %d: %s %v, want %s", th, revHex(h32(hs)), err, revHex(t.id))
	}
	g, err := rd.hc.TransactionHandleByHash(indexedhashes.Sha256(t.id))
	if err != nil {
		return !bad("trans-lookup", "transaction %d is not found by its txid: %v", th, err)
	}
	if !eq("trans-lookup", nil, g.Height(), int64(m.txFirst[t.id]), "transaction %d looked up by txid", th) {
		return false
	}
	nIn := len(t.tx.ins)
	if th == m.firstTx[t.block] {
		nIn = 0
	}
	n, err := ti.TxiCount()
	if !eq("txi-count", err, n, int64(nIn), "number of inputs of transaction %d", th) {
		return false
	}
	n, err = ti.TxoCount()
	if !eq("txo-count", err, n, int64(len(t.tx.outs)), "number of outputs of transaction %d", th) {
		return false
	}
	pb, err := rd.par.ParentBlockOfTrans(int64(th))
	if !eq("parent-block", err, pb, int64(t.block), "parent block of transaction %d", th) {
		return false
	}
	ni, err := ti.NonEssentialInts()
	if err != nil {
		return !bad("trans-ints", "transaction %d: %v", th, err)
	}
	for _, k := range trnNeis {
		v, ok := (*ni)[k]
		if !ok {
			v = -1
		}
		if !eq("trans-"+k, nil, v, m.trnInt(th, k), "%s of transaction %d", k, th) {
			return false
		}
	}
	all, err := ti.AllTxoSatoshis()
	c.Evals++
	var wv []int64
	for _, o := range t.tx.outs {
		wv = append(wv, o.value)
	}
	if err != nil || fmt.Sprint(all) != fmt.Sprint(wv) {
		return !bad("satoshis", "all output values of transaction %d: %v %v, want %v", th, all, err, wv)
	}
	for i := 0; i < nIn; i++ {
		x := t.firstTxi + i
		hi, err := ti.NthTxi(int64(i))
		if err != nil {
			return !bad("txi-read", "input %d of transaction %d: %v", i, th, err)
		}
		if !eq("txi-height", nil, hi.TxiHeight(), int64(x), "height of input %d of transaction %d", i, th) {
			return false
		}
		in, err := rd.chain.TxiInterface(hi)
		if err != nil {
			return !bad("txi-read", "input %d of transaction %d: %v", i, th, err)
		}
		so, err := in.SourceTxo()
		if err != nil {
			return !bad("txi-source", "source of input %d: %v", x, err)
		}
		if !eq("txi-source", nil, so.ParentTrans().Height(), int64(m.txiTx[x]), "source transaction of input %d (input %d of transaction %d)", x, i, th) {
			return false
		}
		if !eq("txi-vout", nil, so.ParentIndex(), int64(m.txiVout[x]), "source output number of input %d", x) {
			return false
		}
		src := m.txs[m.txiTx[x]]
		if m.txiVout[x] < len(src.tx.outs) {
			st, err := rd.chain.TxoInterface(so)
			if err != nil {
				return !bad("txi-source", "source output of input %d: %v", x, err)
			}
			if !eq("txi-source", nil, st.TxoHeight(), int64(src.firstTxo+m.txiVout[x]), "source output of input %d", x) {
				return false
			}
		}
		p, err := rd.par.ParentTransOfTxi(int64(x))
		if !eq("parent-txi", err, p, int64(th), "parent transaction of input %d", x) {
			return false
		}
	}
	for i := range t.tx.outs {
		x := t.firstTxo + i
		ho, err := ti.NthTxo(int64(i))
		if err != nil {
			return !bad("txo-read", "output %d of transaction %d: %v", i, th, err)
		}
		if !eq("txo-height", nil, ho.TxoHeight(), int64(x), "height of output %d of transaction %d", i, th) {
			return false
		}
		to, err := rd.chain.TxoInterface(ho)
		if err != nil {
			return !bad("txo-read", "output %d of transaction %d: %v", i, th, err)
		}
		v, err := to.Satoshis()
		if !eq("satoshis", err, v, m.txoVal[x], "value of output %d", x) {
			return false
		}
		ah, err := to.Address()
		if err != nil {
			return !bad("txo-address", "address of output %d: %v", x, err)
		}
		if !eq("txo-address", nil, ah.Height(), int64(m.txoAddr[x]), "address of output %d", x) {
			return false
		}
		p, err := rd.par.ParentTransOfTxo(int64(x))
		if !eq("parent-txo", err, p, int64(th), "parent transaction of output %d", x) {
			return false
		}
	}
	return true
}

// handles that know a hash only, or a parent only

type hashOnlyBlock struct{ h indexedhashes.Sha256 }

func (x hashOnlyBlock) Height() int64                       { return -1 }
func (x hashOnlyBlock) Hash() (indexedhashes.Sha256, error) { return x.h, nil }
func (x hashOnlyBlock) HeightSpecified() bool               { return false }
func (x hashOnlyBlock) HashSpecified() bool                 { return true }
func (x hashOnlyBlock) IsBlockHandle()                      {}
func (x hashOnlyBlock) IsInvalid() bool                     { return false }

type hashOnlyTrans struct{ h indexedhashes.Sha256 }

func (x hashOnlyTrans) Height() int64                       { return -1 }
func (x hashOnlyTrans) Hash() (indexedhashes.Sha256, error) { return x.h, nil }
func (x hashOnlyTrans) HeightSpecified() bool               { return false }
func (x hashOnlyTrans) HashSpecified() bool                 { return true }
func (x hashOnlyTrans) IndicesPath() (int64, int64)         { return -1, -1 }
func (x hashOnlyTrans) IndicesPathSpecified() bool          { return false }
func (x hashOnlyTrans) IsTransHandle()                      {}
func (x hashOnlyTrans) IsInvalid() bool                     { return false }

type hashOnlyAddr struct{ h indexedhashes.Sha256 }

func (x hashOnlyAddr) Height() int64              { return -1 }
func (x hashOnlyAddr) Hash() indexedhashes.Sha256 { return x.h }
func (x hashOnlyAddr) HeightSpecified() bool      { return false }
func (x hashOnlyAddr) HashSpecified() bool        { return true }

type byParent struct {
	tr chainreadinterface.ITransHandle
	i  int64
}

func (x byParent) ParentTrans() chainreadinterface.ITransHandle { return x.tr }
func (x byParent) ParentIndex() int64                           { return x.i }
func (x byParent) TxiHeight() int64                             { return -1 }
func (x byParent) TxoHeight() int64                             { return -1 }
func (x byParent) IndicesPath() (int64, int64, int64)           { return -1, -1, -1 }
func (x byParent) ParentSpecified() bool                        { return true }
func (x byParent) TxiHeightSpecified() bool                     { return false }
func (x byParent) TxoHeightSpecified() bool                     { return false }
func (x byParent) IndicesPathSpecified() bool                   { return false }

// readDirect goes to a few blocks, transactions, inputs, outputs and addresses
// without walking there.
func (c *Ctx) readDirect(rd *dbReader, m *model, bad func(string, string, ...any) bool, eq func(string, error, int64, int64, string, ...any) bool) {
	stop := func() bool { return c.Failed() || c.gaveUp }
	for k := 0; k < 3 && !stop(); k++ {
		h := c.side.Intn(m.n)
		b := m.chain.blocks[h]
		hb, err := rd.hc.BlockHandleByHeight(int64(h))
		if err != nil {
			bad("direct", "handle of block %d: %v", h, err)
			return
		}
		if !eq("direct", nil, hb.Height(), int64(h), "height of the handle of block %d", h) {
			return
		}
		bt := truth{height: h, hash: &b.hash}
		if !c.says(bad, fmt.Sprintf("block %d", h), hb, bt) {
			return
		}
		if y, err := rd.hc.BlockHandleByHash(indexedhashes.Sha256(b.hash)); err == nil && !c.says(bad, fmt.Sprintf("block %d, by its hash,", h), y, bt) {
			return
		}
		p := rd.chain.ParentBlock(hb)
		eq("parent", nil, p.Height(), int64(h-1), "parent of block %d", h)
		if p.IsInvalid() != (h == 0) {
			bad("parent", "parent of block %d invalid: %v", h, p.IsInvalid())
			return
		}
		for _, x := range []chainreadinterface.IBlockHandle{hb, hashOnlyBlock{indexedhashes.Sha256(b.hash)}} {
			bi, err := rd.chain.BlockInterface(x)
			if err != nil {
				bad("direct", "block %d: %v", h, err)
				return
			}
			if !c.says(bad, fmt.Sprintf("block %d (as read)", h), bi, bt) {
				return
			}
			if k := c.side.Intn(len(b.txs)); true {
				y, err := bi.NthTransaction(int64(k))
				if err != nil {
					bad("trans-read", "transaction %d of block %d: %v", k, h, err)
					return
				}
				th := m.firstTx[h] + k
				if !c.says(bad, fmt.Sprintf("transaction %d of block %d", k, h), y, m.truthOfTrans(th)) {
					return
				}
			}
			n, err := bi.TransactionCount()
			if !eq("direct", nil, bi.Height(), int64(h), "height of block %d", h) || !eq("block-trans-count", err, n, int64(len(b.txs)), "number of transactions of block %d", h) {
				return
			}
		}
		th := c.side.Intn(len(m.txs))
		t := &m.txs[th]
		ht, err := rd.hc.TransactionHandleByHeight(int64(th))
		if err != nil {
			bad("direct", "handle of transaction %d: %v", th, err)
			return
		}
		if !eq("direct", nil, ht.Height(), int64(th), "height of the handle of transaction %d", th) {
			return
		}
		tt := m.truthOfTrans(th)
		if !c.says(bad, fmt.Sprintf("transaction %d", th), ht, tt) {
			return
		}
		if m.txFirst[t.id] == th {
			if y, err := rd.hc.TransactionHandleByHash(indexedhashes.Sha256(t.id)); err == nil && !c.says(bad, fmt.Sprintf("transaction %d, by its hash,", th), y, tt) {
				return
			}
		}
		q := rd.chain.PreviousTransaction(ht)
		eq("parent", nil, q.Height(), int64(th-1), "transaction before %d", th)
		if q.IsInvalid() != (th == 0) {
			bad("parent", "transaction before %d invalid: %v", th, q.IsInvalid())
			return
		}
		xs := []chainreadinterface.ITransHandle{ht}
		if m.txFirst[t.id] == th {
			xs = append(xs, hashOnlyTrans{indexedhashes.Sha256(t.id)})
		}
		for _, x := range xs {
			ti, err := rd.chain.TransInterface(x)
			if err != nil {
				bad("direct", "transaction %d: %v", th, err)
				return
			}
			if !c.says(bad, fmt.Sprintf("transaction %d (as read)", th), ti, tt) {
				return
			}
			n, err := ti.TxoCount()
			if !eq("direct", nil, ti.Height(), int64(th), "height of transaction %d", th) || !eq("txo-count", err, n, int64(len(t.tx.outs)), "number of outputs of transaction %d", th) {
				return
			}
			i := c.side.Intn(len(t.tx.outs))
			to, err := rd.chain.TxoInterface(byParent{x, int64(i)})
			if err != nil {
				bad("direct", "output %d of transaction %d: %v", i, th, err)
				return
			}
			ot := tt
			ot.height, ot.hash, ot.tr, ot.i = t.firstTxo+i, nil, th, i
			yo, err := ti.NthTxo(int64(i))
			if err != nil {
				bad("txo-read", "output %d of transaction %d: %v", i, th, err)
				return
			}
			if !c.says(bad, fmt.Sprintf("output %d of transaction %d", i, th), yo, ot) || !c.says(bad, fmt.Sprintf("output %d of transaction %d (as read)", i, th), to, ot) {
				return
			}
			if !eq("direct", nil, to.TxoHeight(), int64(t.firstTxo+i), "height of output %d of transaction %d", i, th) {
				return
			}
			if th != m.firstTx[t.block] && len(t.tx.ins) > 0 {
				i = c.side.Intn(len(t.tx.ins))
				in, err := rd.chain.TxiInterface(byParent{x, int64(i)})
				if err != nil {
					bad("direct", "input %d of transaction %d: %v", i, th, err)
					return
				}
				ot.height, ot.i = t.firstTxi+i, i
				yi, err := ti.NthTxi(int64(i))
				if err != nil {
					bad("txi-read", "input %d of transaction %d: %v", i, th, err)
					return
				}
				if !c.says(bad, fmt.Sprintf("input %d of transaction %d", i, th), yi, ot) || !c.says(bad, fmt.Sprintf("input %d of transaction %d (as read)", i, th), in, ot) {
					return
				}
				so, err := in.SourceTxo()
				if err != nil {
					bad("txi-source", "source of input %d of transaction %d: %v", i, th, err)
					return
				}
				x := t.firstTxi + i
				if src := m.txiTx[x]; m.txiVout[x] < len(m.txs[src].tx.outs) {
					if !c.says(bad, fmt.Sprintf("the source of input %d", x), so, truth{height: m.txs[src].firstTxo + m.txiVout[x], tr: src, i: m.txiVout[x]}) {
						return
					}
				}
				if !eq("direct", nil, in.TxiHeight(), int64(t.firstTxi+i), "height of input %d of transaction %d", i, th) {
					return
				}
			}
		}
		o := c.side.Intn(len(m.txoVal))
		ho, err := rd.hc.TxoHandleByHeight(int64(o))
		if err != nil {
			bad("direct", "handle of output %d: %v", o, err)
			return
		}
		to, err := rd.chain.TxoInterface(ho)
		if err != nil {
			bad("direct", "output %d: %v", o, err)
			return
		}
		v, err := to.Satoshis()
		if !eq("satoshis", err, v, m.txoVal[o], "value of output %d", o) {
			return
		}
		if len(m.txiTx) > 0 {
			x := c.side.Intn(len(m.txiTx))
			hi, err := rd.hc.TxiHandleByHeight(int64(x))
			if err != nil {
				bad("direct", "handle of input %d: %v", x, err)
				return
			}
			in, err := rd.chain.TxiInterface(hi)
			if err != nil {
				bad("direct", "input %d: %v", x, err)
				return
			}
			so, err := in.SourceTxo()
			if err != nil {
				bad("txi-source", "source of input %d: %v", x, err)
				return
			}
			if !eq("txi-source", nil, so.ParentTrans().Height(), int64(m.txiTx[x]), "source transaction of input %d", x) {
				return
			}
		}
		a := m.txoAddr[o]
		ha, err := rd.hc.AddressHandleByHeight(int64(a))
		if err != nil {
			bad("direct", "handle of address %d: %v", a, err)
			return
		}
		key := m.txoHash[o]
		at := truth{height: a}
		if ya, err := to.Address(); err == nil && !c.says(bad, fmt.Sprintf("the address of output %d", o), ya, at) || !c.says(bad, fmt.Sprintf("address %d", a), ha, at) {
			return
		}
		if k > 0 { // (one history costs as much as all the rest)
			continue
		}
		var as []chainreadinterface.IAddressHandle
		if c.side.Intn(2) == 0 {
			as = append(as, ha)
		} else {
			as = append(as, hashOnlyAddr{indexedhashes.Sha256(key)})
		}
		for _, x := range as {
			ad, err := rd.chain.AddressInterface(x)
			if err != nil {
				bad("direct", "address %d: %v", a, err)
				return
			}
			if !c.says(bad, fmt.Sprintf("address %d (as read)", a), ad, at) {
				return
			}
			n, err := ad.TxoCount()
			if !eq("address-history", err, n, int64(len(m.addrTxos[key])), "number of outputs of address %d", a) {
				return
			}
			if ad.Hash() != indexedhashes.Sha256(key) {
				bad("address-hash", "hash of address %d is %x", a, ad.Hash())
				return
			}
		}
	}
	// what is not there
	var none indexedhashes.Sha256
	copy(none[:], c.sideBytes(32))
	if bi, err := rd.chain.BlockInterface(hashOnlyBlock{none}); err == nil && !bi.IsInvalid() {
		bad("phantom", "a hash that was never stored is taken for block %d", bi.Height())
	}
	if ti, err := rd.chain.TransInterface(hashOnlyTrans{none}); err == nil && !ti.IsInvalid() {
		bad("phantom", "a hash that was never stored is taken for transaction %d", ti.Height())
	}
}

// truth is what can be said about a block, transaction, input, output or address.
type truth struct {
	height     int
	hash       *h32
	block, nth int // of a transaction: where it is
	tr, i      int // of an input or output: likewise
}

func (m *model) truthOfTrans(th int) truth {
	t := &m.txs[th]
	w := truth{height: th, block: t.block, nth: th - m.firstTx[t.block]}
	if m.txFirst[t.id] == th {
		w.hash = &t.id
	}
	return w
}

// says compares what a handle claims to know with the truth.
func (c *Ctx) says(bad func(string, string, ...any) bool, what string, x any, w truth) bool {
	no := func(f string, a ...any) bool {
		bad("handle", "the handle of %s says it knows %s", what, fmt.Sprintf(f, a...))
		return false
	}
	c.Evals++
	height := -1
	switch h := x.(type) {
	case interface {
		TxiHeight() int64
		TxiHeightSpecified() bool
	}:
		if h.TxiHeightSpecified() {
			height = int(h.TxiHeight())
		}
	case interface {
		TxoHeight() int64
		TxoHeightSpecified() bool
	}:
		if h.TxoHeightSpecified() {
			height = int(h.TxoHeight())
		}
	case interface {
		Height() int64
		HeightSpecified() bool
	}:
		if h.HeightSpecified() {
			height = int(h.Height())
		}
	}
	knows := false // where it is in the database
	for _, f := range []func() bool{
		func() bool { h, ok := x.(interface{ HeightSpecified() bool }); return ok && h.HeightSpecified() },
		func() bool { h, ok := x.(interface{ TxiHeightSpecified() bool }); return ok && h.TxiHeightSpecified() },
		func() bool { h, ok := x.(interface{ TxoHeightSpecified() bool }); return ok && h.TxoHeightSpecified() },
		func() bool { h, ok := x.(interface{ ParentSpecified() bool }); return ok && h.ParentSpecified() },
		func() bool {
			h, ok := x.(interface{ IndicesPathSpecified() bool })
			return ok && h.IndicesPathSpecified()
		},
		func() bool { // (an address that has been read knows its hash instead)
			h, ok := x.(interface {
				Hash() indexedhashes.Sha256
				HashSpecified() bool
			})
			return ok && h.HashSpecified()
		},
	} {
		if knows = f(); knows {
			break
		}
	}
	if !knows {
		return no("neither its height nor its place")
	}
	if height != -1 && height != w.height {
		return no("its height: %d, not %d", height, w.height)
	}
	if h, ok := x.(interface{ HashSpecified() bool }); ok && w.hash != nil && h.HashSpecified() {
		switch g := x.(type) {
		case interface {
			Hash() (indexedhashes.Sha256, error)
		}:
			hs, err := g.Hash()
			if err != nil {
				bad("handle", "the hash of %s, which its handle says it knows: %v", what, err)
				return false
			}
			if h32(hs) != *w.hash {
				return no("its hash: %s, not %s", revHex(h32(hs)), revHex(*w.hash))
			}
		case interface{ Hash() indexedhashes.Sha256 }:
			if hs := g.Hash(); h32(hs) != *w.hash && !c.lenient { // (has no way of reporting an error)
				return no("its hash: %s, not %s", revHex(h32(hs)), revHex(*w.hash))
			}
		}
	}
	if h, ok := x.(interface {
		ParentSpecified() bool
		ParentTrans() chainreadinterface.ITransHandle
		ParentIndex() int64
	}); ok && h.ParentSpecified() {
		if t, i := h.ParentTrans().Height(), h.ParentIndex(); t != int64(w.tr) || i != int64(w.i) {
			return no("its parent: transaction %d, number %d there, not %d and %d", t, i, w.tr, w.i)
		}
	}
	if h, ok := x.(interface{ IndicesPathSpecified() bool }); ok && h.IndicesPathSpecified() {
		switch g := x.(type) {
		case interface{ IndicesPath() (int64, int64) }:
			if b, n := g.IndicesPath(); b != int64(w.block) || n != int64(w.nth) {
				return no("its place: block %d, transaction %d there, not %d and %d", b, n, w.block, w.nth)
			}
		case interface {
			IndicesPath() (int64, int64, int64)
		}:
			if b, n, i := g.IndicesPath(); b != int64(w.block) || n != int64(w.nth) || i != int64(w.i) {
				return no("its place: block %d, transaction %d, number %d, not %d, %d and %d", b, n, i, w.block, w.nth, w.i)
			}
		}
	}
	return true
}

func joinLines(s ...string) string { return strings.Join(s, "; ") }
