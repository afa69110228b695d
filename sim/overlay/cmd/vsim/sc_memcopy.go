package main

import (
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

// A block chain that lives in memory and answers through both interfaces a
// chain can be read by, with handles that specify as little, or as much, as
// the interfaces allow. What the appender stores must not depend on that.

type memChain struct {
	c      *Ctx
	m      *model
	delg   bool   // transaction handles must say where the transaction is
	style  int    // 0: everything is drawn per handle
	key    uint32 // what the opaque handles are scrambled with
	calls  int
	fail   int  // the call that is to fail (1: the first; 0: none)
	failed int  // so many have
	stays  bool // and every later one
}

var errSource = errors.New("the source failed")

// bad counts the calls to the source that can report an error, and fails the
// one that is to fail.
func (mc *memChain) bad() bool {
	mc.calls++
	if mc.fail > 0 && (mc.calls == mc.fail || mc.stays && mc.calls > mc.fail) {
		mc.failed++
		mc.c.Faults["source-error"]++
		return true
	}
	return false
}

// how says, per handle, whether an optional part is specified.
func (mc *memChain) how() bool {
	switch mc.style {
	case 1:
		return true
	case 2:
		return false
	}
	return mc.c.side.Intn(2) == 0
}

type mcBlock struct {
	mc   *memChain
	h    int
	says bool
}

func (x mcBlock) Height() int64 {
	if !x.says {
		return -1
	}
	return int64(x.h)
}
func (x mcBlock) Hash() (indexedhashes.Sha256, error) {
	if x.mc.bad() {
		return indexedhashes.Sha256{}, errSource
	}
	if x.h < 0 {
		return indexedhashes.Sha256{}, errors.New("no such block")
	}
	return indexedhashes.Sha256(x.mc.m.chain.blocks[x.h].hash), nil
}
func (x mcBlock) HeightSpecified() bool { return x.says }
func (x mcBlock) HashSpecified() bool   { return x.h >= 0 }
func (x mcBlock) IsBlockHandle()        {}
func (x mcBlock) IsInvalid() bool       { return x.h < 0 }
func (x mcBlock) TransactionCount() (int64, error) {
	if x.mc.bad() {
		return 0, errSource
	}
	return int64(len(x.mc.m.chain.blocks[x.h].txs)), nil
}
func (x mcBlock) NthTransaction(n int64) (chainreadinterface.ITransHandle, error) {
	if x.mc.bad() {
		return nil, errSource
	}
	if n < 0 || n >= int64(len(x.mc.m.chain.blocks[x.h].txs)) {
		return nil, errors.New("no such transaction")
	}
	return x.mc.trans(x.mc.m.firstTx[x.h] + int(n)), nil
}
func (x mcBlock) NonEssentialInts() (*map[string]int64, error) {
	if x.mc.bad() {
		return nil, errSource
	}
	r := map[string]int64{}
	for _, k := range blkNeis {
		r[k] = x.mc.m.blkInt(x.h, k)
	}
	r["something else"] = 77
	return &r, nil
}

type mcTrans struct {
	mc           *memChain
	th           int
	height, path bool
	hashless     bool
}

func (mc *memChain) trans(th int) mcTrans {
	t := mcTrans{mc: mc, th: th, height: mc.how(), path: mc.how()}
	if mc.delg && !t.height {
		t.path = true
	}
	return t
}
func (x mcTrans) Height() int64 {
	if !x.height {
		return -1
	}
	return int64(x.th)
}
func (x mcTrans) Hash() (indexedhashes.Sha256, error) {
	if x.mc.bad() {
		return indexedhashes.Sha256{}, errSource
	}
	return indexedhashes.Sha256(x.mc.m.txs[x.th].id), nil
}
func (x mcTrans) IndicesPath() (int64, int64) {
	if !x.path {
		return -1, -1
	}
	b := x.mc.m.txs[x.th].block
	return int64(b), int64(x.th - x.mc.m.firstTx[b])
}
func (x mcTrans) HeightSpecified() bool      { return x.height }
func (x mcTrans) HashSpecified() bool        { return !x.hashless }
func (x mcTrans) IndicesPathSpecified() bool { return x.path }
func (x mcTrans) IsTransHandle()             {}
func (x mcTrans) IsInvalid() bool            { return false }

func (x mcTrans) ins() int {
	t := &x.mc.m.txs[x.th]
	if x.th == x.mc.m.firstTx[t.block] {
		return 0
	}
	return len(t.tx.ins)
}
func (x mcTrans) TxiCount() (int64, error) {
	if x.mc.bad() {
		return 0, errSource
	}
	return int64(x.ins()), nil
}
func (x mcTrans) TxoCount() (int64, error) {
	if x.mc.bad() {
		return 0, errSource
	}
	return int64(len(x.mc.m.txs[x.th].tx.outs)), nil
}
func (x mcTrans) NthTxi(n int64) (chainreadinterface.ITxiHandle, error) {
	if x.mc.bad() {
		return nil, errSource
	}
	if n < 0 || n >= int64(x.ins()) {
		return nil, errors.New("no such input")
	}
	return x.mc.end(x.mc.m.txs[x.th].firstTxi+int(n), x.th, int(n), false), nil
}
func (x mcTrans) NthTxo(n int64) (chainreadinterface.ITxoHandle, error) {
	if x.mc.bad() {
		return nil, errSource
	}
	if n < 0 || n >= int64(len(x.mc.m.txs[x.th].tx.outs)) {
		return nil, errors.New("no such output")
	}
	return x.mc.end(x.mc.m.txs[x.th].firstTxo+int(n), x.th, int(n), true), nil
}
func (x mcTrans) AllTxoSatoshis() ([]int64, error) {
	var r []int64
	for _, o := range x.mc.m.txs[x.th].tx.outs {
		r = append(r, o.value)
	}
	return r, nil
}
func (x mcTrans) NonEssentialInts() (*map[string]int64, error) {
	if x.mc.bad() {
		return nil, errSource
	}
	r := map[string]int64{}
	for _, k := range trnNeis {
		r[k] = x.mc.m.trnInt(x.th, k)
	}
	return &r, nil
}

// an input or an output
type mcEnd struct {
	mc             *memChain
	at, th, i      int
	height, parent bool
	out            bool
}

func (mc *memChain) end(at, th, i int, out bool) mcEnd {
	return mcEnd{mc, at, th, i, mc.how(), mc.how(), out}
}
func (x mcEnd) ParentTrans() chainreadinterface.ITransHandle { return x.mc.trans(x.th) }
func (x mcEnd) ParentIndex() int64                           { return int64(x.i) }
func (x mcEnd) TxiHeight() int64 {
	if !x.height {
		return -1
	}
	return int64(x.at)
}
func (x mcEnd) TxoHeight() int64                   { return x.TxiHeight() }
func (x mcEnd) IndicesPath() (int64, int64, int64) { return -1, -1, -1 }
func (x mcEnd) ParentSpecified() bool              { return x.parent }
func (x mcEnd) TxiHeightSpecified() bool           { return x.height }
func (x mcEnd) TxoHeightSpecified() bool           { return x.height }
func (x mcEnd) IndicesPathSpecified() bool         { return false }
func (x mcEnd) SourceTxo() (chainreadinterface.ITxoHandle, error) {
	if x.mc.bad() {
		return nil, errSource
	}
	// the one thing an input has to know: which output of which transaction it
	// spends. How the transaction is named is open.
	m := x.mc.m
	s := mcEnd{mc: x.mc, at: m.txs[m.txiTx[x.at]].firstTxo + m.txiVout[x.at], th: m.txiTx[x.at], i: m.txiVout[x.at], height: x.mc.how(), parent: true, out: true}
	return mcSource{s}, nil
}
func (x mcEnd) Satoshis() (int64, error) {
	if x.mc.bad() {
		return 0, errSource
	}
	return x.mc.m.txoVal[x.at], nil
}
func (x mcEnd) Address() (chainreadinterface.IAddressHandle, error) {
	if x.mc.bad() {
		return nil, errSource
	}
	return mcAddr{x.mc, x.at, x.mc.how()}, nil
}

type mcSource struct{ mcEnd }

func (x mcSource) ParentTrans() chainreadinterface.ITransHandle {
	t := mcTrans{mc: x.mc, th: x.th, height: x.mc.how(), path: x.mc.how()}
	t.hashless = (t.height || t.path) && x.mc.how()
	return t
}

type mcAddr struct {
	mc     *memChain
	at     int
	height bool
}

func (x mcAddr) Height() int64 {
	if !x.height {
		return -1
	}
	return int64(x.mc.m.txoAddr[x.at])
}
func (x mcAddr) Hash() indexedhashes.Sha256 { return indexedhashes.Sha256(x.mc.m.txoHash[x.at]) }
func (x mcAddr) HeightSpecified() bool      { return x.height }
func (x mcAddr) HashSpecified() bool        { return true }
func (x mcAddr) TxoCount() (int64, error)   { return 0, errors.New("not supported") }
func (x mcAddr) NthTxo(int64) (chainreadinterface.ITxoHandle, error) {
	return nil, errors.New("not supported")
}

func (mc *memChain) block(h int) mcBlock { return mcBlock{mc, h, mc.how()} }

func (mc *memChain) InvalidBlock() chainreadinterface.IBlockHandle { return mcBlock{mc, -1, false} }
func (mc *memChain) InvalidTrans() chainreadinterface.ITransHandle { return nil }
func (mc *memChain) GenesisBlock() chainreadinterface.IBlockHandle { return mc.block(0) }
func (mc *memChain) ParentBlock(b chainreadinterface.IBlockHandle) chainreadinterface.IBlockHandle {
	return mc.block(b.(mcBlock).h - 1)
}
func (mc *memChain) GenesisTransaction() (chainreadinterface.ITransHandle, error) {
	return mc.trans(0), nil
}
func (mc *memChain) PreviousTransaction(t chainreadinterface.ITransHandle) chainreadinterface.ITransHandle {
	return mc.trans(t.(mcTrans).th - 1)
}
func (mc *memChain) IsBlockTree() bool { return false }
func (mc *memChain) BlockInterface(b chainreadinterface.IBlockHandle) (chainreadinterface.IBlock, error) {
	if mc.bad() {
		return nil, errSource
	}
	return mc.block(b.(mcBlock).h), nil
}
func (mc *memChain) TransInterface(t chainreadinterface.ITransHandle) (chainreadinterface.ITransaction, error) {
	simrt.P()
	if mc.bad() {
		return nil, errSource
	}
	return mc.trans(t.(mcTrans).th), nil
}
func (mc *memChain) TxiInterface(t chainreadinterface.ITxiHandle) (chainreadinterface.ITxi, error) {
	simrt.P()
	if mc.bad() {
		return nil, errSource
	}
	x := t.(mcEnd)
	return mc.end(x.at, x.th, x.i, false), nil
}
func (mc *memChain) TxoInterface(t chainreadinterface.ITxoHandle) (chainreadinterface.ITxo, error) {
	simrt.P()
	if mc.bad() {
		return nil, errSource
	}
	x := t.(mcEnd)
	return mc.end(x.at, x.th, x.i, true), nil
}
func (mc *memChain) AddressInterface(a chainreadinterface.IAddressHandle) (chainreadinterface.IAddress, error) {
	if mc.bad() {
		return nil, errSource
	}
	return a.(mcAddr), nil
}
func (mc *memChain) LatestBlock() (chainreadinterface.IBlockHandle, error) {
	return mc.block(mc.m.n - 1), nil
}
func (mc *memChain) NextBlock(b chainreadinterface.IBlockHandle) (chainreadinterface.IBlockHandle, error) {
	if h := b.(mcBlock).h + 1; h < mc.m.n {
		return mc.block(h), nil
	}
	return mc.InvalidBlock(), nil
}
func (mc *memChain) LatestTransaction() (chainreadinterface.ITransHandle, error) {
	return mc.trans(len(mc.m.txs) - 1), nil
}
func (mc *memChain) NextTransaction(t chainreadinterface.ITransHandle) (chainreadinterface.ITransHandle, error) {
	return mc.trans(t.(mcTrans).th + 1), nil
}

var _ chainreadinterface.IBlockChain = (*memChain)(nil)

// the same chain through the other interface

type memChi struct{ *memChain }

func (mc memChi) bytes(n int) (b [4]byte) {
	binary.LittleEndian.PutUint32(b[:], uint32(n)^mc.key)
	return
}
func (mc memChi) number(b [4]byte) int { return int(int32(binary.LittleEndian.Uint32(b[:]) ^ mc.key)) }
func (mc memChi) handle(h int) chainhandleinterface.BlockHandle {
	return chainhandleinterface.BlockHandle{Bytes: mc.bytes(h)}
}
func (mc memChi) IsBlockHandleInvalid(b chainhandleinterface.BlockHandle) bool {
	return mc.number(b.Bytes) < 0
}
func (mc memChi) GenesisBlock() (chainhandleinterface.BlockHandle, error) { return mc.handle(0), nil }
func (mc memChi) NextBlock(b chainhandleinterface.BlockHandle) (chainhandleinterface.BlockHandle, error) {
	if h := mc.number(b.Bytes) + 1; h < mc.m.n {
		return mc.handle(h), nil
	}
	return mc.handle(-1), nil
}
func (mc memChi) GetBlockInfo(b chainhandleinterface.BlockHandle, r chainhandleinterface.IBlockReceiver) error {
	if mc.bad() {
		return errSource
	}
	h := mc.number(b.Bytes)
	r.ResetReceiver()
	r.ReceiveBlockHeight(int64(h))
	r.ReceiveBlockHash(mc.m.chain.blocks[h].hash)
	for _, k := range blkNeis {
		r.ReceiveIntField(k, mc.m.blkInt(h, k))
	}
	for i := range mc.m.chain.blocks[h].txs {
		r.ReceiveTransactionHandleToAppend(chainhandleinterface.TransactionHandle{BH: b, TSH: chainhandleinterface.TransactionSubHandle{Bytes: mc.bytes(i)}})
	}
	return nil
}
func (mc memChi) GetTransactionInfo(t chainhandleinterface.TransactionHandle, r chainhandleinterface.IBitcoinCoreTransactionReceiver) error {
	if mc.bad() {
		return errSource
	}
	simrt.P()
	h, i := mc.number(t.BH.Bytes), mc.number(t.TSH.Bytes)
	th := mc.m.firstTx[h] + i
	tx := mc.m.txs[th].tx
	r.ResetReceiver()
	r.ReceiveParentBlockHandle(t.BH)
	r.ReceiveTransactionHash(tx.id)
	for _, k := range trnNeis {
		r.ReceiveIntField(k, mc.m.trnInt(th, k))
	}
	for k := range tx.ins { // (as in Bitcoin Core, the first transaction has one too)
		r.ReceiveTxiHandleToAppend(chainhandleinterface.TxiHandle{TH: t, TXISH: chainhandleinterface.TxiSubHandle{Bytes: mc.bytes(k)}})
	}
	for k := range tx.outs {
		r.ReceiveTxoHandleToAppend(chainhandleinterface.TxoHandle{TH: t, TXOSH: chainhandleinterface.TxoSubHandle{Bytes: mc.bytes(k)}})
	}
	return nil
}
func (mc memChi) GetTxiInfo(t chainhandleinterface.TxiHandle, r chainhandleinterface.ITxiReceiver) error {
	if mc.bad() {
		return errSource
	}
	simrt.P()
	th := mc.m.firstTx[mc.number(t.TH.BH.Bytes)] + mc.number(t.TH.TSH.Bytes)
	in := mc.m.txs[th].tx.ins[mc.number(t.TXISH.Bytes)]
	r.ReceiveParentTransactionHandle(t.TH)
	r.ReceiveIncomingTxid(in.prev)
	r.ReceiveIncomingVout(int64(in.vout))
	return nil
}
func (mc memChi) GetTxoInfo(t chainhandleinterface.TxoHandle, r chainhandleinterface.ITxoReceiver) error {
	if mc.bad() {
		return errSource
	}
	simrt.P()
	th := mc.m.firstTx[mc.number(t.TH.BH.Bytes)] + mc.number(t.TH.TSH.Bytes)
	out := mc.m.txs[th].tx.outs[mc.number(t.TXOSH.Bytes)]
	r.ResetReceiver()
	r.ReceiveParentTransactionHandle(t.TH)
	r.ReceiveSatoshisValue(out.value)
	for _, b := range out.script {
		r.ReceiveScriptPubByteToAppend(b)
	}
	return nil
}

var _ chainhandleinterface.IBlockChain = memChi{}

// drawNeis chooses which integers are stored with blocks and transactions, and
// gives the chain values of its own for them.
func (c *Ctx) drawNeis(m *model) {
	size := map[string]uint{"version": 4, "time": 4, "mediantime": 4, "nonce": 4, "difficulty": 8, "strippedsize": 4, "size": 4, "weight": 4, "vsize": 4, "locktime": 4}
	pick := func(names ...string) (r []string) {
		for _, k := range names {
			if c.Chance(60) {
				r = append(r, k)
			}
		}
		return
	}
	blkNeis = pick("nonce", "version", "time", "mediantime", "difficulty", "weight", "strippedsize", "size")
	trnNeis = pick("locktime", "version", "weight", "size", "vsize")
	seed := c.side.Uint64()
	val := func(name string, salt, i int) int64 {
		r := simrt.NewRand(seed ^ uint64(i)*0x9e3779b97f4a7c15 ^ uint64(salt)<<60 ^ uint64(len(name))<<50 ^ uint64(name[0])<<40)
		bits := 8 * size[name]
		if bits > 63 {
			bits = 63
		}
		max := int64(1)<<(bits-1) - 1 + int64(1)<<(bits-1)
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return max
		case 2:
			return int64(r.Intn(300))
		}
		return int64(r.Uint64()>>1) & max
	}
	m.blkInts = func(h int, k string) int64 { return val(k, 1, h) }
	m.trnInts = func(th int, k string) int64 { return val(k, 2, th) }
}

func init() {
	register("memcopy", 600_000_000, func(c *Ctx) {
		delg := c.Bool()
		dup := 0
		if delg {
			dup = c.Pick(0, 30)
		}
		var ch *gChain
		switch c.Int(3) {
		default:
			ch = c.genChain(genOpts{minBlocks: 1, maxBlocks: 9, extraTx: 3, hot: 50, maxIns: 3, maxOuts: 4, dup: dup})
		case 1:
			ch = c.genChain(genOpts{minBlocks: 3, maxBlocks: 12, extraTx: 4, hot: 95, maxIns: 2, maxOuts: 6, dup: dup})
			if c.Int(10) == 9 { // a block with more than 255 transactions
				ch = c.genChain(genOpts{minBlocks: 2, maxBlocks: 4, extraTx: 1, hot: 40, maxIns: 1, maxOuts: 1, bigEvery: 2, dup: dup})
			}
		case 2:
			ch = c.genChain(genOpts{minBlocks: 10, maxBlocks: 25, extraTx: 0, hot: 60, maxIns: 1, maxOuts: 2, dup: dup})
		}
		m := buildModel(ch, ch.n)
		cfg := c.drawIngest(m)
		cfg.root = "/data/copy"
		c.drawNeis(m)
		mc := &memChain{c: c, m: m, delg: delg, style: c.Int(3), key: uint32(c.side.Uint64())&0x7fffffff | uint32(c.Int(2))<<30}
		chi := memChi{mc}
		one, two := c.Int(3), c.Int(3) // which interface each pass uses: 2 changes from block to block
		sessions := c.Pick(10, 0, 30)
		c.Desc = fmt.Sprintf("%s; delegated=%v style=%d interfaces=%d/%d sessions=%d%% ints %v %v; %s", ch.desc, delg, mc.style, one, two, sessions, blkNeis, trnNeis, cfg.desc)
		c.Note(fmt.Sprintf("memcopy:style-%d", mc.style))
		c.Note(fmt.Sprintf("memcopy:interfaces-%d/%d", one, two))
		if delg {
			c.Note("memcopy:delegated-indexing")
		}
		useChi := func(w int) bool { return w == 1 || w == 2 && c.side.Intn(2) == 0 }
		var err error
		n := 0
		o := c.Run(func() {
			hcc := chainstorage.NewConcreteHashesChainCreator(cfg.root)
			if !c.Check(!hcc.Exists(), "exists", "a chain of hashes that was never created exists") {
				return
			}
			if err = hcc.Create(); err != nil {
				return
			}
			if !c.Check(hcc.Exists(), "exists", "the chain of hashes just created does not exist") {
				return
			}
			var hc chainstorage.IAppendableHashesChain
			if hc, err = hcc.Open(); err != nil {
				return
			}
			outs := 0
			for h := 0; h < m.n; h++ {
				if useChi(one) {
					err = hc.AppendHashesChi(chi, chi.handle(h))
				} else {
					err = hc.AppendHashesCri(mc, mc.block(h), int64(h))
				}
				if err != nil {
					err = fmt.Errorf("hashes of block %d: %w", h, err)
					return
				}
				for _, t := range ch.blocks[h].txs {
					outs += len(t.outs)
				}
				txs := len(m.txs)
				if h+1 < m.n {
					txs = m.firstTx[h+1]
				}
				b, t, a, e := hc.CountHashes()
				if !c.Check(e == nil && b == int64(h+1) && t == int64(txs) && a == int64(outs), "hash-count", "after block %d: %d blocks, %d transactions, %d addresses (%v), want %d, %d, %d", h, b, t, a, e, h+1, txs, outs) {
					return
				}
				if x := c.side.Intn(100); x < sessions {
					if x%2 == 0 {
						if err = hc.Sync(); err != nil {
							return
						}
					}
					hc.Close()
					if hc, err = hcc.Open(); err != nil {
						return
					}
				}
			}
			if err = hc.Sync(); err != nil {
				return
			}
			hc.Close()
			if err = cfg.phase2(); err != nil {
				err = fmt.Errorf("indexing: %w", err)
				return
			}
			var acc *chainstorage.ConcreteAppendableChainCreator
			if acc, err = chainstorage.NewConcreteAppendableChainCreator(cfg.root, blkNeis, trnNeis, delg, false, c.Bool()); err != nil {
				return
			}
			if !c.Check(acc.Exists(), "exists", "the chain whose hashes are indexed is said not to exist") {
				return
			}
			if c.side.Intn(3) == 0 && !c.Check(acc.Create() != nil, "exists", "a chain was created over the one that exists") {
				return
			}
			if err = acc.CreateFromHashStores(); err != nil {
				return
			}
			if c.side.Intn(3) == 0 && !c.Check(acc.CreateFromHashStores() != nil, "exists", "a chain was made from the hashes over the one that was") {
				return
			}
			var ac chainstorage.IAppendableChain
			var ti transactionindexing.ITransactionIndexer
			open := func() {
				if delg {
					ac, ti, err = acc.OpenWithIndexer()
				} else {
					ac, err = acc.Open()
				}
			}
			if open(); err != nil {
				return
			}
			for h := 0; h < m.n; h++ {
				if delg {
					if err = ti.StoreBlockHeightToFirstTrans(int64(h), int64(m.firstTx[h])); err != nil {
						return
					}
					for i := range ch.blocks[h].txs {
						th := m.firstTx[h] + i
						if err = ti.StoreTransHeightToParentBlock(int64(th), int64(h)); err != nil {
							return
						}
						id := indexedhashes.Sha256(m.txs[th].id)
						if err = ti.StoreTransHashToHeight(&id, int64(th)); err != nil {
							return
						}
						if c.side.Intn(4) == 0 {
							x, e := ti.RetrieveTransHashToHeight(&id)
							c.Check(e == nil && x == int64(m.txFirst[m.txs[th].id]), "indexer", "transaction %d is found at %d (%v) by its hash", th, x, e)
							k := c.side.Intn(th + 1)
							x, e = ti.RetrieveTransHeightToParentBlock(int64(k))
							c.Check(e == nil && x == int64(m.txs[k].block), "indexer", "transaction %d is said to be in block %d (%v), want %d", k, x, e, m.txs[k].block)
							k = c.side.Intn(h + 1)
							x, e = ti.RetrieveBlockHeightToFirstTrans(int64(k))
							c.Check(e == nil && x == int64(m.firstTx[k]), "indexer", "block %d is said to start with transaction %d (%v), want %d", k, x, e, m.firstTx[k])
						}
					}
				}
				if useChi(two) {
					err = ac.AppendBlockChi(chi, chi.handle(h))
				} else {
					err = ac.AppendBlock(mc, mc.block(h))
				}
				if err != nil {
					err = fmt.Errorf("block %d: %w", h, err)
					return
				}
				n++
				switch x := c.side.Intn(100); {
				case x < sessions:
					if x%2 == 0 {
						if err = ac.Sync(); err != nil {
							return
						}
					}
					ac.Close()
					if open(); err != nil {
						return
					}
				case x < sessions+4:
					if err = ac.Sync(); err != nil {
						return
					}
				case x < sessions+30:
					if !c.peek(ac.GetAsChainReadInterface(), m, n) {
						return
					}
				}
			}
			if x, ok := ac.(interface {
				CountHashes() (int64, int64, int64, error)
			}); ok {
				b, t, a, e := x.CountHashes()
				if !c.Check(e == nil && b == int64(m.n) && t == int64(len(m.txs)) && a == int64(outs), "hash-count", "the appended chain counts %d blocks, %d transactions, %d addresses (%v), want %d, %d, %d", b, t, a, e, m.n, len(m.txs), outs) {
					return
				}
			}
			if x := c.side.Intn(3); x == 0 && dup == 0 {
				if err = ac.SelfTestTransHashes(); err != nil {
					return
				}
			}
			if err = ac.Sync(); err == nil {
				ac.Close()
				c.Closed("an appended chain")
			}
		})
		if c.Failed() || !c.Check(o.Kind == "returned" && err == nil && n == m.n, "copy-"+o.Kind, "appending, after %d of %d blocks: %v %s (%s)", n, m.n, err, firstLine(o.Detail), c.Desc) {
			return
		}
		c.verifyDB(cfg.root, m, "all", c.Int(4) == 3)
	})
}

// memcopyFaults: the same again and again, each time with the disk or the
// source failing at another place.
func memcopyFaults(c *Ctx) {
	delg := c.Bool()
	dup := 0
	if delg {
		dup = c.Pick(0, 30)
	}
	ch := c.smallChain(dup)
	m := buildModel(ch, ch.n)
	cfg := c.drawIngest(m)
	cfg.root = "/data/copy"
	c.drawNeis(m)
	mc := &memChain{c: c, m: m, delg: delg, style: c.Int(3), key: uint32(c.side.Uint64()) & 0x7fffffff}
	chi := memChi{mc}
	first := c.Int(4) == 3 // the first pass meets the trouble, not the second
	inRam := c.Bool()
	hits := 0 // what had failed when the last operation was done
	c.Desc = fmt.Sprintf("%s; delegated=%v style=%d first=%v ints %v %v; %s", ch.desc, delg, mc.style, first, blkNeis, trnNeis, cfg.desc)
	var err error
	one := func(which, sessions int) {
		var hc chainstorage.IAppendableHashesChain
		hcc := chainstorage.NewConcreteHashesChainCreator(cfg.root)
		if err = hcc.Create(); err != nil {
			return
		}
		if hc, err = hcc.Open(); err != nil {
			return
		}
		for h := 0; h < m.n; h++ {
			hits = c.Disk.Hits() + mc.failed
			if which == 1 || which == 2 && c.side.Intn(2) == 0 {
				err = hc.AppendHashesChi(chi, chi.handle(h))
			} else {
				err = hc.AppendHashesCri(mc, mc.block(h), int64(h))
			}
			if err != nil {
				return
			}
			if c.side.Intn(100) < sessions {
				if err = hc.Sync(); err != nil {
					return
				}
				hc.Close()
				if hc, err = hcc.Open(); err != nil {
					return
				}
			}
		}
		hits = c.Disk.Hits() + mc.failed
		if err = hc.Sync(); err == nil {
			hc.Close()
		}
	}
	two := func(which, sessions int) {
		var acc *chainstorage.ConcreteAppendableChainCreator
		if acc, err = chainstorage.NewConcreteAppendableChainCreator(cfg.root, blkNeis, trnNeis, delg, false, inRam); err != nil {
			return
		}
		if err = acc.CreateFromHashStores(); err != nil {
			return
		}
		var ac chainstorage.IAppendableChain
		var ti transactionindexing.ITransactionIndexer
		open := func() {
			if delg {
				ac, ti, err = acc.OpenWithIndexer()
			} else {
				ac, err = acc.Open()
			}
		}
		if open(); err != nil {
			return
		}
		for h := 0; h < m.n; h++ {
			hits = c.Disk.Hits() + mc.failed
			if delg {
				if err = ti.StoreBlockHeightToFirstTrans(int64(h), int64(m.firstTx[h])); err != nil {
					return
				}
				for i := range ch.blocks[h].txs {
					th := m.firstTx[h] + i
					if err = ti.StoreTransHeightToParentBlock(int64(th), int64(h)); err != nil {
						return
					}
					id := indexedhashes.Sha256(m.txs[th].id)
					if err = ti.StoreTransHashToHeight(&id, int64(th)); err != nil {
						return
					}
				}
			}
			if which == 1 || which == 2 && c.side.Intn(2) == 0 {
				err = ac.AppendBlockChi(chi, chi.handle(h))
			} else {
				err = ac.AppendBlock(mc, mc.block(h))
			}
			if err != nil {
				return
			}
			if c.side.Intn(100) < sessions {
				if err = ac.Sync(); err != nil {
					return
				}
				if c.side.Intn(2) == 0 {
					ac.Close()
					if open(); err != nil {
						return
					}
				}
			}
		}
		hits = c.Disk.Hits() + mc.failed
		if err = ac.Sync(); err == nil {
			ac.Close()
		}
	}
	sound := func(what string, f func()) bool {
		err = nil
		o := c.Run(f)
		return c.Check(o.Kind == "returned" && err == nil, "copy-"+o.Kind, "%s, though nothing failed: %v %s (%s)", what, err, firstLine(o.Detail), c.Desc)
	}
	index := func() bool { return sound("indexing", func() { err = cfg.phase2() }) }
	if !first && (!sound("appending hashes", func() { one(2, 0) }) || !index()) {
		return
	}
	base := c.Disk
	only := []string{"", "", ".int", ".iaa", ".hsh", ".bes", "/Txos/", "/Addresses/", "/Blocks/", "/Transactions/", "/Txis/", "/Parents/"}
	if first {
		only = []string{"", "/Addresses/", "/Blocks/", "/Transactions/"}
	}
	for trial := 0; trial < 8; trial++ {
		which, sessions := c.Int(3), c.Pick(10, 0, 40)
		sel := c.side.Uint64()
		run := func(d *simos.Disk) simrt.Outcome {
			c.side = simrt.NewRand(sel)
			c.UseDisk(d)
			mc.calls, mc.failed, err = 0, 0, nil
			hits = d.Hits()
			return c.Run(func() {
				if first {
					one(which, sessions)
				} else {
					two(which, sessions)
				}
			})
		}
		d := base.Clone()
		check := func(e *simos.Disk) {
			o := run(e)
			c.Check(o.Kind == "returned" && err == nil, "copy-"+o.Kind, "appending, though nothing failed: %v %s (%s)", err, firstLine(o.Detail), c.Desc)
		}
		how := ""
		rest := simrt.NewRand(sel + 1)
		mc.fail, mc.stays = 0, rest.Intn(2) == 0
		if rest.Intn(4) == 0 {
			check(base.Clone())
			mc.fail = 1 + rest.Intn(mc.calls)
			how = fmt.Sprintf("call %d of %d to the source failing", mc.fail, mc.calls)
		} else {
			c.side = rest
			how = c.aim(d, ioKinds, only, check)
		}
		if c.Failed() {
			return
		}
		d.Armed = true
		o := run(d)
		d.Armed = false
		hit := d.Hits()+mc.failed > hits // (while the operation that failed was under way)
		mc.fail = 0
		desc := fmt.Sprintf("appending (first pass: %v, interface %d) with %s (last: %s)", first, which, how, d.LastFault)
		switch {
		case o.Kind == "returned" && err == nil:
			c.Note("memcopy:success")
			if !first {
				c.verifyDB(cfg.root, m, "few", c.side.Intn(2) == 0)
			} else if c.hashesComplete(cfg.root, m, "reported appended") && c.side.Intn(4) == 0 && index() && sound("appending", func() { two(2, 0) }) {
				c.verifyDB(cfg.root, m, "few", c.side.Intn(2) == 0)
			}
		case o.Kind == "returned":
			c.Note("memcopy:told")
			c.Check(hit, "copy-failed", "%s: %v, though nothing failed just then", desc, err)
		case o.Kind == "panic" || o.Kind == "exit":
			c.Note("memcopy:loud-" + o.Kind)
			c.Check(hit, "copy-failed", "%s: %s, though nothing failed just then", desc, firstLine(o.Detail))
		default:
			c.Fail("copy-"+o.Kind, "%s: %s", desc, firstLine(o.Detail))
		}
		if c.Failed() {
			c.Fails[0].Msg = desc + ": " + c.Fails[0].Msg
			return
		}
	}
	c.UseDisk(base)
}

func init() { register("memcopy-faults", 600_000_000, memcopyFaults) }
