package main

import (
	"encoding/binary"
	"fmt"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

// sameBlock compares a parsed block with the generated one; "" if alike.
func sameBlock(b *intrinsicobjects.Block, g *gBlock, json bool) string {
	if h32(b.BlockHash) != g.hash || h32(b.PrevHash) != g.prev {
		return fmt.Sprintf("it is block %s after %s", revHex(h32(b.BlockHash)), revHex(h32(b.PrevHash)))
	}
	if b.Time != g.time || b.NBits != g.bits || b.Size != g.size || b.StrippedSize != g.stripped || b.Weight != g.weight || b.Nonce != binary.LittleEndian.Uint32(g.header[76:]) ||
		b.Version != binary.LittleEndian.Uint32(g.header[0:]) || h32(b.MerkleRoot) != h32(g.header[36:68]) {
		return fmt.Sprintf("its header or sizes are time %d bits %x size %d stripped %d weight %d, should be %d %x %d %d %d", b.Time, b.NBits, b.Size, b.StrippedSize, b.Weight, g.time, g.bits, g.size, g.stripped, g.weight)
	}
	if len(b.Transactions) != len(g.txs) {
		return fmt.Sprintf("it has %d transactions, should have %d", len(b.Transactions), len(g.txs))
	}
	for i, t := range g.txs {
		p := &b.Transactions[i]
		if h32(p.TxId) != t.id || p.Size != t.size || p.VSize != t.vsize || p.Weight != t.weight {
			return fmt.Sprintf("transaction %d is %s size %d vsize %d weight %d, should be %s %d %d %d", i, revHex(h32(p.TxId)), p.Size, p.VSize, p.Weight, revHex(t.id), t.size, t.vsize, t.weight)
		}
		if p.TxoCount() != int64(len(t.outs)) || i > 0 && p.TxiCount() != int64(len(t.ins)) {
			return fmt.Sprintf("transaction %d has %d inputs and %d outputs, should have %d and %d", i, p.TxiCount(), p.TxoCount(), len(t.ins), len(t.outs))
		}
		if i > 0 {
			for k, in := range t.ins {
				x := p.GetTxi(b.Storage, int64(k))
				if h32(x.TxId) != in.prev || x.VOut != int64(in.vout) {
					return fmt.Sprintf("input %d of transaction %d spends output %d of %s", k, i, x.VOut, revHex(h32(x.TxId)))
				}
			}
		}
		for k, o := range t.outs {
			x := p.GetTxo(b.Storage, int64(k))
			if x.Value != o.value {
				return fmt.Sprintf("output %d of transaction %d is worth %d, should be %d", k, i, x.Value, o.value)
			}
			s := b.Storage.Scripts[x.ScriptPubKeyStart : x.ScriptPubKeyStart+x.ScriptPubKeyLen]
			if string(s) != string(o.script) {
				return fmt.Sprintf("output %d of transaction %d has another script", k, i)
			}
		}
	}
	return ""
}

// genHeaders makes a chain of n bare headers.
func (c *Ctx) genHeaders(n int) *gChain {
	ch := &gChain{byHash: map[string]int{}, n: n}
	g := genesisBlock()
	ch.blocks = append(ch.blocks, g)
	ch.byHash[revHex(g.hash)] = 0
	for len(ch.blocks) < n {
		b := &gBlock{prev: ch.blocks[len(ch.blocks)-1].hash, height: len(ch.blocks)}
		copy(b.header[4:], b.prev[:])
		copy(b.header[36:], c.sideBytes(44))
		b.hash = sha2(b.header[:])
		ch.byHash[revHex(b.hash)] = b.height
		ch.blocks = append(ch.blocks, b)
	}
	return ch
}

func init() {
	// ---- blocks fetched in parallel from an unreliable node
	register("fetch", 60_000_000, func(c *Ctx) {
		var ch *gChain
		switch c.Int(5) {
		default:
			ch = c.genChain(genOpts{minBlocks: 1, maxBlocks: 12, extraTx: 3, hot: 40, maxIns: 3, maxOuts: 4, dup: 10})
		case 2:
			ch = c.genChain(genOpts{minBlocks: 30, maxBlocks: 90, extraTx: 1, hot: 40, maxIns: 1, maxOuts: 2})
		case 3:
			ch = c.genChain(genOpts{minBlocks: 2, maxBlocks: 5, extraTx: 3, hot: 30, maxIns: 4, maxOuts: 4, huge: true})
		case 4:
			ch = c.genChain(genOpts{minBlocks: 2, maxBlocks: 4, extraTx: 1, hot: 40, maxIns: 1, maxOuts: 1, bigEvery: 2})
		}
		nd := c.newNode(ch)
		c.drawNet(nd)
		if nd.prob > 0 && c.Bool() {
			nd.prob = 0.5
		}
		json := c.Bool()
		threads := c.Pick(3, 1, 2, 5, 8, 16)
		outCap := c.Pick(0, 0, 1, 20)
		style := c.Int(3)
		// which blocks, in which order: a stretch of the chain, sometimes with repeats
		var want []int
		from := 0
		if c.Int(3) == 2 {
			from = c.Int(ch.n)
		}
		for h := from; h < ch.n; h++ {
			want = append(want, h)
			if from > 0 && c.side.Intn(6) == 0 {
				want = append(want, h)
			}
		}
		dead := -1 // one block can never be had
		if c.Int(6) == 5 {
			dead = want[c.Int(len(want))]
		}
		c.Desc = fmt.Sprintf("%s; %d blocks from %d, json=%v threads=%d out buffer %d, dead %d", ch.desc, len(want), from, json, threads, outCap, dead)
		if dead >= 0 {
			k := c.Pick(nfConn, nf503, nf404, nfTruncate, nfReadErr, nfCloseErr)
			hx := revHex(ch.blocks[dead].hash)
			nd.always = func(url string) int {
				if len(url) > 70 && indexOf(url, hx) >= 0 {
					return k
				}
				return -1
			}
		}
		seen := map[int64]int{}
		closed := false
		got, fed, ahead := 0, 0, 0
		o := c.Run(func() {
			in := simrt.MakeChan[indexedhashes.Sha256](0)
			out := simrt.MakeChan[*corereader2.HeightNumberedBlock](outCap)
			simrt.Go(func() {
				for _, h := range want {
					in.Send(indexedhashes.Sha256(ch.blocks[h].hash))
					fed++
					ahead = max(ahead, fed-got)
				}
				in.Close()
			})
			corereader2.GetAndParseBlocks(in, json, out, threads)
			for {
				b, ok := out.Recv2()
				if !ok {
					closed = true
					break
				}
				got++
				i := b.SequenceNumber()
				seen[i]++
				if !c.Check(i >= 0 && i < int64(len(want)) && seen[i] == 1, "fetch-number", "block number %d came out (%d times) (%s)", i, seen[i], c.Desc) {
					return
				}
				g := ch.blocks[want[i]]
				if !c.Check(h32(b.BlockHash) == g.hash, "fetch-number", "number %d came out with hash %s, should be %s (%s)", i, revHex(h32(b.BlockHash)), revHex(g.hash), c.Desc) {
					return
				}
				if d := sameBlock(&b.Block, g, json); !c.Check(d == "", "fetch-content", "block number %d came out altered: %s (%s)", i, d, c.Desc) {
					return
				}
				c.nap(style)
			}
			simrt.Sleep(1e9)
			c.Closed("fetching")
		})
		if c.Failed() {
			return
		}
		c.Check(nd.badURL == "", "fetch-url", "the node was asked for %s (%s)", nd.badURL, c.Desc)
		c.Check(nd.maxIn <= threads, "fetch-width", "%d requests were under way at once with %d threads", nd.maxIn, threads)
		c.Check(ahead <= 2*threads+outCap+16, "fetch-bounded", "%d blocks were taken on ahead of the consumer (%s)", ahead, c.Desc)
		for p, n := range nd.perPath {
			m := 0
			for _, h := range want {
				if indexOf(p, revHex(ch.blocks[h].hash)) >= 0 {
					m++
				}
			}
			// several copies of one block may each need their own tries
			if !c.Check(n <= 3*m, "fetch-tries", "%s was requested %d times for %d deliveries", p, n, m) {
				return
			}
		}
		if dead >= 0 {
			c.Check(!closed && o.Kind == "panic", "fetch-silent", "block %d could never be had, yet the output %s (%s)", dead, map[bool]string{true: "ended normally", false: "stopped"}[closed], o.Kind)
			return
		}
		if !c.Check(o.Kind == "returned", "fetch-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc) {
			return
		}
		c.Check(closed && got == len(want), "fetch-lost", "%d of %d blocks came out (%s)", got, len(want), c.Desc)
		c.Check(nd.open == 0, "fetch-leak", "%d response bodies were never closed (%s)", nd.open, c.Desc)
	})

	// ---- the stream of block hashes taken from headers
	register("headers", 60_000_000, func(c *Ctx) {
		size := 0
		switch c.Int(6) {
		case 0:
			size = c.Range(1, 30)
		case 1:
			size = 1000 + c.Range(-2, 5)
		case 2:
			size = 2000 + c.Range(-3, 6)
		case 3:
			size = c.Range(1, 2600)
		case 4:
			size = 3000 + c.Range(-3, 6)
		case 5:
			size = c.Range(2, 4)
		}
		ch := c.genHeaders(size)
		num := 0
		switch c.Int(6) {
		case 0:
			num = size - 1
		case 1:
			num = c.Range(0, size+3)
		case 2:
			num = size + c.Range(0, 2000)
		case 3:
			num = min(size, 1000*(1+c.Int(3))+c.Range(-1, 2))
		case 4:
			num = size - 2
		case 5:
			num = c.Int(4)
		}
		num = max(num, 0)
		nd := c.newNode(ch)
		c.drawNet(nd)
		nd.maxHdr = 1
		if nd.prob > 0 {
			nd.prob = 0.3
		}
		grow := 0
		if c.Int(4) == 3 { // new blocks arrive while the stream is being read
			grow = c.Int(size)
			nd.tip -= grow
			nd.onHdr = func() {
				k := c.side.Intn(grow + 1)
				nd.tip += k
				grow -= k
			}
		}
		first := nd.tip
		style := c.Int(2)
		if size > 400 {
			style = 0
		}
		outCap := c.Pick(0, 1, 100)
		c.Desc = fmt.Sprintf("%d headers of which %d at first, %d hashes asked for, buffer %d", size, first+1, num, outCap)
		got, closed := 0, false
		var err error
		ended := false
		o := c.Run(func() {
			out := simrt.MakeChan[indexedhashes.Sha256](outCap)
			simrt.Go(func() {
				err = corereader2.StreamBlockHashesFromGenesis(int64(num), out)
				ended = true
			})
			for {
				h, ok := out.Recv2()
				if !ok {
					closed = true
					break
				}
				if !c.Check(got < size && h32(h) == ch.blocks[got].hash, "headers-order", "hash number %d is %s (%s)", got, revHex(h32(h)), c.Desc) {
					return
				}
				got++
				c.nap(style)
			}
			simrt.Sleep(1e9)
		})
		if c.Failed() {
			return
		}
		if !c.Check(o.Kind == "returned", "headers-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc) {
			return
		}
		c.Check(closed && ended, "headers-end", "the stream did not end (%s)", c.Desc)
		c.Check(nd.badURL == "", "headers-url", "the node was asked for %s (%s)", nd.badURL, c.Desc)
		c.Check(nd.open == 0, "headers-leak", "%d response bodies were never closed (%s)", nd.open, c.Desc)
		c.Check(got <= num, "headers-many", "%d hashes came out (%s)", got, c.Desc)
		if nd.hdrFault > 0 {
			// a request failed: either it is reported, or everything was delivered all the same
			c.Check(err != nil || got >= min(num, first), "headers-silent", "a request for headers failed; %d hashes came out and no error was reported (%s)", got, c.Desc)
			return
		}
		c.Check(err == nil, "headers-error", "%v (%s)", err, c.Desc)
		c.Check(got >= min(num, first), "headers-lost", "%d hashes came out (%s)", got, c.Desc)
		if got < num && grow == 0 {
			c.Check(got >= min(num, nd.tip) || first < nd.tip, "headers-lost", "%d hashes came out (%s)", got, c.Desc)
		}
	})
}
