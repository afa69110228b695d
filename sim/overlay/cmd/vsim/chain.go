package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

// ---- a synthetic block chain: the real genesis block followed by blocks of
// every shape the wire format allows, and the reference model of what the
// database must contain after ingesting it.

type h32 = [32]byte

type gTxi struct {
	prev h32
	vout uint32
}
type gTxo struct {
	value  int64
	script []byte
}
type gTx struct {
	ins                           []gTxi
	outs                          []gTxo
	segwit                        bool
	id                            h32
	version                       uint32
	size, stripped, weight, vsize int
	raw                           []byte
}
type gBlock struct {
	height                 int
	hash                   h32
	header                 [80]byte
	prev                   h32
	txs                    []*gTx
	time, bits             uint32
	size, stripped, weight int
	nRaw                   int
	jtext                  []byte
}

const genesisTxHex = "01000000010000000000000000000000000000000000000000000000000000000000000000ffffffff4d04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73ffffffff0100f2052a01000000434104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac00000000"

func sha2(b []byte) h32 {
	x := sha256.Sum256(b)
	return sha256.Sum256(x[:])
}
func revHex(h h32) string {
	var r [32]byte
	for i := range h {
		r[i] = h[31-i]
	}
	return hex.EncodeToString(r[:])
}
func compact(b []byte, n int) []byte {
	switch {
	case n < 253:
		return append(b, byte(n))
	case n <= 0xffff:
		return binary.LittleEndian.AppendUint16(append(b, 253), uint16(n))
	case n <= 0xffffffff:
		return binary.LittleEndian.AppendUint32(append(b, 254), uint32(n))
	}
	return binary.LittleEndian.AppendUint64(append(b, 255), uint64(n))
}
func compactLen(n int) int {
	switch {
	case n < 253:
		return 1
	case n <= 0xffff:
		return 3
	case n <= 0xffffffff:
		return 5
	}
	return 9
}

type gChain struct {
	blocks []*gBlock // the chain as the node knows it
	n      int       // how many are requested from the start
	byHash map[string]int
	desc   string
}

type genOpts struct {
	minBlocks, maxBlocks int
	extraTx              int // extra transactions per block: up to this many
	hot                  int // per cent chance that an output reuses a popular script
	maxIns, maxOuts      int
	bigEvery             int // one in this many blocks is big (0: never)
	huge                 bool
	noSpend              bool
	noReuse              bool
	dup                  int // per cent chance that a coinbase repeats an earlier one (BIP30)
}

func (c *Ctx) sideBytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], c.side.Uint64())
		copy(b[i:], t[:])
	}
	return b
}

func serialise(t *gTx, version uint32, sigs [][]byte, witness [][][]byte, lock uint32, r *simrt.Rand) {
	var st []byte
	st = binary.LittleEndian.AppendUint32(st, version)
	body := compact(nil, len(t.ins))
	for i, in := range t.ins {
		body = append(body, in.prev[:]...)
		body = binary.LittleEndian.AppendUint32(body, in.vout)
		body = compact(body, len(sigs[i]))
		body = append(body, sigs[i]...)
		body = binary.LittleEndian.AppendUint32(body, uint32(r.Uint64()))
	}
	body = compact(body, len(t.outs))
	for _, o := range t.outs {
		body = binary.LittleEndian.AppendUint64(body, uint64(o.value))
		body = compact(body, len(o.script))
		body = append(body, o.script...)
	}
	var lt [4]byte
	binary.LittleEndian.PutUint32(lt[:], lock)
	stripped := append(append(append([]byte{}, st...), body...), lt[:]...)
	t.version = version
	t.id = sha2(stripped)
	t.stripped = len(stripped)
	if t.segwit {
		full := append(append([]byte{}, st...), 0, 1)
		full = append(full, body...)
		for _, w := range witness {
			full = compact(full, len(w))
			for _, it := range w {
				full = compact(full, len(it))
				full = append(full, it...)
			}
		}
		full = append(full, lt[:]...)
		t.raw = full
	} else {
		t.raw = stripped
	}
	t.size = len(t.raw)
	t.weight = 3*t.stripped + t.size
	t.vsize = (t.weight + 3) / 4
}

func genesisBlock() *gBlock {
	raw, _ := hex.DecodeString(genesisTxHex)
	t := &gTx{raw: raw, id: sha2(raw), version: 1, size: len(raw), stripped: len(raw), weight: 4 * len(raw), vsize: len(raw)}
	t.ins = []gTxi{{h32{}, 0xffffffff}}
	spk := raw[len(raw)-4-67 : len(raw)-4]
	t.outs = []gTxo{{5000000000, spk}}
	b := &gBlock{time: 1231006505, bits: 0x1d00ffff, txs: []*gTx{t}}
	binary.LittleEndian.PutUint32(b.header[0:], 1)
	copy(b.header[36:], t.id[:])
	binary.LittleEndian.PutUint32(b.header[68:], b.time)
	binary.LittleEndian.PutUint32(b.header[72:], b.bits)
	binary.LittleEndian.PutUint32(b.header[76:], 2083236893)
	b.hash = sha2(b.header[:])
	b.finish()
	return b
}

func (b *gBlock) finish() {
	b.size, b.stripped, b.weight = 80, 80, 320
	n := compactLen(len(b.txs))
	b.size += n
	b.stripped += n
	b.weight += 4 * n
	for _, t := range b.txs {
		b.size += t.size
		b.stripped += t.stripped
		b.weight += t.weight
	}
}

func (b *gBlock) raw() []byte {
	o := append(make([]byte, 0, b.size), b.header[:]...)
	o = compact(o, len(b.txs))
	for _, t := range b.txs {
		o = append(o, t.raw...)
	}
	return o
}

func difficulty(bits uint32) float64 {
	e, m := uint(bits>>24), int64(bits&0xffffff)
	t := big.NewInt(m)
	if e > 3 {
		t.Lsh(t, 8*(e-3))
	} else if e < 3 {
		t.Rsh(t, 8*(3-e))
	}
	g := new(big.Int).Lsh(big.NewInt(0xffff), 208)
	a, _ := new(big.Float).SetInt(g).Float64()
	d, _ := new(big.Float).SetInt(t).Float64()
	return a / d
}

// jversion: older versions of Bitcoin Core say it is signed, newer ones not
func (t *gTx) jversion() int64 {
	if t.id[0]&1 == 0 {
		return int64(int32(t.version))
	}
	return int64(t.version)
}

func btc(v int64) string { return fmt.Sprintf("%d.%08d", v/100000000, v%100000000) }

// json as Bitcoin Core's REST interface gives it
func (b *gBlock) json() []byte {
	if b.jtext != nil {
		return b.jtext
	}
	var s strings.Builder
	fmt.Fprintf(&s, `{"hash":"%s","confirmations":10,"height":%d,"version":%d,"merkleroot":"%s","time":%d,"mediantime":%d,"nonce":%d,"bits":"%08x","difficulty":%v,"nTx":%d,`,
		revHex(b.hash), b.height, int32(binary.LittleEndian.Uint32(b.header[0:])), revHex(h32(b.header[36:68])), b.time, b.time, binary.LittleEndian.Uint32(b.header[76:]), b.bits, jnum(difficulty(b.bits)), len(b.txs))
	if b.height > 0 {
		fmt.Fprintf(&s, `"previousblockhash":"%s",`, revHex(b.prev))
	}
	fmt.Fprintf(&s, `"strippedsize":%d,"size":%d,"weight":%d,"tx":[`, b.stripped, b.size, b.weight)
	for i, t := range b.txs {
		if i > 0 {
			s.WriteByte(',')
		}
		fmt.Fprintf(&s, `{"txid":"%s","version":%d,"size":%d,"vsize":%d,"weight":%d,"locktime":0,"vin":[`, revHex(t.id), t.jversion(), t.size, t.vsize, t.weight)
		for k, in := range t.ins {
			if k > 0 {
				s.WriteByte(',')
			}
			if i == 0 {
				s.WriteString(`{"coinbase":"04ffff001d0104","sequence":4294967295}`)
			} else {
				fmt.Fprintf(&s, `{"txid":"%s","vout":%d,"sequence":1}`, revHex(in.prev), in.vout)
			}
		}
		s.WriteString(`],"vout":[`)
		for k, o := range t.outs {
			if k > 0 {
				s.WriteByte(',')
			}
			fmt.Fprintf(&s, `{"value":%s,"n":%d,"scriptPubKey":{"hex":"%s","type":"nonstandard"}}`, btc(o.value), k, hex.EncodeToString(o.script))
		}
		s.WriteString(`]}`)
	}
	s.WriteString(`]}`)
	b.jtext = []byte(s.String())
	return b.jtext
}
func jnum(f float64) string { return strings.ReplaceAll(fmt.Sprintf("%.17g", f), "+", "") }

// genChain draws a chain. Shape comes from the run's choices, contents from
// the seed.
func (c *Ctx) genChain(o genOpts) *gChain {
	r := c.side
	ch := &gChain{byHash: map[string]int{}}
	ch.n = c.Range(o.minBlocks, o.maxBlocks)
	tail := 2 + c.Int(3)
	add := func(b *gBlock) {
		b.height = len(ch.blocks)
		ch.byHash[revHex(b.hash)] = b.height
		ch.blocks = append(ch.blocks, b)
	}
	g := genesisBlock()
	add(g)
	type utxo struct {
		id   h32
		vout uint32
	}
	var utxos []utxo
	var scripts [][]byte
	utxos = append(utxos, utxo{g.txs[0].id, 0})
	scripts = append(scripts, g.txs[0].outs[0].script)
	hotN := 1 + r.Intn(4)
	newScript := func() []byte {
		if !o.noReuse && len(scripts) > 0 && r.Intn(100) < o.hot {
			if r.Intn(3) == 0 {
				return scripts[r.Intn(len(scripts))]
			}
			return scripts[r.Intn(min(hotN, len(scripts)))]
		}
		n := 0
		switch r.Intn(12) {
		case 0:
			n = r.Intn(4)
			if o.noReuse {
				n = 20
			}
		case 1:
			n = 67
		case 2:
			n = 22
		case 3:
			n = 34
		case 4:
			if o.huge && r.Intn(8) == 0 {
				n = 65534 + r.Intn(4)
			} else if o.huge {
				n = 250 + r.Intn(300)
			} else {
				n = 30
			}
		default:
			n = 25
		}
		return c.sideBytes(n)
	}
	values := func() int64 {
		switch r.Intn(9) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return 5000000000
		case 3:
			return 2100000000000000 - int64(r.Intn(1000))
		case 4:
			return int64(r.Uint64() % 2100000000000000)
		case 5:
			return 1<<32 + int64(r.Intn(3)) - 1
		default:
			return int64(r.Intn(100000000))
		}
	}
	bitsPool := []uint32{0x1d00ffff, 0x1d00ffff, 0x1b0404cb, 0x17034219, 0x207fffff, 0x1c654657, 0x1702f4c8}
	var coinbases []*gTx
	for len(ch.blocks) < ch.n+tail {
		p := ch.blocks[len(ch.blocks)-1]
		b := &gBlock{prev: p.hash}
		extra := 0
		if len(ch.blocks) < ch.n && o.extraTx > 0 {
			extra = c.Int(o.extraTx + 1)
		}
		if o.bigEvery > 0 && len(ch.blocks) < ch.n && c.Int(o.bigEvery) == 1 {
			extra = 250 + r.Intn(10)
		}
		mk := func(coinbase bool) *gTx {
			t := &gTx{}
			var sigs [][]byte
			var wit [][][]byte
			if coinbase {
				t.ins = []gTxi{{h32{}, 0xffffffff}}
				sigs = [][]byte{c.sideBytes(2 + r.Intn(90))}
			} else {
				n := 1 + r.Intn(max(1, o.maxIns))
				if o.huge && r.Intn(20) == 0 {
					n = 252 + r.Intn(6)
				}
				for i := 0; i < n; i++ {
					k := r.Intn(len(utxos))
					if !o.noSpend && r.Intn(3) > 0 {
						k = len(utxos) - 1 - r.Intn(min(len(utxos), 4))
					}
					u := utxos[k]
					if r.Intn(40) == 0 { // an output number past anything small
						u.vout = uint32(r.Intn(70000))
					}
					t.ins = append(t.ins, gTxi{u.id, u.vout})
					s := r.Intn(110)
					if o.huge && r.Intn(30) == 0 {
						s = 260
						if r.Intn(3) == 0 {
							s = 65534 + r.Intn(4)
						}
					}
					sigs = append(sigs, c.sideBytes(s))
				}
			}
			n := 1 + r.Intn(max(1, o.maxOuts))
			if o.huge && r.Intn(20) == 0 {
				n = 252 + r.Intn(6)
			}
			for i := 0; i < n; i++ {
				s := newScript()
				t.outs = append(t.outs, gTxo{values(), s})
				scripts = append(scripts, s)
			}
			if r.Intn(3) == 0 {
				t.segwit = true
				for range t.ins {
					var w [][]byte
					for k := r.Intn(4); k > 0; k-- {
						s := r.Intn(80)
						if o.huge && r.Intn(20) == 0 {
							s = 253 + r.Intn(3)
							if r.Intn(3) == 0 {
								s = 65534 + r.Intn(4)
							}
						}
						w = append(w, c.sideBytes(s))
					}
					wit = append(wit, w)
				}
			}
			v := uint32(1 + r.Intn(2))
			if r.Intn(12) == 0 {
				v = []uint32{0, 3, 256, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(6)]
			}
			serialise(t, v, sigs, wit, uint32(r.Uint64())*uint32(r.Intn(2)), r)
			for i := range t.outs {
				utxos = append(utxos, utxo{t.id, uint32(i)})
			}
			return t
		}
		if o.dup > 0 && len(coinbases) > 0 && r.Intn(100) < o.dup {
			b.txs = append(b.txs, coinbases[r.Intn(len(coinbases))])
		} else {
			t := mk(true)
			coinbases = append(coinbases, t)
			b.txs = append(b.txs, t)
		}
		for i := 0; i < extra; i++ {
			b.txs = append(b.txs, mk(false))
		}
		var dt int64
		switch r.Intn(5) {
		case 0:
			dt = -int64(r.Intn(4000))
		case 1:
			dt = 0
		default:
			dt = int64(r.Intn(1200))
		}
		b.time = uint32(int64(p.time) + dt)
		if b.time < 1231006506 {
			b.time = 1231006506
		}
		if r.Intn(70) == 0 {
			b.time = 1<<31 - uint32(r.Intn(600)) // (the times go on from here)
		}
		b.bits = bitsPool[r.Intn(len(bitsPool))]
		bv := uint32(1 + r.Intn(4))
		if r.Intn(3) == 0 {
			bv = []uint32{0x20000000, 0x3fffe000, 0x7fffffff, 0x80000001, 0xffffffff}[r.Intn(5)]
		}
		binary.LittleEndian.PutUint32(b.header[0:], bv)
		copy(b.header[4:], b.prev[:])
		copy(b.header[36:], c.sideBytes(32))
		binary.LittleEndian.PutUint32(b.header[68:], b.time)
		binary.LittleEndian.PutUint32(b.header[72:], b.bits)
		binary.LittleEndian.PutUint32(b.header[76:], uint32(r.Uint64()))
		b.hash = sha2(b.header[:])
		b.finish()
		add(b)
	}
	nt, no := 0, 0
	for _, b := range ch.blocks[:ch.n] {
		nt += len(b.txs)
		for _, t := range b.txs {
			no += len(t.outs)
		}
	}
	ch.desc = fmt.Sprintf("%d blocks, %d transactions, %d outputs", ch.n, nt, no)
	return ch
}

// ---- the reference model of the database

type mTx struct {
	id       h32
	block    int
	firstTxi int
	firstTxo int
	tx       *gTx
}
type model struct {
	chain     *gChain
	n         int
	txs       []mTx
	firstTx   []int
	txiTx     []int
	txiVout   []int
	txiParent []int
	txoVal    []int64
	txoAddr   []int
	txoParent []int
	txoHash   []h32
	addrTxos  map[h32][]int // address hash -> txo heights in order
	addrText  map[h32]string
	txFirst   map[h32]int // txid -> earliest height
	median    []uint32
	// when set, the chain has integers of its own
	blkInts, trnInts func(i int, name string) int64
}

func (m *model) blkInt(h int, name string) int64 {
	if m.blkInts != nil {
		return m.blkInts(h, name)
	}
	b := m.chain.blocks[h]
	switch name {
	case "time":
		return int64(b.time)
	case "mediantime":
		return int64(m.median[h])
	case "difficulty":
		return m.diff(h)
	case "strippedsize":
		return int64(b.stripped)
	case "size":
		return int64(b.size)
	case "weight":
		return int64(b.weight)
	}
	panic("no such integer: " + name)
}

func (m *model) trnInt(th int, name string) int64 {
	if m.trnInts != nil {
		return m.trnInts(th, name)
	}
	t := m.txs[th].tx
	switch name {
	case "size":
		return int64(t.size)
	case "vsize":
		return int64(t.vsize)
	case "weight":
		return int64(t.weight)
	}
	panic("no such integer: " + name)
}

func buildModel(ch *gChain, n int) *model {
	m := &model{chain: ch, n: n, addrTxos: map[h32][]int{}, addrText: map[h32]string{}, txFirst: map[h32]int{}}
	var win []uint32
	for h := 0; h < n; h++ {
		b := ch.blocks[h]
		m.firstTx = append(m.firstTx, len(m.txs))
		win = append(win, b.time)
		if len(win) > 11 {
			win = win[1:]
		}
		s := append([]uint32{}, win...)
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		m.median = append(m.median, s[len(s)/2])
		for i, t := range b.txs {
			th := len(m.txs)
			if _, ok := m.txFirst[t.id]; !ok {
				m.txFirst[t.id] = th
			}
			m.txs = append(m.txs, mTx{t.id, h, len(m.txiTx), len(m.txoVal), t})
			if i > 0 {
				for _, in := range t.ins {
					m.txiTx = append(m.txiTx, m.txFirst[in.prev])
					m.txiVout = append(m.txiVout, int(in.vout))
					m.txiParent = append(m.txiParent, th)
				}
			}
			for _, o := range t.outs {
				x := len(m.txoVal)
				ah := sha256.Sum256(o.script)
				m.addrTxos[ah] = append(m.addrTxos[ah], x)
				m.addrText[ah] = string(o.script)
				m.txoVal = append(m.txoVal, o.value)
				m.txoAddr = append(m.txoAddr, m.addrTxos[ah][0])
				m.txoParent = append(m.txoParent, th)
				m.txoHash = append(m.txoHash, ah)
			}
		}
	}
	return m
}

func (m *model) diff(h int) int64 { return int64(math.Round(difficulty(m.chain.blocks[h].bits))) }
