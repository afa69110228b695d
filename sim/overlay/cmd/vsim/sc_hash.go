package main

import (
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/memfile"
	simbufio "github.com/KitchenMishap/pudding-shed/verifsim/simbufio"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
	"github.com/KitchenMishap/pudding-shed/weddingcake"
	"github.com/KitchenMishap/pudding-shed/wordfile"
)

// hashGen makes hashes of one style: uniform, crowded into few bins, sharing
// their first eight bytes, or repeated.
type hashGen struct {
	c            *Ctx
	crowd, twins int // percentages
	dup          int
	hot          []uint64
	all          []h32
	others       []h32 // hashes of other stores, or of an earlier index here
	desc         string
	errOK        bool // an error was reported before: more of them are no surprise
}

func (c *Ctx) newHashGen() *hashGen {
	g := &hashGen{c: c, crowd: c.Pick(0, 50, 95), twins: c.Pick(0, 0, 20, 60), dup: c.Pick(0, 5, 40, 0)}
	for i := c.Pick(1, 2, 5); i > 0; i-- {
		g.hot = append(g.hot, c.side.Uint64())
	}
	if c.Int(3) == 2 { // the far ends of the key space
		g.hot = append(g.hot, 0)
	}
	g.desc = fmt.Sprintf("%d%% crowded, %d%% with shared leading bytes, %d%% repeated", g.crowd, g.twins, g.dup)
	return g
}

func (g *hashGen) fresh() h32 {
	r := g.c.side
	var h h32
	for i := 0; i < 32; i += 8 {
		binary.LittleEndian.PutUint64(h[i:], r.Uint64())
	}
	switch x := r.Intn(100); {
	case x < g.twins && len(g.all) > 0:
		o := g.all[r.Intn(len(g.all))]
		copy(h[:8], o[:8])
	case r.Intn(100) < g.crowd:
		v := g.hot[r.Intn(len(g.hot))] + uint64(r.Intn(1<<20))
		if r.Intn(4) == 0 {
			v = g.hot[r.Intn(len(g.hot))] + r.Uint64()>>20
		}
		binary.LittleEndian.PutUint64(h[:8], v)
	}
	if h[7] == 0xff { // bin numbers of uneven bin counts stop short of here
		h[7] = 0xfe
	}
	return h
}
func (g *hashGen) next() h32 {
	if len(g.all) > 0 && g.c.side.Intn(100) < g.dup {
		h := g.all[g.c.side.Intn(len(g.all))]
		g.all = append(g.all, h)
		return h
	}
	h := g.fresh()
	g.all = append(g.all, h)
	return h
}

// near is a hash that was never generated but looks like one that was.
func (g *hashGen) near() h32 {
	r := g.c.side
	if len(g.all) == 0 || r.Intn(3) == 0 {
		h := g.fresh()
		h[31] ^= 0x55
		return h
	}
	h := g.all[r.Intn(len(g.all))]
	h[r.Intn(32)] ^= byte(1 << r.Intn(8))
	return h
}

// checkHashes compares a reader with the hashes stored in it. exact: every
// lookup must give the first index.
func (c *Ctx) checkHashes(rd indexedhashes.HashReader, g *hashGen, stored []h32, exact bool, most int, what string) bool {
	first := map[h32]int{}
	for i, h := range stored {
		if _, ok := first[h]; !ok {
			first[h] = i
		}
	}
	n, err := rd.CountHashes()
	if !c.Check(err == nil && n == int64(len(stored)), "hash-count", "%s: CountHashes %d (error %v), want %d", what, n, err, len(stored)) {
		return false
	}
	for i, h := range stored {
		if len(stored) > most && c.side.Intn(len(stored)) > most {
			continue
		}
		q := indexedhashes.Sha256(h)
		got, err := rd.IndexOfHash(&q)
		if err != nil && g.errOK {
			return false
		}
		ok := err == nil && got >= 0 && got < int64(len(stored)) && stored[got] == h && (!exact || got == int64(first[h]))
		if !c.Check(ok, "hash-lookup", "%s: IndexOfHash of stored hash %d of %d gives %d (error %v), first stored at %d", what, i, len(stored), got, err, first[h]) {
			return false
		}
		var b indexedhashes.Sha256
		err = rd.GetHashAtIndex(int64(i), &b)
		// a repeated hash is only promised at its first index
		ok = err == nil && (h32(b) == h || first[h] != i && b == indexedhashes.Sha256{})
		if !c.Check(ok, "hash-at-index", "%s: GetHashAtIndex(%d) of %d gives %x (error %v), stored %x (first at %d)", what, i, len(stored), b[:], err, h[:], first[h]) {
			return false
		}
	}
	for i := 0; i < 12+min(len(g.others), 30); i++ {
		var h h32
		if i < 12 {
			h = g.near()
		} else {
			h = g.others[c.side.Intn(len(g.others))]
		}
		if _, there := first[h]; there {
			continue
		}
		q := indexedhashes.Sha256(h)
		got, err := rd.IndexOfHash(&q)
		if !c.Check(err == nil && got == -1, "hash-absent", "%s: IndexOfHash of a hash never stored gives %d (error %v)", what, got, err) {
			return false
		}
	}
	return true
}

// readFaulty looks hashes up in an index with a failing disk: an answer is
// right, or there is none.
func (c *Ctx) readFaulty(g *hashGen, what string, open func() (indexedhashes.HashReader, error)) bool {
	c.drawFaults(c.Disk, []simos.FaultKind{simos.FReadErr, simos.FShortRead, simos.FOpenErr, simos.FSeekErr, simos.FStatErr}, 0.02, 0.1, 0.4)
	c.Disk.MaxFaults += c.Disk.Faults()
	want := map[h32]int{}
	for i, h := range g.all {
		if _, ok := want[h]; !ok {
			want[h] = i
		}
	}
	hits := c.Disk.Hits()
	o := c.Run(func() {
		c.Disk.Armed = true
		rd, err := open()
		if err != nil {
			return
		}
		for i := 0; i < 60; i++ {
			h := h32(c.sideBytes(32))
			if k := c.side.Intn(10); k > 0 && len(g.all) > 0 {
				h = g.all[c.side.Intn(len(g.all))]
			} else if k == 0 && len(g.others) > 0 {
				h = g.others[c.side.Intn(len(g.others))]
			}
			w, ok := want[h]
			if !ok {
				w = -1
			}
			q := indexedhashes.Sha256(h)
			if got, err := rd.IndexOfHash(&q); err == nil && !c.Check(got == int64(w), "read-wrong", "%s with a failing disk: hash %x is found at %d, should be at %d (%s)", what, h[:8], got, w, c.Desc) {
				return
			}
			if w >= 0 {
				if err := rd.GetHashAtIndex(int64(w), &q); err == nil && !c.Check(h32(q) == h, "read-wrong", "%s with a failing disk: the hash at %d is said to be %x, should be %x (%s)", what, w, q[:8], h[:8], c.Desc) {
					return
				}
			}
			if n, err := rd.CountHashes(); err == nil && !c.Check(n == int64(len(g.all)), "read-wrong", "%s with a failing disk: %d hashes, should be %d (%s)", what, n, len(g.all), c.Desc) {
				return
			}
		}
	})
	c.Disk.Armed = false
	c.Disk.Enabled = [simos.NFaults]bool{}
	if c.Disk.Hits() > hits {
		c.Note("index:read-under-faults")
	}
	return c.Check(o.Kind == "returned" || o.Kind == "panic" && c.Disk.Hits() > hits, "hash-read-"+o.Kind, "%s with a failing disk: %s (%s)", what, firstLine(o.Detail), c.Desc) && !c.Failed()
}

// hashIndexStore is one store to be indexed.
type hashIndexStore struct {
	name   string
	g      *hashGen
	params *indexedhashes3.HashIndexingParams
	old    []h32 // indexed here before, by an earlier run
}

func hashIndex(faulty bool) func(c *Ctx) {
	return func(c *Ctx) {
		adaptive := c.Bool()
		threads := c.Pick(2, 1, 3, 4, 8)
		gb := 1
		if adaptive {
			gb = c.Pick(1, 0)
		}
		simbufio.Cap = c.Pick(65536, 4096, 512, 64)
		nStores := c.Pick(1, 2, 3)
		var stores []*hashIndexStore
		desc := ""
		for i := 0; i < nStores; i++ {
			s := &hashIndexStore{name: []string{"Blocks/Hashes", "Transactions/Hashes", "Addresses/Hashes"}[i], g: c.newHashGen()}
			n := c.Pick(20, 0, 1, 3, 60, 150, 400)
			if c.Int(4) == 3 { // indexed before with other contents
				for j := c.Pick(30, 100, 5); j > 0; j-- {
					s.old = append(s.old, s.g.next())
				}
				s.g.all = nil
			}
			s.params = c.drawParams(max(n, len(s.old))+40, 256)
			if !adaptive && c.Int(3) > 0 { // several passes
				p := s.params
				k := int64(c.Range(1, int(p.NumberOfBins())))
				est := p.NumberOfBins() * ((1 << 30) / (p.BytesPerBinEntry() * k))
				s.params = indexedhashes3.NewHashStoreParams(p.BitsPerHashIndex(), est, p.DigitsPerNumberedFolder(), p.NumberOfBins(), p.EntriesInBinStart(), p.BytesPerSortNum())
			}
			for j := 0; j < n; j++ {
				s.g.next()
			}
			stores = append(stores, s)
			desc += fmt.Sprintf("; %s: %d hashes, %s, indexed before %v, %s", s.name, n, s.g.desc, len(s.old) > 0, paramStr(s.params))
		}
		c.Desc = fmt.Sprintf("adaptive %v, %d threads, %d GB, %d byte reads%s", adaptive, threads, gb, simbufio.Cap, desc)
		fault := faulty && c.drawFaults(c.Disk, ioKinds, 0.003, 0.02, 0.1)
		if fault {
			c.target(c.Disk, "BinOverflows", ".bes", "BinStarts", "Hashes.hsh", ".json", "BinNums", ".int")
		}
		c.Disk.Armed = false
		c.Disk.StdoutBad = c.Bool()
		for i, s := range stores {
			s.g.others = append(s.g.others, s.old...)
			for j, t := range stores {
				if j != i {
					s.g.others = append(append(s.g.others, t.old...), t.g.all...)
				}
			}
		}
		put := func(s *hashIndexStore, hs []h32) {
			var b []byte
			for _, h := range hs {
				b = append(b, h[:]...)
			}
			c.Disk.Put("/data/"+s.name+"/Hashes.hsh", b)
		}
		ba := indexedhashes3.NewBinsArray(int64(c.Pick(1, 5)), 34, int64(c.Pick(4, 0, 40)))
		test := c.side.Intn(4) == 0 // with the store's own test of what was indexed
		index := func(s *hashIndexStore) error {
			defer c.Only("the indexing of hashes", "/data/"+s.name, "!/data/"+s.name+"/Hashes.hsh")()
			if adaptive {
				_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive("/data", s.name, s.params, gb)
				if err != nil {
					return err
				}
				return p.IndexTheHashes(threads)
			}
			_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloader("/data", s.name, s.params, gb, ba)
			if err != nil {
				return err
			}
			if err = p.IndexTheHashes(threads); err == nil && test {
				err = p.TestTheHashes()
			}
			return err
		}
		verify := func(s *hashIndexStore, how string) bool {
			o := c.Run(func() {
				ram := c.Int(3) == 2
				cr, err := indexedhashes3.NewHashStoreCreatorFromFile("/data", s.name, ram)
				if !c.Check(err == nil, "hash-open", "%s %s: %v (%s)", how, s.name, err, c.Desc) {
					return
				}
				var rd indexedhashes.HashReader
				if c.Bool() || ram {
					rd, err = cr.OpenHashStore()
				} else {
					defer c.Only("reading an index of hashes")()
					rd, err = cr.OpenHashStoreReadOnly()
				}
				if !c.Check(err == nil, "hash-open", "%s %s: %v (%s)", how, s.name, err, c.Desc) {
					return
				}
				if !c.checkHashes(rd, s.g, s.g.all, true, 300, how+" "+s.name+" in RAM "+fmt.Sprint(ram)+" ("+c.Desc+")") {
					return
				}
				c.Check(rd.Close() == nil, "hash-close", "Close (%s)", c.Desc)
				c.Closed("a hash store opened to read")
			})
			return c.Check(o.Kind == "returned", "hash-read-"+o.Kind, "%s %s: %s (%s)", how, s.name, firstLine(o.Detail), c.Desc) && !c.Failed()
		}
		for _, s := range stores {
			if s.old == nil {
				continue
			}
			put(s, s.old)
			var err error
			o := c.Run(func() { err = index(s) })
			if !c.Check(o.Kind == "returned" && err == nil, "index-"+o.Kind, "first indexing of %s: %s %v (%s)", s.name, firstLine(o.Detail), err, c.Desc) {
				return
			}
		}
		for _, s := range stores {
			put(s, s.g.all)
		}
		done := make([]bool, len(stores))
		var err error
		c.Disk.Armed = fault
		// Whoever gets an error from one store stops there
		o := c.Run(func() {
			for i, s := range stores {
				if err = index(s); err != nil {
					return
				}
				done[i] = true
				c.Closed("hash indexing")
			}
		})
		c.Disk.Armed = false
		c.Disk.Enabled = [simos.NFaults]bool{}
		c.Check(o.Kind != "deadlock" && o.Kind != "stuck", "index-"+o.Kind, "indexing: %s (%s)", firstLine(o.Detail), c.Desc)
		loud := o.Kind != "returned" || err != nil
		if loud {
			c.Note("index:loud-failure")
			if !c.Check(c.Disk.Faults() > 0, "index-failed", "indexing with a sound disk: %s %s %v (%s)", o.Kind, firstLine(o.Detail), err, c.Desc) {
				return
			}
		} else {
			c.Note("index:success")
		}
		for i, s := range stores {
			if done[i] && faulty && c.side.Intn(3) == 0 {
				ram := c.Int(3) > 0
				if !c.readFaulty(s.g, s.name, func() (indexedhashes.HashReader, error) {
					cr, err := indexedhashes3.NewHashStoreCreatorFromFile("/data", s.name, ram)
					if err != nil {
						return nil, err
					}
					if c.Bool() || ram {
						return cr.OpenHashStore()
					}
					return cr.OpenHashStoreReadOnly()
				}) {
					return
				}
			}
			if done[i] && !verify(s, "indexed") {
				return
			}
		}
		if loud { // the user starts again
			o = c.Run(func() {
				ba = indexedhashes3.NewBinsArray(2, 34, 4)
				for _, s := range stores {
					if err = index(s); err != nil {
						return
					}
				}
			})
			if !c.Check(o.Kind == "returned" && err == nil, "index-again", "indexing again after a failure: %s %s %v (%s)", o.Kind, firstLine(o.Detail), err, c.Desc) {
				return
			}
			for _, s := range stores {
				if !verify(s, "indexed again") {
					return
				}
			}
		}
	}
}

// hashAppend: the stores that hashes are appended to one at a time.
func hashAppend(faulty bool) func(c *Ctx) {
	return func(c *Ctx) {
		kind := c.Int(6)
		g := c.newHashGen()
		nOps := c.Pick(60, 15, 200, 400)
		var cr indexedhashes.HashStoreCreator
		what := ""
		preload := 0
		fault := faulty && c.drawFaults(c.Disk, ioKinds, 0.003, 0.03, 0.2)
		if fault {
			c.target(c.Disk, "BinOverflows", ".bes", "BinStarts", ".hsh", ".ovf", ".lkp", ".cls", ".json")
		}
		c.Disk.Armed = false
		var params *indexedhashes3.HashIndexingParams
		create := func() error { return cr.CreateHashStore() }
		switch kind {
		case 0:
			params = c.drawParams(nOps+200, 256)
			preload = c.Pick(0, 0, 30, 100)
			c.Disk.Put("/data/H/placeholder", nil)
			cr = indexedhashes3.NewHashStoreCreatorPrivate(params, "/data/H", false)
			what = fmt.Sprintf("binned store %s, %d indexed beforehand", paramStr(params), preload)
			if preload > 0 {
				var b []byte
				for i := 0; i < preload; i++ {
					h := g.next()
					b = append(b, h[:]...)
				}
				c.Disk.Put("/data/H/Hashes.hsh", b)
				create = func() error {
					_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive("/data", "H", params, 1)
					if err != nil {
						return err
					}
					return p.IndexTheHashes(2)
				}
			}
		case 1:
			bits, bytes, cpc := int64(c.Pick(8, 2, 4, 12)), int64(c.Pick(3, 4, 5, 7)), int64(c.Pick(3, 2))
			mem, app := c.Int(4) == 3, c.Bool()
			x, err := indexedhashes.NewConcreteHashStoreCreator("H", "/data", bits, bytes, cpc, mem, app)
			if err != nil {
				panic(err)
			}
			cr = x
			// a torn write of one entry is more than its in-place updates can stand
			c.Disk.Enabled[simos.FShortWrite] = false
			what = fmt.Sprintf("lookup store, %d bits, %d bytes, %d collisions per chunk, lookup in memory %v, append optimised %v", bits, bytes, cpc, mem, app)
		case 2:
			cr = basicCreator{c.Bool()}
			what = "plain store"
			nOps = min(nOps, 200)
		case 3:
			expected, digits := int64(c.Pick(150, 0, 225, 750)), c.Pick(2, 1, 3)
			preload = c.Pick(0, 30, 100, 350)
			what = fmt.Sprintf("uniform store, %d expected, digits %d, %d indexed beforehand", expected, digits, preload)
			c.Disk.Put("/data/placeholder", nil)
			cr, _ = indexedhashes.NewUniformHashStoreCreatorAndPreloader("/data", "U", expected, digits, 1)
			var b []byte
			for i := 0; i < preload; i++ {
				h := g.next()
				b = append(b, h[:]...)
			}
			create = func() error {
				if err := cr.CreateHashStore(); err != nil {
					return err
				}
				c.Disk.Put("/data/U/Hashes.hsh", b)
				_, p, err := indexedhashes.NewUniformHashStoreCreatorAndPreloaderFromFile("/data", "U", 1)
				if err != nil {
					return err
				}
				return p.IndexTheHashes()
			}
		case 4:
			cr = tierZero{weddingcake.NewTierZeroCreator("/data")}
			what = "tier zero"
		case 5:
			x, err := indexedhashes.NewConcreteHashStoreCreatorMemory("H", "/data")
			if err != nil {
				panic(err)
			}
			cr = x
			what = "store with its index in memory"
		}
		c.Desc = fmt.Sprintf("%s; %d operations; hashes %s; faults %v", what, nOps, g.desc, fault)
		stored := append([]h32{}, g.all...)
		told, hits := 0, 0 // what was reported; what had failed when the last operation was done
		late := func(what string, err any) bool {
			told++
			return c.Check(told > 1 || c.Disk.Hits() > hits, "store-late", "%s: %v, though nothing failed meanwhile: what failed before (%s) was not reported then (%s)", what, err, c.Disk.LastFault, c.Desc)
		}
		o := c.Run(func() {
			// Creating and opening, under faults in some runs. What is reported is done again without.
			early := fault && c.Bool()
			c.Disk.Armed = early
			err := create()
			c.Disk.Armed = false
			if err != nil && early {
				c.Note("store:create-reported")
				err = create()
			}
			if !c.Check(err == nil, "store-create", "%v (%s)", err, c.Desc) {
				return
			}
			c.Check(cr.HashStoreExists(), "store-exists", "the created store is said not to exist (%s)", c.Desc)
			c.Disk.Armed = early
			st, err := cr.OpenHashStore()
			c.Disk.Armed = false
			if err != nil && early {
				c.Note("store:open-reported")
				st, err = cr.OpenHashStore()
			}
			if !c.Check(err == nil && !isNil(st), "store-open", "opened: %v, error %v (%s)", !isNil(st), err, c.Desc) {
				return
			}
			if early && !c.checkHashes(st, g, stored, false, 30, "just opened, "+c.Desc) {
				return
			}
			c.Disk.Armed = fault
			for i := 0; i < nOps; i++ {
				hits = c.Disk.Hits()
				switch x := c.side.Intn(20); {
				case x < 14:
					h := g.next()
					q := indexedhashes.Sha256(h)
					at, err := st.AppendHash(&q)
					if err != nil {
						// The append has failed loudly; what the caller can still
						// rely on is that nothing stored before is affected
						c.Note("store:reported-errors")
						c.Disk.Armed = false
						if !c.Check(fault, "store-append", "AppendHash: %v (%s)", err, c.Desc) || !late("AppendHash", err) {
							return
						}
						if kind == 0 {
							// rewrites a bin in place, and promises nothing about the bin then
							return
						}
						for j := 0; j < 30 && len(stored) > 0; j++ {
							k := c.side.Intn(len(stored))
							q := indexedhashes.Sha256(stored[k])
							got, err := st.IndexOfHash(&q)
							if err != nil { // loud enough: the failed buffer goes on reporting its error
								return
							}
							ok := err == nil && got >= 0 && (got >= int64(len(stored)) && h == stored[k] || got < int64(len(stored)) && stored[got] == stored[k])
							if !c.Check(ok, "store-damaged", "after AppendHash failed (%v), hash %d of %d is found at %d (error %v) (%s)", err, k, len(stored), got, err, c.Desc) {
								return
							}
						}
						return
					}
					if !c.Check(at == int64(len(stored)), "store-append", "AppendHash gave index %d, want %d (%s)", at, len(stored), c.Desc) {
						return
					}
					stored = append(stored, h)
				case x < 16:
					if len(stored) == 0 {
						continue
					}
					k := c.side.Intn(len(stored))
					q := indexedhashes.Sha256(stored[k])
					got, err := st.IndexOfHash(&q)
					if err != nil && fault && late("IndexOfHash", err) {
						c.Note("store:reported-errors")
						g.errOK = true
						continue
					}
					ok := err == nil && got >= 0 && got < int64(len(stored)) && stored[got] == stored[k]
					if !c.Check(ok, "store-lookup", "hash %d of %d is found at %d (error %v) (%s)", k, len(stored), got, err, c.Desc) {
						return
					}
				case x < 17:
					h := g.near()
					q := indexedhashes.Sha256(h)
					got, err := st.IndexOfHash(&q)
					if err != nil && fault && late("IndexOfHash", err) {
						c.Note("store:reported-errors")
						g.errOK = true
						continue
					}
					there := false
					for _, s := range stored {
						there = there || s == h
					}
					if !c.Check(there || err == nil && got == -1, "store-absent", "a hash never stored is found at %d (error %v) (%s)", got, err, c.Desc) {
						return
					}
				case x < 18 && !fault:
					if !c.checkHashes(st, g, stored, false, 15, c.Desc) {
						return
					}
				case x < 19 && !fault:
					if !c.Check(st.Sync() == nil, "store-sync", "Sync (%s)", c.Desc) {
						return
					}
					if kind == 1 {
						continue // its lookup file is only promised after Close
					}
					held := simos.Cur.Handles()
					still := c.Only("reading a hash store")
					ro, err := cr.OpenHashStoreReadOnly()
					if !c.Check(err == nil, "store-open", "read-only: %v (%s)", err, c.Desc) || !c.checkHashes(ro, g, stored, false, 15, "read-only "+c.Desc) {
						return
					}
					c.Check(ro.Close() == nil, "store-close", "Close (%s)", c.Desc)
					still()
					c.keep = held
					c.Closed("a second handle to a hash store")
					c.keep = nil
				case x == 18: // Sync with a failing disk
					if err := st.Sync(); err != nil { // what was appended since the last Sync may be gone
						late("Sync", err)
						c.Note("store:sync-reported")
						return
					}
				default:
					if err := st.Close(); err != nil {
						if c.Check(fault, "store-close", "Close: %v (%s)", err, c.Desc) && late("Close", err) {
							c.Note("store:close-reported")
						}
						return
					}
					c.Closed("a hash store")
					st, err = cr.OpenHashStore()
					if err != nil && fault {
						c.Note("store:open-reported")
						c.Disk.Armed = false
						st, err = cr.OpenHashStore()
					}
					if !c.Check(err == nil && !isNil(st), "store-open", "opened again: %v, error %v (%s)", !isNil(st), err, c.Desc) {
						return
					}
					c.Disk.Armed = false
					if fault && !c.checkHashes(st, g, stored, false, 30, "opened again, "+c.Desc) {
						return
					}
					c.Disk.Armed = fault
				}
			}
			c.Disk.Armed = false
			if !c.checkHashes(st, g, stored, false, 100, "at the end, "+c.Desc) {
				return
			}
			if !c.Check(st.Close() == nil, "store-close", "Close (%s)", c.Desc) {
				return
			}
			c.Closed("a hash store")
			still := c.Only("reading a hash store")
			ro, err := cr.OpenHashStoreReadOnly()
			if !c.Check(err == nil, "store-open", "read-only: %v (%s)", err, c.Desc) || !c.checkHashes(ro, g, stored, false, 100, "reopened, "+c.Desc) {
				return
			}
			still()
			if kind == 0 && params != nil && preload > 0 {
				cr2, err := indexedhashes3.NewHashStoreCreatorFromFile("/data", "H", true)
				if !c.Check(err == nil, "store-open", "from file: %v (%s)", err, c.Desc) {
					return
				}
				ram, err := cr2.OpenHashStore()
				if !c.Check(err == nil, "store-open", "in RAM: %v (%s)", err, c.Desc) || !c.checkHashes(ram, g, stored, false, 100, "in RAM, "+c.Desc) {
					return
				}
			}
			if c.side.Intn(3) > 0 || kind == 3 { // the uniform store is only whole once indexed
				return
			}
			// A store created over this one starts empty
			err = cr.CreateHashStore()
			if !c.Check(err == nil, "store-create", "again: %v (%s)", err, c.Desc) {
				return
			}
			st, err = cr.OpenHashStore()
			if !c.Check(err == nil, "store-open", "created again: %v (%s)", err, c.Desc) {
				return
			}
			g.others = append(g.others, stored...)
			stored = nil
			for i := c.side.Intn(40); i > 0; i-- {
				h := g.next()
				q := indexedhashes.Sha256(h)
				at, err := st.AppendHash(&q)
				if !c.Check(err == nil && at == int64(len(stored)), "store-append", "created again: AppendHash gave index %d (error %v), want %d (%s)", at, err, len(stored), c.Desc) {
					return
				}
				stored = append(stored, h)
			}
			if c.checkHashes(st, g, stored, false, 100, "created again, "+c.Desc) {
				c.Check(st.Close() == nil, "store-close", "Close (%s)", c.Desc)
			}
		})
		if fault && o.Kind == "panic" {
			late("panic", firstLine(o.Detail))
			c.Note("store:loud-stop")
			return
		}
		c.Check(o.Kind == "returned", "store-"+o.Kind, "%s (%s)", firstLine(o.Detail), c.Desc)
	}
}

func isNil(x any) bool {
	if x == nil {
		return true
	}
	switch v := reflect.ValueOf(x); v.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Interface:
		return v.IsNil()
	}
	return false
}

// tierZero gives the first tier of the first wedding cake the common types.
type tierZero struct {
	c *weddingcake.TierZeroCreator
}
type tierZeroReader struct{ weddingcake.LegacyHashReader }
type tierZeroStore struct {
	tierZeroReader
	w weddingcake.LegacyHashReadWriter
}

func (r tierZeroReader) IndexOfHash(h *indexedhashes.Sha256) (int64, error) {
	return r.LegacyHashReader.IndexOfHash((*weddingcake.Sha256)(h))
}
func (r tierZeroReader) GetHashAtIndex(i int64, h *indexedhashes.Sha256) error {
	return r.LegacyHashReader.GetHashAtIndex(i, (*weddingcake.Sha256)(h))
}
func (s tierZeroStore) AppendHash(h *indexedhashes.Sha256) (int64, error) {
	return s.w.AppendHash((*weddingcake.Sha256)(h))
}
func (s tierZeroStore) Sync() error       { return s.w.Sync() }
func (z tierZero) HashStoreExists() bool  { return z.c.HashStoreExists() }
func (z tierZero) CreateHashStore() error { return z.c.CreateHashStore() }
func (z tierZero) OpenHashStore() (indexedhashes.HashReadWriter, error) {
	w, err := z.c.OpenHashStore()
	if err != nil {
		return nil, err
	}
	return tierZeroStore{tierZeroReader{w}, w}, nil
}
func (z tierZero) OpenHashStoreReadOnly() (indexedhashes.HashReader, error) {
	r, err := z.c.OpenHashStoreReadOnly()
	if err != nil {
		return nil, err
	}
	return tierZeroReader{r}, nil
}

// basicCreator opens the plain list of hashes in one file.
type basicCreator struct{ app bool }

const basicPath = "/data/H.hsh"

func (b basicCreator) HashStoreExists() bool {
	_, err := simos.Stat(basicPath)
	return err == nil
}
func (b basicCreator) CreateHashStore() error {
	if err := simos.MkdirAll("/data", 0777); err != nil {
		return err
	}
	f, err := simos.Create(basicPath)
	if err != nil {
		return err
	}
	return f.Close()
}
func (b basicCreator) open(flag int) (*indexedhashes.BasicHashStore, error) {
	f, err := simos.OpenFile(basicPath, flag, 0)
	if err != nil {
		return nil, err
	}
	st, err := f.Stat()
	if err != nil {
		return nil, err
	}
	var lf memfile.AppendableLookupFile = f
	if b.app && flag != simos.O_RDONLY {
		if lf, err = memfile.NewAppendOptimizedFile(f); err != nil {
			return nil, err
		}
	}
	return indexedhashes.NewBasicHashStore(wordfile.NewHashFile(lf, st.Size()/32)), nil
}
func (b basicCreator) OpenHashStore() (indexedhashes.HashReadWriter, error) {
	return b.open(simos.O_RDWR)
}
func (b basicCreator) OpenHashStoreReadOnly() (indexedhashes.HashReader, error) {
	return b.open(simos.O_RDONLY)
}

func init() {
	register("hashindex", 250_000_000, hashIndex(false))
	register("hashindex-faults", 250_000_000, hashIndex(true))
	register("hashappend", 250_000_000, hashAppend(false))
	register("hashappend-faults", 250_000_000, hashAppend(true))
}
