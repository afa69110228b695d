package main

import (
	"fmt"

	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
	"github.com/KitchenMishap/pudding-shed/weddingcakefront"
)

// cakeHashes draws hashes: some like any digest, some that are alike in most
// of their bytes, so that the trees over them grow deep.
func (c *Ctx) cakeHashes() func() h32 {
	style := c.Int(7)
	r := c.side
	var base h32
	copy(base[:], c.sideBytes(32))
	var at [32]int
	for i := range at {
		j := r.Intn(i + 1)
		at[i], at[j] = at[j], i
	}
	few := 1 + c.Int(4)
	prefix := c.Pick(0, 0, 1, 2, 3) // leading bytes common to most
	drawn := 0
	return func() h32 {
		var h h32
		copy(h[:], c.sideBytes(32))
		switch style {
		default:
		case 2: // every byte one of a few values
			for i := range h {
				h[i] = base[i] ^ byte(r.Intn(few+1))
			}
		case 3: // as one of some others, but for a few places
			h = base
			for i := 0; i < 4+r.Intn(12); i++ {
				h[at[r.Intn(16)]] ^= byte(1 << r.Intn(8))
			}
		case 4: // a comb: ever longer common parts
			h = base
			n := r.Intn(31)
			for i := n; i < 32; i++ {
				h[at[i]] = byte(r.Intn(256))
			}
		case 5: // every value of one byte, over and over
			h[at[0]] = byte(drawn)
			drawn++
		case 6: // each differs from the others in a place of its own
			h = base
			if drawn++; drawn > 1 {
				h[drawn%32] ^= byte(1 + (drawn-2)/32)
			}
		}
		if prefix > 0 && r.Intn(4) > 0 {
			copy(h[:], base[:prefix])
		}
		return h
	}
}

// cake: hashes are appended to a wedding cake, which bakes its tiers into each
// other meanwhile.
func cake(faulty bool) func(c *Ctx) {
	return func(c *Ctx) {
		size := c.Pick(12, 5, 3, 30, 100, 300, 700)
		switch c.Int(60) {
		case 59:
			size = 65535
		case 58: // a tier made of more than 65536 hashes
			if c.Int(3) == 2 {
				size = 18000
			}
		}
		quotas := []byte{5, 255, 255, 255}
		switch c.Int(4) {
		case 1:
			quotas = []byte{2, 2, 2, 2}
		case 2:
			quotas = []byte{3, 4, 2, 3}
		case 3:
			quotas = []byte{byte(1 + c.Int(6)), byte(2 + c.Int(5)), 255, 255}
		}
		if faulty && c.Int(6) < 5 {
			quotas[1] = 255 // one more tier takes a hundred times as long
		}
		reassure := byte(c.Pick(2, 0, 1, 3, 4, 8, 32))
		n := size * (1 + c.Int(int(quotas[0])*2+2))
		if c.Int(3) == 2 {
			n = size * int(quotas[0]) * min(int(quotas[1]), 8)
		}
		n = min(n, 2000+size*2) + c.Int(size)
		if size == 65535 {
			n = 66000
		}
		if size == 18000 {
			quotas[0], quotas[1] = 4, 255
			n = 4*18000 + 1 + c.Int(2000)
		}
		dup := c.Pick(0, 0, 2, 10, 40) // percent
		if faulty {
			n = min(n, 300)
		}
		fault := faulty && c.drawFaults(c.Disk, ioKinds, 0.003, 0.02, 0.1)
		if fault && c.Int(3) == 2 {
			only := []string{"/TierTop/", "/Tier0/", "/Tier1/", "/Tier2/", "Hashes", ".bin", "DonutForestsInfo", "Jump", "Level"}
			c.Disk.Only = only[c.Int(len(only))]
		}
		bake := -1 // the hash that fills the top: the disk is sound until then
		if fault && c.Int(2) == 1 {
			bake = size*(1+c.Int(max(n/size, 1))) - 1
			c.Disk.Prob, c.Disk.Skip = 1, c.side.Intn(c.Pick(10, 40, 100, 400))
		}
		c.Disk.Armed = false
		simrt.ScaleTo = size
		c.Desc = fmt.Sprintf("tier of %d hashes, quotas %v, %d reassurance bytes, %d hashes, %d%% repeated, faults %v", size, quotas, reassure, n, dup, fault)
		c.Sim.Log("case: %s", c.Desc)
		gen := c.cakeHashes()
		var cr weddingcakefront.LegacyHashStoreCreator
		if f, ok := simrt.Hooks["cake.creator"].(func(string, byte, []byte) weddingcakefront.LegacyHashStoreCreator); ok {
			cr = f("/cake", reassure, quotas)
		} else {
			cr = weddingcakefront.NewCakeCreator("/cake", reassure)
		}
		var list []h32
		first := map[h32]int{}
		broken := false // an operation has reported an error: nothing is promised after it
		var rw weddingcakefront.LegacyHashReadWriter
		hits := 0 // what had failed when the last operation was done
		oops := func(err error, what string) bool {
			if err == nil {
				hits = c.Disk.Hits()
				return false
			}
			broken = true
			c.Note("cake:reported-errors")
			c.Check(fault && c.Disk.Hits() > 0, "cake-error", "%s: %v (%s)", what, err, c.Desc)
			c.Check(c.Disk.Hits() > hits, "cake-late", "%s: %v, though nothing failed meanwhile: what failed before (%s) was not reported then (%s)", what, err, c.Disk.LastFault, c.Desc)
			return true
		}
		find := func(rd weddingcakefront.LegacyHashReader, h h32, how string) bool {
			got, err := rd.IndexOfHash((*weddingcakefront.Sha256)(&h))
			if oops(err, "IndexOfHash") {
				return false
			}
			want, ok := first[h]
			if !ok {
				want = -1
			}
			return c.Check(got == int64(want), "cake-index", "after %d hashes, %s: hash %x is at %d, got %d (%s)", len(list), how, h[:], want, got, c.Desc)
		}
		at := func(rd weddingcakefront.LegacyHashReader, i int, how string) bool {
			var h weddingcakefront.Sha256
			err := rd.GetHashAtIndex(int64(i), &h)
			if i < 0 || i >= len(list) {
				return c.Check(err != nil, "cake-beyond", "after %d hashes, %s: there is a hash at index %d: %x (%s)", len(list), how, i, h[:], c.Desc)
			}
			if oops(err, "GetHashAtIndex") {
				return false
			}
			return c.Check(h32(h) == list[i], "cake-hash", "after %d hashes, %s: hash at index %d is %x, got %x (%s)", len(list), how, i, list[i][:], h[:], c.Desc)
		}
		probe := func(rd weddingcakefront.LegacyHashReader, how string) bool {
			r := c.side
			switch r.Intn(6) {
			case 0: // never stored
				h := gen()
				if len(list) > 0 && r.Intn(2) == 0 {
					h = list[r.Intn(len(list))]
					h[r.Intn(32)] ^= byte(1 << r.Intn(8))
				}
				return find(rd, h, how)
			case 1:
				return at(rd, r.Intn(len(list)+1), how)
			case 2:
				return at(rd, len(list)-r.Intn(3), how)
			}
			if len(list) == 0 {
				return true
			}
			return find(rd, list[r.Intn(len(list))], how)
		}
		o := c.Run(func() {
			if !c.Check(!cr.HashStoreExists(), "cake-exists", "a store exists before it is created (%s)", c.Desc) {
				return
			}
			c.Disk.Armed = fault && bake < 0
			if oops(cr.CreateHashStore(), "CreateHashStore") {
				return
			}
			var err error
			if rw, err = cr.OpenHashStore(); oops(err, "OpenHashStore") {
				return
			}
			var buf weddingcakefront.Sha256 // used again and again
			for len(list) < n {
				if len(list) == bake {
					c.Disk.Armed = fault
				}
				h := gen()
				if len(list) > 0 && c.side.Intn(100) < dup {
					h = list[c.side.Intn(len(list))]
				}
				buf = weddingcakefront.Sha256(h)
				p := &buf
				if len(list)%2 == 1 {
					q := buf
					p = &q
				}
				i, err := rw.AppendHash(p)
				if oops(err, "AppendHash") {
					return
				}
				if !c.Check(i == int64(len(list)), "cake-append", "hash %d was given index %d (%s)", len(list), i, c.Desc) {
					return
				}
				if _, ok := first[h]; !ok {
					first[h] = len(list)
				}
				list = append(list, h)
				if c.side.Intn(8) == 0 && !probe(rw, "while appending") {
					return
				}
				switch {
				case c.side.Intn(60+n/50) == 0:
					if oops(rw.Sync(), "Sync") {
						return
					}
				case c.side.Intn(80+n/4) == 0:
					if oops(rw.Close(), "Close") {
						return
					}
					c.Closed("the cake")
					if c.side.Intn(3) == 0 {
						still := c.Only("reading a cake")
						ro, err := cr.OpenHashStoreReadOnly()
						if oops(err, "OpenHashStoreReadOnly") {
							return
						}
						for j := 0; j < 6; j++ {
							if !probe(ro, "opened read-only") {
								return
							}
						}
						if oops(ro.Close(), "Close") {
							return
						}
						still()
					}
					if rw, err = cr.OpenHashStore(); oops(err, "OpenHashStore") {
						return
					}
				}
			}
			c.Disk.Armed = false
			check := func(rd weddingcakefront.LegacyHashReader, how string) bool {
				step := 1 + len(list)/400
				for i := c.side.Intn(step); i < len(list); i += step {
					if !find(rd, list[i], how) || !at(rd, i, how) {
						return false
					}
				}
				for i := 0; i < 10; i++ {
					if !probe(rd, how) {
						return false
					}
				}
				return at(rd, len(list), how) && at(rd, -1, how)
			}
			if !check(rw, "at the end") {
				return
			}
			if oops(rw.Close(), "Close") {
				return
			}
			c.Closed("the cake")
			var rd weddingcakefront.LegacyHashReader
			if c.Bool() {
				rd, err = cr.OpenHashStore()
			} else {
				defer c.Only("reading a cake")()
				rd, err = cr.OpenHashStoreReadOnly()
			}
			if oops(err, "reopening") || !check(rd, "opened again") {
				return
			}
			if !oops(rd.Close(), "Close") {
				c.Closed("the cake opened to read")
			}
		})
		simrt.ScaleTo = 65535
		if c.Failed() {
			return
		}
		if o.Kind != "returned" && fault {
			c.Check(o.Kind == "panic" || o.Kind == "exit", "cake-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc)
			c.Check(broken || c.Disk.Hits() > hits, "cake-late", "%s %s, though nothing failed meanwhile: what failed before (%s) was not reported then (after %d hashes; %s)", o.Kind, firstLine(o.Detail), c.Disk.LastFault, len(list), c.Desc)
			c.Note("cake:loud-stop")
			return
		}
		if broken {
			return
		}
		c.Check(o.Kind == "returned", "cake-"+o.Kind, "%s %s (after %d hashes; %s)", o.Kind, firstLine(o.Detail), len(list), c.Desc)
	}
}

func init() {
	register("cake", 300_000_000, cake(false))
	register("cake-faults", 300_000_000, cake(true))
}
