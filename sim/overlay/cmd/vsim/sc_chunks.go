package main

import (
	"fmt"

	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
	"github.com/KitchenMishap/pudding-shed/weddingcake"
)

// chunks: fixed sets of hashes made into trees, appended to level files and
// looked up in the memory maps of those.
func chunks(faulty bool) func(c *Ctx) {
	return func(c *Ctx) {
		length := c.Pick(32, 8, 20, 64, 5)
		reassure := c.Pick(2, 0, 1, 4, length)
		formats := c.Pick(10, 5, 6, 20, 100)
		nodeBytes, idBytes := c.Pick(3, 2, 4), c.Pick(3, 2, 4)
		nChunks := c.Pick(1, 2, 3, 6)
		start := c.Pick(0, 10, 1<<40)
		fault := faulty && c.drawFaults(c.Disk, ioKinds, 0.01, 0.05)
		if fault {
			c.target(c.Disk, "Level", "Info", ".bin", "/chunks/")
		}
		c.Disk.Armed = false
		draw := c.cakeHashes()
		few := c.Int(3) == 2
		onePlace := c.Int(6) == 5 // each differs from the others in a place of its own
		var base []byte
		if onePlace {
			base = c.sideBytes(length)
		}
		drawn := 0
		gen := func() string {
			if onePlace {
				b := append([]byte{}, base...)
				if drawn++; drawn > 1 {
					b[drawn%length] ^= byte(1 + (drawn-2)/length)
				}
				return string(b)
			}
			h := draw()
			b := h[:]
			if length == 64 {
				h2 := draw()
				b = append(b[:32:32], h2[:]...)
			}
			b = append([]byte{}, b[:length]...)
			if few { // most bytes the same in all
				for i := range b {
					if i%3 != 0 {
						b[i] = byte(i)
					}
				}
			}
			return string(b)
		}
		sizes := []int{}
		for i := 0; i < nChunks; i++ {
			n := c.Pick(30, 0, 1, 2, 5, 120, 400)
			if c.Int(40) == 39 {
				n = 5000
			}
			sizes = append(sizes, n)
		}
		c.Desc = fmt.Sprintf("chunks of %v hashes of %d bytes, %d reassurance bytes, %d formats a level, ids of %d and %d bytes, from %d on, alike %v, one place %v, faults %v", sizes, length, reassure, formats, nodeBytes, idBytes, start, few, onePlace, fault)
		c.Sim.Log("case: %s", c.Desc)
		app, ok1 := simrt.Hooks["chunks.append"].(func(*weddingcake.ChunkFilesWrite, []weddingcake.ShallowTreeHash, byte, byte, byte, int, int) (*weddingcake.ChunkPreparation, error))
		read, ok2 := simrt.Hooks["chunks.read"].(func(*weddingcake.ChunkFilesRead, *weddingcake.ChunkPreparation) error)
		made, ok3 := simrt.Hooks["chunks.made"].(func(*weddingcake.ChunkPreparation) *weddingcake.Chunk)
		list, ok4 := simrt.Hooks["chunks.list"].(func(*weddingcake.ChunkFilesRead) []weddingcake.Chunk)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			c.Note("chunks:no-hook")
			return
		}
		var sets []map[string]int // of each chunk appended: hash -> index
		next := start
		lookup := func(k int, ch *weddingcake.Chunk, how string) bool {
			set := sets[k]
			for h, i := range set {
				got := ch.LookupHash([]byte(h))
				if !c.Check(got == weddingcake.GlobalPiType(i), "chunk-lookup", "%s: hash %x of chunk %d is at %d, got %d (%s)", how, h, k, i, got, c.Desc) {
					return false
				}
			}
			for j := 0; j < 8; j++ { // strangers may be taken for one that is there, but for nothing else
				h := gen()
				if _, there := set[h]; there {
					continue
				}
				got := ch.LookupHash([]byte(h))
				ok := got == weddingcake.GlobalPiNoMatch
				for o, i := range set {
					if int(got) != i {
						continue
					}
					// the bytes examined and those of reassurance are the same
					same, need := 0, reassure
					if len(set) > 1 {
						need++
					}
					for k := 0; k < length; k++ {
						if o[k] == h[k] {
							same++
						}
					}
					ok = ok || same >= need && o != h
				}
				if !c.Check(ok, "chunk-stranger", "%s: a hash that is not in chunk %d gives index %d (%s)", how, k, got, c.Desc) {
					return false
				}
			}
			return true
		}
		hits := 0 // what had failed when the last operation was done
		reader := func(last *weddingcake.ChunkPreparation, how string) (ok, loud bool) {
			defer c.Only("reading chunks")()
			r := weddingcake.NewChunkFilesRead("/chunks")
			if err := read(r, last); err != nil {
				c.Check(fault && c.Disk.Hits() > hits, "chunk-read", "%s: %v (%s)", how, err, c.Desc)
				return false, true
			}
			hits = c.Disk.Hits()
			l := list(r)
			if !c.Check(len(l) == len(sets), "chunk-count", "%s: %d chunks, %d appended (%s)", how, len(l), len(sets), c.Desc) {
				return false, false
			}
			at := start
			for k := range l {
				first := at
				if len(sets[k]) == 0 {
					first = 0 // has none
				}
				if !c.Check(l[k].FirstGlobalPresentationIndexOfChunk == weddingcake.GlobalPiType(first), "chunk-first", "%s: chunk %d starts at %d, should at %d (%s)", how, k, l[k].FirstGlobalPresentationIndexOfChunk, first, c.Desc) || !lookup(k, &l[k], how) {
					return false, false
				}
				at += len(sets[k])
			}
			if err := r.UnMmapLevelFiles(); err != nil {
				c.Check(fault && c.Disk.Hits() > hits, "chunk-unmap", "%s: %v (%s)", how, err, c.Desc)
				return false, true
			}
			c.Closed("the chunks")
			return true, false
		}
		o := c.Run(func() {
			simos.MkdirAll("/chunks", 0755)
			c.Disk.Put("/chunks/ChunksInfo.bin", nil)
			c.Disk.Armed = fault
			w := weddingcake.NewChunkFilesWrite("/chunks")
			for k, n := range sizes {
				set := map[string]int{}
				var hs []weddingcake.ShallowTreeHash
				for try := 0; len(hs) < n && try < 3*n; try++ {
					h := gen()
					if _, dup := set[h]; dup {
						continue
					}
					set[h] = next + len(hs)
					hs = append(hs, weddingcake.ShallowTreeHash{Hash: []byte(h), PresentationIndex: int64(next + len(hs))})
				}
				cp, err := app(w, hs, byte(length), byte(reassure), byte(formats), nodeBytes, idBytes)
				if err != nil {
					c.Note("chunks:reported-errors")
					c.Check(fault && c.Disk.Hits() > hits, "chunk-append", "AppendChunk: %v (%s)", err, c.Desc)
					return
				}
				hits = c.Disk.Hits()
				sets = append(sets, set)
				next += len(hs)
				if !lookup(k, made(cp), "as made") {
					return
				}
				if k == len(sizes)-1 || c.side.Intn(3) == 0 {
					if k == len(sizes)-1 && c.side.Intn(2) == 0 {
						c.Disk.Armed = false
					}
					if ok, loud := reader(cp, fmt.Sprintf("read back after %d chunks", k+1)); !ok {
						if loud {
							c.Note("chunks:reported-errors")
						}
						return
					}
				}
			}
		})
		if c.Failed() {
			return
		}
		if o.Kind != "returned" && fault && c.Disk.Faults() > 0 {
			c.Check(o.Kind == "panic" || o.Kind == "exit", "chunk-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc)
			c.Check(c.Disk.Hits() > hits, "chunk-late", "%s %s, though nothing failed meanwhile: what failed before (%s) was not reported then (%s)", o.Kind, firstLine(o.Detail), c.Disk.LastFault, c.Desc)
			c.Note("chunks:loud-stop")
			return
		}
		c.Check(o.Kind == "returned", "chunk-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc)
	}
}

func init() {
	register("chunks", 300_000_000, chunks(false))
	register("chunks-faults", 300_000_000, chunks(true))
}
