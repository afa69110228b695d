package main

import (
	"bytes"
	"sort"
	"strings"

	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
)

// The scenarios, with things of other people beside what they work on, and with
// an eye on every change to the disk.
func init() {
	type of struct {
		name string
		own  []string
	}
	hashes := []string{"/data/Blocks/Hashes", "/data/Transactions/Hashes", "/data/Addresses/Hashes"}
	h := []string{"/data/H", "/data/H.*", "/data/U", "/data/Tier0"}
	all := []of{
		{"ingest", []string{"/data/db"}}, {"ingest-twice", []string{"/data/db"}}, {"ingest-faults", []string{"/data/db"}}, {"ingest-killed", []string{"/data/db"}},
		{"copy", []string{"/data/db", "/data/copy"}}, {"memcopy", []string{"/data/copy"}},
		{"hashindex", hashes}, {"hashindex-faults", hashes}, {"hashappend", h}, {"hashappend-faults", h},
		{"files", []string{"/data/F.*"}}, {"files-faults", []string{"/data/F.*"}},
		{"multimap", []string{"/data/Txos"}}, {"multimap-faults", []string{"/data/Txos"}},
		{"cake", []string{"/cake"}}, {"cake-faults", []string{"/cake"}},
		{"uniform", []string{"/data/U"}}, {"uniform-faults", []string{"/data/U"}},
		{"synced", append([]string{"/data/copy", "/cake"}, h...)},
		{"chunks", []string{"/chunks"}}, {"chunks-faults", []string{"/chunks"}},
	}
	register("apart", 600_000_000, func(c *Ctx) {
		s := all[c.Int(len(all))]
		c.own = s.own
		c.Note("apart-run:" + s.name)
		c.neighbours(c.Disk)
		scenarios[s.name].run(c)
		for _, d := range c.disks {
			c.untouched(d, s.name, 0, s.own)
			for p, b := range neighbours {
				got, ok := d.Get(p)
				c.Check(ok && bytes.Equal(got, []byte(b)), "neighbour", "%s: %s is not as it was (%s)", s.name, p, c.Desc)
			}
		}
	})
}

// neighbours are files that nobody has any business with, near those that are.
var neighbours = map[string]string{
	"/notes.txt": "n", "/data/notes.txt": "n", "/data2/db/Blocks/Hashes/Hashes.hsh": "h",
	"/data/db2/Blocks/Hashes/Hashes.hsh": "h", "/data/db.old": "d", "/data/copy2/Blocks/firsttrans.int": "i", "/data/copy.txt": "c",
	"/data/Blocks/Hashes2/Hashes.hsh": "h", "/data/Blocks/HashesBinStarts.bes": "b", "/data/Blocks/BlockData.int": "b", "/data/Transactions/firsttxi.int": "t",
	"/data/Addresses/firsttxo.int": "a", "/data/BinStarts.bes": "b", "/data/BinOverflows/00.bes": "b", "/data/HashIndexingParams.json": "j",
	"/data/F2.int": "f", "/data/F2.hsh": "f", "/data/F": "f", "/data/G.int": "g", "/data/H2.hsh": "h", "/data/H2.lkp": "h", "/data/H2/Hashes.hsh": "h", "/data/HH.hsh": "h",
	"/data/Hashes.hsh": "h", "/data/Txos2/00/00.iaa": "t", "/data/Txos.iaa": "t", "/data/00/00.iaa": "t", "/data/U2/BinStarts.bes": "u", "/data/U.json": "u",
	"/cake2/TierTop/Hashes.hsh": "h", "/cake.json": "c", "/TierTop/Hashes.hsh": "h", "/chunks2/Level0.bin": "c", "/ChunksInfo.bin": "c",
}

func (c *Ctx) neighbours(d *simos.Disk) {
	if c.own == nil || d.Touched != nil {
		return
	}
	d.Touched = map[string]simos.Touch{}
	for p, b := range neighbours {
		d.Put(p, []byte(b))
	}
}

// Only sees to it that, until what it gives is called, nothing on the disk is
// changed but what is one of roots or below it, or begins like one that ends in
// a star, and is not below one that begins with an exclamation mark.
func (c *Ctx) Only(what string, roots ...string) func() {
	d := c.Disk
	mark := d.Muts
	return func() { c.untouched(d, what, mark, roots) }
}

func (c *Ctx) untouched(d *simos.Disk, what string, since uint64, roots []string) {
	if c.own == nil || c.Failed() {
		return
	}
	var bad []string
	for p, t := range d.Touched {
		if t.At <= since {
			continue
		}
		mine := false
		for _, r := range roots {
			if no := strings.TrimPrefix(r, "!"); no != r {
				mine = mine && p != no && !strings.HasPrefix(p, no+"/")
				continue
			}
			if star := strings.TrimSuffix(r, "*"); p == r || strings.HasPrefix(p, r+"/") || star != r && strings.HasPrefix(p, star) || t.Op == "mkdir" && strings.HasPrefix(r, p+"/") {
				mine = true
			}
		}
		if mine {
			continue
		}
		bad = append(bad, t.Op+" "+p)
	}
	sort.Strings(bad)
	if len(bad) > 5 {
		bad = bad[:5]
	}
	c.Check(len(bad) == 0, "touched", "%s: %s (%s)", what, strings.Join(bad, ", "), c.Desc)
	c.Note("apart:" + what)
}
