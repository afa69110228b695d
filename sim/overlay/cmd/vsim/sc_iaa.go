package main

import (
	"fmt"
	"sort"

	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

// drawFaults arms a disk with a drawn choice of fault kinds. It returns
// whether there is anything to inject.
func (c *Ctx) drawFaults(d *simos.Disk, kinds []simos.FaultKind, probs ...float64) bool {
	any := false
	for _, k := range kinds {
		d.Enabled[k] = c.Int(3) == 2
		any = any || d.Enabled[k]
	}
	if !any && c.Int(4) > 0 {
		d.Enabled[kinds[c.Int(len(kinds))]] = true
		any = true
	}
	d.Prob = probs[c.Int(len(probs))]
	d.MaxFaults = c.Pick(1, 1, 2, 5, 1000)
	d.Stays = c.Int(3) == 2
	if c.Int(3) == 2 {
		d.Skip = c.Pick(10, 100, 1000, 5000)
		d.Skip = c.side.Intn(d.Skip)
		if c.Bool() { // just there
			d.Prob = 1
		}
	}
	d.Fresh = c.Pick(0, 0, 1, 2)
	return any
}

// target makes the faults of some runs meet the files of one kind, at an exact place.
func (c *Ctx) target(d *simos.Disk, only ...string) {
	if c.Int(3) < 2 {
		return
	}
	d.Only = only[c.Int(len(only))]
	d.Prob = 1
	d.Skip = c.side.Intn(c.Pick(20, 3, 8, 100, 1000))
}

var ioKinds = []simos.FaultKind{simos.FReadErr, simos.FShortRead, simos.FWriteErr, simos.FShortWrite, simos.FNoSpace, simos.FOpenErr, simos.FCreateErr, simos.FMkdirErr, simos.FSyncErr, simos.FCloseErr, simos.FStatErr, simos.FSeekErr, simos.FTruncErr, simos.FLateLoss}

func sameInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func shortI(x []int64) string {
	if len(x) > 12 {
		return fmt.Sprintf("%v...%v (%d)", x[:8], x[len(x)-3:], len(x))
	}
	return fmt.Sprint(x)
}

func multimap(faulty bool) func(c *Ctx) {
	return func(c *Ctx) {
		dFile, dFold := int64(c.Pick(1, 2, 1, 3)), int64(c.Pick(1, 2, 3))
		size := int64(c.Pick(5, 1, 2, 3, 4, 6, 8))
		cached := c.Int(3) != 2
		limit := int64(c.Pick(20, 1, 5, 100, 1000000))
		if dFile == 3 {
			limit *= 4
		}
		span := int64(c.Pick(30, 100, 9, 400, 1200))
		if c.Int(6) == 5 {
			span = 1000000000
		}
		nOps := c.Pick(60, 200, 10, 500)
		big := c.Int(24) == 23 // one very long list
		edges := c.Int(6) == 5 // lists about as long as the format's own limits
		drift := c.Bool()      // keys mostly grow, as in the chain
		fault := faulty && c.drawFaults(c.Disk, ioKinds, 0.01, 0.05, 0.3)
		if fault {
			c.target(c.Disk, ".iaa", "/00", "/Txos/")
		}
		c.Disk.Armed = false
		c.Desc = fmt.Sprintf("%d digits per file, %d per folder, %d byte elements, cached %v (limit %d), keys below %d, %d operations, long %v, faults %v", dFile, dFold, size, cached, limit, span, nOps, big, fault)
		model := map[int64][]int64{}
		unsure := map[int64]bool{} // keys seen; for the final sweep
		maxV := int64(1)<<min(62, uint(8*size)) - 1
		cr := intarrayarray.NewConcreteMapStoreCreator("Txos", "/data", dFile, dFold, size, cached)
		var st intarrayarray.IntArrayMapStoreReadWrite
		open := func() bool {
			s, err := cr.OpenMap()
			if !c.Check(err == nil, "map-open", "OpenMap: %v", err) {
				return false
			}
			if h, ok := simrt.Hooks["intarrayarray.limit"].(func(intarrayarray.IntArrayMapStoreReadWrite, int64)); ok {
				h(s, limit)
			}
			st = s
			return true
		}
		compare := func(k int64, got []int64, how string) bool {
			return c.Check(sameInts(got, model[k]), "map-contents", "list %d %s: got %s, want %s (%s)", k, how, shortI(got), shortI(model[k]), c.Desc)
		}
		errs, hits := 0, 0 // what was reported; what had failed when the last operation was done
		late := func() bool {
			return c.Check(errs > 1 || c.Disk.Hits() > hits, "map-late", "an operation fails though nothing failed meanwhile: what failed before (%s) was not reported then (%s)", c.Disk.LastFault, c.Desc)
		}
		o := c.Run(func() {
			c.Disk.Armed = false
			if err := cr.CreateMap(); !c.Check(err == nil, "map-create", "%v", err) || !open() {
				return
			}
			c.Disk.Armed = fault
			at := int64(0)
			key := func() int64 {
				r := c.side
				if drift {
					if r.Intn(3) == 0 {
						at += int64(r.Intn(int(min(span, 40))))
					}
					if at >= span {
						at = 0
					}
					if r.Intn(4) > 0 {
						return at
					}
				}
				if r.Intn(4) == 0 && len(model) > 0 { // one seen before
					ks := make([]int64, 0, len(model))
					for k := range model {
						ks = append(ks, k)
					}
					sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
					return ks[r.Intn(len(ks))]
				}
				return int64(r.Uint64() % uint64(span))
			}
			put := func(k, v int64) bool {
				err := st.AppendToArray(k, v)
				unsure[k] = true
				if err != nil {
					errs++
					return c.Check(fault, "map-error", "AppendToArray(%d): %v (%s)", k, err, c.Desc) && late()
				}
				hits = c.Disk.Hits()
				model[k] = append(model[k], v)
				return true
			}
			for i := 0; i < nOps; i++ {
				switch x := c.side.Intn(40); {
				case x < 30:
					v := int64(c.side.Uint64()) & maxV
					if size == 8 {
						v = int64(c.side.Uint64())
					}
					if !put(key(), v) {
						return
					}
				case x < 34:
					k := key()
					got, err := st.GetArray(k)
					if err != nil {
						errs++
						if !c.Check(fault, "map-error", "GetArray(%d): %v (%s)", k, err, c.Desc) || !late() {
							return
						}
						continue
					}
					hits = c.Disk.Hits()
					if !compare(k, got, "read back") {
						return
					}
				case x < 36:
					if err := st.FlushFile(); err != nil {
						errs++
						if !c.Check(fault, "map-error", "FlushFile: %v (%s)", err, c.Desc) || !late() {
							return
						}
					} else {
						hits = c.Disk.Hits()
					}
				case x < 38 && !fault:
					// another process reads, and this one goes on
					if err := st.Sync(); !c.Check(err == nil, "map-error", "Sync: %v (%s)", err, c.Desc) {
						return
					}
					still := c.Only("reading a multimap")
					ro, err := cr.OpenMapReadOnly()
					if !c.Check(err == nil, "map-open", "OpenMapReadOnly: %v", err) {
						return
					}
					for j := 0; j < 5; j++ {
						k := key()
						got, err := ro.GetArray(k)
						if !c.Check(err == nil, "map-error", "GetArray(%d) read-only: %v (%s)", k, err, c.Desc) || !compare(k, got, "read by a read-only user") {
							return
						}
					}
					still()
				case x < 39:
					// closed in good order and opened again
					if err := st.Sync(); err != nil {
						errs++
						if !c.Check(fault, "map-error", "Sync: %v (%s)", err, c.Desc) || !late() {
							return
						}
						continue
					}
					hits = c.Disk.Hits()
					if !open() {
						return
					}
				}
				if i == nOps/2 && (big || edges) || edges && i == nOps/4 {
					k := key()
					n := 250 + c.side.Intn(9) - len(model[k])
					if big {
						n = c.Pick(300, 66000, 65530+c.side.Intn(8)-len(model[k]))
					}
					for j := 0; j < n; j++ {
						if !put(k, int64(j)&maxV) {
							return
						}
					}
				}
			}
			c.Disk.Armed = false
			if err := st.Sync(); !c.Check(err == nil, "map-error", "Sync with a sound disk: %v (%s)", err, c.Desc) {
				return
			}
			c.Closed("a multimap")
			still := c.Only("reading a multimap")
			ro, err := cr.OpenMapReadOnly()
			if !c.Check(err == nil, "map-open", "OpenMapReadOnly: %v", err) {
				return
			}
			ks := make([]int64, 0, len(unsure))
			for k := range unsure {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
			for i := 0; i < 5; i++ {
				ks = append(ks, int64(c.side.Uint64()%uint64(span)))
			}
			for i, k := range ks {
				if i > 60 && c.side.Intn(len(ks)) > 60 {
					continue
				}
				got, err := ro.GetArray(k)
				if !c.Check(err == nil, "map-error", "GetArray(%d) at the end: %v (%s)", k, err, c.Desc) || !compare(k, got, "at the end") {
					return
				}
			}
			still()
			if c.side.Intn(4) > 0 {
				return
			}
			// A store created over this one starts empty. A creation that fails may be tried again.
			c.Disk.Armed = fault
			err = cr.CreateMap()
			c.Disk.Armed = false
			if err != nil && fault {
				errs++
				err = cr.CreateMap()
			}
			model = map[int64][]int64{}
			if !c.Check(err == nil, "map-create", "again: %v (%s)", err, c.Desc) || !open() {
				return
			}
			for i, k := range ks {
				if i > 40 && c.side.Intn(len(ks)) > 40 {
					continue
				}
				got, err := st.GetArray(k)
				if !c.Check(err == nil, "map-error", "GetArray(%d) of the store created again: %v (%s)", k, err, c.Desc) || !compare(k, got, "of the store created again") {
					return
				}
				if i%3 == 0 && !put(k, int64(i)&maxV) {
					return
				}
			}
			if err := st.Sync(); !c.Check(err == nil, "map-error", "Sync of the store created again: %v (%s)", err, c.Desc) {
				return
			}
			for _, k := range ks {
				got, err := st.GetArray(k)
				if !c.Check(err == nil, "map-error", "GetArray(%d) of the store created again: %v (%s)", k, err, c.Desc) || !compare(k, got, "of the store created again") {
					return
				}
			}
		})
		c.NoteN("map:reported-errors", errs)
		if o.Kind != "returned" && fault {
			// stopping loudly is not silence, but a store must not hang
			c.Check(o.Kind == "panic" || o.Kind == "exit", "map-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc)
			c.Check(errs > 0 || c.Disk.Hits() > hits, "map-late", "%s %s, though nothing failed meanwhile: what failed before (%s) was not reported then (%s)", o.Kind, firstLine(o.Detail), c.Disk.LastFault, c.Desc)
			c.Note("map:loud-stop")
			return
		}
		c.Check(o.Kind == "returned", "map-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc)
	}
}

func init() {
	register("multimap", 300_000_000, multimap(false))
	register("multimap-faults", 300_000_000, multimap(true))
}
