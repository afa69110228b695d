package main

import (
	"fmt"

	"github.com/KitchenMishap/pudding-shed/concurrency"
	"github.com/KitchenMishap/pudding-shed/memblocker"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
	simruntime "github.com/KitchenMishap/pudding-shed/verifsim/simruntime"
	simsync "github.com/KitchenMishap/pudding-shed/verifsim/simsync"
)

type seqItem struct {
	n       int64
	payload uint64
}

func (s *seqItem) SequenceNumber() int64 { return s.n }

// nap sleeps for a drawn while, or not at all.
func (c *Ctx) nap(style int) {
	switch style {
	case 0:
	case 1:
		if c.side.Intn(3) == 0 {
			simrt.Sleep(int64(c.side.Intn(1000)) * 1000)
		}
	case 2:
		d := c.side.Intn(100)
		simrt.Sleep(int64(d*d*d) * 1000)
	}
}

func init() {
	// ---- sequencer fed by a pool of workers, with a gate upstream
	register("sequencer", 20_000_000, func(c *Ctx) {
		n := c.Pick(40, 0, 1, 2, 7, 150, 400)
		first := int64(c.Pick(0, 0, 1, 1000000, 32879))
		if c.Int(12) == 11 {
			first = -3
		}
		bloat := c.Pick(5, 1, 2, 3, 10, 100, 1000)
		workers := c.Pick(3, 1, 2, 5, 8, 16)
		gated := c.Int(5) != 4
		fault := 0 // 1 a number never arrives, 2 one arrives again after its turn, 3 one before the first
		if n > 2 && c.Int(4) == 3 {
			fault = 1 + c.Int(3)
		}
		style, cstyle := c.Int(3), c.Int(3)
		slow := -1 // one particular item is very slow: everything after it piles up
		if n > 0 && c.Bool() {
			slow = c.Int(n)
		}
		victim := c.Int(n + 1)
		if victim >= n {
			victim = n - 1
		}
		outCap := c.Pick(0, 0, 1, 50)
		if fault == 1 {
			victim = victim % (n - 1) // not the last one: that would only be an early end
			gated = false             // the gate would wait for ever
		}
		feeders := c.Pick(1, 1, 2, 4) // several that take the numbers in turn, each waiting at the gate before
		if fault != 0 {
			feeders = 1
		}
		c.Desc = fmt.Sprintf("%d items from %d, pile limit %d, %d workers, gated %v, fault %d at %d, slow item %d, out buffer %d, %d feeders", n, first, bloat, workers, gated, fault, victim, slow, outCap, feeders)
		in, delivered, maxHeld := 0, 0, 0
		closed := false
		var got []int64
		held := func() { maxHeld = max(maxHeld, in-delivered) }
		o := c.Run(func() {
			out := simrt.MakeChan[*seqItem](outCap)
			sc := concurrency.NewSequencerContainer[*seqItem](first, bloat, out)
			work := simrt.MakeChan[*seqItem]()
			var wg simsync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				simrt.Go(func() {
					defer wg.Done()
					for {
						it, ok := work.Recv2()
						if !ok {
							return
						}
						c.nap(style)
						if int(it.n-first) == slow {
							simrt.Sleep(5e9)
						}
						if fault == 1 && it.n == first+int64(victim) {
							continue
						}
						sc.InChan.Send(it)
						in++
						held()
					}
				})
			}
			simrt.Go(func() {
				next := 0
				feed := func() {
					for {
						if gated {
							sc.WaitForNotBloated()
						}
						if next >= n {
							return
						}
						i := next
						next++
						work.Send(&seqItem{first + int64(i), uint64(i) * 77})
					}
				}
				var fg simsync.WaitGroup
				for k := 1; k < feeders; k++ {
					fg.Add(1)
					simrt.Go(func() {
						defer fg.Done()
						feed()
					})
				}
				feed()
				fg.Wait()
				work.Close()
				wg.Wait()
				switch fault {
				case 2: // everything was consumed in order by now, or is about to be
					sc.InChan.Send(&seqItem{first + int64(victim), 1})
				case 3:
					sc.InChan.Send(&seqItem{first - 1, 1})
				}
				sc.InChan.Close()
			})
			for {
				it, ok := out.Recv2()
				if !ok {
					closed = true
					break
				}
				if !c.Check(it.n == first+int64(len(got)), "seq-order", "item number %d came out where %d was due (%s)", it.n, first+int64(len(got)), c.Desc) {
					return
				}
				if !c.Check(it.payload == uint64(len(got))*77, "seq-content", "item %d came out altered (%s)", it.n, c.Desc) {
					return
				}
				got = append(got, it.n)
				delivered++
				c.nap(cstyle)
			}
		})
		if c.Failed() {
			return
		}
		if gated {
			// the gate admits one more item after the pile is full; every worker may hold one
			c.Check(maxHeld <= bloat+workers+1+feeders+outCap, "seq-backpressure", "%d items were held at once (%s)", maxHeld, c.Desc)
		}
		if fault == 0 {
			if c.Check(o.Kind == "returned", "seq-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc) {
				c.Check(closed && len(got) == n, "seq-lost", "%d of %d items came out (%s)", len(got), n, c.Desc)
			}
			return
		}
		// a stream with a hole or a foreign number must not end like a complete one
		c.Check(!closed && o.Kind == "panic", "seq-jam-undetected", "the output ended normally after %d of %d items (%s; %s)", len(got), n, o.Kind, c.Desc)
	})

	// ---- worker pool
	register("pool", 20_000_000, func(c *Ctx) {
		workers := c.Pick(3, 1, 2, 5, 8, 16)
		clients := c.Pick(1, 2, 4)
		per := c.Pick(10, 0, 1, 3, 60)
		rendezvous := c.Bool() && workers > 1
		errPct := c.Pick(0, 20, 100)
		style := c.Int(3)
		c.Desc = fmt.Sprintf("%d workers, %d clients with %d tasks each, rendezvous %v, %d%% failing", workers, clients, per, rendezvous, errPct)
		active, peak := 0, 0
		var all []*poolTask
		o := c.Run(func() {
			wp := concurrency.NewWorkerPool(workers)
			var wg simsync.WaitGroup
			for k := 0; k < clients; k++ {
				var mine []*poolTask
				for i := 0; i < per; i++ {
					t := &poolTask{id: len(all), c: c, wg: &wg, style: style, active: &active, peak: &peak}
					if c.side.Intn(100) < errPct {
						t.fail = fmt.Errorf("task %d", t.id)
					}
					all = append(all, t)
					mine = append(mine, t)
				}
				wg.Add(len(mine))
				simrt.Go(func() {
					for _, t := range mine {
						wp.InChan.Send(t)
					}
				})
			}
			wg.Wait()
			for _, t := range all {
				c.Check(t.GetError() == t.fail, "pool-error", "task %d reports error %v, its own was %v (%s)", t.id, t.GetError(), t.fail, c.Desc)
			}
			if rendezvous {
				// as many tasks as workers, none of which can finish before all have begun
				var all2, done simsync.WaitGroup
				all2.Add(workers)
				done.Add(workers)
				for i := 0; i < workers; i++ {
					wp.InChan.Send(&poolTask{id: -1, c: c, wg: &done, meet: &all2, active: &active, peak: &peak})
				}
				done.Wait()
			}
			wp.InChan.Close()
			simrt.Sleep(1e9)
			c.Check(simrt.TaskCount() <= 1, "pool-leak", "%d goroutines live on after the pool's input was closed (%s)", simrt.TaskCount()-1, c.Desc)
		})
		if !c.Check(o.Kind == "returned", "pool-"+o.Kind, "%s %s (%s)", o.Kind, firstLine(o.Detail), c.Desc) {
			return
		}
		c.Check(peak <= workers, "pool-width", "%d tasks ran at once (%s)", peak, c.Desc)
		for _, t := range all {
			if !c.Check(t.runs == 1 && t.sets == 1 && t.dones == 1, "pool-once", "task %d was processed %d times, given its error %d times, finished %d times (%s)", t.id, t.runs, t.sets, t.dones, c.Desc) {
				return
			}
		}
	})

	// ---- memory valve
	register("memvalve", 20_000_000, func(c *Ctx) {
		limit := uint64(c.Range(20, 400))
		producers := c.Pick(2, 1, 3, 6)
		consumers := c.Pick(1, 2, 3)
		per := c.Pick(5, 1, 20)
		bySize := c.Range(1, 60)
		oneBatch := c.Bool() // one free makes room for everybody and is announced once
		style := c.Int(3)
		c.Desc = fmt.Sprintf("limit %d, %d producers with %d items of up to %d, %d consumers, freed in one batch %v", limit, producers, per, bySize, consumers, oneBatch)
		heap := uint64(0)
		lastSeen := map[int]uint64{}
		simruntime.HeapFn = func() uint64 { lastSeen[simrt.CurID()] = heap; return heap }
		passed := 0
		o := c.Run(func() {
			mb := memblocker.NewMemBlocker(limit)
			var wg simsync.WaitGroup
			if oneBatch {
				heap = limit + uint64(c.Int(3))
				wg.Add(producers)
				for p := 0; p < producers; p++ {
					simrt.Go(func() {
						defer wg.Done()
						c.nap(style)
						mb.WaitForSpareMemory()
						c.Check(lastSeen[simrt.CurID()] < limit, "valve-early", "a waiter was let through at %d with a limit of %d", lastSeen[simrt.CurID()], limit)
						passed++
					})
				}
				simrt.Sleep(int64(c.Pick(0, 1000, 2000000000)))
				c.Check(passed == 0, "valve-early", "a waiter was let through at %d with a limit of %d", heap, limit)
				c.Check(!mb.IsThereFreeMemory(), "valve-answer", "free memory is reported at %d with a limit of %d", heap, limit)
				mb.StartFreeingMem()
				heap = limit - 1 - uint64(c.Int(int(limit)))
				mb.MemoryWasFreed()
				c.Check(mb.IsThereFreeMemory(), "valve-answer", "no free memory is reported at %d with a limit of %d", heap, limit)
				wg.Wait()
				return
			}
			q := simrt.MakeChan[uint64](10000)
			left := producers * per
			wg.Add(producers)
			for p := 0; p < producers; p++ {
				simrt.Go(func() {
					defer wg.Done()
					for i := 0; i < per; i++ {
						mb.WaitForSpareMemory()
						c.Check(lastSeen[simrt.CurID()] < limit, "valve-early", "a waiter was let through at %d with a limit of %d", lastSeen[simrt.CurID()], limit)
						passed++
						s := uint64(1 + c.side.Intn(bySize))
						heap += s
						c.nap(style)
						q.Send(s)
					}
				})
			}
			for k := 0; k < consumers; k++ {
				simrt.Go(func() {
					for {
						s, ok := q.Recv2()
						if !ok {
							return
						}
						c.nap(style)
						mb.StartFreeingMem()
						heap -= s
						mb.MemoryWasFreed()
						if left--; left == 0 {
							q.Close()
						}
					}
				})
			}
			wg.Wait()
		})
		want := producers
		if !oneBatch {
			want = producers * per
		}
		if c.Check(o.Kind == "returned", "valve-"+o.Kind, "%s %s: %d of %d went through (%s)", o.Kind, firstLine(o.Detail), passed, want, c.Desc) {
			c.Check(passed == want, "valve-lost", "%d of %d went through (%s)", passed, want, c.Desc)
		}
	})
}

type poolTask struct {
	id                int
	c                 *Ctx
	wg                *simsync.WaitGroup
	meet              *simsync.WaitGroup
	fail, err         error
	style             int
	runs, sets, dones int
	active, peak      *int
}

func (t *poolTask) Process() error {
	t.runs++
	*t.active++
	*t.peak = max(*t.peak, *t.active)
	t.c.nap(t.style)
	if t.meet != nil {
		t.meet.Done()
		t.meet.Wait()
	}
	*t.active--
	return t.fail
}
func (t *poolTask) SetError(e error) {
	t.sets++
	if t.runs != 1 || t.dones != 0 {
		t.c.Fail("pool-sequence", "task %d was given its error after %d runs and %d endings", t.id, t.runs, t.dones)
	}
	t.err = e
}
func (t *poolTask) Done() {
	t.dones++
	if t.sets != 1 {
		t.c.Fail("pool-sequence", "task %d was finished before its error was set", t.id)
	}
	t.wg.Done()
}
func (t *poolTask) GetError() error { return t.err }
