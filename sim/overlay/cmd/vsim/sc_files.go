package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/KitchenMishap/pudding-shed/memfile"
	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
	"github.com/KitchenMishap/pudding-shed/wordfile"
)

// recFile is a file of equally sized records, whichever type of the repository
// is behind it.
type recFile interface {
	write(i int64, rec []byte) error
	read(i int64) ([]byte, error)
	count() int64
	whole() ([]byte, error) // nil, nil: cannot
	sync() error
	close() error
}

type wordRec struct {
	ro wordfile.ReadAtWordCounter
	rw wordfile.ReadWriteAtWordCounter
}

func (w *wordRec) write(i int64, rec []byte) error {
	var b [8]byte
	copy(b[:], rec)
	return w.rw.WriteWordAt(int64(binary.LittleEndian.Uint64(b[:])), i)
}
func (w *wordRec) read(i int64) ([]byte, error) {
	v, err := w.ro.ReadWordAt(i)
	if err != nil {
		return nil, err
	}
	return binary.LittleEndian.AppendUint64(nil, uint64(v)), nil
}
func (w *wordRec) count() int64 {
	n, err := w.ro.CountWords()
	if err != nil {
		return -1
	}
	return n
}
func (w *wordRec) whole() ([]byte, error) {
	x, ok := w.ro.(interface{ ReadWholeFileAsInt64s() ([]int64, error) })
	if !ok {
		return nil, nil
	}
	vs, err := x.ReadWholeFileAsInt64s()
	if err != nil {
		return nil, err
	}
	out := []byte{}
	for _, v := range vs {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(v))
		out = append(out, b[:w.ro.WordSize()]...)
	}
	return out, nil
}
func (w *wordRec) sync() error  { return w.rw.Sync() }
func (w *wordRec) close() error { return w.ro.Close() }

type hashRec struct {
	f   *wordfile.HashFile
	app bool
}

func (w *hashRec) write(i int64, rec []byte) error {
	if w.app && i == w.f.CountHashes() {
		at, err := w.f.AppendHash([32]byte(rec))
		if err == nil && at != i {
			return fmt.Errorf("wrong place: AppendHash gave %d, want %d", at, i)
		}
		return err
	}
	return w.f.WriteHashAt([32]byte(rec), i)
}
func (w *hashRec) read(i int64) ([]byte, error) {
	h, err := w.f.ReadHashAt(i)
	return h[:], err
}
func (w *hashRec) count() int64           { return w.f.CountHashes() }
func (w *hashRec) whole() ([]byte, error) { return nil, nil }
func (w *hashRec) sync() error            { return w.f.Sync() }
func (w *hashRec) close() error           { return w.f.Close() }

type rawRec struct {
	f  memfile.AppendableLookupFileReadAll
	sz int64
}

func (w *rawRec) write(i int64, rec []byte) error {
	n, err := w.f.WriteAt(rec, i*w.sz)
	if err == nil && n != len(rec) {
		return fmt.Errorf("WriteAt wrote %d of %d bytes and reported no error", n, len(rec))
	}
	return err
}
func (w *rawRec) read(i int64) ([]byte, error) {
	b := make([]byte, w.sz)
	n, err := w.f.ReadAt(b, i*w.sz)
	if err == nil && n != len(b) {
		return b, fmt.Errorf("ReadAt read %d of %d bytes and reported no error", n, len(b))
	}
	return b, err
}
func (w *rawRec) count() int64 {
	return w.f.(interface{ Size() int64 }).Size() / w.sz
}
func (w *rawRec) whole() ([]byte, error) { return w.f.ReadAll() }
func (w *rawRec) sync() error            { return w.f.Sync() }
func (w *rawRec) close() error           { return w.f.Close() }

var errNoFile = errors.New("no error, and no file either")

const (
	filesPlain = iota
	filesFaults
	filesDurable
)

func filesRun(mode int) func(c *Ctx) {
	return func(c *Ctx) {
		kind := c.Int(3)
		sz := int64(c.Pick(5, 1, 2, 3, 4, 6, 7, 8))
		shadow := false
		app := c.Bool()
		path, dir := "/data/F.int", "/data"
		what := ""
		switch kind {
		case 0:
			shadow = c.Int(3) == 2
			what = fmt.Sprintf("%d byte words, memory shadow %v", sz, shadow)
		case 1:
			sz = 32
			path = "/data/F.hsh"
			what = fmt.Sprintf("hashes, append optimised %v", app)
		case 2:
			sz = int64(c.Pick(8, 1, 33, 4096, 5000, 700))
			what = fmt.Sprintf("%d byte records, append optimised file", sz)
		}
		nOps := c.Pick(60, 10, 200, 600)
		appendPct := c.Pick(70, 95, 100, 30)
		fault := mode == filesFaults && c.drawFaults(c.Disk, ioKinds, 0.003, 0.03, 0.2)
		c.Disk.Track = mode == filesDurable
		c.Disk.Armed = false
		stop := nOps
		if mode == filesDurable {
			stop = c.Int(nOps + 1)
		}
		c.Desc = fmt.Sprintf("%s; %d operations, %d%% appends; faults %v", what, nOps, appendPct, fault)
		wfc := wordfile.NewConcreteWordFileCreator("F", dir, sz, shadow, false)
		open := func(flag int) (recFile, error) {
			if kind == 0 {
				if flag == simos.O_RDONLY {
					var cr wordfile.WordFileCreator = wfc
					switch c.side.Intn(4) { // also through a memory map
					case 0:
						cr = wordfile.NewConcreteMmapWordFileCreator("F", dir, sz)
					case 1:
						cr = wordfile.NewConcreteWordFileCreator("F", dir, sz, shadow, true)
					}
					f, err := cr.OpenWordFileReadOnly()
					if err == nil && isNil(f) {
						err = errNoFile
					}
					return &wordRec{ro: f}, err
				}
				f, err := wfc.OpenWordFile()
				if err == nil && isNil(f) {
					err = errNoFile
				}
				return &wordRec{f, f}, err
			}
			f, err := simos.OpenFile(path, flag, 0)
			if err != nil {
				return nil, err
			}
			st, err := f.Stat()
			if err != nil {
				return nil, err
			}
			var a memfile.AppendableLookupFileReadAll = memfile.NewFileWithSize(f)
			if (app || kind == 2) && flag != simos.O_RDONLY {
				if a, err = memfile.NewAppendOptimizedFile(f); err != nil {
					return nil, err
				}
			}
			if kind == 1 {
				return &hashRec{wordfile.NewHashFile(a, st.Size()/32), app}, nil
			}
			if flag == simos.O_RDONLY && c.side.Intn(2) == 0 {
				m, err := memfile.NewMmapReadOnly(f)
				return &rawRec{m, sz}, err
			}
			return &rawRec{a, sz}, nil
		}
		var model [][]byte
		unsure := map[int64]bool{} // records a failed write may have touched
		dirty := map[int64]bool{}  // written since the last successful sync
		synced := 0
		zero := make([]byte, sz)
		errs, hits := 0, 0 // what was reported; what had failed when the last operation was done
		okErr := func(err error, f string, a ...any) bool {
			errs++
			what := fmt.Sprintf(f, a...)
			return c.Check(fault, "file-error", "%s: %v (%s)", what, err, c.Desc) &&
				c.Check(errs > 1 || c.Disk.Hits() > hits, "file-late", "%s: %v, though nothing failed meanwhile: what failed before (%s) was not reported then (%s)", what, err, c.Disk.LastFault, c.Desc)
		}
		same := func(got []byte, i int64, how string) bool {
			want := model[i]
			g := got
			if kind == 0 {
				want = append(append([]byte{}, want...), make([]byte, 8-sz)...)
			}
			return c.Check(unsure[i] || bytes.Equal(g, want), "file-contents", "record %d of %d %s: got %x, want %x (%s)", i, len(model), how, g[:min(len(g), 40)], want[:min(len(want), 40)], c.Desc)
		}
		checkAll := func(f recFile, how string, most int) bool {
			if !c.Check(f.count() == int64(len(model)) || len(unsure) > 0, "file-count", "%s: the count is %d, want %d (%s)", how, f.count(), len(model), c.Desc) {
				return false
			}
			for i := range model {
				if len(model) > most && c.side.Intn(len(model)) > most {
					continue
				}
				got, err := f.read(int64(i))
				if unsure[int64(i)] {
					continue
				}
				if !c.Check(err == nil, "file-error", "%s: reading record %d of %d: %v (%s)", how, i, len(model), err, c.Desc) || !same(got, int64(i), how) {
					return false
				}
			}
			if len(unsure) > 0 {
				return true
			}
			if kind != 2 || sz > 1 { // beyond the end
				got, err := f.read(int64(len(model)))
				if !c.Check(err != nil, "file-beyond", "%s: reading beyond the end gives %x and no error (%s)", how, got, c.Desc) {
					return false
				}
			}
			w, err := f.whole()
			if !c.Check(err == nil, "file-error", "%s: reading the whole file: %v (%s)", how, err, c.Desc) {
				return false
			}
			if kind == 0 || kind == 2 {
				all := bytes.Join(model, nil)
				if !c.Check(bytes.Equal(w, all), "file-contents", "%s: the whole file differs: %d bytes, want %d (%s)", how, len(w), len(all), c.Desc) {
					return false
				}
			}
			return true
		}
		early := fault && c.Bool()
		// opening tries with a failing disk first in some runs; what is reported is tried again without
		opening := func(flag int) (recFile, error) {
			if early {
				c.Disk.Armed = true
				f, err := open(flag)
				c.Disk.Armed = false
				if err == nil || errors.Is(err, errNoFile) {
					return f, err
				}
				c.Note("file:open-reported")
			}
			return open(flag)
		}
		broken := false // a write or flush failed: only what was safe before counts
		o := c.Run(func() {
			var err error
			if kind == 0 {
				c.Check(!wfc.WordFileExists(), "file-exists", "exists before it was created (%s)", c.Desc)
				create := wfc.CreateWordFile
				if c.Int(4) == 3 {
					pre := int64(c.Pick(1, 20))
					create = func() error { return wfc.CreateWordFileFilledZeros(pre) }
					for i := int64(0); i < pre; i++ {
						model = append(model, zero)
						dirty[i] = true
					}
				} else if c.side.Intn(3) == 0 {
					mm := wordfile.NewConcreteMmapWordFileCreator("F", dir, sz)
					c.Check(!mm.WordFileExists(), "file-exists", "exists before it was created (%s)", c.Desc)
					create = mm.CreateWordFile
				}
				c.Disk.Armed = early
				err = create()
				c.Disk.Armed = false
				if early && err != nil {
					c.Note("file:create-reported")
					err = create()
				}
				c.Check(wfc.WordFileExists(), "file-exists", "does not exist after it was created (%s)", c.Desc)
			} else {
				if err = simos.MkdirAll(dir, 0777); err == nil {
					var f *simos.File
					if f, err = simos.Create(path); err == nil {
						err = f.Close()
					}
				}
			}
			if !c.Check(err == nil, "file-create", "%v (%s)", err, c.Desc) {
				return
			}
			f, err := opening(simos.O_RDWR)
			if !c.Check(err == nil, "file-open", "%v (%s)", err, c.Desc) || fault && !checkAll(f, "created", 20) {
				return
			}
			c.Disk.Armed = fault
			for i := 0; i < nOps && !broken; i++ {
				if i == stop {
					return // the process ends here, nothing closed
				}
				hits = c.Disk.Hits()
				switch x := c.side.Intn(20); {
				case x < 12: // write
					at := int64(len(model))
					if c.side.Intn(100) >= appendPct {
						switch c.side.Intn(5) {
						case 0: // leave a gap
							if kind == 1 && app {
								break
							}
							at += int64(1 + c.side.Intn(6))
						default:
							if at > 0 {
								at = int64(c.side.Intn(int(at)))
							}
						}
					}
					rec := make([]byte, sz)
					for j := range rec {
						rec[j] = byte(c.side.Uint64())
					}
					if kind == 0 && sz == 8 {
						rec[7] &= 0x7f
					}
					if c.side.Intn(8) == 0 {
						rec = append([]byte{}, zero...)
					}
					if err := f.write(at, rec); err != nil {
						if !okErr(err, "writing record %d", at) {
							return
						}
						// Records still in a buffer are in doubt as well; those that
						// were synced are not
						broken = true
						for j := int64(0); j <= int64(len(model)); j++ {
							if j >= int64(synced) || dirty[j] {
								unsure[j] = true
							}
						}
						unsure[at] = true
						break
					}
					for int64(len(model)) <= at {
						dirty[int64(len(model))] = true
						model = append(model, zero)
					}
					model[at] = rec
					dirty[at] = true
				case x < 16: // read
					if len(model) == 0 {
						continue
					}
					at := int64(c.side.Intn(len(model)))
					got, err := f.read(at)
					if err != nil {
						if !okErr(err, "reading record %d", at) {
							return
						}
						continue
					}
					if !same(got, at, "read back") {
						return
					}
				case x < 17:
					if !c.Check(f.count() == int64(len(model)), "file-count", "the count is %d, want %d (%s)", f.count(), len(model), c.Desc) {
						return
					}
					if !fault && c.side.Intn(3) == 0 && !checkAll(f, "in passing", 30) {
						return
					}
				case x < 19: // sync
					if err := f.sync(); err != nil {
						if !okErr(err, "Sync") {
							return
						}
						if c.Disk.Fired[simos.FLateLoss] > 0 { // what was written since the last Sync may be lost
							broken = true
							for j := range model {
								if j >= synced || dirty[int64(j)] {
									unsure[int64(j)] = true
								}
							}
							unsure[int64(len(model))] = true
						}
						continue
					}
					synced = len(model)
					dirty = map[int64]bool{}
					if mode == filesPlain && c.side.Intn(2) == 0 {
						held := simos.Cur.Handles()
						still := c.Only("reading a file")
						ro, err := open(simos.O_RDONLY)
						if !c.Check(err == nil, "file-open", "read-only: %v (%s)", err, c.Desc) || !checkAll(ro, "read-only after Sync", 30) {
							return
						}
						c.Check(ro.close() == nil, "file-close", "Close (%s)", c.Desc)
						still()
						c.keep = held
						c.Closed("a file open to read")
						c.keep = nil
					}
				default: // close, open again
					if err := f.close(); err != nil {
						if !okErr(err, "Close") {
							return
						}
						broken = true
						for j := range model {
							if j >= synced || dirty[int64(j)] {
								unsure[int64(j)] = true
							}
						}
						unsure[int64(len(model))] = true
						f = nil
						break
					}
					c.Closed("a file")
					c.Disk.Armed = false
					f, err = opening(simos.O_RDWR)
					if !c.Check(err == nil, "file-open", "again: %v (%s)", err, c.Desc) || !checkAll(f, "reopened", 20) {
						return
					}
					c.Disk.Armed = fault
				}
			}
			if stop == nOps && mode == filesDurable {
				return
			}
			hits = c.Disk.Hits()
			if f != nil {
				if err := f.close(); err != nil {
					if !okErr(err, "Close") {
						return
					}
					if !broken {
						for j := range model {
							if j >= synced || dirty[int64(j)] {
								unsure[int64(j)] = true
							}
						}
						unsure[int64(len(model))] = true
					}
				}
			}
			c.Disk.Armed = false
			defer c.Only("reading a file")()
			ro, err := opening(simos.O_RDONLY)
			if err != nil && len(unsure) > 0 { // a torn record at the end is noticed
				errs++
				return
			}
			if !c.Check(err == nil, "file-open", "read-only: %v (%s)", err, c.Desc) || !checkAll(ro, "closed and reopened", 200) {
				return
			}
			if c.leaks && c.Check(ro.close() == nil, "file-close", "Close (%s)", c.Desc) {
				c.Closed("a file")
			}
		})
		c.NoteN("file:reported-errors", errs)
		if !c.Check(o.Kind == "returned", "file-"+o.Kind, "%s (%s)", firstLine(o.Detail), c.Desc) || c.Failed() {
			return
		}
		if mode == filesDurable {
			how := "the process died"
			if c.Int(3) > 0 {
				how = "the power failed"
				c.NoteN("power-loss:writes-lost", c.Disk.PowerLoss(func(n int) int { return c.side.Intn(n) }))
				c.Faults["power-loss"]++
			} else {
				c.Faults["process-death"]++
			}
			b, _ := c.Disk.Get(path)
			for i := 0; i < synced; i++ {
				if dirty[int64(i)] {
					continue
				}
				lo, hi := int64(i)*sz, int64(i+1)*sz
				ok := int64(len(b)) >= hi && bytes.Equal(b[lo:hi], model[i])
				if !c.Check(ok, "file-lost", "after %s, record %d of the %d synced before is gone or different (file of %d bytes; %s)", how, i, synced, len(b), c.Desc) {
					return
				}
			}
			c.NoteN("durable:records-checked", synced)
		}
	}
}

func init() {
	register("files", 60_000_000, filesRun(filesPlain))
	register("files-faults", 60_000_000, filesRun(filesFaults))
	register("files-durable", 60_000_000, filesRun(filesDurable))
}
