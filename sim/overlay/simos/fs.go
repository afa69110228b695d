// Package os is the simulated counterpart of the standard package: an
// in-memory file system that distinguishes what the operating system has been
// told from what the disk has been told, and injects faults on request.
package os

import (
	"bytes"
	"errors"
	"hash/crc32"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// ---- the simulated disk (survives process incarnations)

type pend struct {
	off   int64
	data  []byte
	trunc int64 // -1: a write
}

type inode struct {
	ino     uint64
	dir     bool
	mode    fs.FileMode
	data    []byte
	mtime   int64
	kids    map[string]*inode
	durable []byte
	pending []pend
	synced  bool
	syncs   int
}

// FaultKind enumerates what the simulated disk can do wrong.
type FaultKind int

const (
	FNone FaultKind = iota
	FReadErr
	FShortRead
	FWriteErr
	FShortWrite // part of the data is written, then ENOSPC
	FNoSpace
	FOpenErr
	FCreateErr
	FMkdirErr
	FSyncErr
	FCloseErr
	FStatErr
	FRemoveErr
	FMmapErr
	FSeekErr
	FTruncErr
	FLateLoss // a write that went well never reached the disk; the next fsync or close of the file says so
	FCrash    // the process dies here
	NFaults
)

var FaultNames = [...]string{"none", "read-eio", "short-read", "write-eio", "short-write-enospc", "write-enospc", "open-eio",
	"create-enospc", "mkdir-enospc", "fsync-eio", "close-eio", "stat-eio", "remove-eio", "mmap-enomem", "seek-eio", "truncate-eio", "late-write-eio", "process-crash"}

// Disk is one simulated disk.
type Disk struct {
	root    *inode
	nextIno uint64

	// configuration
	Enabled   [NFaults]bool
	Prob      float64 // probability of a fault per eligible operation
	MaxFaults int     // at most this many (0: unlimited)
	Capacity  int64   // full disk: total bytes (0: unlimited)
	Track     bool    // track durability
	Armed     bool    // faults only fire while armed
	StdoutBad bool    // stdout/stderr are a pipe: fsync fails with EINVAL
	Only      string  // only files whose names contain this ("": all)
	Skip      int     // eligible operations before the first fault
	Stays     bool    // what failed once on a file goes on failing on it
	Fresh     int     // only the first few of each kind of operation on a file since it was opened (0: any)

	// measurements
	Fired         [NFaults]int
	Ops           uint64
	Muts          uint64 // mutating operations on the name space or file contents
	used          int64
	Touched       map[string]Touch // what was changed, created or removed, if anybody asks
	handles       map[string]int   // files that are open, by name
	maps          map[*byte]string
	MutLog        []string
	FullHits      int
	LastFault     string
	StickyNoSpace bool // once ENOSPC fires, every later growth fails too
	full          bool
	skipped       int
	stuck         map[string]FaultKind
	seen          map[string]map[string]int
	Repeats       int // faults that only repeat one that stays
}

// Cur is the disk mounted at / .
var Cur *Disk

func NewDisk() *Disk {
	d := &Disk{}
	d.root = d.newInode(true, fs.ModeDir|0755)
	return d
}

func (d *Disk) newInode(dir bool, mode fs.FileMode) *inode {
	d.nextIno++
	n := &inode{ino: d.nextIno, dir: dir, mode: mode}
	if dir {
		n.kids = map[string]*inode{}
	}
	return n
}

// Total number of faults fired.
func (d *Disk) Faults() int {
	n := 0
	for _, f := range d.Fired {
		n += f
	}
	return n + d.FullHits
}

// Handles lists the files that are open.
func (d *Disk) Handles() []string {
	var l []string
	for n, k := range d.handles {
		for ; k > 0; k-- {
			l = append(l, n)
		}
	}
	for _, n := range d.maps {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// NewProcess forgets the files an earlier process had open.
func (d *Disk) NewProcess() { d.handles, d.maps = nil, nil }

// Hits is the number of operations that failed, those that kept failing included.
func (d *Disk) Hits() int { return d.Faults() + d.Repeats }

// Skipped is the number of operations that could have failed, but for Skip.
func (d *Disk) Skipped() int { return d.skipped }

func dying() bool { return simrt.S != nil && simrt.Dying() }

var errDead = errors.New("process is dead")

// fault asks whether an operation fails; kinds are those that apply to it.
func (d *Disk) fault(op, name string, kinds ...FaultKind) FaultKind {
	s := simrt.S
	if s == nil {
		return FNone
	}
	simrt.P()
	d.Ops++
	if !d.Armed || d.Prob == 0 {
		return FNone
	}
	var el [8]FaultKind
	n := 0
	for _, k := range kinds {
		if d.Enabled[k] {
			el[n] = k
			n++
		}
	}
	if d.Enabled[FCrash] {
		el[n] = FCrash
		n++
	}
	if n == 0 {
		return FNone
	}
	if d.Stays {
		if k, ok := d.stuck[name]; ok {
			for _, e := range el[:n] {
				if e == k {
					d.Repeats++
					return k
				}
			}
		}
	}
	if d.MaxFaults > 0 && d.Faults() >= d.MaxFaults {
		return FNone
	}
	if d.Only != "" && !strings.Contains(name, d.Only) {
		return FNone
	}
	if d.Fresh > 0 {
		if d.seen == nil {
			d.seen = map[string]map[string]int{}
		}
		if d.seen[name] == nil || op == "open" {
			d.seen[name] = map[string]int{}
		}
		d.seen[name][op]++
		if d.seen[name][op] > d.Fresh {
			return FNone
		}
	}
	if d.skipped < d.Skip {
		d.skipped++
		return FNone
	}
	v := s.DrawProb(simrt.StreamFault, d.Prob, 1<<16)
	if v == 0 {
		return FNone
	}
	k := el[(v-1)%n]
	d.Fired[k]++
	d.LastFault = FaultNames[k] + " on " + op + " " + name
	s.Log("FAULT %s on %s %s", FaultNames[k], op, name)
	if d.Stays && k != FCrash {
		if d.stuck == nil {
			d.stuck = map[string]FaultKind{}
		}
		d.stuck[name] = k
	}
	return k
}

func crash(op, name string) {
	simrt.S.Abort(simrt.Outcome{Kind: "crash", Detail: "process killed during " + op + " " + name})
}

func (d *Disk) grow(n int64) bool {
	if d.Capacity > 0 && d.used+n > d.Capacity || d.full && n > 0 {
		d.FullHits++
		if simrt.S != nil {
			simrt.S.Log("FAULT disk-full")
		}
		return false
	}
	d.used += n
	return true
}

// Touch is the last change to something on the disk.
type Touch struct {
	Op string
	At uint64
}

func (d *Disk) mut(op, name string) {
	d.Muts++
	if d.Touched != nil {
		d.Touched["/"+strings.Join(norm(name), "/")] = Touch{op, d.Muts}
	}
	if simrt.S != nil {
		simrt.S.Mix(uint64(crc32.Update(crc32.ChecksumIEEE([]byte(op)), crc32.IEEETable, []byte(name))))
	}
	if len(d.MutLog) < 64 {
		d.MutLog = append(d.MutLog, op+" "+name)
	}
}

var cwd = "/work"

func norm(p string) []string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	p = path.Clean(p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (d *Disk) lookup(p string) (*inode, error) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	n := d.root
	for _, c := range norm(p) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		k := n.kids[c]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}
func (d *Disk) parent(p string) (*inode, string, error) {
	cs := norm(p)
	if len(cs) == 0 {
		return nil, "", syscall.EEXIST
	}
	n := d.root
	for _, c := range cs[:len(cs)-1] {
		if !n.dir {
			return nil, "", syscall.ENOTDIR
		}
		k := n.kids[c]
		if k == nil {
			return nil, "", syscall.ENOENT
		}
		n = k
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, cs[len(cs)-1], nil
}

// Snapshot lists every file with its contents (harness use).
func (d *Disk) Snapshot(under string) map[string][]byte {
	out := map[string][]byte{}
	n, err := d.lookup(under)
	if err != nil {
		return out
	}
	var walk func(p string, n *inode)
	walk = func(p string, n *inode) {
		if !n.dir {
			out[p] = append([]byte(nil), n.data...)
			return
		}
		for k, c := range n.kids {
			walk(p+"/"+k, c)
		}
	}
	walk("", n)
	return out
}

// Put creates or replaces a file with durable contents (harness use).
func (d *Disk) Put(p string, b []byte) {
	cs := norm(p)
	n := d.root
	for _, c := range cs[:len(cs)-1] {
		k := n.kids[c]
		if k == nil {
			k = d.newInode(true, fs.ModeDir|0755)
			n.kids[c] = k
		}
		n = k
	}
	f := d.newInode(false, 0644)
	f.data = append([]byte(nil), b...)
	f.durable = append([]byte(nil), b...)
	f.synced = true
	n.kids[cs[len(cs)-1]] = f
}

// Get reads a file (harness use).
func (d *Disk) Get(p string) ([]byte, bool) {
	n, err := d.lookup(p)
	if err != nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// ExistsAny reports whether a path exists (harness use).
func (d *Disk) Exists(p string) bool { _, err := d.lookup(p); return err == nil }

// Clone deep-copies the disk contents (harness use).
func (d *Disk) Clone() *Disk {
	o := *d
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		m := *n
		m.data = append([]byte(nil), n.data...)
		m.durable = append([]byte(nil), n.durable...)
		m.pending = append([]pend(nil), n.pending...)
		if n.dir {
			m.kids = map[string]*inode{}
			for k, c := range n.kids {
				m.kids[k] = cp(c)
			}
		}
		return &m
	}
	o.root = cp(d.root)
	o.handles, o.maps = nil, nil
	if d.Touched != nil {
		o.Touched = map[string]Touch{}
		for k, t := range d.Touched {
			o.Touched[k] = t
		}
	}
	o.MutLog, o.stuck, o.seen, o.skipped, o.Repeats = nil, nil, nil, 0, 0
	o.Fired, o.FullHits = [NFaults]int{}, 0
	return &o
}

func (d *Disk) files() []*inode {
	var out []*inode
	var walk func(n *inode)
	walk = func(n *inode) {
		if !n.dir {
			out = append(out, n)
			return
		}
		ks := make([]string, 0, len(n.kids))
		for k := range n.kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(n.kids[k])
		}
	}
	walk(d.root)
	return out
}

// Settle makes all that was written so far durable, as time does, and keeps
// track of durability from here on.
func (d *Disk) Settle() {
	for _, n := range d.files() {
		n.durable = append([]byte(nil), n.data...)
		n.pending = nil
	}
	d.Track = true
}

// PowerLoss discards what was never made durable: of each file's writes since
// its last fsync a chosen prefix survives, the last surviving one possibly torn.
// Names are journalled (they survive in order). choose(n) picks in [0,n).
func (d *Disk) PowerLoss(choose func(n int) int) (lostWrites int) {
	for _, n := range d.files() {
		if len(n.pending) == 0 {
			continue
		}
		keep := 0
		switch choose(3) { // default: everything unsynced is lost
		case 1:
			keep = choose(len(n.pending) + 1)
		case 2:
			keep = len(n.pending)
		}
		b := append([]byte(nil), n.durable...)
		for i := 0; i < keep; i++ {
			w := n.pending[i]
			data := w.data
			if i == keep-1 && w.trunc < 0 && keep < len(n.pending) && len(data) > 1 {
				data = data[:choose(len(data))]
			}
			b = applyPend(b, pend{w.off, data, w.trunc})
		}
		lostWrites += len(n.pending) - keep
		n.data = b
		n.durable = append([]byte(nil), b...)
		n.pending = nil
	}
	return
}

func applyPend(b []byte, w pend) []byte {
	if w.trunc >= 0 {
		return resize(b, w.trunc)
	}
	if len(w.data) == 0 {
		return b
	}
	if int64(len(b)) < w.off+int64(len(w.data)) {
		b = resize(b, w.off+int64(len(w.data)))
	}
	copy(b[w.off:], w.data)
	return b
}
func resize(b []byte, n int64) []byte {
	if int64(len(b)) >= n {
		return b[:n:n]
	}
	if int64(cap(b)) >= n {
		o := len(b)
		b = b[:n]
		for i := o; i < len(b); i++ {
			b[i] = 0
		}
		return b
	}
	c := 2 * int64(cap(b))
	if c < n {
		c = n
	}
	if c > n+(64<<20) {
		c = n
	}
	x := make([]byte, n, c)
	copy(x, b)
	return x
}

func (n *inode) write(d *Disk, off int64, p []byte) {
	if simrt.S != nil {
		simrt.S.Mix(uint64(off)<<32 ^ uint64(crc32.Checksum(p, castagnoli)))
	}
	if d.Track {
		n.pending = append(n.pending, pend{off, append([]byte(nil), p...), -1})
	}
	n.data = applyPend(n.data, pend{off, p, -1})
	if simrt.S != nil {
		n.mtime = simrt.S.Now()
	}
}
func (n *inode) truncate(d *Disk, sz int64) {
	if d.Track {
		n.pending = append(n.pending, pend{0, nil, sz})
	}
	n.data = resize(n.data, sz)
}
func (n *inode) sync(d *Disk) {
	n.synced = true
	n.syncs++
	if d.Track {
		for _, w := range n.pending {
			n.durable = applyPend(n.durable, w)
		}
		n.pending = nil
	}
}

// ---- exported names of package os

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	SyscallError = os.SyscallError
	LinkError    = os.LinkError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone
	Interrupt           = os.Interrupt
	Kill                = os.Kill
	Args                = []string{"pudding-shed"}

	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

func IsNotExist(err error) bool                 { return os.IsNotExist(err) }
func IsExist(err error) bool                    { return os.IsExist(err) }
func IsPermission(err error) bool               { return os.IsPermission(err) }
func IsTimeout(err error) bool                  { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func NewSyscallError(s string, err error) error { return os.NewSyscallError(s, err) }

func pe(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// File is an open file description.
type File struct {
	name   string
	n      *inode
	d      *Disk
	flag   int
	off    int64
	closed bool
	std    bool
	dirPos int

	last                        []byte // what the last write put, since the last fsync
	under                       []byte // what was there before
	lastOff, lastLen, lastSyncs int64
}

// lose takes back the last write, if it hasn't been synced or overwritten.
func (f *File) lose() {
	n, end := f.n, f.lastOff+int64(len(f.last))
	if int64(n.syncs) != f.lastSyncs || int64(len(n.data)) < end || !bytes.Equal(n.data[f.lastOff:end], f.last) {
		return
	}
	if int64(len(n.data)) == end && f.lastLen < end {
		n.truncate(f.d, f.lastLen)
		f.d.used -= end - f.lastLen
	}
	if len(f.under) > 0 {
		n.write(f.d, f.lastOff, f.under)
	}
	if z := int64(len(n.data)); z >= end { // later writes lie beyond: a hole is left
		n.write(f.d, f.lastOff+int64(len(f.under)), make([]byte, len(f.last)-len(f.under)))
	}
	f.last = nil
}

func (f *File) lateLoss() FaultKind {
	if f.last == nil {
		return FNone
	}
	return FLateLoss
}

type info struct {
	name string
	n    *inode
	size int64
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return i.size }
func (i info) Mode() fs.FileMode          { return i.n.mode }
func (i info) ModTime() time.Time         { return time.Unix(1_700_000_000, i.n.mtime) }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() any                   { return i.n }
func (i info) Type() fs.FileMode          { return i.n.mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	d := Cur
	if dying() {
		return nil, pe("open", name, errDead)
	}
	var k FaultKind
	if flag&(O_CREATE|O_TRUNC) != 0 {
		k = d.fault("open", name, FOpenErr, FCreateErr)
	} else {
		k = d.fault("open", name, FOpenErr)
	}
	switch k {
	case FOpenErr:
		return nil, pe("open", name, syscall.EIO)
	case FCrash:
		crash("open", name)
	}
	n, err := d.lookup(name)
	if err != nil {
		if err != syscall.ENOENT || flag&O_CREATE == 0 {
			return nil, pe("open", name, err)
		}
		par, base, err := d.parent(name)
		if err != nil {
			return nil, pe("open", name, err)
		}
		if k == FCreateErr || d.full {
			return nil, pe("open", name, syscall.ENOSPC)
		}
		n = d.newInode(false, perm&^022&fs.ModePerm)
		par.kids[base] = n
		d.mut("create", name)
	} else {
		if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
			return nil, pe("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(O_WRONLY|O_RDWR|O_TRUNC|O_CREATE) != 0 {
			return nil, pe("open", name, syscall.EISDIR)
		}
		if flag&O_TRUNC != 0 {
			if k == FCreateErr {
				return nil, pe("open", name, syscall.ENOSPC)
			}
			if flag&3 != O_RDONLY || true {
				d.used -= int64(len(n.data))
				n.truncate(d, 0)
				d.mut("truncate", name)
			}
		}
	}
	if d.handles == nil {
		d.handles = map[string]int{}
	}
	d.handles[name]++
	return &File{name: name, n: n, d: d, flag: flag}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.n.ino) }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if dying() {
		return pe(op, f.name, errDead)
	}
	if f.closed {
		return pe(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if f.flag&3 == O_WRONLY {
		return 0, pe("read", f.name, syscall.EBADF)
	}
	if f.n.dir {
		return 0, pe("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	k := f.d.fault("read", f.name, FReadErr, FShortRead)
	switch k {
	case FReadErr:
		return 0, pe("read", f.name, syscall.EIO)
	case FCrash:
		crash("read", f.name)
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	if k == FShortRead && n > 1 {
		n = 1 + simrt.S.Draw("short", n-1)
	}
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, pe("readat", f.name, errors.New("negative offset"))
	}
	if f.flag&3 == O_WRONLY {
		return 0, pe("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	switch f.d.fault("readat", f.name, FReadErr) {
	case FReadErr:
		return 0, pe("read", f.name, syscall.EIO)
	case FCrash:
		crash("readat", f.name)
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	d := f.d
	k := d.fault("write", f.name, FWriteErr, FShortWrite, FNoSpace)
	switch k {
	case FWriteErr:
		return 0, pe("write", f.name, syscall.EIO)
	case FNoSpace:
		if d.StickyNoSpace {
			d.full = true
		}
		return 0, pe("write", f.name, syscall.ENOSPC)
	}
	n := len(b)
	if (k == FShortWrite || k == FCrash) && n > 0 {
		n = simrt.S.Draw("short", n+1)
		if k == FShortWrite && n == len(b) {
			n--
		}
	}
	ext := off + int64(n) - int64(len(f.n.data))
	if ext > 0 && !d.grow(ext) {
		room := d.Capacity - d.used
		if room < 0 || d.full {
			room = 0
		}
		n = int(int64(len(f.n.data)) + room - off)
		if n < 0 {
			n = 0
		}
		if n > 0 {
			if e := off + int64(n) - int64(len(f.n.data)); e > 0 {
				d.used += e
			}
			f.n.write(d, off, b[:n])
			d.mut("write", f.name)
		}
		return n, pe("write", f.name, syscall.ENOSPC)
	}
	if n > 0 {
		if d.Enabled[FLateLoss] {
			f.last, f.lastOff, f.lastLen, f.lastSyncs = append([]byte(nil), b[:n]...), off, int64(len(f.n.data)), int64(f.n.syncs)
			f.under = nil
			if off < f.lastLen {
				f.under = append([]byte(nil), f.n.data[off:min(f.lastLen, off+int64(n))]...)
			}
		}
		f.n.write(d, off, b[:n])
		d.mut("write", f.name)
	}
	if k == FCrash {
		crash("write", f.name)
	}
	if k == FShortWrite {
		if d.StickyNoSpace {
			d.full = true
		}
		return n, pe("write", f.name, syscall.ENOSPC)
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(b), nil
	}
	if f.flag&3 == O_RDONLY {
		return 0, pe("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	n, err := f.writeAt(b, f.off)
	f.off += int64(n)
	return n, err
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, pe("writeat", f.name, errors.New("negative offset"))
	}
	if f.flag&3 == O_RDONLY {
		return 0, pe("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	return f.writeAt(b, off)
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, pe("seek", f.name, syscall.ESPIPE)
	}
	switch f.d.fault("seek", f.name, FSeekErr) {
	case FSeekErr:
		return 0, pe("seek", f.name, syscall.EIO)
	case FCrash:
		crash("seek", f.name)
	}
	switch whence {
	case 0:
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.n.data))
	default:
		return 0, pe("seek", f.name, syscall.EINVAL)
	}
	if off < 0 {
		return 0, pe("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std {
		if Cur != nil && Cur.StdoutBad {
			return pe("sync", f.name, syscall.EINVAL)
		}
		return nil
	}
	switch f.d.fault("sync", f.name, FSyncErr, f.lateLoss()) {
	case FLateLoss:
		f.lose()
		return pe("sync", f.name, syscall.EIO)
	case FSyncErr:
		return pe("sync", f.name, syscall.EIO)
	case FCrash:
		crash("sync", f.name)
	}
	f.n.sync(f.d)
	f.last = nil
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std {
		return nil
	}
	if dying() {
		f.closed = true
		return nil
	}
	if f.closed {
		return pe("close", f.name, ErrClosed)
	}
	k := f.d.fault("close", f.name, FCloseErr, f.lateLoss())
	f.closed = true
	if f.d.handles[f.name]--; f.d.handles[f.name] <= 0 {
		delete(f.d.handles, f.name)
	}
	switch k {
	case FLateLoss:
		f.lose()
		return pe("close", f.name, syscall.EIO)
	case FCloseErr:
		return pe("close", f.name, syscall.EIO)
	case FCrash:
		crash("close", f.name)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	switch f.d.fault("stat", f.name, FStatErr) {
	case FStatErr:
		return nil, pe("stat", f.name, syscall.EIO)
	case FCrash:
		crash("stat", f.name)
	}
	return info{path.Base(f.name), f.n, int64(len(f.n.data))}, nil
}

func (f *File) Truncate(sz int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.flag&3 == O_RDONLY || sz < 0 {
		return pe("truncate", f.name, syscall.EINVAL)
	}
	switch f.d.fault("truncate", f.name, FTruncErr) {
	case FTruncErr:
		return pe("truncate", f.name, syscall.EIO)
	case FCrash:
		crash("truncate", f.name)
	}
	g := sz - int64(len(f.n.data))
	if g > 0 && !f.d.grow(g) {
		return pe("truncate", f.name, syscall.ENOSPC)
	} else if g < 0 {
		f.d.used += g
	}
	f.n.truncate(f.d, sz)
	f.d.mut("truncate", f.name)
	return nil
}
func (f *File) Chmod(m FileMode) error      { f.n.mode = f.n.mode&^fs.ModePerm | m&fs.ModePerm; return nil }
func (f *File) SetDeadline(time.Time) error { return ErrNoDeadline }

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if !f.n.dir {
		return nil, pe("readdirent", f.name, syscall.ENOTDIR)
	}
	all := entries(f.n)
	rest := all[min(f.dirPos, len(all)):]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		rest = rest[:min(n, len(rest))]
	}
	f.dirPos += len(rest)
	return rest, nil
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func entries(n *inode) []DirEntry {
	ks := make([]string, 0, len(n.kids))
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]DirEntry, 0, len(ks))
	for _, k := range ks {
		c := n.kids[k]
		out = append(out, info{k, c, int64(len(c.data))})
	}
	return out
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func Stat(name string) (FileInfo, error) {
	if dying() {
		return nil, pe("stat", name, errDead)
	}
	switch Cur.fault("stat", name, FStatErr) {
	case FStatErr:
		return nil, pe("stat", name, syscall.EIO)
	case FCrash:
		crash("stat", name)
	}
	n, err := Cur.lookup(name)
	if err != nil {
		return nil, pe("stat", name, err)
	}
	return info{path.Base(name), n, int64(len(n.data))}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }
func SameFile(a, b FileInfo) bool         { return a.Sys() == b.Sys() }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	out := make([]byte, 0, 512)
	for {
		if len(out) >= cap(out) {
			d := append(out[:cap(out)], 0)
			out = d[:len(out)]
		}
		want := cap(out)
		if r := len(f.n.data) - int(f.off); r+1 > want-len(out) && r > 0 {
			nb := make([]byte, len(out), len(out)+r+1)
			copy(nb, out)
			out = nb
		}
		n, err := f.Read(out[len(out):cap(out)])
		out = out[:len(out)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return out, err
		}
	}
}
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Mkdir(name string, perm FileMode) error {
	if dying() {
		return pe("mkdir", name, errDead)
	}
	k := Cur.fault("mkdir", name, FMkdirErr)
	if k == FCrash {
		crash("mkdir", name)
	}
	if _, err := Cur.lookup(name); err == nil {
		return pe("mkdir", name, syscall.EEXIST)
	}
	p, b, err := Cur.parent(name)
	if err != nil {
		return pe("mkdir", name, err)
	}
	if k == FMkdirErr || Cur.full {
		return pe("mkdir", name, syscall.ENOSPC)
	}
	p.kids[b] = Cur.newInode(true, fs.ModeDir|perm&fs.ModePerm)
	Cur.mut("mkdir", name)
	return nil
}
func MkdirAll(name string, perm FileMode) error {
	if dying() {
		return pe("mkdir", name, errDead)
	}
	n, err := Cur.lookup(name)
	if err == nil {
		if n.dir {
			return nil
		}
		return pe("mkdir", name, syscall.ENOTDIR)
	}
	cs := norm(name)
	for i := range cs {
		p := "/" + strings.Join(cs[:i+1], "/")
		if n, err := Cur.lookup(p); err == nil {
			if !n.dir {
				return pe("mkdir", p, syscall.ENOTDIR)
			}
			continue
		}
		if err := Mkdir(p, perm); err != nil {
			return err
		}
	}
	return nil
}
func Remove(name string) error {
	if dying() {
		return pe("remove", name, errDead)
	}
	switch Cur.fault("remove", name, FRemoveErr) {
	case FRemoveErr:
		return pe("remove", name, syscall.EIO)
	case FCrash:
		crash("remove", name)
	}
	n, err := Cur.lookup(name)
	if err != nil {
		return pe("remove", name, err)
	}
	if n.dir && len(n.kids) > 0 {
		return pe("remove", name, syscall.ENOTEMPTY)
	}
	p, b, err := Cur.parent(name)
	if err != nil {
		return pe("remove", name, err)
	}
	Cur.used -= int64(len(n.data))
	delete(p.kids, b)
	Cur.mut("remove", name)
	return nil
}
func RemoveAll(name string) error {
	n, err := Cur.lookup(name)
	if err != nil {
		if dying() {
			return pe("remove", name, errDead)
		}
		return nil
	}
	if n.dir {
		for _, e := range entries(n) {
			if err := RemoveAll(name + "/" + e.Name()); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}
func Rename(a, b string) error {
	if dying() {
		return pe("rename", a, errDead)
	}
	switch Cur.fault("rename", a, FRemoveErr) {
	case FRemoveErr:
		return pe("rename", a, syscall.EIO)
	case FCrash:
		crash("rename", a)
	}
	n, err := Cur.lookup(a)
	if err != nil {
		return pe("rename", a, err)
	}
	pa, ba, _ := Cur.parent(a)
	pb, bb, err := Cur.parent(b)
	if err != nil {
		return pe("rename", b, err)
	}
	if o := pb.kids[bb]; o != nil {
		if o.dir && (!n.dir || len(o.kids) > 0) {
			return pe("rename", b, syscall.EEXIST)
		}
		Cur.used -= int64(len(o.data))
	}
	delete(pa.kids, ba)
	pb.kids[bb] = n
	Cur.mut("rename", a)
	if Cur.Touched != nil {
		Cur.mut("rename", b)
	}
	return nil
}
func Truncate(name string, sz int64) error {
	f, err := OpenFile(name, O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(sz)
}
func Chmod(name string, m FileMode) error {
	n, err := Cur.lookup(name)
	if err != nil {
		return pe("chmod", name, err)
	}
	n.mode = n.mode&^fs.ModePerm | m&fs.ModePerm
	return nil
}
func Chtimes(string, time.Time, time.Time) error { return nil }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
		MkdirAll(dir, 0777)
	}
	for i := 0; ; i++ {
		nm := pattern + itoa(i)
		if j := strings.LastIndex(pattern, "*"); j >= 0 {
			nm = pattern[:j] + itoa(i) + pattern[j+1:]
		}
		p := dir + "/" + nm
		if _, err := Cur.lookup(p); err == nil {
			continue
		}
		return OpenFile(p, O_RDWR|O_CREATE|O_EXCL, 0600)
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
		MkdirAll(dir, 0777)
	}
	for i := 0; ; i++ {
		p := dir + "/" + strings.ReplaceAll(pattern, "*", "") + itoa(i)
		if _, err := Cur.lookup(p); err == nil {
			continue
		}
		return p, Mkdir(p, 0700)
	}
}
func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

func Exit(code int)                   { simrt.Exit(code) }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Setenv(k, v string) error        { return nil }
func Environ() []string               { return nil }
func Getwd() (string, error)          { return cwd, nil }
func Chdir(d string) error            { cwd = d; return nil }
func TempDir() string                 { return "/tmp" }
func UserHomeDir() (string, error)    { return "/root", nil }
func Hostname() (string, error)       { return "sim", nil }
func Getpid() int                     { return 1000 }
func Getpagesize() int                { return 4096 }
func Executable() (string, error)     { return "/pudding-shed", nil }

// Mapped is used by the mmap shim.
func (f *File) Mapped() ([]byte, error) {
	if err := f.check("mmap"); err != nil {
		return nil, err
	}
	switch f.d.fault("mmap", f.name, FMmapErr) {
	case FMmapErr:
		return nil, syscall.ENOMEM
	case FCrash:
		crash("mmap", f.name)
	}
	return f.n.data, nil
}

// Map and Unmap keep account of what is mapped; a mapping outlives its file.
func (f *File) Map(p *byte) {
	if f.d.maps == nil {
		f.d.maps = map[*byte]string{}
	}
	f.d.maps[p] = "mapping of " + f.name
}
func Unmap(p *byte) { delete(Cur.maps, p) }

func (f *File) SyncInode() { f.n.sync(f.d) }

// Used is the number of bytes stored.
func (d *Disk) Used() int64 { return d.used }
