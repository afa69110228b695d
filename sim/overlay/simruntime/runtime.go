// Package runtime is the simulated counterpart of the standard package.
package runtime

import (
	"runtime"

	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

type (
	MemStats = runtime.MemStats
	Error    = runtime.Error
	Func     = runtime.Func
	Frame    = runtime.Frame
	Frames   = runtime.Frames
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

// HeapFn is the simulated allocator's view, set by a harness.
var HeapFn func() uint64

// GCFn is called on runtime.GC, set by a harness.
var GCFn func()

func ReadMemStats(m *MemStats) {
	simrt.P()
	h := uint64(10 << 20)
	if HeapFn != nil {
		h = HeapFn()
	}
	*m = MemStats{}
	m.HeapAlloc, m.Alloc, m.HeapInuse, m.Sys, m.HeapSys, m.TotalAlloc = h, h, h, h, h, h
	simrt.P()
}
func GC() {
	simrt.P()
	if GCFn != nil {
		GCFn()
	}
}
func Gosched()                                  { simrt.Gosched() }
func Goexit()                                   { runtime.Goexit() }
func NumCPU() int                               { return 4 }
func GOMAXPROCS(int) int                        { return 4 }
func NumGoroutine() int                         { return simrt.TaskCount() }
func Version() string                           { return runtime.Version() }
func KeepAlive(x any)                           { runtime.KeepAlive(x) }
func SetFinalizer(obj any, f any)               {}
func Caller(n int) (uintptr, string, int, bool) { return runtime.Caller(n + 1) }
func Callers(n int, pc []uintptr) int           { return runtime.Callers(n+1, pc) }
func FuncForPC(pc uintptr) *Func                { return runtime.FuncForPC(pc) }
func CallersFrames(c []uintptr) *Frames         { return runtime.CallersFrames(c) }
func Stack(b []byte, all bool) int              { return runtime.Stack(b, false) }
func LockOSThread()                             {}
func UnlockOSThread()                           {}
