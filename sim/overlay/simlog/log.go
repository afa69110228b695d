// Package log is the standard package with output discarded and Fatal ending
// the simulated process.
package log

import (
	"fmt"
	"io"
	"log"

	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

func Print(a ...any)                           {}
func Println(a ...any)                         {}
func Printf(f string, a ...any)                {}
func Fatal(a ...any)                           { simrt.Exit(1) }
func Fatalln(a ...any)                         { simrt.Exit(1) }
func Fatalf(f string, a ...any)                { simrt.Exit(1) }
func Panic(a ...any)                           { panic(fmt.Sprint(a...)) }
func Panicln(a ...any)                         { panic(fmt.Sprintln(a...)) }
func Panicf(f string, a ...any)                { panic(fmt.Sprintf(f, a...)) }
func SetFlags(int)                             {}
func SetPrefix(string)                         {}
func SetOutput(io.Writer)                      {}
func Flags() int                               { return 0 }
func Prefix() string                           { return "" }
func Writer() io.Writer                        { return io.Discard }
func Default() *Logger                         { return log.New(io.Discard, "", 0) }
func New(w io.Writer, p string, f int) *Logger { return log.New(w, p, f) }
