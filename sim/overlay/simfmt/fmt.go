// Package fmt is the standard package with console output discarded.
package fmt

import (
	"fmt"
	"io"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	Formatter  = fmt.Formatter
	State      = fmt.State
	Scanner    = fmt.Scanner
	ScanState  = fmt.ScanState
)

func Print(a ...any) (int, error)            { return 0, nil }
func Println(a ...any) (int, error)          { return 0, nil }
func Printf(f string, a ...any) (int, error) { return 0, nil }

func Sprint(a ...any) string                               { return fmt.Sprint(a...) }
func Sprintln(a ...any) string                             { return fmt.Sprintln(a...) }
func Sprintf(f string, a ...any) string                    { return fmt.Sprintf(f, a...) }
func Errorf(f string, a ...any) error                      { return fmt.Errorf(f, a...) }
func Fprint(w io.Writer, a ...any) (int, error)            { return fmt.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return fmt.Fprintln(w, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return fmt.Fprintf(w, f, a...) }
func Append(b []byte, a ...any) []byte                     { return fmt.Append(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte          { return fmt.Appendf(b, f, a...) }
func Appendln(b []byte, a ...any) []byte                   { return fmt.Appendln(b, a...) }
func Sscan(s string, a ...any) (int, error)                { return fmt.Sscan(s, a...) }
func Sscanf(s, f string, a ...any) (int, error)            { return fmt.Sscanf(s, f, a...) }
func Sscanln(s string, a ...any) (int, error)              { return fmt.Sscanln(s, a...) }
func Fscan(r io.Reader, a ...any) (int, error)             { return fmt.Fscan(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error)  { return fmt.Fscanf(r, f, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)           { return fmt.Fscanln(r, a...) }
func FormatString(s State, v rune) string                  { return fmt.FormatString(s, v) }
func Scan(a ...any) (int, error)                           { return 0, io.EOF }

// ScanAnswer is what the operator types at the (only) console prompt.
var ScanAnswer = "128GB"

func Scanln(a ...any) (int, error) { return fmt.Sscanln(ScanAnswer+"\n", a...) }
func Scanf(f string, a ...any) (int, error)                { return 0, io.EOF }
