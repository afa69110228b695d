// Package bufio is the standard package with very large reader buffers capped,
// so that thousands of simulated runs do not each allocate tens of megabytes.
// The buffering semantics are those of the standard package.
package bufio

import (
	"bufio"
	"io"
)

type (
	Reader     = bufio.Reader
	Writer     = bufio.Writer
	ReadWriter = bufio.ReadWriter
	Scanner    = bufio.Scanner
	SplitFunc  = bufio.SplitFunc
)

const (
	MaxScanTokenSize = bufio.MaxScanTokenSize
)

var (
	ErrInvalidUnreadByte = bufio.ErrInvalidUnreadByte
	ErrInvalidUnreadRune = bufio.ErrInvalidUnreadRune
	ErrBufferFull        = bufio.ErrBufferFull
	ErrNegativeCount     = bufio.ErrNegativeCount
	ErrTooLong           = bufio.ErrTooLong
)

// Cap is the largest reader buffer allocated; runs vary it.
var Cap = 65536

func capped(n int) int {
	if n > Cap {
		return Cap
	}
	return n
}
func NewReader(r io.Reader) *Reader                   { return bufio.NewReader(r) }
func NewReaderSize(r io.Reader, n int) *Reader        { return bufio.NewReaderSize(r, capped(n)) }
func NewWriter(w io.Writer) *Writer                   { return bufio.NewWriter(w) }
func NewWriterSize(w io.Writer, n int) *Writer        { return bufio.NewWriterSize(w, capped(n)) }
func NewReadWriter(r *Reader, w *Writer) *ReadWriter  { return bufio.NewReadWriter(r, w) }
func NewScanner(r io.Reader) *Scanner                 { return bufio.NewScanner(r) }
func ScanLines(d []byte, e bool) (int, []byte, error) { return bufio.ScanLines(d, e) }
func ScanWords(d []byte, e bool) (int, []byte, error) { return bufio.ScanWords(d, e) }
func ScanBytes(d []byte, e bool) (int, []byte, error) { return bufio.ScanBytes(d, e) }
func ScanRunes(d []byte, e bool) (int, []byte, error) { return bufio.ScanRunes(d, e) }
