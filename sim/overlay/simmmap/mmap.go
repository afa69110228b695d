// Package mmap is the simulated counterpart of github.com/edsrzf/mmap-go.
package mmap

import (
	"errors"
	"syscall"

	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)
const ANON = 1

type MMap []byte

var shared = map[*byte]bool{}

func Map(f *simos.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

func MapRegion(f *simos.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%4096 != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if flags&ANON != 0 {
		if length <= 0 {
			return nil, errors.New("anonymous mapping requires non-zero length")
		}
		return make([]byte, length), nil
	}
	d, err := f.Mapped()
	if err != nil {
		return nil, err
	}
	if length < 0 {
		length = len(d)
	}
	if length == 0 {
		return nil, syscall.EINVAL
	}
	if prot&RDWR != 0 {
		if int(offset)+length > len(d) {
			return nil, syscall.EINVAL
		}
		r := d[offset : int(offset)+length : int(offset)+length]
		shared[&r[0]] = true
		f.Map(&r[0])
		return r, nil
	}
	// A private snapshot: any use after Unmap reads poison, as it would fault.
	b := make([]byte, length)
	if int(offset) < len(d) {
		copy(b, d[offset:])
	}
	f.Map(&b[0])
	return b, nil
}

func (m MMap) Lock() error   { return nil }
func (m MMap) Unlock() error { return nil }
func (m MMap) Flush() error  { return nil }
func (m *MMap) Unmap() error {
	b := *m
	if len(b) == 0 || len(b) != cap(b) {
		*m = nil
		return syscall.EINVAL
	}
	simos.Unmap(&b[0])
	if shared[&b[0]] {
		delete(shared, &b[0])
	} else {
		for i := range b {
			b[i] = 0xDB
		}
	}
	*m = nil
	return nil
}
