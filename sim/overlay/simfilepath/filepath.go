// Package filepath is the standard package over the simulated disk.
package filepath

import (
	"io/fs"
	"path/filepath"

	simos "github.com/KitchenMishap/pudding-shed/verifsim/simos"
)

type WalkFunc = filepath.WalkFunc

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
	ErrBadPattern = filepath.ErrBadPattern
)

func Join(e ...string) string         { return filepath.Join(e...) }
func Clean(p string) string           { return filepath.Clean(p) }
func Base(p string) string            { return filepath.Base(p) }
func Dir(p string) string             { return filepath.Dir(p) }
func Ext(p string) string             { return filepath.Ext(p) }
func Split(p string) (string, string) { return filepath.Split(p) }
func IsAbs(p string) bool             { return filepath.IsAbs(p) }
func Rel(a, b string) (string, error) { return filepath.Rel(a, b) }
func FromSlash(p string) string       { return p }
func ToSlash(p string) string         { return p }
func VolumeName(p string) string      { return "" }
func Match(a, b string) (bool, error) { return filepath.Match(a, b) }
func SplitList(p string) []string     { return filepath.SplitList(p) }
func IsLocal(p string) bool           { return filepath.IsLocal(p) }
func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	return Join("/work", p), nil
}
func EvalSymlinks(p string) (string, error) { return Clean(p), nil }

func Glob(pattern string) ([]string, error) {
	dir, file := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	}
	es, err := simos.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range es {
		ok, err := filepath.Match(file, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, Join(dir, e.Name()))
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := simos.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}
func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			return err
		}
	}
	for _, e := range es {
		if err := walk(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}
