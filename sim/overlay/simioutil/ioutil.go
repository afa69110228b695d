// Package ioutil is the simulated counterpart of io/ioutil.
package ioutil

import (
	"io"

	os "github.com/KitchenMishap/pudding-shed/verifsim/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func ReadDir(dir string) ([]os.FileInfo, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	r := make([]os.FileInfo, 0, len(es))
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, nil
}
