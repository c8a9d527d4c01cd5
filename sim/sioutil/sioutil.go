// Package sioutil stands in for io/ioutil.
package sioutil

import (
	"io"
	"io/ioutil"

	"verifsim/sos"
)

var Discard = ioutil.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return ioutil.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return ioutil.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return sos.ReadFile(name) }
func WriteFile(name string, b []byte, perm sos.FileMode) error {
	return sos.WriteFile(name, b, perm)
}
func ReadDir(name string) ([]sos.FileInfo, error) {
	f, err := sos.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.Readdir(-1)
}
func TempFile(dir, pattern string) (*sos.File, error) { return sos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)     { return sos.MkdirTemp(dir, pattern) }
