// Package sfilepath stands in for the parts of path/filepath that look at the disk.
package sfilepath

import "verifsim/sos"

func Glob(pattern string) ([]string, error) { return sos.Glob(pattern) }
func Abs(p string) (string, error) {
	if len(p) > 0 && p[0] == '/' {
		return p, nil
	}
	return "/work/" + p, nil
}
