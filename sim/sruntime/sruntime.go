// Package sruntime stands in for the scheduling parts of package runtime.
package sruntime

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

// Stack is a fixed-shape trace: real ones contain addresses.
func Stack(buf []byte, all bool) int {
	var b strings.Builder
	fmt.Fprintf(&b, "goroutine %d [running]:\n", simrt.CurID())
	for i := 0; i < 12; i++ {
		fmt.Fprintf(&b, "golisp.frame%d(...)\n\t/golisp/file.go:%d\n", i, i+1)
	}
	return copy(buf, b.String())
}

func Gosched()           { simrt.Gosched() }
func NumGoroutine() int  { return simrt.S.NTasks() }
func GC()                {}
func NumCPU() int        { return 8 }
func GOMAXPROCS(int) int { return 8 }
