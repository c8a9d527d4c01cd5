// Package sfmt stands in for the parts of package fmt that use the console.
package sfmt

import (
	"fmt"

	"verifsim/sos"
)

func Print(a ...interface{}) (int, error)   { return sos.Stdout.WriteString(fmt.Sprint(a...)) }
func Println(a ...interface{}) (int, error) { return sos.Stdout.WriteString(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) (int, error) {
	return sos.Stdout.WriteString(fmt.Sprintf(f, a...))
}

func Scan(a ...interface{}) (int, error)            { return fmt.Fscan(sos.Stdin, a...) }
func Scanln(a ...interface{}) (int, error)          { return fmt.Fscanln(sos.Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error) { return fmt.Fscanf(sos.Stdin, f, a...) }
