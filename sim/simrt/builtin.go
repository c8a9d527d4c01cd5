package simrt

import "fmt"

// Println and Print model the builtins: one uninterrupted write to stderr.
func Println(a ...interface{}) {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprint(x)
	}
	ConsoleWrite(2, s+"\n")
}

func Print(a ...interface{}) {
	s := ""
	for _, x := range a {
		s += fmt.Sprint(x)
	}
	ConsoleWrite(2, s)
}

// Zero returns the zero value of its argument's type.
func Zero[T any](T) T {
	var z T
	return z
}
