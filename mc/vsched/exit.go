//go:build go1.22

package verifsched

import (
	"fmt"
	"os"
)

// Exit is os.Exit; it shows as a panic in a session
func Exit(code int) {
	if !Active() {
		os.Exit(code)
	}
	panic(fmt.Sprintf("the program ended with exit code %d", code))
}

// Fatal is log.Fatal
func Fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	Exit(1)
}

// Fatalf is log.Fatalf
func Fatalf(format string, a ...any) { Fatal(fmt.Sprintf(format, a...)) }
