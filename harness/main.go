package main

import (
	"fmt"
	"os"
)

// modes: a check builds common.go, main.go and the driver it needs, so that a driver only depends on the API it exercises.
var modes = map[string]func(in, out string){}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: harness MODE IN.json OUT.json")
		os.Exit(4)
	}
	f, ok := modes[os.Args[1]]
	if !ok {
		fatal("unknown mode %q", os.Args[1])
	}
	f(os.Args[2], os.Args[3])
}
