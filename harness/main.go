// The conformance harness: everything that touches the real golisp code.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness replay|script ...")
		os.Exit(3)
	}
	registerProbes()
	registerConcProbes()
	switch os.Args[1] {
	case "script":
		scriptMain(os.Args[2:])
	case "par":
		parMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown subcommand", os.Args[1])
		os.Exit(3)
	}
}
