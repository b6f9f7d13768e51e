//go:build !race

package main

import "syscall"

// An evaluation that never stops allocating must end this process, not the machine.
func init() {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
}
