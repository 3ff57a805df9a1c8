package main

import "syscall"

// limitMemory turns runaway memory use of the implementation into a fatal
// error of this process (which the parent reports) instead of exhausting the
// machine.
func limitMemory() {
	const lim = 16 << 30
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
}
