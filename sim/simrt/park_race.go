//go:build race

package simrt

import (
	"syscall"
	"unsafe"
)

// Under the race detector tasks are handed over with a raw futex: unlike a
// channel or a mutex it creates no happens-before edge, so the detector judges
// the code under test by its own synchronisation only.
type parker struct{ v uint32 }

const (
	futexWait = 0 | 128
	futexWake = 1 | 128
)

//go:norace
func (p *parker) init() { p.v = 0 }

//go:norace
//go:noinline
func (p *parker) load() uint32 { return p.v }

//go:norace
func (p *parker) wait() {
	for p.load() == 0 {
		syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(&p.v)), futexWait, 0, 0, 0, 0)
	}
	p.v = 0
}

//go:norace
func (p *parker) wake() {
	p.v = 1
	syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(&p.v)), futexWake, 1, 0, 0, 0)
}
