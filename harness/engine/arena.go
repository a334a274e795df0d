package engine

import (
	"bytes"
	"fmt"
	"syscall"
)

// Arena hands out byte slices that end exactly at an inaccessible page (or begin
// right after one), so that any access past them faults, even one made through
// an unsafe pointer; the bytes on the other side are canaries. The memory can be
// made read-only.
type Arena struct {
	mem   []byte // usable memory, followed by a page that is PROT_NONE
	size  int    // usable
	last  []byte
	front bool
}

const page = 4096
const canary = 0xC5

// NewArena maps size usable bytes.
func NewArena(size int) *Arena {
	size = (size + page - 1) / page * page
	mem, err := syscall.Mmap(-1, 0, size+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	for _, guard := range [][]byte{mem[:page], mem[page+size:]} {
		if err := syscall.Mprotect(guard, syscall.PROT_NONE); err != nil {
			panic("harness: mprotect: " + err.Error())
		}
	}
	mem = mem[page:]
	a := &Arena{mem: mem, size: size}
	for i := 0; i < size; i++ {
		mem[i] = canary
	}
	return a
}

// Cap is the largest slice the arena can hand out.
func (a *Arena) Cap() int { return a.size - page }

// Put copies b to the end of the arena: len == cap, and the next byte faults.
func (a *Arena) Put(b []byte) []byte {
	if len(b) > a.Cap() {
		panic("harness: arena too small")
	}
	a.Reset()
	p := a.size - len(b)
	s := a.mem[p:a.size:a.size]
	copy(s, b)
	a.last = s
	return s
}

// PutFront copies b to the start of the arena: the byte before it faults. The
// capacity is limited to the length.
func (a *Arena) PutFront(b []byte) []byte {
	if len(b) > a.Cap() {
		panic("harness: arena too small")
	}
	a.Reset()
	s := a.mem[0:len(b):len(b)]
	copy(s, b)
	a.last, a.front = s, true
	return s
}

// ReadOnly makes all of it read-only.
func (a *Arena) ReadOnly() {
	if err := syscall.Mprotect(a.mem[:a.size], syscall.PROT_READ); err != nil {
		panic("harness: mprotect: " + err.Error())
	}
}

// Reset makes it writable and restores the canaries.
func (a *Arena) Reset() {
	if err := syscall.Mprotect(a.mem[:a.size], syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic("harness: mprotect: " + err.Error())
	}
	n := len(a.last) + 64
	if n > a.size {
		n = a.size
	}
	lo, hi := a.size-n, a.size
	if a.front {
		lo, hi = 0, n
	}
	for i := lo; i < hi; i++ {
		a.mem[i] = canary
	}
	a.last, a.front = nil, false
}

var canaries = bytes.Repeat([]byte{canary}, 64)

// CheckCanary reports damage right next to the slice.
func (a *Arena) CheckCanary() error {
	p, q := a.size-len(a.last)-64, a.size-len(a.last)
	if a.front {
		p, q = len(a.last), len(a.last)+64
	}
	if got := a.mem[p:q]; !bytes.Equal(got, canaries) {
		return fmt.Errorf("bytes next to the message were overwritten: %x", got)
	}
	return nil
}
