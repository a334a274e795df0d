package main

import (
	"strconv"
	"sync"
	"syscall"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/wire"
)

// Field numbers go up to 2^29-1. The offset table of a struct that declares such
// a number takes a gigabyte, so a process keeps one, for one case at a time.

var high struct {
	sync.Mutex
	mem []byte
}

// highNumbers is a case with field numbers above 2^25, most of them above 2^28.
// It reports whether there was room for it.
func highNumbers(t *engine.T, decode bool) bool {
	if !high.TryLock() {
		return false
	}
	defer high.Unlock()
	if high.mem == nil {
		mem, err := syscall.Mmap(-1, 0, 2<<29, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			t.Ev("high.no-room")
			return false
		}
		high.mem = mem
	}
	r := t.R
	far := r.NoFar
	r.NoFar = true
	defer func() { r.NoFar = far }()

	s := &wire.Schema{Name: "High"}
	used := map[int]bool{}
	add := func(num int) {
		if num < 1 || num > 1<<29-1 || used[num] {
			return
		}
		used[num] = true
		f := &wire.Field{Num: num, Name: "f" + strconv.Itoa(num), Kind: wire.Kind(r.Intn(int(wire.NumKinds)))}
		if r.P(0.35) {
			f.Kind = wire.Message
		}
		f.Repeated = r.P(0.25)
		if f.Kind == wire.Message {
			f.Repeated = r.P(0.6)
			f.Sub = r.Schema(0, false)
		}
		s.Fields = append(s.Fields, f)
	}
	top := r.Pick(1<<28-1, 1<<28, 1<<28+1, 1<<28+2048, 1<<29-1, 1<<29-1, 1<<29-2, 1<<29-16, 1<<27, 1<<27-1, 1<<25, 1<<28+r.Intn(1<<28))
	add(top)
	for i := 1 + r.Intn(4); i > 0; i-- {
		switch r.Intn(4) {
		case 0: // one that looks like it when something is cut off
			add(top & (1<<uint(r.Pick(8, 12, 13, 16, 24, 25, 28)) - 1))
		case 1:
			add(top - 1 - r.Intn(3))
		case 2:
			add(r.Intn(top))
		default:
			add(r.Pick(1, 2, 15, 16, 2047, 2048))
		}
	}
	s.Seal()
	size := 2 * (s.MaxNum() + 1)
	defer syscall.Madvise(high.mem[:size], syscall.MADV_DONTNEED)
	m := adapt.NewDynTable(s, high.mem[:size])
	t.Logf("type %s", shape(s))
	var raw []byte
	if decode {
		o := r.DefaultOpts()
		o.N, o.MaxBytes, o.Depth, o.Far = 1+r.Intn(12), 40, 1, false
		raw = r.Message(s, o)
		t.Logf("decode %s", clip(raw))
		if !decodeOK(t, m, cp(raw)) {
			return true
		}
		t.Ev("high.decoded")
	}
	h := newHistory(t, m)
	h.read()
	for i := 1 + r.Intn(5); i > 0; i-- {
		if o := genOp(r, m, 30, 1, h.model); o != nil {
			h.step(o)
			t.Ev("high.edit")
		}
	}
	if !decode {
		checkEncoding(t, m, h.model)
	}
	if err := m.Decode(cp(m.Encode())); err != nil {
		t.Fail("the message cannot decode its own encoding: %v", err)
	}
	h.read()
	t.Ev("high.numbers")
	t.NonTrivial(s.Name, raw, m.Encode())
	return true
}
