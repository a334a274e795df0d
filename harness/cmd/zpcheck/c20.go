package main

import (
	"fmt"
	"math"

	"github.com/danhhz/zeropb"

	"zpverif/engine"
)

var c20 = &engine.Check{
	ID:       "C20",
	Rule:     "each case applies a random sequence of sets (offsets around 65534 to 65536, 2^16 multiples, up to 2^64-1), gets, clears and re-wraps to an offset table of random size through two handles, and after each step compares every entry with a plain map; run as 64-bit and as 32-bit code; non-trivial: at least one set",
	Quick:    900000,
	Thorough: 15000000,
	Variants: []engine.Variant{share(engine.Std, 0.75), share(engine.I386, 0.25)},
	Need:     []string{"set.small", "set.limit", "set.large", "move.up", "move.down", "clear", "clear.with-large", "rewrap", "dirty.clear", "wide", "wide.clear"},
	Run:      runC20,
}

func runC20(t *engine.T) {
	r := t.R
	n := 1 + r.Intn(r.Pick(2, 8, 40, 300))
	batch := 1
	if r.P(0.0004) {
		n, batch = r.Pick(1000, 5000, 65537, 70001), r.Pick(50, 1000, 4000)
		t.Ev("wide")
	}
	a := make([]uint16, n)
	var m map[int]uint64
	h := []zeropb.Offsets{zeropb.WrapOffsets(a, &m), zeropb.WrapOffsets(a, &m)}
	if r.P(0.3) {
		h[1] = h[0]
	}
	model := map[int]uint64{}
	verify := func(what string) {
		for i := 0; i < n; i++ {
			o := h[r.Intn(2)]
			got, ok := o.Get(i)
			want, has := model[i]
			if ok != has || (has && got != want) {
				t.Fail("after %s, Get(%d) = (%d, %v), want (%d, %v)", what, i, got, ok, want, has)
			}
		}
	}
	if r.P(0.3) {
		// storage that held something else before
		for k := 1 + r.Intn(10); k > 0; k-- {
			h[0].Set(r.Intn(n), 1+uint64(r.Intn(140000)))
		}
		h[1].Clear()
		t.Ev("dirty.clear")
	}
	verify("the start")
	sets := 0
	for k := 1 + r.Intn(25); k > 0; k-- {
		i := r.Intn(n)
		o := h[r.Intn(2)]
		what := ""
		switch r.Intn(12) {
		case 0:
			what = "Clear()"
			for _, v := range model {
				if v > 65534 {
					t.Ev("clear.with-large")
				}
			}
			o.Clear()
			if len(model) > 1000 {
				t.Ev("wide.clear")
			}
			model = map[int]uint64{}
			t.Ev("clear")
		case 1:
			what = "wrapping again"
			h[r.Intn(2)] = zeropb.WrapOffsets(a, &m)
			t.Ev("rewrap")
		default:
			var v uint64
			switch r.Intn(7) {
			case 0:
				v = 1 + uint64(r.Intn(300))
			case 1, 2:
				v = 65532 + uint64(r.Intn(8))
			case 3:
				v = 65536*uint64(1+r.Intn(5)) - 2 + uint64(r.Intn(5))
			case 4:
				v = uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(2))
			case 5:
				v = math.MaxUint64 - uint64(r.Intn(3))
			default:
				v = r.Uint64() >> uint(r.Intn(64))
			}
			if v == 0 {
				v = 1
			}
			what = fmt.Sprintf("Set(%d, %d)", i, v)
			for k := 1; k < batch; k++ {
				j, w := r.Intn(n), 1+uint64(r.Intn(70000))+v&^0xffff
				if w == 0 {
					w = 1
				}
				o.Set(j, w)
				model[j] = w
			}
			old, had := model[i]
			o.Set(i, v)
			model[i] = v
			sets++
			switch {
			case v < 65534:
				t.Ev("set.small")
			case v <= 65536:
				t.Ev("set.limit")
			default:
				t.Ev("set.large")
			}
			if had && old <= 65534 && v > 65534 {
				t.Ev("move.up")
			} else if had && old > 65534 && v <= 65534 {
				t.Ev("move.down")
			}
			t.NonTrivial(i, v)
		}
		t.Logf("%s", what)
		verify(what)
	}
	t.Sample(func() string { return fmt.Sprintf("table of %d, %d sets, %d entries at the end", n, sets, len(model)) })
}
