package main

import (
	"fmt"
	"runtime/debug"
	"syscall"
	"unsafe"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

var c23 = &engine.Check{
	ID:       "C23",
	Rule:     "each case times an operation, in CPU time of its thread, at two sizes far apart: decoding messages of up to 100000 fields, decoding and accessing messages around payloads of up to 8 MB (bytes, strings, unknown fields, embedded messages full of fields, list elements), reading one field, opening an embedded message, taking the encoding, or adding to the end, in messages of up to 100000 fields, and iterating and building lists of up to 32000 elements among other fields; a monitor compares the ratio of the costs with what the documentation promises, with a large margin, and only ratios beyond it in eight measurements out of eight count; non-trivial: both sizes were measured",
	Quick:    900,
	Thorough: 18000,
	Serial:   true,
	Setup:    setupGolden,
	Variants: []engine.Variant{engine.Plain},
	Need:     []string{"decode.fields", "decode.around-payload", "access.get", "access.sub", "access.encode", "access.iter-first", "access.large-value", "tail.append", "tail.set", "iterate.elements", "iterate.around-payload", "append.elements"},
	Assumptions: []string{
		"a cost that should be proportional may grow eight times faster than the size before it counts, and one that should be independent twelve-fold over sizes a hundred-fold or more apart",
	},
	Run: runC23,
}

// threadNanos is the CPU time this thread has used.
func threadNanos() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

func spent(f func()) float64 {
	a := threadNanos()
	f()
	return float64(threadNanos()-a) + 1
}

// compareCost fails when big costs more than limit times what small does.
func compareCost(t *engine.T, what string, limit float64, small, big func()) {
	small()
	big() // warm up
	var note string
	for i := 0; i < 8; i++ {
		s, b := spent(small), spent(big)
		if s < 2000 {
			s = 2000
		}
		if b <= s*limit {
			if i > 0 {
				t.Ev("remeasured")
			}
			return
		}
		note += fmt.Sprintf(" %.0f/%.0fus", b/1000, s/1000)
	}
	t.Fail("the cost of %s grows too fast: more than %.0f-fold, every time it was measured:%s", what, limit, note)
}

// payload makes n bytes that fit the field: text, noise or fields.
func payload(t *engine.T, f *wire.Field, n int) []byte {
	r := t.R
	b := make([]byte, 0, n+600)
	if f != nil && f.Kind == wire.Message {
		o := r.DefaultOpts()
		o.Depth, o.N, o.Far, o.MaxBytes = 2, 40, false, 100
		chunk := r.Message(f.Sub, o)
		if r.P(0.3) { // one inside the other
			s := f.Sub
			for _, g := range s.Fields {
				if isSub(g) {
					for len(chunk) < 400 {
						chunk = append(wire.PutVarint(wire.PutTag(nil, g.Num, wire.TBytes, 0), uint64(len(chunk)), 0), chunk...)
					}
					break
				}
			}
		}
		for len(chunk) > 0 && len(b)+len(chunk) <= n {
			b = append(b, chunk...)
		}
		for len(b) < n {
			b = append(b, 0xf8, 0xff, 0xff, 0xff, 0x0f, 0) // an unknown field
		}
		return b
	}
	b = b[:n]
	c := r.FillBytes(64)
	for i := range b {
		b[i] = c[i%64] & 0x7f
	}
	return b
}

// some puts a few small occurrences of scalar fields.
func some(t *engine.T, b []byte, s *wire.Schema, n int) []byte {
	r := t.R
	fs := fieldsOf(s, func(f *wire.Field) bool { return f.Kind != wire.Message })
	o := r.DefaultOpts()
	o.MaxBytes, o.Depth, o.Far, o.Wrong, o.BadSub = 10, 0, false, 0, 0
	for ; n > 0; n-- {
		if len(fs) == 0 || r.P(0.2) {
			b = r.RandOcc(b, r.UnknownNum(s), r.Pick(wire.TVarint, wire.TFixed32, wire.TFixed64, wire.TBytes), &o)
			continue
		}
		b = r.Occ(b, fs[r.Intn(len(fs))], &o)
	}
	return b
}

func occOf(b []byte, num int, val []byte) []byte {
	b = wire.PutTag(b, num, wire.TBytes, 0)
	b = wire.PutVarint(b, uint64(len(val)), 0)
	return append(b, val...)
}

func mustDecode(t *engine.T, m adapt.Msg, b []byte) {
	if err := m.Decode(b); err != nil {
		t.Fail("a well-formed message of %d bytes is refused: %v", len(b), err)
	}
}

func repeated(chunk []byte, head []byte, n int) []byte {
	out := make([]byte, 0, len(head)+n*len(chunk))
	out = append(out, head...)
	for ; n > 0; n-- {
		out = append(out, chunk...)
	}
	return out
}

func runC23(t *engine.T) {
	r := t.R
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	pickM := func(ok func(*wire.Field) bool) (adapt.Msg, *wire.Field) {
		m := pickWith(t, ok)
		fs := fieldsOf(m.Schema(), ok)
		if len(fs) == 0 {
			return m, nil
		}
		return m, fs[r.Intn(len(fs))]
	}
	pad := r.FillBytes(70000)
	switch r.Intn(9) {
	case 0: // decoding is proportional to the number of fields
		m := pick(t, false)
		chunk := some(t, nil, m.Schema(), 10+r.Intn(20))
		for _, f := range fieldsOf(m.Schema(), isRep) {
			chunk = occOf(chunk, f.Num, r.FillBytes(r.Intn(3)))
		}
		const n = 40
		var head []byte
		if r.P(0.5) { // all of it beyond 64 KiB
			head = occOf(nil, r.UnknownNum(m.Schema()), pad)
		}
		factor := 80
		small, big := repeated(chunk, head, n), repeated(chunk, head, n*factor)
		d := m.Fresh()
		compareCost(t, fmt.Sprintf("decoding (%d against %d bytes)", len(small), len(big)), float64(factor)*8, func() { mustDecode(t, d, small) }, func() { mustDecode(t, d, big) })
		t.Ev("decode.fields")
		t.NonTrivial("decode", chunk)
		t.Sample(func() string {
			return fmt.Sprintf("decoding %d against %d bytes of small fields of %s", len(small), len(big), m.Schema().Name)
		})
	case 1, 2: // and independent of what is in them
		m, f := pickM(func(f *wire.Field) bool { return f.Kind == wire.Message || isBlob(f) })
		num := 0
		if f == nil || r.P(0.2) {
			f, num = nil, r.UnknownNum(m.Schema())
		} else {
			num = f.Num
		}
		head, tail := some(t, nil, m.Schema(), r.Intn(6)), []byte(nil)
		lo := 80000
		if r.P(0.3) {
			lo = 100 // nothing after it
		} else {
			tail = some(t, nil, m.Schema(), r.Intn(6))
		}
		mk := func(n int) []byte {
			return append(occOf(cp(head), num, payload(t, f, n)), tail...)
		}
		small, big := mk(lo), mk(8<<20)
		d := m.Fresh()
		run := func(b []byte) func() {
			return func() {
				for i := 0; i < 60; i++ {
					mustDecode(t, d, b)
				}
			}
		}
		compareCost(t, fmt.Sprintf("decoding around a field of %d bytes rather than %d", 8<<20, lo), 12, run(small), run(big))
		t.Ev("decode.around-payload")
		t.NonTrivial("around", num, head, tail)
		t.Sample(func() string {
			return fmt.Sprintf("decoding with field %d of %s holding %d against %d bytes", num, m.Schema().Name, lo, 8<<20)
		})
	case 3, 4: // access does not depend on the size of the message
		kind := r.Intn(10)
		m, f := pickM(func(f *wire.Field) bool {
			return isRep(f) && kind < 3 || isSub(f) && kind%5 == 3 || !f.Repeated && kind != 3 && kind != 8 && kind > 2
		})
		if f == nil {
			return
		}
		chunk := some(t, nil, m.Schema(), 20)
		own := [2][]byte{payload(t, f, 30)}
		own[1] = own[0]
		head := some(t, nil, m.Schema(), r.Intn(4))
		var middle [2][]byte
		if r.P(0.5) {
			middle[0], middle[1] = repeated(chunk, nil, 100000/len(chunk)), repeated(chunk, nil, 2000000/len(chunk))
		} else {
			n := r.UnknownNum(m.Schema())
			middle[0], middle[1] = occOf(nil, n, make([]byte, 80000)), occOf(nil, n, make([]byte, 8<<20))
		}
		if (isBlob(f) || f.Kind == wire.Message) && r.P(0.4) {
			// it's the value itself that is large
			middle[0], middle[1] = nil, nil
			for i, n := range []int{r.Pick(30, 80000), 8 << 20} {
				if isBlob(f) {
					own[i] = payload(t, f, n)
				} else {
					own[i] = occOf(nil, r.UnknownNum(f.Sub), make([]byte, n))
				}
			}
			t.Ev("access.large-value")
		}
		var d [2]adapt.Msg
		pos := r.Intn(3)
		for i := range d {
			var occ []byte
			if f.Kind == wire.Message || isBlob(f) {
				occ = occOf(nil, f.Num, own[i])
			} else {
				occ = r.Occ(nil, f, &genPlain)
			}
			b := cp(head)
			if pos == 0 {
				b = append(append(b, occ...), middle[i]...)
			} else {
				b = append(append(b, middle[i]...), occ...)
			}
			if pos == 2 {
				b = append(b, middle[i]...)
			}
			d[i] = m.Fresh()
			mustDecode(t, d[i], b)
		}
		var dst adapt.Msg
		if f.Kind == wire.Message {
			dst = m.FreshFor(f)
		}
		what := "reading a field"
		run := func(m adapt.Msg) func() {
			return func() {
				for i := 0; i < 100; i++ {
					switch {
					case isSub(f):
						m.Sub(f, dst)
					case f.Kind == wire.Message:
						if ok, _ := m.Iter(f).Next(dst); !ok {
							t.Fail("field %d is not there", f.Num)
						}
					case f.Kind == wire.Bytes:
						sink += uint64(len(m.RawBytes(f)))
					case f.Kind == wire.String:
						sink += uint64(len(m.RawString(f)))
					default:
						sink += m.Get(f).U
					}
				}
			}
		}
		limit := 12.0
		if isRep(f) {
			// the first element is found at once, but the iterator goes on to
			// the next before it returns
			what = "taking the first element of a list"
			if pos != 1 {
				what, limit = "", 0
			}
		}
		if what != "" {
			compareCost(t, fmt.Sprintf("%s (%v) in a message of %d bytes rather than %d", what, f.Kind, len(d[1].Encode()), len(d[0].Encode())), limit, run(d[0]), run(d[1]))
			switch {
			case isRep(f):
				t.Ev("access.iter-first")
			case isSub(f):
				t.Ev("access.sub")
			default:
				t.Ev("access.get")
			}
		}
		enc := func(m adapt.Msg) func() {
			return func() {
				for i := 0; i < 100; i++ {
					sink += uint64(len(m.Encode()))
				}
			}
		}
		compareCost(t, "taking the encoding", 12, enc(d[0]), enc(d[1]))
		t.Ev("access.encode")
		t.NonTrivial("access", f.Num, own[0], chunk, pos)
		t.Sample(func() string {
			return fmt.Sprintf("access to field %d of %s in %d against %d bytes", f.Num, m.Schema().Name, len(d[0].Encode()), len(d[1].Encode()))
		})
	case 5: // adding at the end does not depend on what is there
		list := r.P(0.4)
		m, f := pickM(func(f *wire.Field) bool { return !list || isRep(f) })
		if f == nil {
			return
		}
		unk := r.UnknownNum(m.Schema())
		mk := func(n int) []byte { return roomy(occOf(nil, unk, make([]byte, n)), 1<<16) }
		small, big := mk(80000), mk(8<<20)
		var x adapt.Msg
		if f.Kind == wire.Message {
			x = m.FreshFor(f)
			mustDecode(t, x, payload(t, f, 12))
		}
		v := r.Val(f.Kind, 10)
		d := m.Fresh()
		run := func(b []byte) func() {
			return func() {
				for i := 0; i < 30; i++ {
					mustDecode(t, d, b)
					switch {
					case isRep(f):
						for k := 0; k < 10; k++ {
							d.Append(f, x)
						}
					case isSub(f):
						d.SetSub(f, x)
					case f.Repeated:
					case f.Kind == wire.String:
						d.SetString(f, string(v.B))
					default:
						d.Set(f, v)
					}
				}
			}
		}
		compareCost(t, fmt.Sprintf("adding field %d at the end of %d bytes rather than %d", f.Num, len(big), len(small)), 12, run(small), run(big))
		if isRep(f) {
			t.Ev("tail.append")
		} else {
			t.Ev("tail.set")
		}
		t.NonTrivial("tail", f.Num, v.U, v.B)
	case 6, 7: // iterating is proportional to the message
		m, f := pickM(isRep)
		if f == nil {
			return
		}
		d := [2]adapt.Msg{m.Fresh(), m.Fresh()}
		dst := m.FreshFor(f)
		count := func(m adapt.Msg, want int) func() {
			return func() {
				it := m.Iter(f)
				n := 0
				for {
					ok, err := it.Next(dst)
					if err != nil {
						t.Fail("element %d: %v", n, err)
					}
					if !ok {
						break
					}
					n++
				}
				if n != want {
					t.Fail("%d elements, want %d", n, want)
				}
			}
		}
		if r.P(0.7) {
			chunk := occOf(nil, f.Num, payload(t, f, r.Intn(20)))
			chunk = some(t, chunk, m.Schema(), r.Intn(4))
			var head []byte
			if r.P(0.3) {
				head = occOf(nil, r.UnknownNum(m.Schema()), pad)
			}
			n, factor := 500, 64
			mustDecode(t, d[0], repeated(chunk, head, n))
			mustDecode(t, d[1], repeated(chunk, head, n*factor))
			compareCost(t, fmt.Sprintf("iterating over %d elements rather than %d", n*factor, n), float64(factor)*8, count(d[0], n), count(d[1], n*factor))
			t.Ev("iterate.elements")
			t.NonTrivial("iterate", f.Num, chunk, len(head))
			t.Sample(func() string {
				return fmt.Sprintf("iterating over %d against %d elements of field %d of %s", n, n*factor, f.Num, m.Schema().Name)
			})
			return
		}
		// elements hold a large payload
		var g *wire.Field
		for _, x := range f.Sub.Fields {
			if x.Kind == wire.Message || isBlob(x) {
				g = x
			}
		}
		num := r.UnknownNum(f.Sub)
		if g != nil {
			num = g.Num
		}
		for i, n := range []int{1000, 1 << 20} {
			e := occOf(nil, num, payload(t, g, n))
			var b []byte
			for k := 0; k < 8; k++ {
				b = occOf(b, f.Num, e)
				b = some(t, b, m.Schema(), 1)
			}
			mustDecode(t, d[i], b)
		}
		lots := func(f func()) func() {
			return func() {
				for i := 0; i < 20; i++ {
					f()
				}
			}
		}
		compareCost(t, "iterating over elements of 1 MB rather than 1000 bytes", 12, lots(count(d[0], 8)), lots(count(d[1], 8)))
		t.Ev("iterate.around-payload")
		t.NonTrivial("iterate-around", f.Num, num)
	default: // building a list is proportional to it
		m, f := pickM(isRep)
		if f == nil {
			return
		}
		x := m.FreshFor(f)
		mustDecode(t, x, payload(t, f, r.Intn(20)))
		build := func(n int) func() {
			return func() {
				d := m.Fresh()
				if r.P(0.5) {
					d.Reset(nil)
				}
				for ; n > 0; n-- {
					d.Append(f, x)
				}
			}
		}
		rep := func(n int) func() { return func() { build(n)() } }
		n, factor := 500, 64
		compareCost(t, fmt.Sprintf("appending %d elements rather than %d", n*factor, n), float64(factor)*8, rep(n), rep(n*factor))
		t.Ev("append.elements")
		t.NonTrivial("append", f.Num, x.Encode())
	}
}

var genPlain = gen.WireOpts{MaxBytes: 10}
