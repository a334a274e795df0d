package main

import (
	"bytes"
	"fmt"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/wire"
)

var c04 = &engine.Check{
	ID:       "C04",
	Rule:     "each case makes hostile bytes for a drawn message type (noise, mutated messages, tokens with lengths chosen to overflow, over-long varints, truncation, bad embedded messages), puts them in read-only memory fenced by an inaccessible page, decodes them and, if that succeeds, calls every accessor, runs every iterator and descends into every embedded message; then repeats with writable memory and random setters; watched by: page faults, bounds and pointer checks, canaries, bounded iteration counts, a CPU-time and a heap watchdog; run as 64-bit and as 32-bit code; non-trivial: at least two bytes",
	Quick:    800000,
	Thorough: 9000000,
	Setup:    setupGolden,
	Variants: []engine.Variant{share(engine.Std, 0.75), share(engine.I386, 0.25)},
	Need:     []string{"decode.ok", "decode.refused", "walk.sub.error", "walk.element", "set.after", "front.guard"},
	Assumptions: []string{
		"what accessors return after a failed decode is not part of the property",
		"reads of other mapped memory that neither fault nor fail a bounds or pointer check are not seen; the memory next to the message is fenced on one side at a time",
	},
	Run: runC04,
}

func share(v engine.Variant, x float64) engine.Variant { v.Share = x; return v }

// also386 runs a tenth more cases as 32-bit code.
func also386() []engine.Variant {
	v := share(engine.I386, 0.1)
	v.Extra = true
	return []engine.Variant{engine.Std, v}
}

func runC04(t *engine.T) {
	r := t.R
	m := pick(t, true)
	max := r.Pick(3, 10, 40, 200)
	if r.P(0.01) {
		max = 5000
	}
	raw := r.Hostile(m.Schema(), max)
	if r.P(0.004) {
		// hostile bytes behind more than 64 KiB of good ones
		big := wire.PutTag(nil, r.UnknownNum(m.Schema()), wire.TBytes, 0)
		p := r.FillBytes(65500 + r.Intn(60))
		big = wire.PutVarint(big, uint64(len(p)), 0)
		raw = append(append(big, p...), raw...)
		t.Ev("over64k.seen")
	}
	t.Logf("type %s", shape(m.Schema()))
	t.Logf("decode %s", clip(raw))
	if len(raw) >= 2 {
		t.NonTrivial(m.Schema().Name, raw)
		t.Sample(func() string { return fmt.Sprintf("%s: %s", shape(m.Schema()), clip(raw)) })
	}
	a := t.Arena()
	put := a.Put
	if r.P(0.3) {
		put = a.PutFront
		t.Ev("front.guard")
	}
	in := put(raw)
	a.ReadOnly()
	err := m.Decode(in)
	if err == nil {
		t.Ev("decode.ok")
		walk(t, m, len(raw), 0)
		walk(t, m, len(raw), 0)
	} else {
		t.Ev("decode.refused")
	}
	_ = m.Encode()
	a.Reset()
	if err != nil {
		if r.P(0.05) {
			// the struct stays usable for the next message
			good := r.Message(m.Schema(), r.DefaultOpts())
			if len(good) < a.Cap() {
				if m.Decode(put(good)) == nil {
					walk(t, m, len(good), 0)
				}
				t.Ev("decode.after-failure")
			}
		}
		return
	}
	in = put(raw)
	if err := m.Decode(in); err != nil {
		t.Fail("decoding the same bytes again fails: %v", err)
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		o := genOp(r, m, 30, 2, nil)
		if o == nil {
			break
		}
		t.Logf("%s", o)
		o.apply(m)
		t.Ev("set.after")
		walk(t, m, len(m.Encode()), 0)
		if err := a.CheckCanary(); err != nil {
			t.Fail("%s: %v", o, err)
		}
	}
}

// walk calls everything that reads.
func walk(t *engine.T, m adapt.Msg, size, depth int) {
	for _, f := range fieldsOf(m.Schema(), nil) {
		switch {
		case f.Repeated:
			it := m.Iter(f)
			n := 0
			for {
				dst := m.FreshFor(f)
				ok, err := it.Next(dst)
				if !ok {
					break
				}
				t.Ev("walk.element")
				if n++; n > size {
					t.Fail("iterating #%d yields more elements (%d) than the message has bytes (%d)", f.Num, n, size)
				}
				if err == nil && depth < 4 {
					walk(t, dst, size, depth+1)
				} else if err != nil {
					t.Ev("walk.sub.error")
				}
			}
			it.Next(m.FreshFor(f))
		case f.Kind == wire.Message:
			dst := m.FreshFor(f)
			ok, err := m.Sub(f, dst)
			if ok && err == nil && depth < 4 {
				t.Ev("walk.sub")
				walk(t, dst, size, depth+1)
			} else if err != nil {
				t.Ev("walk.sub.error")
			}
		default:
			v := m.Get(f)
			if len(v.B) > size {
				t.Fail("#%d reads %d bytes from a message of %d", f.Num, len(v.B), size)
			}
			if f.Kind == wire.Bytes {
				if b := m.RawBytes(f); cap(b) > size {
					t.Fail("#%d gives access to %d bytes of a message of %d", f.Num, cap(b), size)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C05

var c05 = &engine.Check{
	ID:       "C05",
	Rule:     "each case is either hostile bytes (as for C04), or a well-formed message together with every one of its prefixes and with random one-token changes; each string is decoded and the verdict compared with an independent recogniser; strings the property leaves open (field number zero or above 2^29-1) are not judged; run as 64-bit and as 32-bit code; some 24 cases are of unusual scale (32767 to 131073 fields, or up to 512 MiB); non-trivial: the recogniser has a verdict on a non-empty string",
	Quick:    800000,
	Thorough: 9000000,
	Setup:    setupGolden,
	Variants: []engine.Variant{share(engine.Std, 0.75), share(engine.I386, 0.25)},
	Need: []string{"vast.judged", "judged.well-formed", "judged.tag-short", "judged.tag-overflow", "judged.varint-short", "judged.varint-overflow", "judged.fixed32-short",
		"judged.fixed64-short", "judged.length-short", "judged.length-overflow", "judged.payload-short", "judged.wiretype", "prefix"},
	Run: runC05,
}

func runC05(t *engine.T) {
	r := t.R
	m := pick(t, true)
	s := m.Schema()
	t.Logf("type %s", shape(s))
	judge := func(raw []byte) {
		_, class, why := wire.Tokenize(raw)
		if class == wire.Either {
			t.Ev("left-open")
			return
		}
		in := raw
		if len(raw) < 1<<24 {
			in = make([]byte, len(raw)) // no spare capacity to run into
			copy(in, raw)
		}
		err := m.Decode(in[:len(raw):len(raw)])
		if class == wire.WellFormed {
			t.Ev("judged.well-formed")
			if err != nil {
				t.Fail("well-formed message refused (%v): %s", err, clip(raw))
			}
			return
		}
		t.Ev("judged." + why)
		if err == nil {
			t.Fail("malformed message (%s) accepted: %s", why, clip(raw))
		}
	}
	if turn, ok := vastTurn(t, 800000); ok {
		vastVerdicts(t, s, turn, judge)
		return
	}
	if r.P(0.6) {
		raw := r.Hostile(s, r.Pick(5, 20, 60, 300))
		judge(raw)
		if len(raw) > 0 {
			t.NonTrivial(raw)
			t.Sample(func() string { return fmt.Sprintf("%s: %s", shape(s), clip(raw)) })
		}
		return
	}
	o := r.DefaultOpts()
	if o.N > 12 {
		o.N = 12
	}
	o.Split = true
	o.Wrong = r.Float64() * 0.3
	if r.P(0.97) && o.MaxBytes > 30 {
		o.MaxBytes = 30
	} else if r.P(0.1) {
		o.MaxBytes = 66000
	}
	raw := r.Message(s, o)
	judge(raw)
	if len(raw) == 0 {
		return
	}
	t.NonTrivial(raw)
	t.Sample(func() string { return fmt.Sprintf("%s: %s and its prefixes", shape(s), clip(raw)) })
	step := 1 + len(raw)/300
	for n := 0; n < len(raw); n += step {
		judge(raw[:n])
		t.Ev("prefix")
	}
	for k := 0; k < 6; k++ {
		p := r.Intn(len(raw))
		x := cp(raw)
		switch r.Intn(4) {
		case 0:
			x[p] ^= 1 << uint(r.Intn(8))
		case 1:
			x = append(x, byte(r.Pick(0x80, 0xff, 8, 0x0a, 0x0d, 9)))
		case 2:
			x = append(x[:p], x[p+1:]...)
		case 3:
			x[p] |= 0x80
		}
		judge(x)
		t.Ev("mutant")
	}
}

// ---------------------------------------------------------------- C06

var c06 = &engine.Check{
	ID:       "C06",
	Variants: also386(),
	Rule:     "each case writes a message with fields its schema does not declare (numbers below, between, right above and up to 2^29-1, all four wire types, any position, nested levels included), decodes it, compares every accessor with the message stripped of the unknown fields, and then applies edits checked as in C03 (the unknown bytes must survive); some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: at least one unknown field at the top level",
	Quick:    400000,
	Thorough: 4500000,
	Setup:    setupGolden,
	Need:     []string{"vast.edit", "unknown.above", "unknown.between", "unknown.max", "unknown.type0", "unknown.type1", "unknown.type2", "unknown.type5", "monitor.tokens", "cmp.element"},
	Run:      runC06,
}

// strip removes unknown fields at every level.
func strip(s *wire.Schema, raw []byte) []byte {
	toks, _, _ := wire.Tokenize(raw)
	out := []byte{}
	for i := range toks {
		k := &toks[i]
		f := s.ByNum(int(k.Num))
		if f == nil {
			continue
		}
		if f.Kind == wire.Message && k.Typ == wire.TBytes {
			out = append(out, raw[k.Start:k.Val]...)
			sub := strip(f.Sub, k.Payload(raw))
			out = wire.EncodeVal(out, wire.Bytes, wire.Val{B: sub}, 0)
			continue
		}
		out = append(out, raw[k.Start:k.End]...)
	}
	return out
}

func runC06(t *engine.T) {
	if turn, ok := vastTurn(t, 400000); ok {
		vast(t, vastMode{turn: turn, unknown: true})
		return
	}
	r := t.R
	m := pick(t, true)
	s := m.Schema()
	o := r.DefaultOpts()
	o.Canon = false
	o.Unknown = 0.15 + 0.5*r.Float64()
	if o.MaxBytes > 200 {
		o.MaxBytes = 200
	}
	raw := r.Message(s, o)
	t.Logf("type %s", shape(s))
	t.Logf("decode %s", clip(raw))
	toks, _, _ := wire.Tokenize(raw)
	unknown := 0
	for i := range toks {
		k := &toks[i]
		if s.ByNum(int(k.Num)) != nil {
			continue
		}
		unknown++
		t.Ev(fmt.Sprintf("unknown.type%d", k.Typ))
		switch {
		case k.Num >= wire.MaxFieldNum-1:
			t.Ev("unknown.max")
		case int(k.Num) > s.MaxNum():
			t.Ev("unknown.above")
		default:
			t.Ev("unknown.between")
		}
	}
	if err := m.Decode(roomy(raw, r.Pick(0, 50))); err != nil {
		t.Fail("a message with %d unknown fields is refused: %v: %s", unknown, err, clip(raw))
	}
	want, _, _ := wire.Parse(s, strip(s, raw))
	if d := adapt.Compare(m, want, copts(t)); d != "" {
		t.Fail("with unknown fields present: %s", d)
	}
	h := newHistory(t, m)
	for k := r.Intn(5); k > 0; k-- {
		if e := genOp(r, m, 100, 2, h.model); e != nil {
			h.step(e)
		}
	}
	h.fresh()
	if unknown > 0 {
		t.NonTrivial(s.Name, raw)
		t.Sample(func() string { return fmt.Sprintf("%s with %d unknown: %s", shape(s), unknown, clip(raw)) })
	}
}

// ---------------------------------------------------------------- C07

var c07 = &engine.Check{
	ID:       "C07",
	Variants: also386(),
	Rule:     "each case makes a message with repeated embedded messages (decoded, built by appends, or decoded and then edited; elements interleaved with other fields and unknown ones, empty elements, elements holding bytes that look like tags, from none to thousands), opens several iterators and advances them in a random interleaving; each Next is compared with the elements an independent parser finds, ends are asked for repeatedly; some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: at least two elements",
	Quick:    400000,
	Thorough: 3000000,
	Setup:    setupGolden,
	Need:     []string{"vast.edit", "iter.element", "iter.end", "iter.past-end", "iter.empty-element", "iter.none", "iter.interleaved", "built", "decoded", "many", "edited", "built.far", "decoded.far", "unknown"},
	Run:      runC07,
}

func runC07(t *engine.T) {
	if turn, ok := vastTurn(t, 400000); ok {
		vast(t, vastMode{turn: turn, reps: true, build: turn%2 == 0})
		return
	}
	r := t.R
	m := pickWith(t, isRep)
	s := m.Schema()
	t.Logf("type %s", shape(s))
	reps := fieldsOf(s, isRep)
	model := wire.NewModel(s)
	many := r.P(0.02)
	if r.P(0.5) {
		t.Ev("built")
		m.Reset(make([]byte, 0, r.Pick(0, 100)))
		if blobs := fieldsOf(s, isBlob); len(blobs) > 0 && !many && r.P(0.03) {
			o := &op{f: blobs[r.Intn(len(blobs))], val: wire.Val{B: r.FillBytes(r.FarLen())}}
			t.Logf("%s", o)
			o.apply(m)
			o.expect(model)
			t.Ev("built.far")
		}
		n := r.Intn(14)
		if many {
			n = 600
		}
		for i := 0; i < n; i++ {
			var o *op
			if r.P(0.6) {
				o = genOpOn(r, m, reps[r.Intn(len(reps))], 60, 2, model)
			} else {
				o = genOp(r, m, 60, 2, model)
			}
			t.Logf("%s", o)
			o.apply(m)
			o.expect(model)
		}
	} else {
		t.Ev("decoded")
		o := r.DefaultOpts()
		if o.MaxBytes > 100 {
			o.MaxBytes = 100
		}
		o.Canon = o.Canon && r.P(0.5)
		o.Depth = 2
		o.Far = false
		var raw []byte
		if r.P(0.03) {
			raw = r.FarPrefix(s)
			t.Ev("decoded.far")
		}
		n := r.Intn(10)
		if many {
			n = 1500
			o.N, o.Depth = 2, 1
		}
		for i := 0; i < n; i++ {
			if r.P(0.6) {
				f := reps[r.Intn(len(reps))]
				if r.P(0.15) {
					raw = wire.PutTag(raw, f.Num, wire.TBytes, 0)
					raw = append(raw, 0)
					continue
				}
				raw = r.Occ(raw, f, &o)
			} else if r.P(0.2) {
				// an unknown field, at times with a number that resembles a declared one's
				raw = r.RandOcc(raw, r.UnknownNum(s), r.Pick(wire.TVarint, wire.TFixed32, wire.TFixed64, wire.TBytes, wire.TBytes), &o)
				t.Ev("unknown")
			} else {
				one := o
				one.N = 1
				raw = append(raw, r.Message(s, one)...)
			}
		}
		t.Logf("decode %s", clip(raw))
		if !decodeOK(t, m, cp(raw)) {
			return
		}
		model, _, _ = wire.Parse(s, raw)
		// A message field may have come up twice; only iterators are judged here.
		if r.P(0.4) {
			for k := 1 + r.Intn(4); k > 0; k-- {
				if e := genOp(r, m, 60, 2, model); e != nil {
					t.Logf("%s", e)
					e.apply(m)
					e.expect(model)
				}
			}
			t.Ev("edited")
		}
	}
	if many {
		t.Ev("many")
	}
	type cursor struct {
		f    *wire.Field
		it   adapt.Iter
		want [][]byte
		pos  int
		past int
		dst  adapt.Msg
	}
	var cs []*cursor
	open := func() {
		f := reps[r.Intn(len(reps))]
		c := &cursor{f: f, it: m.Iter(f)}
		if fm := model.F[f.Num]; fm != nil {
			c.want = fm.AllSubs
		}
		if len(c.want) == 0 {
			t.Ev("iter.none")
		}
		if r.P(0.4) {
			c.dst = m.FreshFor(f) // one struct for all elements
		}
		cs = append(cs, c)
	}
	total := 0
	for i := 1 + r.Intn(3); i > 0; i-- {
		open()
	}
	for len(cs) > 0 {
		c := cs[r.Intn(len(cs))]
		if len(cs) > 1 {
			t.Ev("iter.interleaved")
		}
		dst := c.dst
		if dst == nil {
			dst = m.FreshFor(c.f)
		}
		ok, err := c.it.Next(dst)
		if c.pos >= len(c.want) {
			if ok || err != nil {
				t.Fail("#%d: Next call %d (%d past the end) returned (%v, %v), want the end after %d elements", c.f.Num, c.pos+c.past+1, c.past, ok, err, len(c.want))
			}
			if c.past == 0 {
				t.Ev("iter.end")
			} else {
				t.Ev("iter.past-end")
			}
			if c.past++; c.past > 1+r.Intn(3) {
				for i := range cs {
					if cs[i] == c {
						cs = append(cs[:i], cs[i+1:]...)
						break
					}
				}
				if r.P(0.05) {
					open()
				}
			}
			continue
		}
		want := c.want[c.pos]
		if !ok {
			t.Fail("#%d: iteration ended after %d of %d elements", c.f.Num, c.pos, len(c.want))
		}
		if err != nil {
			t.Fail("#%d: element %d is refused: %v: %s", c.f.Num, c.pos, err, clip(want))
		}
		if !bytes.Equal(dst.Encode(), want) {
			t.Fail("#%d: element %d is %s, want %s", c.f.Num, c.pos, clip(dst.Encode()), clip(want))
		}
		if !many {
			sub, _, _ := wire.Parse(c.f.Sub, want)
			if d := adapt.Compare(dst, sub, &adapt.CompareOpts{}); d != "" {
				t.Fail("#%d: element %d: %s", c.f.Num, c.pos, d)
			}
		}
		if len(want) == 0 {
			t.Ev("iter.empty-element")
		}
		t.Ev("iter.element")
		c.pos++
		total++
	}
	if total >= 2 {
		t.NonTrivial(s.Name, m.Encode())
		t.Sample(func() string { return fmt.Sprintf("%s, %d elements read: %s", shape(s), total, clip(m.Encode())) })
	}
}

// ---------------------------------------------------------------- C08

var c08 = &engine.Check{
	ID:       "C08",
	Variants: also386(),
	Rule:     "each case gives a struct a random life (decodes, failed decodes, edits, growth beyond 64 KiB, resets), then decodes bytes into it or resets it, does the same with a fresh struct, and compares every accessor, iterator, a common series of edits and the resulting encodings; resets must refuse non-empty buffers and build in the memory supplied; non-trivial: the earlier life changed the struct",
	Quick:    260000,
	Thorough: 2100000,
	Setup:    setupGolden,
	Need:     []string{"life.decode", "life.failed-decode", "life.edit", "life.over64k", "life.reset", "final.decode", "final.nil", "final.empty", "final.failed-decode", "final.reset", "reset.in-place", "reset.refused", "twin.edit"},
	Run:      runC08,
}

func runC08(t *engine.T) {
	r := t.R
	m := pick(t, false)
	s := m.Schema()
	t.Logf("type %s", shape(s))
	lived := false
	broken := false // the last decode failed: edits make no sense until the next decode or reset
	for k := 1 + r.Intn(5); k > 0; k-- {
		switch r.Intn(6) {
		case 0, 1:
			raw := r.Message(s, r.DefaultOpts())
			t.Logf("life: decode %s", clip(raw))
			broken = m.Decode(cp(raw)) != nil
			t.Ev("life.decode")
			lived = lived || len(raw) > 0
		case 2:
			raw := r.Hostile(s, 60)
			t.Logf("life: decode %s", clip(raw))
			if broken = m.Decode(raw) != nil; broken {
				t.Ev("life.failed-decode")
				lived = true
			}
		case 3:
			b := r.FillBytes(r.Pick(0, 10, 200))
			m.Reset(b[:0])
			broken = false
			t.Logf("life: reset to capacity %d", cap(b))
			t.Ev("life.reset")
		default:
			if broken {
				continue
			}
			if r.P(0.1) {
				// grow beyond 64 KiB, with fields after that
				if fs := fieldsOf(s, isBlob); len(fs) > 0 {
					f := fs[r.Intn(len(fs))]
					t.Logf("life: 66000 bytes into #%d", f.Num)
					m.Set(f, wire.Val{B: make([]byte, 66000)})
					t.Ev("life.over64k")
				}
			}
			for j := 1 + r.Intn(4); j > 0; j-- {
				if o := genOp(r, m, 100, 2, nil); o != nil {
					t.Logf("life: %s", o)
					o.apply(m)
					t.Ev("life.edit")
					lived = true
				}
			}
		}
	}
	twin := m.Fresh()
	var mem []byte
	reset := func() {
		if r.P(0.2) {
			bad := r.FillBytes(1 + r.Intn(5))
			if !panics(func() { m.Reset(bad) }) {
				t.Fail("Reset with a non-empty buffer is not refused")
			}
			t.Ev("reset.refused")
		}
		t.Ev("final.reset")
		mem = nil
		if n := r.Pick(-1, 0, 40, 300, 3000); n >= 0 {
			mem = r.FillBytes(n)
		}
		t.Logf("reset to capacity %d", cap(mem))
		m.Reset(mem[:0])
		twin.Reset(make([]byte, 0, cap(mem)))
		if n := len(m.Encode()); n != 0 {
			t.Fail("after Reset the encoding has %d bytes", n)
		}
		if d := adapt.Compare(m, wire.NewModel(s), copts(t)); d != "" {
			t.Fail("after Reset: %s", d)
		}
	}
	if r.P(0.3) {
		reset()
	} else {
		var raw []byte
		if r.P(0.25) {
			raw = r.Hostile(s, 60)
		} else {
			o := r.DefaultOpts()
			if r.P(0.02) {
				o.MaxBytes, o.N = 70000, 20
			}
			raw = r.Message(s, o)
		}
		spare := r.Pick(0, 0, 20, 500)
		in1, in2 := roomy(raw, spare), roomy(raw, spare)
		switch x := r.Intn(40); {
		case x == 0: // no bytes, and no slice either
			raw, in1, in2 = nil, nil, nil
			t.Ev("final.nil")
		case x == 1: // no bytes, with and without room for some
			raw, in1, in2 = nil, make([]byte, 0, spare), make([]byte, 0, spare)
			t.Ev("final.empty")
		}
		t.Logf("decode %s", clip(raw))
		err1, err2 := m.Decode(in1), twin.Decode(in2)
		if (err1 == nil) != (err2 == nil) {
			t.Fail("decoding %s: the used struct says %v, a fresh one %v", clip(raw), err1, err2)
		}
		if err1 != nil {
			t.Ev("final.failed-decode")
			reset()
		} else {
			t.Ev("final.decode")
			if model, _, c := wire.Parse(s, raw); c == wire.WellFormed {
				if d := adapt.Compare(m, model, copts(t)); d != "" {
					t.Fail("reused struct: %s", d)
				}
			}
		}
	}
	fits := mem != nil
	same := func(when string) {
		if a, b := dump(m, 2), dump(twin, 2); a != b {
			t.Fail("%s the used struct reads %s, a fresh one %s", when, firstDiff(a, b), firstDiff(b, a))
		}
		a, b := m.Encode(), twin.Encode()
		if !bytes.Equal(a, b) {
			t.Fail("%s the used struct encodes as %s, a fresh one as %s", when, clip(a), clip(b))
		}
		if fits = fits && len(a) <= cap(mem); fits && len(a) > 0 {
			// whatever is built while it fits is built right there
			if &a[0] != &mem[:1][0] {
				t.Fail("%s the message is not in the memory supplied to Reset (%d of %d bytes used)", when, len(a), cap(mem))
			}
			t.Ev("reset.in-place")
		}
	}
	same("afterwards")
	for k := r.Intn(8); k > 0; k-- {
		o := genOp(r, m, 60, 2, nil)
		if o == nil {
			break
		}
		t.Logf("both: %s", o)
		o.apply(m)
		o.apply(twin)
		t.Ev("twin.edit")
		same("after " + o.String())
	}
	if lived {
		t.NonTrivial(s.Name, m.Encode())
		t.Sample(func() string { return fmt.Sprintf("%s: %s", shape(s), clip(m.Encode())) })
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 20 {
		i -= 20
	} else {
		i = 0
	}
	j := i + 120
	if j > len(a) {
		j = len(a)
	}
	return "..." + a[i:j]
}

func panics(f func()) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = true
		}
	}()
	f()
	return false
}
