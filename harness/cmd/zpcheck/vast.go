package main

import (
	"bytes"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

// Messages of unusual scale: single values of megabytes (their lengths take four
// or five bytes), and tens of thousands of occurrences. Few cases of each check
// are like that, and few of them run at the same time.

var vastSlots = make(chan struct{}, 3)

// vastTurn says whether this case is one of them, some 24 in a quick run, and
// which.
func vastTurn(t *engine.T, quick int) (int, bool) {
	return t.N / (quick / 24), t.N%(quick/24) == quick/48
}

func vastLen(t *engine.T) int {
	r := t.R
	switch x := r.Intn(12); {
	case x == 0 && t.Env.Variant != "386":
		return 1<<26 - 8 + r.Intn(40)
	case x < 3:
		return 1<<24 - 2 + r.Intn(4)
	case x < 6:
		return 1<<20 + r.Intn(1<<22)
	}
	return 1<<21 - 2 + r.Intn(4)
}

func vastCount(t *engine.T) int {
	return t.R.Pick(32767, 32769, 65534, 65535, 65536, 65537, 65540, 70000, 70000, 131073)
}

// vastBytes is quick to make, yet not the same everywhere.
func vastBytes(t *engine.T, n int) []byte {
	b := make([]byte, n)
	copy(b, t.R.FillBytes(min(n, 1000)))
	copy(b[n-min(n, 1000):], t.R.FillBytes(min(n, 1000)))
	for i := 5000; i < n; i += 4093 {
		b[i] = byte(i >> 8)
	}
	return b
}

// onceSubs drops all but the first occurrence of every singular embedded message.
func onceSubs(s *wire.Schema, raw []byte) []byte {
	toks, _, _ := wire.Tokenize(raw)
	seen := map[uint64]bool{}
	out := make([]byte, 0, len(raw))
	for i := range toks {
		if f := s.ByNum(int(toks[i].Num)); f != nil && isSub(f) {
			if seen[toks[i].Num] {
				continue
			}
			seen[toks[i].Num] = true
		}
		out = append(out, raw[toks[i].Start:toks[i].End]...)
	}
	return out
}

// vastMessage is a well-formed message for s.
func vastMessage(t *engine.T, s *wire.Schema, mode vastMode) []byte {
	r := t.R
	small := gen.WireOpts{N: r.Intn(8), MaxBytes: 30, Depth: 1, Unknown: 0.1, Pad: 0.1}
	raw := r.Message(s, small)
	blob := func(num int, p []byte) {
		raw = wire.PutTag(raw, num, wire.TBytes, r.Pick(0, 0, 0, 1))
		raw = wire.PutVarint(raw, uint64(len(p)), r.Pick(0, 0, 0, 1, 3))
		raw = append(raw, p...)
	}
	some := func(ok func(*wire.Field) bool) *wire.Field {
		if fs := fieldsOf(s, ok); len(fs) > 0 {
			return fs[r.Intn(len(fs))]
		}
		return nil
	}
	what := mode.turn % 7
	switch {
	case mode.unknown && r.P(0.7):
		what = r.Pick(1, 4)
	case mode.message:
		what = r.Pick(2, 2, 5)
	}
	switch what {
	case 0: // a large value
		if f := some(isBlob); f != nil {
			t.Ev("vast.value")
			n := vastLen(t)
			if mode.turn%2 == 1 && t.Env.Variant != "386" {
				n = 1<<26 - 1 + r.Intn(40)
			}
			blob(f.Num, vastBytes(t, n))
			break
		}
		fallthrough
	case 1: // a large unknown field
		t.Ev("vast.unknown-value")
		blob(r.UnknownNum(s), vastBytes(t, vastLen(t)))
	case 2: // a large embedded message or element
		if f := some(func(f *wire.Field) bool { return f.Kind == wire.Message }); f != nil {
			t.Ev("vast.message")
			num := r.UnknownNum(f.Sub)
			if fs := fieldsOf(f.Sub, isBlob); len(fs) > 0 && r.P(0.7) {
				num = fs[r.Intn(len(fs))].Num
			}
			p := vastBytes(t, vastLen(t))
			sub := wire.PutVarint(wire.PutTag(nil, num, wire.TBytes, 0), uint64(len(p)), 0)
			sub = append(sub, p...)
			sub = append(sub, r.Message(f.Sub, gen.WireOpts{N: 2, MaxBytes: 20})...)
			blob(f.Num, onceSubs(f.Sub, sub))
			break
		}
		fallthrough
	case 3: // many of one scalar field, the last of which counts
		if f := some(isScalar); f != nil && !isBlob(f) {
			t.Ev("vast.duplicates")
			for n := vastCount(t); n > 0; n-- {
				raw = r.Occ(raw, f, &small)
			}
			break
		}
		fallthrough
	case 4: // many unknown fields
		t.Ev("vast.unknown")
		num := r.UnknownNum(s)
		for n := vastCount(t); n > 0; n-- {
			if n%1000 == 0 {
				num = r.UnknownNum(s)
			}
			switch r.Intn(3) {
			case 0:
				raw = wire.PutVarint(wire.PutTag(raw, num, wire.TVarint, 0), uint64(n), 0)
			case 1:
				raw = append(wire.PutTag(raw, num, wire.TBytes, 0), 0)
			default:
				raw = append(wire.PutTag(raw, num, wire.TBytes, 0), 1, byte(n))
			}
		}
	case 5: // many elements
		if f := some(isRep); f != nil {
			t.Ev("vast.elements")
			for n := vastCount(t); n > 0; n-- {
				raw = append(wire.PutTag(raw, f.Num, wire.TBytes, 0), vastElement(t, f, n)...)
			}
			break
		}
		fallthrough
	default: // many of any kind
		t.Ev("vast.mixture")
		one := gen.WireOpts{N: 500, MaxBytes: 2, Unknown: 0.2 * r.Float64()}
		parts := make([][]byte, 8)
		for i := range parts {
			parts[i] = r.Message(s, one)
		}
		for n := vastCount(t) / 400; n > 0; n-- {
			raw = append(raw, parts[r.Intn(len(parts))]...)
		}
	}
	small.N = r.Intn(8)
	return onceSubs(s, append(raw, r.Message(s, small)...))
}

// vastElement is a small element of f with its length before it.
func vastElement(t *engine.T, f *wire.Field, n int) []byte {
	if n%3 == 0 {
		return []byte{0}
	}
	num := 1
	if len(f.Sub.Fields) > 0 {
		num = f.Sub.Fields[n%len(f.Sub.Fields)].Num
	}
	for num < 1<<20 && f.Sub.ByNum(num) != nil && (f.Sub.ByNum(num).Kind.WireType() != wire.TVarint || f.Sub.ByNum(num).Repeated) {
		num++
	}
	b := wire.PutVarint(wire.PutTag(nil, num, wire.TVarint, 0), uint64(n&1), 0)
	return append(wire.PutVarint(nil, uint64(len(b)), 0), b...)
}

type vastMode struct {
	turn    int
	build   bool // from nothing, else decoded
	unknown bool // prefer unknown fields
	message bool // with large or many embedded messages
	own     bool // store its own values
	reps    bool // of a type with repeated fields
	exact   bool // look at the length of what was built
}

// vast is one such case: decode or build, compare all there is, edit, compare.
func vast(t *engine.T, mode vastMode) {
	vastSlots <- struct{}{}
	defer func() { <-vastSlots }()
	r := t.R
	far := r.NoFar
	r.NoFar = true
	defer func() { r.NoFar = far }()

	m := pickWith(t, func(f *wire.Field) bool {
		return isBlob(f) && !mode.reps && !mode.message || isSub(f) && mode.message && !mode.reps || isRep(f)
	})
	s := m.Schema()
	t.Logf("type %s", shape(s))
	var h *history
	if mode.build {
		h = vastBuild(t, m, mode)
		if mode.exact {
			exactSize(t, h, &op{f: s.Fields[0], val: wire.Val{}})
		}
		checkEncoding(t, m, h.model)
	} else {
		raw := vastMessage(t, s, mode)
		t.Logf("decode %s", clip(raw))
		if err := m.Decode(roomy(raw, r.Pick(0, 0, 100, len(raw)))); err != nil {
			t.Fail("a message of %d bytes is refused: %v", len(raw), err)
		}
		if mode.unknown {
			want, _, _ := wire.Parse(s, strip(s, raw))
			if d := adapt.Compare(m, want, copts(t)); d != "" {
				t.Fail("with unknown fields present: %s", d)
			}
		}
		h = newHistory(t, m)
	}
	h.read()
	t.NonTrivial(s.Name, len(m.Encode()), m.Encode()[:min(500, len(m.Encode()))])
	for k := 1 + r.Intn(3); k > 0; k-- {
		if mode.own && r.P(0.8) {
			o := storeBack(t, m)
			if o == nil {
				continue
			}
			h = newHistory(t, m)
			h.step(o)
			t.Ev("vast.own")
			continue
		}
		o := genOp(r, m, 30, 1, nil)
		if fs := fieldsOf(s, isBlob); len(fs) > 0 && r.P(0.5) {
			f := fs[r.Intn(len(fs))]
			for _, g := range fs { // rather one that is large
				if fm := h.model.F[g.Num]; fm != nil && len(fm.Val.B) > 1<<20 && r.P(0.8) {
					f = g
				}
			}
			n := vastLen(t)
			if fm := h.model.F[f.Num]; fm != nil && len(fm.Val.B) > 1<<20 && r.P(0.7) {
				n = len(fm.Val.B) + r.Pick(0, 0, 1, -1, -(1<<20), -len(fm.Val.B), 3-len(fm.Val.B))
			}
			o = &op{f: f, val: wire.Val{B: vastBytes(t, n)}}
		}
		if o == nil {
			break
		}
		h.step(o)
		t.Ev("vast.edit")
	}
	if len(m.Encode()) < 1<<22 || r.P(0.3) {
		h.fresh()
	}
}

// vastBuild builds a message from nothing.
func vastBuild(t *engine.T, m adapt.Msg, mode vastMode) *history {
	r := t.R
	s := m.Schema()
	m.Reset(make([]byte, 0, r.Pick(0, 100, 70000, 3<<20)))
	h := newHistory(t, m)
	few := func() {
		for k := r.Intn(4); k > 0; k-- {
			if o := genOp(r, m, 30, 1, nil); o != nil {
				t.Logf("%s", o)
				o.apply(m)
				o.expect(h.model)
			}
		}
	}
	few()
	reps := fieldsOf(s, isRep)
	what := mode.turn % 3
	if mode.reps {
		what = 1 + mode.turn/2%2
	}
	switch {
	case what == 2 && len(reps) > 0:
		t.Ev("vast.built-elements")
		f := reps[r.Intn(len(reps))]
		els := []adapt.Msg{m.FreshFor(f), m.FreshFor(f), m.FreshFor(f)}
		for i := range els[1:] {
			if err := els[i+1].Decode(vastElement(t, f, i+1)[1:]); err != nil {
				t.Fail("an element cannot be decoded: %v", err)
			}
		}
		fm := h.model.Field(f.Num)
		for n := vastCount(t); n > 0; n-- {
			e := els[n%len(els)]
			m.Append(f, e)
			fm.Count++
			fm.LastOK = true
			fm.AllSubs = append(fm.AllSubs, cp(e.Encode()))
		}
	case what == 1 && len(reps) > 0:
		t.Ev("vast.built-element")
		f := reps[r.Intn(len(reps))]
		e := m.FreshFor(f)
		fs := fieldsOf(f.Sub, isBlob)
		p := vastBytes(t, vastLen(t))
		if len(fs) > 0 {
			e.Set(fs[r.Intn(len(fs))], wire.Val{B: p})
		} else {
			raw := wire.PutVarint(wire.PutTag(nil, r.UnknownNum(f.Sub), wire.TBytes, 0), uint64(len(p)), 0)
			e.Decode(append(raw, p...))
		}
		o := &op{f: f, sub: e, enc: cp(e.Encode())}
		t.Logf("%s", o)
		o.apply(m)
		o.expect(h.model)
	default:
		t.Ev("vast.built-value")
		fs := fieldsOf(s, isBlob)
		if len(fs) == 0 {
			break
		}
		o := &op{f: fs[r.Intn(len(fs))], val: wire.Val{B: vastBytes(t, vastLen(t))}}
		t.Logf("%s", o)
		o.apply(m)
		o.expect(h.model)
	}
	few()
	h.seq, _, _, _ = seqs(m.Encode())
	return h
}

// vastVerdicts judges decodes of such messages, and of slightly damaged ones.
func vastVerdicts(t *engine.T, s *wire.Schema, turn int, judge func([]byte)) {
	vastSlots <- struct{}{}
	defer func() { <-vastSlots }()
	r := t.R
	raw := vastMessage(t, s, vastMode{turn: turn})
	if r.P(0.3) {
		// more than anybody's limit: nobody looks at what is inside
		n := 1<<26 + r.Intn(1<<20)
		if t.Env.Variant != "386" {
			n = r.Pick(1<<26+1, 1<<27, 1<<28, 1<<28+5, 1<<29+3)
		}
		raw = wire.PutVarint(wire.PutTag(nil, r.UnknownNum(s), wire.TBytes, 0), uint64(n), 0)
		raw = append(make([]byte, 0, len(raw)+n), raw...)[:len(raw)+n]
		t.Ev("vast.huge")
	}
	judge(raw)
	judge(raw[:len(raw)-1])
	judge(raw[:len(raw)/2+r.Intn(len(raw)/2)])
	if len(raw) < 1<<24 {
		tail := [][]byte{{0x0b}, {0x0f, 0}, {0x08}, {0x08, 0x80}, {0x0d, 1, 2, 3}, {0x09, 1, 2, 3, 4, 5, 6, 7}, {0x0a, 1}, {0x80}, bytes.Repeat([]byte{0xff}, 11)}
		judge(append(cp(raw), tail[r.Intn(len(tail))]...))
	}
	t.NonTrivial(len(raw), raw[:min(len(raw), 500)])
	t.Ev("vast.judged")
}
