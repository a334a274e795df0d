package main

import (
	"fmt"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

var c13 = &engine.Check{
	ID:       "C13",
	Variants: also386(),
	Rule:     "each case places a field's value at a chosen offset from 65528 to 65543 (or further up, or around another power of two), by decoding or by building, and then grows, shrinks and rewrites fields so that offsets cross 65535 in both directions, everything checked as in C03 after each step; some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: at least one field lies at or above 65534",
	Quick:    100000,
	Thorough: 600000,
	Setup:    setupGolden,
	Need:     []string{"vast.edit", "place.decode", "place.build", "place.power-of-two", "at.16384", "at.32768", "at.65533", "at.65534", "at.65535", "at.65536", "cross.up", "cross.down", "cmp.element", "monitor.fresh-decode"},
	Run:      runC13,
}

// valueOffset is where the last (first, if repeated) occurrence's value starts.
func valueOffset(enc []byte, f *wire.Field) int {
	toks, _, _ := wire.Tokenize(enc)
	at := -1
	for i := range toks {
		if int(toks[i].Num) == f.Num && toks[i].Typ == f.Kind.WireType() {
			at = toks[i].Val
			if f.Repeated {
				break
			}
		}
	}
	return at
}

// lenFor is the payload length that makes a length-delimited field with a tag of
// that many bytes occupy total bytes, or -1.
func lenFor(total, tag int) int {
	for l := 1; l <= 5; l++ {
		if n := total - tag - l; n >= 0 && wire.VarintLen(uint64(n)) == l {
			return n
		}
	}
	return -1
}

func runC13(t *engine.T) {
	if turn, ok := vastTurn(t, 100000); ok {
		vast(t, vastMode{turn: turn, build: turn%2 == 0})
		return
	}
	r := t.R
	m := pickWith(t, isBlob)
	s := m.Schema()
	t.Logf("type %s", shape(s))
	all := fieldsOf(s, nil)
	blobs := fieldsOf(s, isBlob)
	fill := blobs[r.Intn(len(blobs))]
	var f *wire.Field
	for i := 0; i < 20; i++ {
		if f = all[r.Intn(len(all))]; f != fill {
			break
		}
	}
	target := 65528 + t.N%16
	if r.P(0.1) {
		target = 65536 + r.Intn(70000)
	} else if r.P(0.15) {
		// other sizes that somebody might treat in some other way
		target = 1<<uint(r.Pick(7, 8, 10, 12, 13, 14, 14, 15, 15, 17, 18, 20)) + r.Intn(3) - 1
		t.Ev("place.power-of-two")
	}
	tagLen := wire.VarintLen(uint64(f.Num*8 + f.Kind.WireType()))
	fillTag := wire.VarintLen(uint64(fill.Num * 8))
	small := gen.WireOpts{N: 3, MaxBytes: 20, Depth: 1}
	n := 0
	if r.P(0.5) {
		t.Ev("place.decode")
		var head []byte
		if r.P(0.4) {
			head = r.Message(s, small)
			head = dropField(head, fill.Num)
		}
		num, nt := fill.Num, fillTag
		if f == fill || r.P(0.2) {
			num = r.UnknownNum(s)
			nt = wire.VarintLen(uint64(num) * 8)
		}
		n = lenFor(target-tagLen-len(head), nt)
		if n < 0 {
			return
		}
		raw := wire.PutTag(head, num, wire.TBytes, 0)
		raw = wire.PutVarint(raw, uint64(n), 0)
		raw = append(raw, r.FillBytes(n)...)
		o := small
		raw = r.Occ(raw, f, &o)
		if r.P(0.6) {
			raw = append(raw, r.Message(s, gen.WireOpts{N: r.Intn(8), MaxBytes: 20, Depth: 2})...)
		}
		if err := m.Decode(roomy(raw, r.Pick(0, 100))); err != nil {
			t.Fail("a message of %d bytes with #%d at %d is refused: %v", len(raw), f.Num, target, err)
		}
	} else {
		t.Ev("place.build")
		if f == fill {
			return
		}
		m.Reset(make([]byte, 0, r.Pick(0, 70000)))
		for k := r.Intn(3); k > 0; k-- {
			if o := genOp(r, m, 20, 1, nil); o != nil && o.f != fill && o.f != f {
				o.apply(m)
			}
		}
		n = lenFor(target-tagLen-len(m.Encode()), fillTag)
		if n < 0 {
			return
		}
		m.Set(fill, wire.Val{B: r.FillBytes(n)})
		genOpOn(r, m, f, 20, 2, nil).apply(m)
		for k := r.Intn(4); k > 0; k-- {
			if o := genOp(r, m, 20, 1, nil); o != nil && o.f != fill && o.f != f {
				o.apply(m)
			}
		}
	}
	h := newHistory(t, m)
	h.read()
	at := valueOffset(m.Encode(), f)
	t.Logf("value of #%d is at %d", f.Num, at)
	if at >= 65528 && at <= 65543 || at > 0 && at&(at-1) == 0 {
		t.Ev(fmt.Sprintf("at.%d", at))
	}
	if at >= 65534 {
		t.NonTrivial(s.Name, at, f.Num, f.Kind, m.Encode()[max(0, at-4):])
		t.Sample(func() string {
			return fmt.Sprintf("%s, #%d at %d of %d bytes", shape(s), f.Num, at, len(m.Encode()))
		})
	}
	if r.P(0.2) {
		h.fresh()
	}
	for k := 1 + r.Intn(6); k > 0; k-- {
		var o *op
		switch r.Intn(6) {
		case 0, 1:
			// move what lies behind the filler a little, or a lot
			cur := 0
			if fm := h.model.F[fill.Num]; fm != nil && fm.Count > 0 {
				cur = len(fm.Val.B)
			}
			want := r.Pick(0, 5, n-40+r.Intn(80), n-40+r.Intn(80), cur-3+r.Intn(7), cur, 65520+r.Intn(30))
			if want < 0 {
				want = 0
			}
			o = &op{f: fill, val: wire.Val{B: r.FillBytes(want)}}
		case 2:
			o = genOpOn(r, m, f, 20, 2, h.model)
		default:
			o = genOp(r, m, 20, 2, h.model)
		}
		before := offsetsOf(h)
		h.step(o)
		for num, b := range before {
			if a := valueOffset(m.Encode(), s.ByNum(num)); a >= 0 && b >= 0 {
				if b < 65535 && a >= 65535 {
					t.Ev("cross.up")
				} else if b >= 65535 && a < 65535 {
					t.Ev("cross.down")
				}
			}
		}
		if r.P(0.2) {
			h.fresh()
		}
	}
}

func offsetsOf(h *history) map[int]int {
	out := map[int]int{}
	toks, _, _ := wire.Tokenize(h.m.Encode())
	for i := range toks {
		f := h.m.Schema().ByNum(int(toks[i].Num))
		if f == nil || !f.Accessible() {
			continue
		}
		if _, ok := out[f.Num]; ok && f.Repeated {
			continue
		}
		out[f.Num] = toks[i].Val
	}
	return out
}

func dropField(raw []byte, num int) []byte {
	toks, _, _ := wire.Tokenize(raw)
	var out []byte
	for i := range toks {
		if int(toks[i].Num) != num {
			out = append(out, raw[toks[i].Start:toks[i].End]...)
		}
	}
	return out
}

// ---------------------------------------------------------------- C14

var c14 = &engine.Check{
	ID:       "C14",
	Variants: also386(),
	Rule:     "each case decodes or builds a message whose embedded messages are absent, empty, valid or malformed at several depths, and reads them into fresh structs and into structs that already hold something (decoded, edited, failed); presence, error and contents are compared with an independent parser, then the enclosing message is edited and read again; some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: at least one embedded message is present",
	Quick:    170000,
	Thorough: 1500000,
	Setup:    setupGolden,
	Need:     []string{"vast.edit", "cmp.sub.present", "cmp.sub.absent", "cmp.sub.error", "cmp.element", "sub.empty", "target.dirty", "target.failed", "target.over64k", "edit.after"},
	Run:      runC14,
}

func runC14(t *engine.T) {
	if turn, ok := vastTurn(t, 170000); ok {
		vast(t, vastMode{turn: turn, message: true})
		return
	}
	r := t.R
	m := pickWith(t, func(f *wire.Field) bool { return f.Kind == wire.Message })
	s := m.Schema()
	t.Logf("type %s", shape(s))
	built := r.P(0.25)
	if built {
		for k := 1 + r.Intn(8); k > 0; k-- {
			if o := genOp(r, m, 60, 4, nil); o != nil {
				t.Logf("%s", o)
				o.apply(m)
			}
		}
	} else {
		o := r.DefaultOpts()
		o.Depth = 1 + r.Intn(5)
		if o.MaxBytes > 60 {
			o.MaxBytes = 60
		}
		if r.P(0.6) {
			o.BadSub = 0.3
		}
		raw := r.Message(s, o)
		t.Logf("decode %s", clip(raw))
		if !decodeOK(t, m, roomy(raw, r.Pick(0, 20))) {
			return
		}
	}
	h := newHistory(t, m)
	present := false
	for _, f := range fieldsOf(s, func(f *wire.Field) bool { return f.Kind == wire.Message }) {
		if fm := h.model.F[f.Num]; fm != nil {
			present = present || fm.Count > 0
			for _, b := range fm.AllSubs {
				if len(b) == 0 {
					t.Ev("sub.empty")
				}
			}
		}
	}
	opts := copts(t)
	opts.Target = func(p adapt.Msg, f *wire.Field) adapt.Msg {
		dst := p.FreshFor(f)
		switch r.Intn(6) {
		case 0, 1:
			dst.Decode(r.Message(f.Sub, gen.WireOpts{N: 10, MaxBytes: 20, Depth: 1}))
			t.Ev("target.dirty")
		case 2:
			for k := 4; k > 0; k-- {
				if o := genOp(r, dst, 20, 1, nil); o != nil {
					o.apply(dst)
				}
			}
			t.Ev("target.dirty")
		case 3:
			if dst.Decode(r.Hostile(f.Sub, 30)) != nil {
				t.Ev("target.failed")
			}
		case 4:
			if fs := fieldsOf(f.Sub, isBlob); len(fs) > 0 && r.P(0.03) {
				dst.Set(fs[0], wire.Val{B: make([]byte, 65600)})
				for k := 4; k > 0; k-- {
					if o := genOp(r, dst, 20, 1, nil); o != nil {
						o.apply(dst)
					}
				}
				t.Ev("target.over64k")
			}
		}
		return dst
	}
	for k := 0; k < 2; k++ {
		if d := adapt.Compare(m, h.model, opts); d != "" {
			t.Fail("%s", d)
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		if o := genOp(r, m, 60, 2, h.model); o != nil {
			h.step(o)
			t.Ev("edit.after")
		}
	}
	if d := adapt.Compare(m, h.model, opts); d != "" {
		t.Fail("%s", d)
	}
	if present {
		t.NonTrivial(s.Name, m.Encode())
		t.Sample(func() string { return fmt.Sprintf("%s: %s", shape(s), clip(m.Encode())) })
	}
}

// ---------------------------------------------------------------- C15

var c15 = &engine.Check{
	ID:       "C15",
	Variants: also386(),
	Rule:     "each case decodes a message in which declared fields also occur with wire types that do not belong to them (every declared type against every other supported wire type, before, between and after proper occurrences), and compares every accessor with what is allowed (unset, or the last proper occurrence), then edits fields, checked as in C03; non-trivial: at least one odd occurrence",
	Quick:    500000,
	Thorough: 4500000,
	Setup:    setupGolden,
	Need:     []string{"odd.only", "odd.last", "odd.then-proper", "odd.element", "edit.odd-field", "monitor.tokens", "cmp.element"},
	Run:      runC15,
}

func runC15(t *engine.T) {
	r := t.R
	m := pick(t, false)
	s := m.Schema()
	t.Logf("type %s", shape(s))
	o := r.DefaultOpts()
	o.Wrong = 0.1 + 0.6*r.Float64()
	if o.MaxBytes > 100 {
		o.MaxBytes = 100
	}
	raw := r.Message(s, o)
	t.Logf("decode %s", clip(raw))
	if !decodeOK(t, m, roomy(raw, r.Pick(0, 50))) {
		return
	}
	h := newHistory(t, m)
	var odd []*wire.Field
	for _, f := range fieldsOf(s, nil) {
		fm := h.model.F[f.Num]
		if fm == nil || fm.Wrong == 0 {
			continue
		}
		odd = append(odd, f)
		for _, x := range h.seq[uint64(f.Num)] {
			t.Ev(fmt.Sprintf("odd.%s-as-%c", f.Kind, x[0]))
		}
		switch {
		case f.Repeated:
			t.Ev("odd.element")
		case fm.Count == 0:
			t.Ev("odd.only")
		case fm.LastOK:
			t.Ev("odd.then-proper")
		default:
			t.Ev("odd.last")
		}
	}
	h.read()
	for k := r.Intn(5); k > 0; k-- {
		var e *op
		if len(odd) > 0 && r.P(0.6) {
			e = genOpOn(r, m, odd[r.Intn(len(odd))], 60, 2, nil)
			t.Ev("edit.odd-field")
		} else {
			e = genOp(r, m, 60, 2, nil)
		}
		if e != nil {
			h.step(e)
		}
	}
	if len(odd) > 0 {
		t.NonTrivial(s.Name, raw)
		t.Sample(func() string {
			return fmt.Sprintf("%s, %d fields with odd wire types: %s", shape(s), len(odd), clip(raw))
		})
	}
}

// ---------------------------------------------------------------- C16

var c16 = &engine.Check{
	ID:       "C16",
	Variants: also386(),
	Rule:     "each case edits few fields over and over (values growing, shrinking, keeping their size, toggling across varint and length-prefix sizes), from nothing or from a decoded message, and after each edit counts occurrences and bytes in the encoding with an independent tokenizer against the sum of the current values' encoded sizes; some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: some field was set more than once",
	Quick:    240000,
	Thorough: 1500000,
	Setup:    setupGolden,
	Need:     []string{"vast.edit", "size.exact", "reset.again", "start.empty", "start.decoded", "dup.replaced", "op.append", "op.set-message", "long"},
	Assumptions: []string{
		"a field set to its default value may be left out of the encoding",
	},
	Run: runC16,
}

func runC16(t *engine.T) {
	if turn, ok := vastTurn(t, 240000); ok {
		vast(t, vastMode{turn: turn, build: true, exact: true})
		return
	}
	r := t.R
	m := pick(t, false)
	s := m.Schema()
	t.Logf("type %s", shape(s))
	fs := fieldsOf(s, nil)
	if len(fs) == 0 {
		return
	}
	empty := r.P(0.7)
	var few []*wire.Field
	for i := 1 + r.Intn(4); i > 0; i-- {
		few = append(few, fs[r.Intn(len(fs))])
	}
	if empty {
		t.Ev("start.empty")
		m.Reset(make([]byte, 0, r.Pick(0, 50, 1000)))
	} else {
		o := r.DefaultOpts()
		if o.MaxBytes > 200 {
			o.MaxBytes = 200
		}
		raw := r.Message(s, o)
		t.Logf("decode %s", clip(raw))
		if !decodeOK(t, m, roomy(raw, r.Pick(0, 100))) {
			return
		}
		t.Ev("start.decoded")
	}
	h := newHistory(t, m)
	n := 2 + r.Intn(15)
	if r.P(0.02) {
		n = 300
		t.Ev("long")
	}
	sets := map[int]int{}
	again := false
	maxBytes := r.Pick(2, 20, 140, 300)
	if r.P(0.02) {
		maxBytes = 20000
	}
	if n > 100 {
		maxBytes = 20
	}
	for i := 0; i < n; i++ {
		o := genOpOn(r, m, few[r.Intn(len(few))], maxBytes, 2, h.model)
		if n > 100 && o.f.Repeated && r.P(0.9) {
			continue
		}
		if !o.f.Repeated {
			if sets[o.f.Num]++; sets[o.f.Num] > 1 {
				again = true
				t.Ev("reset.again")
			}
			if len(h.seq[uint64(o.f.Num)]) > 1 {
				t.Ev("dup.replaced")
			}
		}
		h.step(o) // counts occurrences
		if empty {
			exactSize(t, h, o)
		}
	}
	if again {
		t.NonTrivial(s.Name, m.Encode())
		t.Sample(func() string {
			return fmt.Sprintf("%s, %d edits, %d bytes: %s", shape(s), h.steps, len(m.Encode()), clip(m.Encode()))
		})
	}
}

// exactSize: a message built only through its accessors is exactly as long as
// its current contents.
func exactSize(t *engine.T, h *history, o *op) {
	need, optional := 0, 0
	for num, fm := range h.model.F {
		if fm.Count == 0 {
			continue
		}
		f := h.m.Schema().ByNum(num)
		tag := wire.VarintLen(uint64(num*8 + f.Kind.WireType()))
		switch {
		case f.Repeated:
			for _, e := range fm.AllSubs {
				need += tag + wire.VarintLen(uint64(len(e))) + len(e)
			}
		case f.Kind == wire.Message:
			need += tag + wire.VarintLen(uint64(len(fm.Sub))) + len(fm.Sub)
		default:
			n := tag + len(wire.EncodeVal(nil, f.Kind, fm.Val, 0))
			if fm.Val.U == 0 && len(fm.Val.B) == 0 {
				optional += n
			} else {
				need += n
			}
		}
	}
	n := len(h.m.Encode())
	if n < need || n > need+optional {
		t.Fail("after %s the encoding has %d bytes, its contents need %d: %s", o, n, need+optional, clip(h.m.Encode()))
	}
	toks, _, _ := wire.Tokenize(h.m.Encode())
	seen := map[uint64]bool{}
	for i := range toks {
		f := h.m.Schema().ByNum(int(toks[i].Num))
		if f == nil || (!f.Repeated && seen[toks[i].Num]) {
			t.Fail("after %s the encoding holds field #%d more often than it should: %s", o, toks[i].Num, clip(h.m.Encode()))
		}
		seen[toks[i].Num] = true
	}
	t.Ev("size.exact")
}
