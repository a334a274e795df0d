package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/danhhz/zeropb/golden/testgogopb"
	"github.com/gogo/protobuf/proto"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

// oracleTest checks the reference parser against gogo/protobuf, so that a
// mistake in the oracle is not taken for one in zeropb.
func oracleTest(env *engine.Env) error {
	if err := setupGolden(env); err != nil {
		return err
	}
	if env.Variant == "386" {
		return nil // gogo/protobuf itself reads some bools wrong there
	}
	s := goldenByName("TestMessage").S
	r := gen.New(1, "oracle", 0)
	for i := 0; i < 400; i++ {
		o := r.DefaultOpts()
		o.Split = false
		o.MaxBytes = 40
		o.Depth = 1
		b := r.Message(s, o)
		var pb testgogopb.TestMessage
		if err := proto.Unmarshal(b, &pb); err != nil {
			continue // e.g. packed where this library wants otherwise
		}
		model, _, class := wire.Parse(s, b)
		if class != wire.WellFormed {
			return fmt.Errorf("reference parser calls %x %s", b, class)
		}
		if d := pbDiff(&pb, model); d != "" {
			return fmt.Errorf("reference parser and gogo/protobuf disagree on %x: %s", b, d)
		}
	}
	return nil
}

// pbDiff compares a standard decoder's result with the model.
func pbDiff(pb *testgogopb.TestMessage, model *wire.Model) string {
	want := map[int]uint64{
		1: b2u(pb.Bool), 2: uint64(int64(pb.Int32)), 3: uint64(pb.Int64), 4: uint64(pb.Uint32), 5: pb.Uint64,
		6: uint64(int64(pb.Sint32)), 7: uint64(pb.Sint64), 8: uint64(pb.Fixed32), 9: pb.Fixed64,
		10: uint64(int64(pb.Sfixed32)), 11: uint64(pb.Sfixed64), 12: math.Float64bits(pb.Double),
		13: uint64(math.Float32bits(pb.Float)), 16: uint64(uint32(pb.Enum)),
	}
	for n, u := range want {
		var got uint64
		if fm := model.F[n]; fm != nil {
			got = fm.Val.U
		}
		if got != u {
			return fmt.Sprintf("field %d: model %#x, standard decoder %#x", n, got, u)
		}
	}
	for n, b := range map[int][]byte{14: []byte(pb.String_), 15: pb.ByteArray} {
		var got []byte
		if fm := model.F[n]; fm != nil {
			got = fm.Val.B
		}
		if !bytes.Equal(got, b) {
			return fmt.Sprintf("field %d: model %x, standard decoder %x", n, got, b)
		}
	}
	fm := model.F[17]
	if (fm != nil && fm.Count > 0) != (pb.Message != nil) {
		return "field 17: presence differs"
	}
	if pb.Message != nil && fm.Count == 1 {
		sub, _, _ := wire.Parse(model.Schema, fm.Sub)
		if d := pbDiff(pb.Message, sub); d != "" {
			return "field 17: " + d
		}
	}
	var els [][]byte
	if fm := model.F[34]; fm != nil {
		els = fm.AllSubs
	}
	if len(els) != len(pb.Messages) {
		return fmt.Sprintf("field 34: model %d elements, standard decoder %d", len(els), len(pb.Messages))
	}
	for i, e := range els {
		sub, _, _ := wire.Parse(model.Schema, e)
		if d := pbDiff(pb.Messages[i], sub); d != "" {
			return fmt.Sprintf("field 34 element %d: %s", i, d)
		}
	}
	return ""
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var c01 = &engine.Check{
	ID:       "C01",
	Variants: also386(),
	Rule:     "each case draws a message type (random schema over the runtime functions, or a checked-in generated type), writes a well-formed message for it with an independent encoder (random order, duplicates, unknown fields, non-minimal varints, boundary values, nesting; some with a singular embedded message split over several occurrences, some larger than 64 KiB), decodes it and compares every accessor with an independent parser; some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: decoded without error and at least one declared field occurs",
	Quick:    600000,
	Thorough: 7200000,
	Setup:    oracleTest,
	Need:     []string{"vast.edit", "cmp.scalar", "cmp.unset", "cmp.element", "cmp.sub.present", "cmp.sub.absent", "decode.ok", "split.seen", "dup.seen", "big.seen", "high.numbers"},
	Assumptions: []string{
		"the oracle is an independent parser, itself compared with gogo/protobuf on generated messages at start-up",
		"values of sint32 fields that do not fit 32 bits are not generated (implementations differ)",
	},
	Run: runC01,
}

func runC01(t *engine.T) {
	if turn, ok := vastTurn(t, 600000); ok {
		vast(t, vastMode{turn: turn, reps: turn%5 == 0})
		return
	}
	if t.N%40000 == 20000 && highNumbers(t, true) {
		return
	}
	r := t.R
	split := r.P(0.12)
	var m adapt.Msg
	if split {
		m = pickWith(t, isSub)
	} else {
		m = pick(t, true)
	}
	o := r.DefaultOpts()
	o.Split = split
	if split && o.N < 8 {
		o.N = 8
	}
	if r.P(0.01) {
		o.MaxBytes, o.N = 70000, 30
		t.Ev("big.seen")
	}
	raw := r.Message(m.Schema(), o)
	t.Logf("type %s", shape(m.Schema()))
	t.Logf("decode %s", clip(raw))
	model, toks, class := wire.Parse(m.Schema(), raw)
	if class != wire.WellFormed {
		panic("harness: generated message is not well-formed")
	}
	if len(raw) > 65535 {
		t.Ev("over64k.seen")
	}
	if !decodeOK(t, m, cp(raw)) {
		return
	}
	any := false
	for _, f := range fieldsOf(m.Schema(), nil) {
		fm := model.F[f.Num]
		if fm != nil && fm.Count > 0 {
			any = true
			if fm.Count > 1 && !f.Repeated {
				t.Ev("dup.seen")
			}
		}
		if isSub(f) && fm != nil && fm.Count > 1 {
			t.Ev("split.seen")
			splitCheck(t, m, f, fm)
			continue
		}
		if d := adapt.CompareField(m, f, fm, copts(t)); d != "" {
			t.Fail("%s.%s(#%d %s): %s", m.Schema().Name, f.Name, f.Num, f.Kind, d)
		}
	}
	if any {
		t.NonTrivial(m.Schema().Name, raw)
		t.Sample(func() string {
			return fmt.Sprintf("%s, %d occurrences: %s", shape(m.Schema()), len(toks), clip(raw))
		})
	}
}

// splitCheck: a singular embedded message with several occurrences must be
// refused or merged.
func splitCheck(t *engine.T, m adapt.Msg, f *wire.Field, fm *wire.FieldModel) {
	one := func(b []byte) string {
		c := *fm
		c.Count, c.Sub, c.AllSubs = 1, b, [][]byte{b}
		return adapt.CompareField(m, f, &c, &adapt.CompareOpts{})
	}
	dst := m.FreshFor(f)
	if ok, err := m.Sub(f, dst); ok && err != nil {
		t.Ev("split.refused")
		return
	}
	var merged []byte
	for _, b := range fm.AllSubs {
		merged = append(merged, b...)
	}
	d := one(merged)
	if d == "" {
		t.Ev("split.merged-or-same")
		return
	}
	if one(fm.Sub) == "" {
		t.Known("split-embedded-message-last-part-only")
		return
	}
	t.Fail("%s.%s(#%d), split over %d occurrences, is neither refused, merged nor the last part: %s", m.Schema().Name, f.Name, f.Num, fm.Count, d)
}

// ---------------------------------------------------------------- C02

var c02 = &engine.Check{
	ID:          "C02",
	Variants:    also386(),
	Rule:        "each case builds a message of a drawn type from nothing through a random sequence of setters and appends (boundary values, embedded messages built the same way or decoded, sizes from empty to over 64 KiB) and compares the encoding with an independent encoder (bit for bit per field), an independent parser and, for TestMessage, gogo/protobuf; a few cases use field numbers up to 2^29-1; some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: at least one field set",
	Quick:       400000,
	Thorough:    4500000,
	Setup:       oracleTest,
	Need:        []string{"vast.edit", "monitor.bits", "monitor.gogo", "op.set-sint32", "op.set-float", "op.append", "op.set-message", "op.set-string", "high.numbers"},
	Assumptions: []string{"a field set to its default value may be left out of the encoding, as in proto3, but not in proto2, which all schemas but test.proto are taken for"},
	Run:         runC02,
}

func runC02(t *engine.T) {
	if turn, ok := vastTurn(t, 400000); ok {
		vast(t, vastMode{turn: turn, build: true})
		return
	}
	if t.N%20000 == 10000 && highNumbers(t, false) {
		return
	}
	r := t.R
	m := pick(t, true)
	s := m.Schema()
	switch r.Intn(3) {
	case 0:
		m.Reset(nil)
	case 1:
		buf := r.FillBytes(r.Pick(0, 1, 5, 20, 300, 5000))
		m.Reset(buf[:0])
	}
	maxBytes := r.Pick(3, 40, 200, 20000)
	if r.P(0.003) {
		maxBytes = 70000
	}
	t.Logf("type %s", shape(s))
	model := wire.NewModel(s)
	n := 1 + r.Intn(25)
	if r.P(0.03) {
		n = 200
		maxBytes = 20
	}
	done := 0
	for i := 0; i < n; i++ {
		o := genOp(r, m, maxBytes, 2, model)
		if o == nil {
			break
		}
		if o.f.Kind == wire.Message {
			if _, c, why := wire.Tokenize(o.enc); c == wire.Malformed {
				t.Fail("the encoding of a %s built through its accessors is malformed (%s): %s", o.f.Sub.Name, why, clip(o.enc))
			}
		}
		t.Logf("%s", o)
		o.apply(m)
		o.expect(model)
		t.Ev("op." + verbOf(o.f))
		done++
		if i == n-1 || r.P(0.15) {
			checkEncoding(t, m, model)
		}
	}
	checkEncoding(t, m, model)
	if done > 0 {
		t.NonTrivial(s.Name, m.Encode())
		t.Sample(func() string { return fmt.Sprintf("%s, %d edits: %s", shape(s), done, clip(m.Encode())) })
	}
}

// explicitPresence says whether s can be from a proto2 file, where a field that
// is set to its default is something else than one that isn't set.
func explicitPresence(s *wire.Schema) bool {
	return s != goldenByName("TestMessage").S
}

func checkEncoding(t *engine.T, m adapt.Msg, model *wire.Model) {
	enc := m.Encode()
	keep := cp(enc)
	if again := m.Encode(); !bytes.Equal(again, keep) {
		t.Fail("encoding twice gives different bytes: %s then %s", clip(keep), clip(again))
	}
	seq, _, class, why := seqs(enc)
	if class != wire.WellFormed {
		t.Fail("the encoding is %s (%s): %s", class, why, clip(enc))
	}
	for _, f := range model.Schema.Fields {
		fm := model.F[f.Num]
		if fm == nil || fm.Count == 0 {
			continue
		}
		var want []string
		add := func(b []byte) { want = append(want, string(rune('0'+f.Kind.WireType()))+string(b)) }
		switch {
		case f.Repeated:
			for _, e := range fm.AllSubs {
				add(wire.EncodeVal(nil, wire.Bytes, wire.Val{B: e}, 0))
			}
		case f.Kind == wire.Message:
			add(wire.EncodeVal(nil, wire.Bytes, wire.Val{B: fm.Sub}, 0))
		default:
			add(wire.EncodeVal(nil, f.Kind, fm.Val, 0))
		}
		got := seq[uint64(f.Num)]
		delete(seq, uint64(f.Num))
		if len(got) == 0 && isScalar(f) && fm.Val.U == 0 && len(fm.Val.B) == 0 && !explicitPresence(model.Schema) {
			continue
		}
		if !sameSeq(got, want) {
			t.Fail("%s.%s(#%d %s) is encoded as %x, want %x (wire type digit, value bytes)", model.Schema.Name, f.Name, f.Num, f.Kind, got, want)
		}
		t.Ev("monitor.bits")
	}
	for n, s := range seq {
		t.Fail("the encoding has field #%d (%x), which was never set", n, s)
	}
	// tags in the shortest form, as other implementations write them
	toks, _, _ := wire.Tokenize(enc)
	for i := range toks {
		if tk := &toks[i]; tk.Val-tk.Start != wire.VarintLen(tk.Num*8) {
			t.Fail("the tag of field #%d takes %d bytes", tk.Num, tk.Val-tk.Start)
		}
	}
	if t.Env.Variant != "386" && model.Schema == goldenByName("TestMessage").S { // see oracleTest
		var pb testgogopb.TestMessage
		if err := proto.Unmarshal(enc, &pb); err != nil {
			t.Fail("gogo/protobuf cannot read the encoding: %v: %s", err, clip(enc))
		}
		if d := pbDiff(&pb, model); d != "" {
			t.Fail("gogo/protobuf reads something else: %s", d)
		}
		t.Ev("monitor.gogo")
	}
	if !bytes.Equal(m.Encode(), keep) {
		t.Fail("the encoding changed while nothing was set")
	}
}

// ---------------------------------------------------------------- C03

var c03 = &engine.Check{
	ID:       "C03",
	Variants: also386(),
	Rule:     "each case starts from an empty or a decoded message (non-minimal tags and lengths, duplicates, unknown fields) and applies a random history of edits, all accessors being read after each; monitored after each edit: every accessor and the reference parse of the encoding against a model of the history, the encoded bytes of all other fields (unknown ones included), a decode of the encoding into a fresh struct; a few cases use field numbers up to 2^29-1; some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: at least one edit",
	Quick:    110000,
	Thorough: 840000,
	Setup:    setupGolden,
	Need:     []string{"vast.edit", "monitor.tokens", "monitor.read", "monitor.fresh-decode", "start.decoded", "start.empty", "op.append", "op.set-message", "op.set-string", "op.set-bool", "high.numbers"},
	Run:      runC03,
}

func runC03(t *engine.T) {
	if turn, ok := vastTurn(t, 110000); ok {
		vast(t, vastMode{turn: turn, build: turn%2 == 0})
		return
	}
	if t.N%6000 == 3000 && highNumbers(t, true) {
		return
	}
	r := t.R
	m := pick(t, true)
	s := m.Schema()
	t.Logf("type %s", shape(s))
	var raw []byte
	if r.P(0.7) {
		o := r.DefaultOpts()
		if o.MaxBytes > 300 {
			o.MaxBytes = 300
		}
		if r.P(0.5) && !o.Canon {
			o.Pad = 0.5
			o.Unknown = 0.25
		}
		raw = r.Message(s, o)
		if !decodeOK(t, m, roomy(raw, r.Pick(0, 0, 3, 100, 1000))) {
			return
		}
		t.Logf("decode %s", clip(raw))
		t.Ev("start.decoded")
	} else {
		switch r.Intn(3) {
		case 0:
			m.Reset(nil)
		case 1:
			b := r.FillBytes(r.Intn(400))
			m.Reset(b[:0])
		}
		t.Ev("start.empty")
	}
	h := newHistory(t, m)
	h.read()
	n := 1 + r.Intn(12)
	if r.P(0.05) {
		n = 80
	}
	maxBytes := r.Pick(3, 12, 150, 400)
	// sometimes few fields, edited over and over
	var few []*wire.Field
	if fs := fieldsOf(s, nil); len(fs) > 0 && r.P(0.4) {
		for i := 0; i < 3; i++ {
			few = append(few, fs[r.Intn(len(fs))])
		}
	}
	for i := 0; i < n; i++ {
		var o *op
		if few != nil {
			o = genOpOn(r, m, few[r.Intn(len(few))], maxBytes, 2, h.model)
		} else {
			o = genOp(r, m, maxBytes, 2, h.model)
		}
		if o == nil {
			break
		}
		h.step(o)
		if i == n-1 || r.P(0.3) {
			h.fresh()
		}
		if r.P(0.03) {
			// carry on from its own encoding
			if err := m.Decode(m.Encode()); err != nil {
				t.Fail("the message cannot decode its own encoding: %v", err)
			}
			t.Ev("redecode")
			h.read()
		}
	}
	if h.steps > 0 {
		t.NonTrivial(s.Name, raw, m.Encode())
		t.Sample(func() string {
			return fmt.Sprintf("%s from %s, %d edits, now %s", shape(s), clip(raw), h.steps, clip(m.Encode()))
		})
	}
}
