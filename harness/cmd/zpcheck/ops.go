package main

import (
	"fmt"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

// op is one edit.
type op struct {
	f   *wire.Field
	val wire.Val
	sub adapt.Msg         // for message fields
	enc []byte            // what sub encodes as
	do  func(m adapt.Msg) // how to apply it, if not in the obvious way
}

func (o *op) String() string {
	if o.f.Kind == wire.Message {
		verb := "set"
		if o.f.Repeated {
			verb = "append"
		}
		return fmt.Sprintf("%s %s(#%d) %s", verb, o.f.Name, o.f.Num, clip(o.enc))
	}
	return fmt.Sprintf("set %s(#%d %s) = %v", o.f.Name, o.f.Num, o.f.Kind, o.val)
}

// someSub makes a message to store in field f.
func someSub(r *gen.Rng, m adapt.Msg, f *wire.Field, maxBytes int, depth int) adapt.Msg {
	sub := m.FreshFor(f)
	switch r.Intn(10) {
	case 0:
		return sub // never touched
	case 1:
		sub.Reset(make([]byte, 0, 16))
		return sub
	case 2, 3, 4:
		o := r.DefaultOpts()
		o.N = r.Intn(6)
		if o.MaxBytes > maxBytes {
			o.MaxBytes = maxBytes
		}
		o.Depth = depth
		b := r.Message(f.Sub, o)
		if sub.Decode(b) != nil {
			return m.FreshFor(f)
		}
		return sub
	}
	if r.P(0.5) {
		sub.Reset(make([]byte, 0, r.Intn(200)))
	}
	for i := r.Intn(5); i > 0; i-- {
		if o := genOp(r, sub, maxBytes, depth-1, nil); o != nil {
			o.apply(sub)
		}
	}
	return sub
}

// genOp draws an edit of m; nil if there is nothing to edit. model, if given,
// lets sizes relate to what is there.
func genOp(r *gen.Rng, m adapt.Msg, maxBytes, depth int, model *wire.Model) *op {
	fs := fieldsOf(m.Schema(), func(f *wire.Field) bool { return f.Kind != wire.Message || depth > 0 })
	if len(fs) == 0 {
		return nil
	}
	return genOpOn(r, m, fs[r.Intn(len(fs))], maxBytes, depth, model)
}

func genOpOn(r *gen.Rng, m adapt.Msg, f *wire.Field, maxBytes, depth int, model *wire.Model) *op {
	o := &op{f: f}
	if f.Kind == wire.Message {
		o.sub = someSub(r, m, f, maxBytes/2, depth)
		o.enc = cp(o.sub.Encode())
		return o
	}
	o.val = r.Val(f.Kind, maxBytes)
	if isBlob(f) && !r.NoFar && r.P(0.002) {
		// what is set after this lies beyond 64 KiB
		o.val = wire.Val{B: r.FillBytes(r.FarLen())}
		return o
	}
	if model == nil {
		return o
	}
	fm := model.F[f.Num]
	if fm == nil || fm.Count == 0 {
		return o
	}
	switch blob := f.Kind.WireType() == wire.TBytes; {
	case blob && r.P(0.4):
		n := len(fm.Val.B) + r.Pick(0, 0, 0, 1, -1)
		if n >= 0 {
			o.val = wire.Val{B: r.FillBytes(n)}
		}
	case r.P(0.2):
		o.val = near(r, f.Kind, fm.Val)
	}
	return o
}

// near returns a value like v, or v itself.
func near(r *gen.Rng, k wire.Kind, v wire.Val) wire.Val {
	if k.WireType() == wire.TBytes {
		b := cp(v.B)
		if len(b) > 0 && r.P(0.9) {
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		}
		return wire.Val{B: b}
	}
	switch u := v.U; r.Intn(8) {
	case 0:
		return v
	case 1:
		return wire.Val{U: wire.Norm(k, u+1)}
	case 2:
		return wire.Val{U: wire.Norm(k, u-1)}
	case 3:
		return wire.Val{U: wire.Norm(k, -u)}
	case 4:
		return wire.Val{U: wire.Norm(k, ^u)}
	default:
		return wire.Val{U: wire.Norm(k, u^1<<r.Intn(64))}
	}
}

func (o *op) apply(m adapt.Msg) {
	switch {
	case o.do != nil:
		o.do(m)
	case o.f.Kind != wire.Message:
		m.Set(o.f, o.val)
	case o.f.Repeated:
		m.Append(o.f, o.sub)
	default:
		m.SetSub(o.f, o.sub)
	}
}

// expect applies the edit to the model.
func (o *op) expect(model *wire.Model) {
	fm := model.Field(o.f.Num)
	fm.LastOK = true
	switch {
	case o.f.Kind != wire.Message:
		fm.Count = 1
		fm.Val = wire.Val{U: o.val.U, B: cp(o.val.B)}
		if o.f.Kind.WireType() != wire.TBytes {
			fm.Val.B = nil
		}
	case o.f.Repeated:
		fm.Count++
		fm.AllSubs = append(fm.AllSubs, o.enc)
	default:
		fm.Count = 1
		fm.Sub = o.enc
		fm.AllSubs = [][]byte{o.enc}
	}
}

// history follows a live message with a model and the tokens it holds.
type history struct {
	t     *engine.T
	m     adapt.Msg
	model *wire.Model
	seq   map[uint64][]string
	steps int
}

func newHistory(t *engine.T, m adapt.Msg) *history {
	model, _, class := wire.Parse(m.Schema(), m.Encode())
	if class == wire.Malformed {
		t.Fail("the encoding of the message at the start is malformed: %s", clip(m.Encode()))
	}
	seq, _, _, _ := seqs(m.Encode())
	return &history{t: t, m: m, model: model, seq: seq}
}

// step applies an edit and checks that it did that and nothing else.
func (h *history) step(o *op) {
	h.t.Logf("%s", o)
	o.apply(h.m)
	o.expect(h.model)
	h.steps++
	h.t.Ev("op." + verbOf(o.f))
	h.tokens(o)
	h.read()
}

func verbOf(f *wire.Field) string {
	switch {
	case f.Repeated:
		return "append"
	case f.Kind == wire.Message:
		return "set-message"
	}
	return "set-" + f.Kind.String()
}

// tokens checks the encoding after an edit.
func (h *history) tokens(o *op) {
	enc := h.m.Encode()
	seq, _, class, why := seqs(enc)
	if class == wire.Malformed {
		h.t.Fail("after %s the encoding is malformed (%s): %s", o, why, clip(enc))
	}
	num := uint64(o.f.Num)
	for n, s := range h.seq {
		if n != num && !sameSeq(seq[n], s) {
			h.t.Fail("%s changed the encoded bytes of field #%d from %x to %x", o, n, s, seq[n])
		}
	}
	for n := range seq {
		if n != num && h.seq[n] == nil {
			h.t.Fail("%s made field #%d appear in the encoding", o, n)
		}
	}
	was, now := h.seq[num], seq[num]
	if o.f.Repeated {
		if len(now) != len(was)+1 || !sameSeq(now[:len(was)], was) {
			h.t.Fail("%s left field #%d with occurrences %x, before %x", o, num, now, was)
		}
	} else if max := len(was); len(now) > max && len(now) > 1 {
		h.t.Fail("%s left %d occurrences of field #%d in the encoding, before %d", o, len(now), num, max)
	}
	h.seq = seq
	h.t.Ev("monitor.tokens")
}

// read checks every accessor, and the encoding by the reference parser.
func (h *history) read() {
	if d := adapt.Compare(h.m, h.model, copts(h.t)); d != "" {
		h.t.Fail("after %d edits: %s", h.steps, d)
	}
	got, _, class := wire.Parse(h.m.Schema(), h.m.Encode())
	if class == wire.Malformed {
		h.t.Fail("the encoding is malformed: %s", clip(h.m.Encode()))
	}
	if d := modelDiff(got, h.model); d != "" {
		h.t.Fail("in the encoding after %d edits %s", h.steps, d)
	}
	h.t.Ev("monitor.read")
}

// fresh decodes the current encoding into a new struct and compares.
func (h *history) fresh() {
	m := h.m.Fresh()
	if err := m.Decode(cp(h.m.Encode())); err != nil {
		h.t.Fail("the encoding after %d edits cannot be decoded afresh: %v", h.steps, err)
	}
	if d := adapt.Compare(m, h.model, copts(h.t)); d != "" {
		h.t.Fail("decoding the encoding after %d edits afresh: %s", h.steps, d)
	}
	h.t.Ev("monitor.fresh-decode")
}
