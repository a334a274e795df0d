package main

import (
	"bytes"
	"fmt"
	"unsafe"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

var c11 = &engine.Check{
	ID:       "C11",
	Variants: also386(),
	Rule:     "each case takes a decoded or built message and either appends to slices its accessors return, or edits an embedded message or element (at any depth) obtained from it, or hands it values cut out of larger buffers and then overwrites those, or decodes bytes between canaries; watched: every byte of the encoding outside the edited embedded message, the memory around arguments and inputs, all accessors; non-trivial: the operation in question was performed on a non-empty message",
	Quick:    450000,
	Thorough: 2400000,
	Setup:    setupGolden,
	Need:     []string{"vast.args", "append.to-bytes", "append.to-element", "edit.depth1", "edit.depth2", "edit.in-place", "edit.element", "arg.bytes", "arg.message", "arg.append", "start.zero", "start.reset-nil", "start.reset", "input.ok", "input.refused"},
	Assumptions: []string{
		"an edit of an embedded message may change the parent's copy of that same embedded message (they share memory), and a message may use the spare capacity of the buffer it was decoded from; neither is claimed otherwise",
	},
	Run: runC11,
}

func runC11(t *engine.T) {
	if turn, ok := vastTurn(t, 450000); ok {
		c11vast(t, turn)
		return
	}
	switch t.R.Intn(10) {
	case 0, 1:
		c11append(t)
	case 2, 3, 4, 5:
		c11edit(t)
	case 6, 7, 8:
		c11args(t)
	default:
		c11input(t)
	}
}

// c11vast does the same with large values and many fields.
func c11vast(t *engine.T, turn int) {
	vastSlots <- struct{}{}
	defer func() { <-vastSlots }()
	r := t.R
	far := r.NoFar
	r.NoFar = true
	defer func() { r.NoFar = far }()
	m := pickWith(t, func(f *wire.Field) bool { return f.Kind == wire.Bytes && !f.Repeated })
	raw := vastMessage(t, m.Schema(), vastMode{turn: []int{0, 2, 5, 0, 6}[turn%5]})
	t.Logf("type %s", shape(m.Schema()))
	t.Logf("decode %s", clip(raw))
	in := roomy(raw, r.Pick(0, 0, 100, len(raw)))
	if !decodeOK(t, m, in) {
		return
	}
	if vastCheap(m) {
		c11appendTo(t, m)
	}
	if !bytes.Equal(in, raw) {
		t.Fail("reading and appending to results modified the bytes decoded from")
	}
	h := newHistory(t, m)
	fs := fieldsOf(m.Schema(), func(f *wire.Field) bool { return f.Kind == wire.Bytes && !f.Repeated })
	if len(fs) > 0 {
		o := &op{f: fs[r.Intn(len(fs))], val: wire.Val{B: vastBytes(t, vastLen(t))}}
		all, arg := fenced(r, o.val.B)
		keep := cp(all)
		o.do = func(m adapt.Msg) { m.Set(o.f, wire.Val{B: arg}) }
		h.step(o)
		if !bytes.Equal(all, keep) {
			t.Fail("%s modified its argument or the memory around it", o)
		}
		for i := range all {
			all[i] ^= 0x55
		}
		h.read()
	}
	t.Ev("vast.args")
	t.NonTrivial("vast", len(raw), raw[:min(len(raw), 500)])
}

// vastCheap says whether m has few enough elements to look at it for each of them.
func vastCheap(m adapt.Msg) bool {
	toks, _, _ := wire.Tokenize(m.Encode())
	return len(toks) < 2000
}

// someMessage decodes or builds a message; its encoding is well-formed.
func someMessage(t *engine.T, m adapt.Msg, min int) bool {
	r := t.R
	s := m.Schema()
	t.Logf("type %s", shape(s))
	if r.P(0.6) {
		o := r.DefaultOpts()
		if o.N < min {
			o.N = min
		}
		if o.MaxBytes > 200 {
			o.MaxBytes = 200
		}
		if o.Depth < 2 {
			o.Depth = 2
		}
		raw := r.Message(s, o)
		t.Logf("decode %s", clip(raw))
		return decodeOK(t, m, roomy(raw, r.Pick(0, 0, 10, 300)))
	}
	pristine(t, m)
	for k := min + r.Intn(10); k > 0; k-- {
		if o := genOp(r, m, 100, 3, nil); o != nil {
			t.Logf("%s", o)
			o.apply(m)
		}
	}
	return true
}

// pristine makes m one of the kinds of empty message there are.
func pristine(t *engine.T, m adapt.Msg) {
	switch r := t.R; r.Intn(4) {
	case 0: // as declared
		t.Ev("start.zero")
	case 1:
		m.Reset(nil)
		t.Ev("start.reset-nil")
	default:
		m.Reset(make([]byte, 0, r.Pick(0, 100, 2000)))
		t.Ev("start.reset")
	}
}

func c11append(t *engine.T) {
	m := pickWith(t, func(f *wire.Field) bool { return f.Kind == wire.Bytes || f.Kind == wire.Message })
	if !someMessage(t, m, 3) {
		return
	}
	c11appendTo(t, m)
}

func c11appendTo(t *engine.T, m adapt.Msg) {
	r := t.R
	keep := cp(m.Encode())
	model, _, _ := wire.Parse(m.Schema(), keep)
	check := func(what string, f *wire.Field) {
		if !bytes.Equal(m.Encode(), keep) {
			t.Fail("appending to %s of #%d changed the message from %s to %s", what, f.Num, clip(keep), clip(m.Encode()))
		}
		if d := adapt.Compare(m, model, copts(t)); d != "" {
			t.Fail("after appending to %s of #%d: %s", what, f.Num, d)
		}
	}
	did := false
	for _, f := range fieldsOf(m.Schema(), nil) {
		junk := r.FillBytes(1 + r.Intn(30))
		switch {
		case f.Kind == wire.Bytes && !f.Repeated:
			b := m.RawBytes(f)
			_ = append(b, junk...)
			_ = append(b[:0:len(b)], b...)
			t.Ev("append.to-bytes")
			check("the bytes", f)
			did = true
		case f.Repeated:
			it := m.Iter(f)
			for {
				dst := m.FreshFor(f)
				if ok, err := it.Next(dst); !ok || err != nil {
					break
				}
				_ = append(dst.Encode(), junk...)
				t.Ev("append.to-element")
				did = true
			}
			check("an element", f)
		case f.Kind == wire.Message:
			dst := m.FreshFor(f)
			if ok, err := m.Sub(f, dst); ok && err == nil {
				_ = append(dst.Encode(), junk...)
				check("the embedded message", f)
				did = true
			}
		}
	}
	if did {
		t.NonTrivial("append", keep)
	}
}

// region is where in the root's encoding an embedded message lies.
type region struct{ lo, hi int }

// descend picks an embedded message, at most depth levels down, and returns it
// with where it lies.
func descend(t *engine.T, r *gen.Rng, m adapt.Msg, enc []byte, base int, depth int) (adapt.Msg, region, int, string) {
	type cand struct {
		f   *wire.Field
		idx int
		tok wire.Tok
	}
	toks, class, _ := wire.Tokenize(enc)
	if class != wire.WellFormed {
		return nil, region{}, 0, ""
	}
	last := map[int]int{}
	count := map[int]int{}
	var cs []cand
	for _, tk := range toks {
		f := m.Schema().ByNum(int(tk.Num))
		if f == nil || f.Kind != wire.Message || tk.Typ != wire.TBytes {
			continue
		}
		if !f.Repeated {
			if i, ok := last[f.Num]; ok {
				cs[i].tok = tk
				continue
			}
			last[f.Num] = len(cs)
		}
		cs = append(cs, cand{f, count[f.Num], tk})
		count[f.Num]++
	}
	if len(cs) == 0 {
		return nil, region{}, 0, ""
	}
	c := cs[r.Intn(len(cs))]
	dst := m.FreshFor(c.f)
	if c.f.Repeated {
		it := m.Iter(c.f)
		for i := 0; i <= c.idx; i++ {
			if ok, err := it.Next(dst); !ok || err != nil {
				return nil, region{}, 0, ""
			}
		}
		t.Ev("edit.element")
	} else if ok, err := m.Sub(c.f, dst); !ok || err != nil {
		return nil, region{}, 0, ""
	}
	reg := region{base + c.tok.Data, base + c.tok.End}
	path := fmt.Sprintf(".#%d[%d]", c.f.Num, c.idx)
	if depth > 1 && r.P(0.5) {
		if d, g, n, p := descend(t, r, dst, enc[c.tok.Data:c.tok.End], reg.lo, depth-1); d != nil {
			return d, g, n + 1, path + p
		}
	}
	return dst, reg, 1, path
}

func c11edit(t *engine.T) {
	r := t.R
	m := pickWith(t, func(f *wire.Field) bool { return f.Kind == wire.Message })
	if !someMessage(t, m, 6) {
		return
	}
	keep := cp(m.Encode())
	sub, reg, depth, path := descend(t, r, m, keep, 0, 3)
	if sub == nil {
		return
	}
	model, _, _ := wire.Parse(m.Schema(), keep)
	subKeep := cp(sub.Encode())
	if !bytes.Equal(subKeep, keep[reg.lo:reg.hi]) {
		t.Fail("%s encodes as %s, its bytes in the parent are %s", path, clip(subKeep), clip(keep[reg.lo:reg.hi]))
	}
	subModel, _, class := wire.Parse(sub.Schema(), subKeep)
	if class == wire.Malformed {
		return
	}
	topNum := 0
	fmt.Sscanf(path, ".#%d", &topNum)
	for k := 1 + r.Intn(5); k > 0; k-- {
		o := genOp(r, sub, 40, 1, subModel)
		if o == nil {
			break
		}
		if r.P(0.3) {
			// the same size as before
			if fm := subModel.F[o.f.Num]; fm != nil && fm.Count > 0 && isBlob(o.f) {
				o.val = wire.Val{B: r.FillBytes(len(fm.Val.B))}
			}
		}
		t.Logf("on %s: %s", path, o)
		o.apply(sub)
		o.expect(subModel)
		enc := m.Encode()
		if len(enc) != len(keep) {
			t.Fail("editing %s (%s) changed the length of the parent from %d to %d", path, o, len(keep), len(enc))
		}
		if !bytes.Equal(enc[:reg.lo], keep[:reg.lo]) || !bytes.Equal(enc[reg.hi:], keep[reg.hi:]) {
			t.Fail("editing %s (%s) changed bytes outside it: parent was %s, is %s (it occupies %d..%d)", path, o, clip(keep), clip(enc), reg.lo, reg.hi)
		}
		if !bytes.Equal(enc[reg.lo:reg.hi], keep[reg.lo:reg.hi]) {
			t.Ev("edit.in-place")
		}
		if d := adapt.Compare(m, model, &adapt.CompareOpts{Skip: topNum, Events: t.Ev}); d != "" {
			t.Fail("after editing %s (%s) the parent's %s", path, o, d)
		}
		if d := adapt.Compare(sub, subModel, &adapt.CompareOpts{}); d != "" {
			t.Fail("the edited %s itself: %s", path, d)
		}
		t.Ev(fmt.Sprintf("edit.depth%d", depth))
	}
	t.NonTrivial("edit", keep, path)
	t.Sample(func() string { return fmt.Sprintf("%s, edited %s of %s", shape(m.Schema()), path, clip(keep)) })
}

// fenced puts b in the middle of a larger buffer.
func fenced(r *gen.Rng, b []byte) (all, in []byte) {
	pre, post := r.Intn(20), 8+r.Intn(40)
	all = make([]byte, pre+len(b)+post)
	for i := range all {
		all[i] = 0xA7
	}
	copy(all[pre:], b)
	in = all[pre : pre+len(b)]
	if r.P(0.3) {
		in = in[:len(b):len(b)]
	}
	return all, in
}

func c11args(t *engine.T) {
	r := t.R
	m := pickWith(t, func(f *wire.Field) bool { return f.Kind == wire.Bytes || f.Kind == wire.Message })
	if r.P(0.2) {
		pristine(t, m)
	} else if !someMessage(t, m, 2) {
		return
	}
	h := newHistory(t, m)
	fs := fieldsOf(m.Schema(), func(f *wire.Field) bool { return f.Kind == wire.Bytes || f.Kind == wire.Message })
	for k := 1 + r.Intn(5); k > 0; k-- {
		f := fs[r.Intn(len(fs))]
		o := genOpOn(r, m, f, 60, 2, h.model)
		var all []byte
		var arg adapt.Msg
		if f.Kind == wire.Bytes {
			var in []byte
			all, in = fenced(r, o.val.B)
			o.do = func(m adapt.Msg) { m.Set(f, wire.Val{B: in}) }
			t.Ev("arg.bytes")
		} else {
			var in []byte
			all, in = fenced(r, o.enc)
			arg = m.FreshFor(f)
			if err := arg.Decode(in); err != nil {
				t.Fail("the encoding of a %s cannot be decoded: %v", f.Sub.Name, err)
			}
			o.do = func(m adapt.Msg) {
				if f.Repeated {
					m.Append(f, arg)
				} else {
					m.SetSub(f, arg)
				}
			}
			t.Ev("arg.message")
			if f.Repeated {
				t.Ev("arg.append")
			}
		}
		keep := cp(all)
		h.step(o)
		if !bytes.Equal(all, keep) {
			t.Fail("%s modified its argument or the memory around it: %x, before %x", o, clip(all), clip(keep))
		}
		// Now the argument goes its own way.
		if arg != nil && r.P(0.5) {
			for j := 1 + r.Intn(3); j > 0; j-- {
				if e := genOp(r, arg, 30, 1, nil); e != nil {
					e.apply(arg)
				}
			}
			h.read()
		}
		for i := range all {
			all[i] = byte(r.Pick(0xff, 0, 0x80))
		}
		h.read()
		seq, _, _, _ := seqs(m.Encode())
		for n, x := range h.seq {
			if !sameSeq(seq[n], x) {
				t.Fail("overwriting the argument of %s afterwards changed field #%d of the message", o, n)
			}
		}
	}
	t.NonTrivial("args", m.Encode())
	t.Sample(func() string {
		return fmt.Sprintf("%s, arguments overwritten: %s", shape(m.Schema()), clip(m.Encode()))
	})
}

func c11input(t *engine.T) {
	r := t.R
	m := pick(t, false)
	var raw []byte
	if r.P(0.6) {
		raw = r.Message(m.Schema(), r.DefaultOpts())
	} else {
		raw = r.Hostile(m.Schema(), 100)
	}
	t.Logf("type %s", shape(m.Schema()))
	t.Logf("decode %s", clip(raw))
	all, in := fenced(r, raw)
	keep := cp(all)
	err := m.Decode(in)
	if err == nil {
		t.Ev("input.ok")
		_ = dump(m, 2)
		_ = m.Encode()
	} else {
		t.Ev("input.refused")
	}
	if !bytes.Equal(all, keep) {
		t.Fail("decoding (result: %v) modified the bytes it was given, or those around them: %s", err, clip(raw))
	}
	if len(raw) > 0 {
		t.NonTrivial("input", raw)
	}
}

// ---------------------------------------------------------------- C12

var c12 = &engine.Check{
	ID:       "C12",
	Variants: also386(),
	Rule:     "each case reads strings, byte slices (or parts of them), embedded messages, elements, or parts of nested ones from a message, sometimes edits an embedded one, and stores the value straight back into the same or another field of the same message (by setter or append, with the target larger, smaller or as large as the value), or stores the message into itself, or parts of it into a message embedded in it; the value is captured by copy right before the call and everything is then checked as in C03; some 24 cases are of unusual scale (values of 2 to 64 MiB, or 32767 to 131073 fields or elements); non-trivial: a non-empty value was stored",
	Quick:    360000,
	Thorough: 3000000,
	Setup:    setupGolden,
	Need:     []string{"vast.edit", "store.bytes", "store.string", "store.part", "store.message", "store.element", "store.self", "store.edited", "store.nested-bytes", "store.shrinks", "store.grows", "store.same-size", "store.append", "store.own-length", "store.outer-begin", "store.outer-end", "store.outer-message"},
	Assumptions: []string{
		"the value must have been read after the last change of the message: a later edit of the message may move the bytes under a view",
	},
	Run: runC12,
}

func runC12(t *engine.T) {
	if turn, ok := vastTurn(t, 360000); ok {
		vast(t, vastMode{turn: turn, own: true})
		return
	}
	r := t.R
	var m adapt.Msg
	if r.P(0.5) {
		m = goldenByName("TestMessage").New()
	} else {
		m = pickWith(t, func(f *wire.Field) bool { return isBlob(f) || f.Kind == wire.Message })
	}
	if !someMessage(t, m, 5) {
		return
	}
	if r.P(0.1) {
		c12outer(t, m)
		return
	}
	s := m.Schema()
	stored := 0
	h := newHistory(t, m)
	for k := 1 + r.Intn(5); k > 0; k-- {
		o := storeBack(t, m)
		if o == nil {
			continue
		}
		// Edits of an embedded message on the way may have changed its own region.
		h = newHistory(t, m)
		if fm := h.model.F[o.f.Num]; fm != nil && fm.Count > 0 && !o.f.Repeated {
			was := len(fm.Val.B)
			if o.f.Kind == wire.Message {
				was = len(fm.Sub)
			}
			switch n := len(o.val.B) + len(o.enc); {
			case n < was:
				t.Ev("store.shrinks")
			case n > was:
				t.Ev("store.grows")
			default:
				t.Ev("store.same-size")
			}
		}
		if o.f.Repeated {
			t.Ev("store.append")
		}
		stored += len(o.val.B) + len(o.enc)
		h.step(o)
		if r.P(0.2) {
			h.fresh()
		}
	}
	if stored > 0 {
		t.NonTrivial(s.Name, m.Encode())
		t.Sample(func() string {
			return fmt.Sprintf("%s, %d own bytes stored back: %s", shape(s), stored, clip(m.Encode()))
		})
	}
}

// c12outer stores bytes of a message, or all of it, into a message embedded in
// it (at any depth): the value may begin before the message it's stored into,
// end after it, or include it.
func c12outer(t *engine.T, m adapt.Msg) {
	r := t.R
	keep := cp(m.Encode())
	sub, reg, depth, path := descend(t, r, m, keep, 0, 3)
	if sub == nil {
		return
	}
	if _, _, class := wire.Parse(sub.Schema(), sub.Encode()); class == wire.Malformed {
		return
	}
	enc := m.Encode()
	var o *op
	if fs := fieldsOf(sub.Schema(), func(f *wire.Field) bool { return f.Kind == wire.Message && f.Sub == m.Schema() }); len(fs) > 0 && r.P(0.5) {
		f := fs[r.Intn(len(fs))]
		o = &op{f: f, enc: cp(enc), do: func(x adapt.Msg) {
			if f.Repeated {
				x.Append(f, m)
			} else {
				x.SetSub(f, m)
			}
		}}
		t.Ev("store.outer-message")
	} else if fs := fieldsOf(sub.Schema(), func(f *wire.Field) bool { return f.Kind == wire.Bytes || f.Kind == wire.String }); len(fs) > 0 {
		f := fs[r.Intn(len(fs))]
		lo, hi := 0, len(enc)
		switch r.Intn(5) {
		case 0: // begins before
			lo, hi = r.Intn(reg.lo+1), reg.lo+r.Intn(reg.hi-reg.lo+1)
		case 1: // ends after
			lo, hi = reg.lo+r.Intn(reg.hi-reg.lo+1), reg.hi+r.Intn(len(enc)-reg.hi+1)
		case 2: // includes it
			lo, hi = r.Intn(reg.lo+1), reg.hi+r.Intn(len(enc)-reg.hi+1)
		case 3:
			lo = r.Intn(len(enc) + 1)
			hi = lo + r.Intn(len(enc)-lo+1)
		}
		v := enc[lo:hi]
		t.Logf("view the outer encoding [%d:%d], %s is at [%d:%d]", lo, hi, path, reg.lo, reg.hi)
		if lo < reg.lo && hi > reg.lo {
			t.Ev("store.outer-begin")
		}
		if hi > reg.hi && lo < reg.hi {
			t.Ev("store.outer-end")
		}
		o = &op{f: f, val: wire.Val{B: cp(v)}, do: func(x adapt.Msg) {
			if f.Kind == wire.String {
				x.SetString(f, unsafeString(v))
			} else {
				x.Set(f, wire.Val{B: v})
			}
		}}
	}
	if o == nil {
		return
	}
	h := newHistory(t, sub)
	t.Logf("on %s, depth %d", path, depth)
	h.step(o)
	if !bytes.Equal(enc[:reg.lo], keep[:reg.lo]) || !bytes.Equal(enc[reg.hi:], keep[reg.hi:]) {
		t.Fail("storing a part of a message into %s changed bytes outside of that", path)
	}
	t.NonTrivial("outer", keep, path)
}

// unsafeString is what the readers of strings do.
func unsafeString(b []byte) string {
	return unsafe.String(unsafe.SliceData(b), len(b))
}

// storeBack reads something from m and makes the edit that stores it.
func storeBack(t *engine.T, m adapt.Msg) *op {
	r := t.R
	s := m.Schema()
	part := func(n int) (int, int) {
		if n == 0 || r.P(0.5) {
			return 0, n
		}
		i := r.Intn(n + 1)
		t.Ev("store.part")
		return i, i + r.Intn(n-i+1)
	}
	bytesT := fieldsOf(s, func(f *wire.Field) bool { return f.Kind == wire.Bytes })
	stringT := fieldsOf(s, func(f *wire.Field) bool { return f.Kind == wire.String })
	any := func(fs []*wire.Field) *wire.Field { return fs[r.Intn(len(fs))] }
	subs := fieldsOf(s, func(f *wire.Field) bool { return f.Kind == wire.Message })
	storeBytes := func(v []byte, what string) *op {
		f := any(bytesT)
		i, j := part(len(v))
		v = v[i:j]
		t.Logf("view %s [%d:%d]", what, i, j)
		return &op{f: f, val: wire.Val{B: cp(v)}, do: func(m adapt.Msg) { m.Set(f, wire.Val{B: v}) }}
	}
	// fits stores a range of the message's own encoding around a field into that
	// field, such that the field takes as many bytes as before: it's overwritten
	// in place while its old length is part of the value.
	fits := func() *op {
		enc := m.Encode()
		toks, _, _ := wire.Tokenize(enc)
		f := any(bytesT)
		var tok *wire.Tok
		for i := range toks {
			if toks[i].Num == uint64(f.Num) && toks[i].Typ == wire.TBytes {
				tok = &toks[i]
			}
		}
		if tok == nil {
			return nil
		}
		for n := tok.End - tok.Val - 1; n >= 0 && n >= tok.End-tok.Val-3; n-- {
			if n+wire.VarintLen(uint64(n)) != tok.End-tok.Val {
				continue
			}
			from := tok.Val + r.Intn(9) - 4
			if from < 0 || from+n > len(enc) {
				return nil
			}
			if from < tok.Data && from+n > tok.Val {
				t.Ev("store.own-length")
			}
			v := enc[from : from+n]
			t.Logf("view its own encoding [%d:%d]", from, from+n)
			return &op{f: f, val: wire.Val{B: cp(v)}, do: func(m adapt.Msg) { m.Set(f, wire.Val{B: v}) }}
		}
		return nil
	}
	storeSub := func(x adapt.Msg, what string) *op {
		var fs []*wire.Field
		for _, f := range subs {
			if f.Sub == x.Schema() {
				fs = append(fs, f)
			}
		}
		if len(fs) == 0 {
			return nil
		}
		f := any(fs)
		t.Logf("message %s", what)
		return &op{f: f, enc: cp(x.Encode()), do: func(m adapt.Msg) {
			if f.Repeated {
				m.Append(f, x)
			} else {
				m.SetSub(f, x)
			}
		}}
	}
	read := func() (adapt.Msg, string) {
		if len(subs) == 0 {
			return nil, ""
		}
		f := any(subs)
		dst := m.FreshFor(f)
		if f.Repeated {
			it := m.Iter(f)
			n := r.Intn(4)
			for i := 0; ; i++ {
				d := m.FreshFor(f)
				if ok, err := it.Next(d); !ok || err != nil {
					if i == 0 || err != nil {
						return nil, ""
					}
					break
				}
				dst = d
				if i == n {
					break
				}
			}
			t.Ev("store.element")
			return dst, fmt.Sprintf("element of #%d", f.Num)
		}
		if ok, err := m.Sub(f, dst); !ok || err != nil {
			return nil, ""
		}
		return dst, fmt.Sprintf("#%d", f.Num)
	}
	switch r.Intn(8) {
	case 0, 1:
		if len(bytesT) > 0 {
			f := any(bytesT)
			t.Ev("store.bytes")
			return storeBytes(m.RawBytes(f), fmt.Sprintf("#%d", f.Num))
		}
	case 2:
		if len(stringT) > 0 {
			src, f := any(stringT), any(stringT)
			v := m.RawString(src)
			i, j := part(len(v))
			v = v[i:j]
			t.Logf("string view #%d [%d:%d]", src.Num, i, j)
			t.Ev("store.string")
			return &op{f: f, val: wire.Val{B: []byte(v)}, do: func(m adapt.Msg) { m.SetString(f, v) }}
		}
	case 3:
		if o := storeSub(m, "itself"); o != nil && len(o.enc) < 20000 {
			t.Ev("store.self")
			return o
		}
	case 4:
		if len(bytesT) > 0 && r.P(0.3) {
			t.Ev("store.own-encoding")
			if o := fits(); o != nil && r.P(0.6) {
				return o
			}
			return storeBytes(m.Encode(), "its own encoding")
		}
		if x, what := read(); x != nil && len(bytesT) > 0 {
			// bytes inside an embedded message
			for _, g := range fieldsOf(x.Schema(), func(f *wire.Field) bool { return f.Kind == wire.Bytes }) {
				if b := x.RawBytes(g); len(b) > 0 {
					t.Ev("store.nested-bytes")
					return storeBytes(b, what+" bytes")
				}
			}
			return storeBytes(x.Encode(), what+" encoding")
		}
	default:
		x, what := read()
		if x == nil {
			return nil
		}
		if r.P(0.6) {
			for k := 1 + r.Intn(3); k > 0; k-- {
				var e *op
				if r.P(0.25) {
					e = storeBack(t, x) // its own parts into it
				} else {
					e = genOp(r, x, r.Pick(2, 20, 200), 1, nil)
				}
				if e != nil {
					t.Logf("edit %s: %s", what, e)
					e.apply(x)
				}
			}
			t.Ev("store.edited")
		}
		t.Ev("store.message")
		return storeSub(x, what)
	}
	return nil
}
