package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/danhhz/zeropb/golden/testzeropb"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/wire"
)

var c26 = &engine.Check{
	ID:       "C26",
	Variants: also386(),
	Rule:     "each case decodes a random TestMessage, or builds one, edits it, and after each step compares its Text with one made from an independent parse of its encoding; writing it must change neither the message nor what a second Text returns; non-trivial: something is set",
	Quick:    320000,
	Thorough: 6000000,
	Setup:    setupGolden,
	Need:     []string{"after.many", "text", "set.default", "set.embedded", "set.elements", "after.edit", "after.decode", "far"},
	Run:      runC26,
}

// textOf is the text of an encoded TestMessage.
func textOf(t *engine.T, s *wire.Schema, enc []byte) string {
	model, _, class := wire.Parse(s, enc)
	if class == wire.Malformed {
		t.Fail("the encoding of a message built through its accessors is malformed: %s", clip(enc))
	}
	var b strings.Builder
	for num := 1; num <= 17; num++ {
		f, fm := s.ByNum(num), model.F[num]
		if fm == nil || fm.Count == 0 {
			continue
		}
		v := fm.Val
		if f.Kind != wire.Message && v.U == 0 && len(v.B) == 0 {
			t.Ev("set.default")
		}
		b.WriteString(f.Name + "=")
		switch f.Kind {
		case wire.Bool:
			b.WriteString(strconv.FormatBool(v.U != 0))
		case wire.Int32, wire.Sint32, wire.Sfixed32:
			b.WriteString(strconv.FormatInt(int64(int32(v.U)), 10))
		case wire.Int64, wire.Sint64, wire.Sfixed64:
			b.WriteString(strconv.FormatInt(int64(v.U), 10))
		case wire.Uint32, wire.Fixed32, wire.Enum:
			b.WriteString(strconv.FormatUint(uint64(uint32(v.U)), 10))
		case wire.Uint64, wire.Fixed64:
			b.WriteString(strconv.FormatUint(v.U, 10))
		case wire.Double:
			b.WriteString(fmt.Sprint(math.Float64frombits(v.U)))
		case wire.Float:
			b.WriteString(fmt.Sprint(math.Float32frombits(uint32(v.U))))
		case wire.String:
			b.Write(v.B)
		case wire.Bytes:
			b.WriteString(strconv.Quote(string(v.B)))
		case wire.Message:
			b.WriteString("<" + textOf(t, f.Sub, fm.Sub) + ">")
			t.Ev("set.embedded")
		}
		b.WriteString(" ")
	}
	for _, f := range s.Fields {
		if fm := model.F[f.Num]; fm != nil && isRep(f) {
			for _, e := range fm.AllSubs {
				b.WriteString(f.Name + "=<" + textOf(t, f.Sub, e) + "> ")
				t.Ev("set.elements")
			}
		}
	}
	return b.String()
}

func runC26(t *engine.T) {
	r := t.R
	m := goldenByName("TestMessage").New()
	s := m.Schema()
	x := adapt.Struct(m).(*testzeropb.TestMessage)
	check := func(what string) {
		enc := cp(m.Encode())
		want := textOf(t, s, enc)
		got := x.Text()
		if got != want {
			t.Fail("%s, the text is %q, want %q: %s", what, clipStr(got), clipStr(want), clip(enc))
		}
		if !bytes.Equal(m.Encode(), enc) {
			t.Fail("%s, writing the text changed the encoding", what)
		}
		if r.P(0.3) {
			var b bytes.Buffer
			x.WriteText(&b)
			if b.String() != want {
				t.Fail("%s, the text written is %q, want %q: %s", what, clipStr(b.String()), clipStr(want), clip(enc))
			}
		}
		t.Ev("text")
		if len(enc) > 65535 {
			t.Ev("far")
		}
		if want != "" {
			t.NonTrivial(want)
			t.Sample(func() string { return clipStr(want) })
		}
	}
	if r.P(0.7) {
		o := r.DefaultOpts()
		o.Split, o.Wrong, o.BadSub = false, 0, 0
		b := r.Message(s, o)
		if err := m.Decode(b); err != nil {
			t.Fail("a well-formed message is refused: %v: %s", err, clip(b))
		}
		t.Logf("decode %s", clip(b))
		check("after a decode")
		t.Ev("after.decode")
	}
	if t.N%20000 == 10000 {
		f := s.ByNum(34)
		el := []adapt.Msg{m.FreshFor(f), m.FreshFor(f)}
		el[1].Set(s.ByNum(2), wire.Val{U: 7})
		n := r.Pick(1025, 5000, 65536, 70000)
		t.Logf("append %d elements", n)
		for ; n > 0; n-- {
			m.Append(f, el[n%2])
		}
		check("after many appends")
		t.Ev("after.many")
	}
	for k := r.Intn(6); k > 0; k-- {
		o := genOp(r, m, 30, 2, nil)
		if o == nil {
			continue
		}
		t.Logf("%s", o)
		o.apply(m)
		check(fmt.Sprintf("after %s", o))
		t.Ev("after.edit")
	}
}

func clipStr(s string) string {
	if len(s) > 400 {
		return s[:400] + fmt.Sprintf("..(%d bytes)", len(s))
	}
	return s
}
