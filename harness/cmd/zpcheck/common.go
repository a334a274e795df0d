// Command zpcheck runs the monitors for one property of zeropb.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/schemas"
	"zpverif/wire"
)

var (
	goldenOnce sync.Once
	golden     []*adapt.TypeInfo
	goldenErr  error
)

// setupGolden binds the checked-in generated types.
func setupGolden(*engine.Env) error {
	goldenOnce.Do(func() { golden, goldenErr = schemas.Golden() })
	return goldenErr
}

func goldenByName(name string) *adapt.TypeInfo {
	for _, ti := range golden {
		if ti.S.Name == name {
			return ti
		}
	}
	panic("harness: no type " + name)
}

// pick draws a message type: a generated one or a random schema over the
// runtime functions.
func pick(t *engine.T, big bool) adapt.Msg {
	r := t.R
	switch x := r.Intn(100); {
	case x < 50:
		t.Ev("type.random-schema")
		return adapt.NewDyn(r.Schema(r.Intn(3), big))
	case x < 80:
		t.Ev("type.TestMessage")
		return goldenByName("TestMessage").New()
	case x < 92:
		t.Ev("type.raft")
		return goldenByName("Message").New()
	default:
		t.Ev("type.raft")
		return golden[1+r.Intn(len(golden)-1)].New()
	}
}

// pickWith draws a type that has a field satisfying ok.
func pickWith(t *engine.T, ok func(*wire.Field) bool) adapt.Msg {
	for i := 0; i < 40; i++ {
		m := pick(t, false)
		if len(fieldsOf(m.Schema(), ok)) > 0 {
			return m
		}
	}
	return goldenByName("TestMessage").New()
}

func fieldsOf(s *wire.Schema, ok func(*wire.Field) bool) []*wire.Field {
	var out []*wire.Field
	for _, f := range s.Fields {
		if f.Accessible() && (ok == nil || ok(f)) {
			out = append(out, f)
		}
	}
	return out
}

func isSub(f *wire.Field) bool    { return f.Kind == wire.Message && !f.Repeated }
func isRep(f *wire.Field) bool    { return f.Kind == wire.Message && f.Repeated }
func isScalar(f *wire.Field) bool { return f.Kind != wire.Message && !f.Repeated }
func isBlob(f *wire.Field) bool {
	return !f.Repeated && (f.Kind == wire.Bytes || f.Kind == wire.String)
}

func clip(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x..(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// roomy copies b into memory with spare capacity.
func roomy(b []byte, spare int) []byte {
	out := make([]byte, len(b), len(b)+spare)
	copy(out, b)
	return out
}

// seqs is, per field number, what the occurrences hold: wire type and value
// bytes, in wire order.
func seqs(buf []byte) (map[uint64][]string, []wire.Tok, wire.Class, string) {
	toks, class, why := wire.Tokenize(buf)
	out := map[uint64][]string{}
	for i := range toks {
		t := &toks[i]
		out[t.Num] = append(out[t.Num], string(rune('0'+t.Typ))+string(t.Raw(buf)))
	}
	return out, toks, class, why
}

func sameSeq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// modelDiff compares what two models say is readable.
func modelDiff(a, b *wire.Model) string {
	for _, f := range a.Schema.Fields {
		if !f.Accessible() {
			continue
		}
		x, y := a.F[f.Num], b.F[f.Num]
		if x == nil {
			x = &wire.FieldModel{LastOK: true}
		}
		if y == nil {
			y = &wire.FieldModel{LastOK: true}
		}
		d := ""
		switch {
		case f.Repeated:
			if len(x.AllSubs) != len(y.AllSubs) {
				d = fmt.Sprintf("%d elements, want %d", len(x.AllSubs), len(y.AllSubs))
				break
			}
			for i := range x.AllSubs {
				if !bytes.Equal(x.AllSubs[i], y.AllSubs[i]) {
					d = fmt.Sprintf("element %d is %s, want %s", i, clip(x.AllSubs[i]), clip(y.AllSubs[i]))
					break
				}
			}
		case f.Kind == wire.Message:
			if (x.Count > 0) != (y.Count > 0) {
				d = fmt.Sprintf("present %v, want %v", x.Count > 0, y.Count > 0)
			} else if !bytes.Equal(x.Sub, y.Sub) {
				d = fmt.Sprintf("is %s, want %s", clip(x.Sub), clip(y.Sub))
			}
		default:
			// A value equal to the default may be left out.
			if !x.Val.Eq(y.Val) {
				d = fmt.Sprintf("is %v, want %v", x.Val, y.Val)
			}
		}
		if d != "" {
			return fmt.Sprintf("field %s(#%d %s) %s", f.Name, f.Num, f.Kind, d)
		}
	}
	return ""
}

// dump renders everything readable from a message.
func dump(m adapt.Msg, depth int) string {
	var b strings.Builder
	dumpTo(&b, m, depth)
	return b.String()
}

func dumpTo(b *strings.Builder, m adapt.Msg, depth int) {
	for _, f := range m.Schema().Fields {
		if !f.Accessible() {
			continue
		}
		fmt.Fprintf(b, "%d=", f.Num)
		switch {
		case f.Repeated:
			it := m.Iter(f)
			for i := 0; ; i++ {
				dst := m.FreshFor(f)
				ok, err := it.Next(dst)
				if !ok {
					fmt.Fprintf(b, "end(%v)", err != nil)
					break
				}
				fmt.Fprintf(b, "[%v:%x ", err != nil, dst.Encode())
				if err == nil && depth > 0 {
					dumpTo(b, dst, depth-1)
				}
				b.WriteString("]")
			}
		case f.Kind == wire.Message:
			dst := m.FreshFor(f)
			ok, err := m.Sub(f, dst)
			fmt.Fprintf(b, "%v/%v", ok, err != nil)
			if ok && err == nil {
				fmt.Fprintf(b, "{%x ", dst.Encode())
				if depth > 0 {
					dumpTo(b, dst, depth-1)
				}
				b.WriteString("}")
			}
		case f.Kind == wire.Bytes || f.Kind == wire.String:
			fmt.Fprintf(b, "%x", m.Get(f).B)
		default:
			fmt.Fprintf(b, "%x", m.Get(f).U)
		}
		b.WriteByte(';')
	}
}

func shape(s *wire.Schema) string {
	var out []string
	for _, f := range s.Fields {
		rep := ""
		if f.Repeated {
			rep = "*"
		}
		out = append(out, fmt.Sprintf("%d:%s%s", f.Num, f.Kind, rep))
	}
	sort.Strings(out)
	return s.Name + "{" + strings.Join(out, " ") + "}"
}

// decodeOK decodes and says whether it worked.
func decodeOK(t *engine.T, m adapt.Msg, raw []byte) bool {
	if err := m.Decode(raw); err != nil {
		t.Ev("decode.refused")
		return false
	}
	t.Ev("decode.ok")
	return true
}

func copts(t *engine.T) *adapt.CompareOpts {
	return &adapt.CompareOpts{Events: t.Ev}
}
