// Package bind exercises freshly generated message types: the driver program
// that property C17 builds around them runs this check.
package bind

import (
	"bytes"
	"fmt"
	"reflect"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/protogen"
	"zpverif/wire"
)

// PerFile is how many cases every generated file gets.
const PerFile = 200

// Make is file i of a run.
func Make(seed int64, i int) *protogen.File {
	r := gen.New(seed, "C17-file", i)
	return protogen.New(r, protogen.Opts{Name: protogen.Name(r, map[string]bool{}), Messages: -1, BigNums: true})
}

// Pkg is one generated package compiled into the driver.
type Pkg struct {
	N     int
	Types map[string]reflect.Type
}

type bound struct {
	file  *protogen.File
	infos map[string]*adapt.TypeInfo
	err   error
}

var pkgs = map[int]*bound{}

// Check is what the driver runs; case n is on file n / PerFile.
func Check(ps []Pkg) *engine.Check {
	reg := ps
	return &engine.Check{
		ID: "C17",
		Setup: func(env *engine.Env) error {
			for _, p := range reg {
				b := &bound{file: Make(env.Seed, p.N)}
				ss := map[string]*wire.Schema{}
				for _, s := range b.file.Schemas {
					ss[s.Name] = s
				}
				b.infos, b.err = adapt.BindAll(p.Types, ss)
				pkgs[p.N] = b
			}
			return nil
		},
		Run: run,
	}
}

func describe(s *wire.Schema) string {
	out := s.Name + " {"
	for _, f := range s.Fields {
		l := ""
		if f.Repeated {
			l = "repeated "
		}
		k := f.Kind.String()
		if f.Sub != nil {
			k = f.Sub.Name
		}
		out += fmt.Sprintf(" %s%s %s = %d;", l, k, f.Name, f.Num)
	}
	return out + " }"
}

func run(t *engine.T) {
	b := pkgs[t.N/PerFile]
	if b == nil {
		return
	}
	if b.err != nil {
		t.Fail("file %q: %v", b.file.Desc.GetName(), b.err)
	}
	if len(b.file.Schemas) == 0 {
		t.Ev("file.empty")
		t.NonTrivial("empty", b.file.Desc.GetName())
		return
	}
	r := t.R
	s := b.file.Schemas[(t.N%PerFile)%len(b.file.Schemas)]
	ti := b.infos[s.Name]
	t.Logf("file %q message %s", b.file.Desc.GetName(), describe(s))
	m := ti.New()
	o := &adapt.CompareOpts{Events: t.Ev}
	model := wire.NewModel(s)
	if r.P(0.6) {
		wo := r.DefaultOpts()
		if wo.MaxBytes > 300 {
			wo.MaxBytes = 300
		}
		raw := r.Message(s, wo)
		t.Logf("decode %x", raw)
		want, _, class := wire.Parse(s, raw)
		err := m.Decode(append([]byte{}, raw...))
		if class == wire.WellFormed && err != nil {
			t.Fail("message %s: well-formed bytes %x are refused: %v", s.Name, raw, err)
		}
		if err != nil {
			return
		}
		t.Ev("decode")
		model = want
		check(t, m, model, o, "decoding")
	} else if r.P(0.5) {
		m.Reset(nil)
	}
	var fs []*wire.Field
	for _, f := range s.Fields {
		if f.Accessible() {
			fs = append(fs, f)
		}
	}
	for k := 1 + r.Intn(12); k > 0 && len(fs) > 0; k-- {
		f := fs[r.Intn(len(fs))]
		before := counts(m.Encode())
		fm := model.Field(f.Num)
		fm.LastOK = true
		what := ""
		if f.Kind == wire.Message {
			sub := m.FreshFor(f)
			wo := r.DefaultOpts()
			wo.N, wo.MaxBytes, wo.Depth = r.Intn(5), 40, 1
			if raw := r.Message(f.Sub, wo); r.P(0.7) && sub.Decode(raw) != nil {
				sub = m.FreshFor(f)
			}
			enc := append([]byte{}, sub.Encode()...)
			what = fmt.Sprintf("%s.%s(#%d) <- message %x", s.Name, f.Name, f.Num, enc)
			t.Logf("%s", what)
			if f.Repeated {
				m.Append(f, sub)
				fm.Count++
				fm.AllSubs = append(fm.AllSubs, enc)
				t.Ev("append")
			} else {
				m.SetSub(f, sub)
				fm.Count, fm.Sub, fm.AllSubs = 1, enc, [][]byte{enc}
				t.Ev("set.message")
			}
		} else {
			v := r.Val(f.Kind, 200)
			what = fmt.Sprintf("%s.%s(#%d %s) <- %v", s.Name, f.Name, f.Num, f.Kind, v)
			t.Logf("%s", what)
			m.Set(f, v)
			fm.Count, fm.Val = 1, wire.Val{U: v.U, B: append([]byte(nil), v.B...)}
			if f.Kind.WireType() == wire.TBytes && fm.Val.B == nil {
				fm.Val.B = []byte{}
			}
			t.Ev("set." + f.Kind.String())
		}
		// The occurrence must be under the declared number, with the wire type
		// of the declared type, and nothing else may change.
		after := counts(m.Encode())
		if after == nil {
			t.Fail("%s: the encoding is malformed: %x", what, m.Encode())
		}
		for n, c := range after {
			if n.num != uint64(f.Num) && before[n] != c {
				t.Fail("%s: occurrences of field #%d (wire type %d) went from %d to %d", what, n.num, n.typ, before[n], c)
			}
		}
		for n, c := range before {
			if n.num != uint64(f.Num) && after[n] != c {
				t.Fail("%s: occurrences of field #%d (wire type %d) went from %d to %d", what, n.num, n.typ, c, after[n])
			}
		}
		if after[key{uint64(f.Num), f.Kind.WireType()}] == 0 && !isDefault(f, fm) {
			t.Fail("%s: no occurrence of field #%d with wire type %d in the encoding %x", what, f.Num, f.Kind.WireType(), m.Encode())
		}
		check(t, m, model, o, what)
	}
	fresh := m.Fresh()
	if err := fresh.Decode(append([]byte{}, m.Encode()...)); err != nil {
		t.Fail("message %s: its encoding cannot be decoded: %v", s.Name, err)
	}
	check(t, fresh, model, o, "decoding the encoding")
	m.Reset(m.Encode()[:0])
	check(t, m, wire.NewModel(s), o, "Reset")
	if len(m.Encode()) != 0 {
		t.Fail("message %s: the encoding after Reset is %x", s.Name, m.Encode())
	}
	if len(s.Fields) > 0 {
		t.NonTrivial(describe(s), fresh.Encode())
	}
	t.Sample(func() string {
		return fmt.Sprintf("file %q package %q: %s", b.file.Desc.GetName(), b.file.Desc.GetPackage(), describe(s))
	})
}

// isDefault is whether the field may just as well be left out.
func isDefault(f *wire.Field, fm *wire.FieldModel) bool {
	return f.Kind != wire.Message && fm.Val.U == 0 && len(fm.Val.B) == 0
}

type key struct {
	num uint64
	typ int
}

func counts(b []byte) map[key]int {
	toks, class, _ := wire.Tokenize(b)
	if class == wire.Malformed {
		return nil
	}
	out := map[key]int{}
	for _, t := range toks {
		out[key{t.Num, t.Typ}]++
	}
	return out
}

func check(t *engine.T, m adapt.Msg, model *wire.Model, o *adapt.CompareOpts, after string) {
	if d := adapt.Compare(m, model, o); d != "" {
		t.Fail("after %s: %s", after, d)
	}
	got, _, class := wire.Parse(m.Schema(), m.Encode())
	if class == wire.Malformed {
		t.Fail("after %s: the encoding is malformed: %x", after, m.Encode())
	}
	for _, f := range m.Schema().Fields {
		if !f.Accessible() {
			continue
		}
		a, b := got.Field(f.Num), model.Field(f.Num)
		switch {
		case f.Repeated:
			if len(a.AllSubs) != len(b.AllSubs) {
				t.Fail("after %s: %d elements of %s in the encoding, want %d", after, len(a.AllSubs), f.Name, len(b.AllSubs))
			}
		case f.Kind == wire.Message:
			if (a.Count > 0) != (b.Count > 0) || !bytes.Equal(a.Sub, b.Sub) {
				t.Fail("after %s: %s is %x in the encoding, want %x", after, f.Name, a.Sub, b.Sub)
			}
		case !a.Val.Eq(b.Val):
			t.Fail("after %s: %s is %v in the encoding, want %v", after, f.Name, a.Val, b.Val)
		}
	}
}
