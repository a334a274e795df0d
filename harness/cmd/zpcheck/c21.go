package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"reflect"
	"strings"

	"github.com/danhhz/zeropb/generate"
	gogo "github.com/gogo/protobuf/proto"
	gdesc "github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	gplug "github.com/gogo/protobuf/protoc-gen-gogo/plugin"
	"github.com/golang/protobuf/proto"

	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

var c21 = &engine.Check{
	ID:       "C21",
	Rule:     "each case fills a message of plugin.proto or descriptor.proto (the request and the response mostly, but every type on its own too) of an independent implementation of them (gogo/protobuf's) at random by reflection, every field and enum value in turn, with unknown fields and extensions, serializes it there, reads it with the repository's types, and compares every field and every getter, the bytes written back, the size, the text and JSON forms, both ways, what Merge and XXX_DiscardUnknown leave, and String; getters of unset fields must give the official defaults, and the descriptors the types carry must agree, as must the enum types (names, numbers, JSON forms) and extension ranges; non-trivial: at least one field was set",
	Quick:    36000,
	Thorough: 240000,
	Setup:    setupC21,
	Need:     []string{"type.CodeGeneratorRequest", "type.CodeGeneratorResponse", "type.FieldDescriptorProto", "cmp.set", "cmp.getter", "cmp.list", "written-back", "text.there", "text.back", "extra.fields", "pairs.descriptor", "nil.getter", "string", "size", "discard-unknown", "merge", "json", "enum"},
	Assumptions: []string{
		"gogo/protobuf's copy of the two schemas is taken for the official one; both are from 2019",
	},
	Run: runC21,
}

// pair is one type in both implementations.
type pair struct {
	name       string
	gogo, ours reflect.Type // pointers to struct
}

var (
	c21pairs []pair
	c21ours  = map[string]reflect.Type{}
)

func setupC21(*engine.Env) error {
	ours := []proto.Message{
		&generate.Version{}, &generate.CodeGeneratorRequest{}, &generate.CodeGeneratorResponse{}, &generate.CodeGeneratorResponse_File{},
		&generate.FileDescriptorSet{}, &generate.FileDescriptorProto{}, &generate.DescriptorProto{}, &generate.DescriptorProto_ExtensionRange{},
		&generate.DescriptorProto_ReservedRange{}, &generate.ExtensionRangeOptions{}, &generate.FieldDescriptorProto{}, &generate.OneofDescriptorProto{},
		&generate.EnumDescriptorProto{}, &generate.EnumDescriptorProto_EnumReservedRange{}, &generate.EnumValueDescriptorProto{}, &generate.ServiceDescriptorProto{},
		&generate.MethodDescriptorProto{}, &generate.FileOptions{}, &generate.MessageOptions{}, &generate.FieldOptions{}, &generate.OneofOptions{}, &generate.EnumOptions{},
		&generate.EnumValueOptions{}, &generate.ServiceOptions{}, &generate.MethodOptions{}, &generate.UninterpretedOption{}, &generate.UninterpretedOption_NamePart{},
		&generate.SourceCodeInfo{}, &generate.SourceCodeInfo_Location{}, &generate.GeneratedCodeInfo{}, &generate.GeneratedCodeInfo_Annotation{},
	}
	theirs := []gogo.Message{
		&gplug.Version{}, &gplug.CodeGeneratorRequest{}, &gplug.CodeGeneratorResponse{}, &gplug.CodeGeneratorResponse_File{},
		&gdesc.FileDescriptorSet{}, &gdesc.FileDescriptorProto{}, &gdesc.DescriptorProto{}, &gdesc.DescriptorProto_ExtensionRange{},
		&gdesc.DescriptorProto_ReservedRange{}, &gdesc.ExtensionRangeOptions{}, &gdesc.FieldDescriptorProto{}, &gdesc.OneofDescriptorProto{},
		&gdesc.EnumDescriptorProto{}, &gdesc.EnumDescriptorProto_EnumReservedRange{}, &gdesc.EnumValueDescriptorProto{}, &gdesc.ServiceDescriptorProto{},
		&gdesc.MethodDescriptorProto{}, &gdesc.FileOptions{}, &gdesc.MessageOptions{}, &gdesc.FieldOptions{}, &gdesc.OneofOptions{}, &gdesc.EnumOptions{},
		&gdesc.EnumValueOptions{}, &gdesc.ServiceOptions{}, &gdesc.MethodOptions{}, &gdesc.UninterpretedOption{}, &gdesc.UninterpretedOption_NamePart{},
		&gdesc.SourceCodeInfo{}, &gdesc.SourceCodeInfo_Location{}, &gdesc.GeneratedCodeInfo{}, &gdesc.GeneratedCodeInfo_Annotation{},
	}
	if c21pairs != nil {
		return nil
	}
	for i := range ours {
		p := pair{reflect.TypeOf(theirs[i]).Elem().Name(), reflect.TypeOf(theirs[i]), reflect.TypeOf(ours[i])}
		if p.ours.Elem().Name() != p.name {
			return fmt.Errorf("types %v and %v do not belong together", p.gogo, p.ours)
		}
		c21pairs = append(c21pairs, p)
		c21ours[p.name] = p.ours
	}
	return nil
}

// pbFields are the fields of a generated struct that are protobuf fields.
func pbFields(t reflect.Type) []reflect.StructField {
	var out []reflect.StructField
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.Tag.Get("protobuf") != "" {
			out = append(out, f)
		}
	}
	return out
}

// enumValues are the numbers of an enum type, by the schema.
func enumValues(t reflect.Type) []int32 {
	z := reflect.New(t).Interface()
	d, ok := z.(interface{ EnumDescriptor() ([]byte, []int) })
	if !ok {
		panic("harness: no enum descriptor for " + t.String())
	}
	gz, path := d.EnumDescriptor()
	f := unzipDesc(gz)
	var e *gdesc.EnumDescriptorProto
	if len(path) == 1 {
		e = f.EnumType[path[0]]
	} else {
		m := f.MessageType[path[0]]
		for _, i := range path[1 : len(path)-1] {
			m = m.NestedType[i]
		}
		e = m.EnumType[path[len(path)-1]]
	}
	var out []int32
	for _, v := range e.Value {
		out = append(out, v.GetNumber())
	}
	return out
}

func unzipDesc(gz []byte) *gdesc.FileDescriptorProto {
	z, err := gzip.NewReader(bytes.NewReader(gz))
	if err != nil {
		return nil
	}
	b, err := ioutil.ReadAll(z)
	if err != nil {
		return nil
	}
	var f gdesc.FileDescriptorProto
	if gogo.Unmarshal(b, &f) != nil {
		return nil
	}
	return &f
}

// descOf is the part of the descriptor a type says describes it.
func descOf(m interface{}) *gdesc.DescriptorProto {
	d, ok := m.(interface{ Descriptor() ([]byte, []int) })
	if !ok {
		return nil
	}
	gz, path := d.Descriptor()
	f := unzipDesc(gz)
	if f == nil || len(path) == 0 || path[0] >= len(f.MessageType) {
		return nil
	}
	x := f.MessageType[path[0]]
	for _, i := range path[1:] {
		if i >= len(x.NestedType) {
			return nil
		}
		x = x.NestedType[i]
	}
	return x
}

// fillC21 sets fields of a struct of the independent implementation.
func fillC21(t *engine.T, r *gen.Rng, v reflect.Value, depth int, density float64) {
	for _, f := range pbFields(v.Type()) {
		req := strings.Contains(f.Tag.Get("protobuf"), ",req,")
		if !req && !r.P(density) {
			continue
		}
		fv := v.FieldByIndex(f.Index)
		switch {
		case fv.Kind() == reflect.Slice && fv.Type().Elem().Kind() != reflect.Uint8:
			n := 1 + r.Intn(3)
			if r.P(0.02) && depth > 1 {
				n = 60
			}
			for ; n > 0; n-- {
				e := reflect.New(fv.Type().Elem()).Elem()
				if !fillOne(t, r, e, depth, density) {
					break
				}
				fv.Set(reflect.Append(fv, e))
			}
		default:
			fillOne(t, r, fv, depth, density)
		}
	}
	if x := v.FieldByName("XXX_unrecognized"); x.IsValid() && r.P(0.06) {
		var b []byte
		for k := 1 + r.Intn(3); k > 0; k-- {
			// unknown, or an extension where there are any
			n := r.Pick(536870911, 1000, 1001, 65001, 100000, 400+r.Intn(100), 500, 12345)
			b = r.RandOcc(b, n, r.Pick(wire.TVarint, wire.TFixed32, wire.TFixed64, wire.TBytes), &gen.WireOpts{MaxBytes: 30})
		}
		x.SetBytes(b)
		t.Ev("extra.fields")
	}
}

// text makes a string for descriptors: mostly plain, sometimes odd.
func textC21(r *gen.Rng) string {
	switch r.Intn(5) {
	case 0:
		return ""
	case 1:
		return "a\"b'\\\n\t\u00e9\u4e16\x00"
	case 2:
		return strings.Repeat("long ", r.Intn(100))
	}
	return []string{"foo", ".foo.Bar", "proto3", "a/b.proto", "type", "1"}[r.Intn(6)]
}

func fillOne(t *engine.T, r *gen.Rng, v reflect.Value, depth int, density float64) bool {
	switch v.Kind() {
	case reflect.Ptr:
		if v.Type().Elem().Kind() == reflect.Struct {
			if depth == 0 {
				return false
			}
			v.Set(reflect.New(v.Type().Elem()))
			fillC21(t, r, v.Elem(), depth-1, density*0.7)
			return true
		}
		v.Set(reflect.New(v.Type().Elem()))
		return fillOne(t, r, v.Elem(), depth, density)
	case reflect.Bool:
		v.SetBool(r.P(0.6))
	case reflect.String:
		v.SetString(textC21(r))
	case reflect.Int32:
		if _, ok := v.Addr().Interface().(interface{ EnumDescriptor() ([]byte, []int) }); ok {
			vs := enumValues(v.Type())
			v.SetInt(int64(vs[r.Intn(len(vs))]))
			return true
		}
		v.SetInt(int64(int32(r.Bits())))
	case reflect.Int64:
		v.SetInt(int64(r.Bits()))
	case reflect.Uint64:
		v.SetUint(r.Bits())
	case reflect.Float64:
		v.SetFloat(r.NormFloat64())
	case reflect.Slice:
		v.SetBytes(r.FillBytes(r.Len(40)))
	default:
		panic("harness: field of type " + v.Type().String())
	}
	return true
}

// plain reduces a field's value to something comparable.
func plain(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "unset"
		}
		return plain(v.Elem())
	case reflect.Int32, reflect.Int64:
		s := fmt.Sprint(v.Int())
		if v.Kind() == reflect.Int32 && v.Type().Name() != "int32" {
			if st, ok := v.Interface().(fmt.Stringer); ok {
				s += " " + st.String()
			}
		}
		return s
	case reflect.Float64:
		return fmt.Sprintf("%x", math.Float64bits(v.Float()))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.IsNil() {
				return "unset"
			}
			return fmt.Sprintf("%x", v.Bytes())
		}
	}
	return fmt.Sprintf("%v", v.Interface())
}

// diffC21 compares a struct of the independent implementation with ours.
func diffC21(t *engine.T, a, b reflect.Value, path string) string {
	for _, f := range pbFields(a.Type()) {
		x := a.FieldByIndex(f.Index)
		y := b.FieldByName(f.Name)
		if !y.IsValid() {
			return fmt.Sprintf("%s has no field %s", path, f.Name)
		}
		p := path + "." + f.Name
		switch {
		case x.Kind() == reflect.Slice && x.Type().Elem().Kind() != reflect.Uint8:
			if y.Kind() != reflect.Slice || x.Len() != y.Len() {
				return fmt.Sprintf("%s has %d elements, want %d", p, y.Len(), x.Len())
			}
			for i := 0; i < x.Len(); i++ {
				q := fmt.Sprintf("%s[%d]", p, i)
				if x.Type().Elem().Kind() == reflect.Ptr {
					if d := diffC21(t, x.Index(i).Elem(), y.Index(i).Elem(), q); d != "" {
						return d
					}
				} else if g, w := plain(y.Index(i)), plain(x.Index(i)); g != w {
					return fmt.Sprintf("%s is %s, want %s", q, g, w)
				}
				t.Ev("cmp.list")
			}
		case x.Kind() == reflect.Ptr && x.Type().Elem().Kind() == reflect.Struct:
			if x.IsNil() != y.IsNil() {
				return fmt.Sprintf("%s is unset: %v, want %v", p, y.IsNil(), x.IsNil())
			}
			if !x.IsNil() {
				if d := diffC21(t, x.Elem(), y.Elem(), p); d != "" {
					return d
				}
				t.Ev("cmp.set")
			}
		default:
			if g, w := plain(y), plain(x); g != w {
				return fmt.Sprintf("%s is %s, want %s", p, g, w)
			}
			t.Ev("cmp.set")
		}
		// The getter, with its default.
		gx, gy := a.Addr().MethodByName("Get"+f.Name), b.Addr().MethodByName("Get"+f.Name)
		if !gx.IsValid() {
			continue
		}
		if !gy.IsValid() {
			return fmt.Sprintf("%s has no getter", p)
		}
		vx, vy := gx.Call(nil)[0], gy.Call(nil)[0]
		switch {
		case vx.Kind() == reflect.Slice && vx.Type().Elem().Kind() != reflect.Uint8:
			if vy.Len() != vx.Len() || vx.Len() > 0 && vy.Pointer() != y.Pointer() {
				return fmt.Sprintf("the getter of %s returns %d elements, want %d", p, vy.Len(), vx.Len())
			}
		case vx.Kind() == reflect.Ptr && vx.Type().Elem().Kind() == reflect.Struct:
			if vy.Pointer() != y.Pointer() {
				return fmt.Sprintf("the getter of %s returns something else", p)
			}
		default:
			if g, w := plain(vy), plain(vx); g != w {
				return fmt.Sprintf("the getter of %s returns %s, want %s", p, g, w)
			}
		}
		t.Ev("cmp.getter")
	}
	return ""
}

func runC21(t *engine.T) {
	r := t.R
	var p pair
	switch x := r.Intn(10); {
	case x < 4:
		p = c21pairs[1]
	case x < 5:
		p = c21pairs[2]
	default:
		p = c21pairs[r.Intn(len(c21pairs))]
	}
	t.Ev("type." + p.name)
	t.Logf("type %s", p.name)
	theirs := func() gogo.Message { return reflect.New(p.gogo.Elem()).Interface().(gogo.Message) }
	ours := func() proto.Message { return reflect.New(p.ours.Elem()).Interface().(proto.Message) }
	src := theirs()
	density := []float64{0.02, 0.2, 0.5, 1}[r.Intn(4)]
	if r.P(0.03) {
		density = 0
	}
	fillC21(t, r, reflect.ValueOf(src).Elem(), 1+r.Intn(5), density)
	b, err := gogo.Marshal(src)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if len(b) > 0 {
		t.NonTrivial(p.name, b)
		t.Sample(func() string { return fmt.Sprintf("%s of %d bytes: %s", p.name, len(b), clip(b)) })
	}
	t.Logf("bytes %s", clip(b))
	ref := theirs()
	if err := gogo.Unmarshal(b, ref); err != nil {
		panic("harness: " + err.Error())
	}
	got := ours()
	if err := proto.Unmarshal(b, got); err != nil {
		t.Fail("a serialized %s is refused: %v: %s", p.name, err, clip(b))
	}
	if d := diffC21(t, reflect.ValueOf(ref).Elem(), reflect.ValueOf(got).Elem(), p.name); d != "" {
		t.Fail("read back, %s: %s", d, clip(b))
	}
	// Back.
	b2, err := proto.Marshal(got)
	if err != nil {
		t.Fail("a %s cannot be serialized: %v", p.name, err)
	}
	ref2 := theirs()
	if err := gogo.Unmarshal(b2, ref2); err != nil {
		t.Fail("a %s is serialized to what another implementation refuses: %v: %s", p.name, err, clip(b2))
	}
	if !gogo.Equal(ref, ref2) {
		t.Fail("a %s is serialized to what another implementation reads as another: it was %s, is %s", p.name, clip(b), clip(b2))
	}
	t.Ev("written-back")
	// As text, without what is unknown.
	if r.P(0.3) {
		bare := theirs()
		if gogo.Unmarshal(b, bare) != nil {
			panic("harness: unmarshal")
		}
		if d, ok := bare.(interface{ XXX_DiscardUnknown() }); ok {
			d.XXX_DiscardUnknown()
		}
		text := gogo.MarshalTextString(bare)
		back := theirs()
		if gogo.UnmarshalText(text, back) == nil && gogo.Equal(bare, back) { // extensions have no text form
			x := ours()
			if err := proto.UnmarshalText(text, x); err != nil {
				t.Fail("the text form of a %s is refused: %v: %q", p.name, err, text)
			}
			if d := diffC21(t, reflect.ValueOf(back).Elem(), reflect.ValueOf(x).Elem(), p.name); d != "" {
				t.Fail("read from text, %s: %q", d, text)
			}
			t.Ev("text.there")
			text2 := proto.MarshalTextString(x)
			back2 := theirs()
			if err := gogo.UnmarshalText(text2, back2); err != nil {
				t.Fail("the text form of a %s is refused elsewhere: %v: %q", p.name, err, text2)
			}
			if !gogo.Equal(back, back2) {
				t.Fail("the text form of a %s reads differently elsewhere: %q", p.name, text2)
			}
			t.Ev("text.back")
		}
	}
	if d := moreC21(t, p, b, ref, got, ours, theirs); d != "" {
		t.Fail("%s: %s", d, clip(b))
	}
	// Clone, merge and reset.
	c := proto.Clone(got)
	if !proto.Equal(c, got) {
		t.Fail("a clone of a %s is not equal to it", p.name)
	}
	c.Reset()
	if n := proto.Size(c); n != 0 {
		t.Fail("after Reset a %s still takes %d bytes", p.name, n)
	}
	// The descriptor.
	if t.N < 4*len(c21pairs) {
		q := c21pairs[t.N%len(c21pairs)]
		w, g := descOf(reflect.New(q.gogo.Elem()).Interface()), descOf(reflect.New(q.ours.Elem()).Interface())
		if w == nil {
			panic("harness: no descriptor of " + q.name)
		}
		if g == nil {
			t.Fail("%s has no usable descriptor", q.name)
		}
		x, y := reflect.Zero(q.gogo), reflect.Zero(q.ours) // getters of nil
		for _, f := range pbFields(q.gogo.Elem()) {
			n := "Get" + f.Name
			if !x.MethodByName(n).IsValid() {
				continue
			}
			my := y.MethodByName(n)
			if !my.IsValid() {
				t.Fail("%s has no method %s", q.name, n)
			}
			vx, vy := x.MethodByName(n).Call(nil)[0], my.Call(nil)[0]
			if k := vx.Kind(); k == reflect.Slice || k == reflect.Ptr {
				if !vy.IsNil() && (k == reflect.Ptr || vy.Len() > 0) {
					t.Fail("%s of a nil %s returns something", n, q.name)
				}
			} else if g, w := plain(vy), plain(vx); g != w {
				t.Fail("%s of a nil %s returns %s, want %s", n, q.name, g, w)
			}
			t.Ev("nil.getter")
		}
		if d := descDiff(g, w); d != "" {
			t.Fail("the descriptor of %s: %s", q.name, d)
		}
		t.Ev("pairs.descriptor")
	}
}

// moreC21 compares the rest of what the types can do.
func moreC21(t *engine.T, p pair, b []byte, ref gogo.Message, got proto.Message, ours func() proto.Message, theirs func() gogo.Message) string {
	r := t.R
	if r.P(0.3) {
		if g, w := got.String(), ref.String(); g != w {
			return fmt.Sprintf("String of a %s is %q, want %q", p.name, g, w)
		}
		t.Ev("string")
	}
	if r.P(0.3) {
		// The size, without going through proto.Size.
		if m, ok := got.(interface{ XXX_Size() int }); ok {
			if n, w := m.XXX_Size(), gogo.Size(ref); n != w {
				return fmt.Sprintf("XXX_Size of a %s is %d, want %d", p.name, n, w)
			}
			t.Ev("size")
		}
	}
	if r.P(0.3) {
		x, y := ours(), theirs()
		if proto.Unmarshal(b, x) != nil || gogo.Unmarshal(b, y) != nil {
			return "it cannot be read again"
		}
		d, ok := x.(interface{ XXX_DiscardUnknown() })
		if !ok {
			return p.name + " has no XXX_DiscardUnknown"
		}
		d.XXX_DiscardUnknown()
		y.(interface{ XXX_DiscardUnknown() }).XXX_DiscardUnknown()
		bx, err := proto.Marshal(x)
		z := theirs()
		if err != nil || gogo.Unmarshal(bx, z) != nil || !gogo.Equal(y, z) {
			return fmt.Sprintf("a %s without what is unknown is %s", p.name, clip(bx))
		}
		t.Ev("discard-unknown")
	}
	if r.P(0.3) {
		// Merged with another one.
		src := theirs()
		fillC21(t, r, reflect.ValueOf(src).Elem(), 2, 0.3)
		sb, err := gogo.Marshal(src)
		if err != nil {
			panic("harness: " + err.Error())
		}
		x, x2, y, y2 := ours(), ours(), theirs(), theirs()
		if proto.Unmarshal(b, x) != nil || proto.Unmarshal(sb, x2) != nil || gogo.Unmarshal(b, y) != nil || gogo.Unmarshal(sb, y2) != nil {
			return "it cannot be read again"
		}
		proto.Merge(x, x2)
		gogo.Merge(y, y2)
		if d := diffC21(t, reflect.ValueOf(y).Elem(), reflect.ValueOf(x).Elem(), p.name); d != "" {
			return "merged, " + d
		}
		t.Ev("merge")
	}
	if r.P(0.3) {
		g, err1 := json.Marshal(got)
		w, err2 := json.Marshal(ref)
		if err2 == nil {
			if err1 != nil || !bytes.Equal(g, w) {
				return fmt.Sprintf("as JSON a %s is %q (%v), want %q", p.name, g, err1, w)
			}
			x, y := ours(), theirs()
			if json.Unmarshal(w, y) == nil {
				if err := json.Unmarshal(w, x); err != nil {
					return fmt.Sprintf("the JSON form of a %s is refused: %v: %q", p.name, err, w)
				}
				if d := diffC21(t, reflect.ValueOf(y).Elem(), reflect.ValueOf(x).Elem(), p.name); d != "" {
					return fmt.Sprintf("read from JSON, %s: %q", d, w)
				}
			}
			t.Ev("json")
		}
	}
	if t.N < 4*len(c21pairs) {
		q := c21pairs[t.N%len(c21pairs)]
		w, g := ranges(reflect.New(q.gogo.Elem()).Interface()), ranges(reflect.New(q.ours.Elem()).Interface())
		if w != g {
			return fmt.Sprintf("the extension ranges of %s are %s, want %s", q.name, g, w)
		}
		for _, f := range pbFields(q.gogo.Elem()) {
			e := f.Type
			for e.Kind() == reflect.Ptr || e.Kind() == reflect.Slice {
				e = e.Elem()
			}
			if _, ok := reflect.New(e).Interface().(interface{ EnumDescriptor() ([]byte, []int) }); !ok {
				continue
			}
			h, ok := q.ours.Elem().FieldByName(f.Name)
			if !ok {
				return q.name + " has no field " + f.Name
			}
			o := h.Type
			for o.Kind() == reflect.Ptr || o.Kind() == reflect.Slice {
				o = o.Elem()
			}
			if d := enumDiff(t, e, o); d != "" {
				return fmt.Sprintf("enum of %s.%s: %s", q.name, f.Name, d)
			}
			t.Ev("enum")
		}
	}
	return ""
}

// ranges are the numbers a type says are for extensions.
func ranges(m interface{}) string {
	f := reflect.ValueOf(m).MethodByName("ExtensionRangeArray")
	if !f.IsValid() {
		return ""
	}
	s := ""
	l := f.Call(nil)[0]
	for i := 0; i < l.Len(); i++ {
		s += fmt.Sprintf("[%v %v]", l.Index(i).Field(0), l.Index(i).Field(1))
	}
	return s
}

// enumDiff compares two enum types.
func enumDiff(t *engine.T, a, b reflect.Type) string {
	names := func(e reflect.Type) string {
		d, ok := reflect.New(e).Interface().(interface{ EnumDescriptor() ([]byte, []int) })
		if !ok {
			return "no descriptor"
		}
		gz, path := d.EnumDescriptor()
		f := unzipDesc(gz)
		if f == nil {
			return "unreadable descriptor"
		}
		var l []*gdesc.EnumDescriptorProto
		if len(path) == 1 {
			l = f.EnumType
		} else {
			ms := f.MessageType
			for _, i := range path[:len(path)-1] {
				if i >= len(ms) {
					return "wrong path"
				}
				ms, l = ms[i].NestedType, ms[i].EnumType
			}
		}
		i := path[len(path)-1]
		if i >= len(l) {
			return "wrong path"
		}
		s := l[i].GetName()
		for _, v := range l[i].Value {
			s += fmt.Sprintf(" %s=%d", v.GetName(), v.GetNumber())
		}
		return s
	}
	if g, w := names(b), names(a); g != w {
		return fmt.Sprintf("described as %s, want %s", g, w)
	}
	for n := int32(-1); n < 22; n++ {
		x, y := reflect.New(a), reflect.New(b)
		x.Elem().SetInt(int64(n))
		y.Elem().SetInt(int64(n))
		name := x.Elem().Interface().(fmt.Stringer).String()
		st, ok := y.Elem().Interface().(fmt.Stringer)
		if !ok || st.String() != name {
			return fmt.Sprintf("%d has another name than %s", n, name)
		}
		pe := y.Elem().MethodByName("Enum")
		if !pe.IsValid() {
			return "has no method Enum"
		}
		if e := pe.Call(nil)[0]; e.Kind() != reflect.Ptr || e.IsNil() || e.Elem().Int() != int64(n) {
			return fmt.Sprintf("Enum of %s points to something else", name)
		}
		for _, js := range []string{fmt.Sprintf("%q", name), fmt.Sprint(n), `"NOSUCHNAME"`, `{}`} {
			x.Elem().SetInt(77)
			y.Elem().SetInt(77)
			u, ok := y.Interface().(json.Unmarshaler)
			if !ok {
				return "has no method UnmarshalJSON"
			}
			ew := x.Interface().(json.Unmarshaler).UnmarshalJSON([]byte(js))
			eg := u.UnmarshalJSON([]byte(js))
			if (eg == nil) != (ew == nil) || x.Elem().Int() != y.Elem().Int() {
				return fmt.Sprintf("JSON %s gives %d (%v), want %d (%v)", js, y.Elem().Int(), eg, x.Elem().Int(), ew)
			}
		}
	}
	return ""
}

func descDiff(g, w *gdesc.DescriptorProto) string {
	if g.GetName() != w.GetName() {
		return fmt.Sprintf("it is the one of %s, want %s", g.GetName(), w.GetName())
	}
	have := map[string]*gdesc.FieldDescriptorProto{}
	for _, f := range g.Field {
		have[f.GetName()] = f
	}
	if len(g.Field) != len(w.Field) {
		return fmt.Sprintf("it has %d fields, want %d", len(g.Field), len(w.Field))
	}
	if g, w := fmt.Sprint(g.ExtensionRange), fmt.Sprint(w.ExtensionRange); g != w {
		return fmt.Sprintf("its extension ranges are %s, want %s", g, w)
	}
	if len(g.NestedType) != len(w.NestedType) || len(g.EnumType) != len(w.EnumType) {
		return "it has other nested types"
	}
	for i := range w.NestedType {
		if d := descDiff(g.NestedType[i], w.NestedType[i]); d != "" {
			return "nested, " + d
		}
	}
	for i := range w.EnumType {
		if g, w := fmt.Sprint(g.EnumType[i]), fmt.Sprint(w.EnumType[i]); g != w {
			return fmt.Sprintf("an enum is %s, want %s", g, w)
		}
	}
	for _, f := range w.Field {
		h := have[f.GetName()]
		if h == nil {
			return "it lacks field " + f.GetName()
		}
		if h.GetNumber() != f.GetNumber() || h.GetType() != f.GetType() || h.GetLabel() != f.GetLabel() || h.GetTypeName() != f.GetTypeName() || h.GetDefaultValue() != f.GetDefaultValue() {
			return fmt.Sprintf("field %s is %v, want %v", f.GetName(), h, f)
		}
	}
	return ""
}
