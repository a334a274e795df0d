// Package adapt drives zeropb messages through one interface: generated structs
// by reflection, and the runtime functions directly for arbitrary schemas.
package adapt

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode"
	"unsafe"

	"github.com/danhhz/zeropb"

	"zpverif/wire"
)

// Iter is a repeated field iterator.
type Iter interface {
	Next(dst Msg) (bool, error)
}

// Msg is a message under test.
type Msg interface {
	Schema() *wire.Schema
	Fresh() Msg                 // a new zero struct of the same type
	FreshFor(f *wire.Field) Msg // a new zero struct for an embedded field
	Decode(b []byte) error
	Encode() []byte
	Reset(b []byte)
	Get(f *wire.Field) wire.Val // copies
	RawBytes(f *wire.Field) []byte
	RawString(f *wire.Field) string
	Set(f *wire.Field, v wire.Val) // bytes are passed as they are
	SetString(f *wire.Field, s string)
	Sub(f *wire.Field, dst Msg) (bool, error)
	SetSub(f *wire.Field, x Msg)
	Iter(f *wire.Field) Iter
	Append(f *wire.Field, x Msg)
}

// ---------------------------------------------------------------- dynamic

type dyn struct {
	s    *wire.Schema
	rep  zeropb.RepeatedFields
	buf  []byte
	offs struct {
		a []uint16
		m map[int]uint64
	}
}

// NewDyn is a message of an arbitrary schema on top of the runtime functions,
// the way generated code uses them.
func NewDyn(s *wire.Schema) Msg {
	d := newDyn(s)
	d.offs.a = make([]uint16, s.MaxNum()+1)
	return d
}

func newDyn(s *wire.Schema) *dyn {
	d := &dyn{s: s}
	d.rep = s.Aux(func() interface{} {
		rep := zeropb.RepeatedFields{}
		for _, f := range s.Fields {
			if f.Repeated {
				rep[f.Num] = struct{}{}
			}
		}
		return rep
	}).(zeropb.RepeatedFields)
	return d
}

// NewDynTable is NewDyn with the given memory, all zero, as the offset table.
func NewDynTable(s *wire.Schema, mem []byte) Msg {
	d := newDyn(s)
	d.offs.a = unsafe.Slice((*uint16)(unsafe.Pointer(&mem[0])), len(mem)/2)
	return d
}

func (d *dyn) o() zeropb.Offsets    { return zeropb.WrapOffsets(d.offs.a, &d.offs.m) }
func (d *dyn) Schema() *wire.Schema { return d.s }
func (d *dyn) Fresh() Msg           { return NewDyn(d.s) }
func (d *dyn) FreshFor(f *wire.Field) Msg {
	return NewDyn(f.Sub)
}
func (d *dyn) Decode(b []byte) error {
	d.buf = b
	return zeropb.Decode(d.buf, d.o(), d.rep)
}
func (d *dyn) Encode() []byte { return d.buf }
func (d *dyn) Reset(b []byte) {
	if len(b) > 0 {
		panic("buf must be empty")
	}
	d.buf = b
	d.o().Clear()
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (d *dyn) Get(f *wire.Field) wire.Val {
	n := f.Num
	var u uint64
	switch f.Kind {
	case wire.Bool:
		u = b2u(zeropb.GetBool(d.buf, d.o(), n))
	case wire.Int32:
		u = uint64(int64(zeropb.GetInt32(d.buf, d.o(), n)))
	case wire.Int64:
		u = uint64(zeropb.GetInt64(d.buf, d.o(), n))
	case wire.Uint32, wire.Enum:
		u = uint64(zeropb.GetUint32(d.buf, d.o(), n))
	case wire.Uint64:
		u = zeropb.GetUint64(d.buf, d.o(), n)
	case wire.Sint32:
		u = uint64(int64(zeropb.GetZigZagInt32(d.buf, d.o(), n)))
	case wire.Sint64:
		u = uint64(zeropb.GetZigZagInt64(d.buf, d.o(), n))
	case wire.Fixed32:
		u = uint64(zeropb.GetFixedUint32(d.buf, d.o(), n))
	case wire.Fixed64:
		u = zeropb.GetFixedUint64(d.buf, d.o(), n)
	case wire.Sfixed32:
		u = uint64(int64(zeropb.GetFixedInt32(d.buf, d.o(), n)))
	case wire.Sfixed64:
		u = uint64(zeropb.GetFixedInt64(d.buf, d.o(), n))
	case wire.Double:
		u = math.Float64bits(zeropb.GetFloat64(d.buf, d.o(), n))
	case wire.Float:
		u = uint64(math.Float32bits(zeropb.GetFloat32(d.buf, d.o(), n)))
	case wire.String:
		return wire.Val{B: []byte(zeropb.GetString(d.buf, d.o(), n))}
	case wire.Bytes:
		return wire.Val{B: append([]byte{}, zeropb.GetBytes(d.buf, d.o(), n)...)}
	default:
		panic("harness: Get of a message field")
	}
	return wire.Val{U: u}
}

func (d *dyn) RawBytes(f *wire.Field) []byte     { return zeropb.GetBytes(d.buf, d.o(), f.Num) }
func (d *dyn) RawString(f *wire.Field) string    { return zeropb.GetString(d.buf, d.o(), f.Num) }
func (d *dyn) SetString(f *wire.Field, s string) { zeropb.SetString(&d.buf, d.o(), f.Num, s) }

func (d *dyn) Set(f *wire.Field, v wire.Val) {
	n, u := f.Num, v.U
	switch f.Kind {
	case wire.Bool:
		zeropb.SetBool(&d.buf, d.o(), n, u != 0)
	case wire.Int32:
		zeropb.SetInt32(&d.buf, d.o(), n, int32(u))
	case wire.Int64:
		zeropb.SetInt64(&d.buf, d.o(), n, int64(u))
	case wire.Uint32, wire.Enum:
		zeropb.SetUint32(&d.buf, d.o(), n, uint32(u))
	case wire.Uint64:
		zeropb.SetUint64(&d.buf, d.o(), n, u)
	case wire.Sint32:
		zeropb.SetZigZagInt32(&d.buf, d.o(), n, int32(u))
	case wire.Sint64:
		zeropb.SetZigZagInt64(&d.buf, d.o(), n, int64(u))
	case wire.Fixed32:
		zeropb.SetFixedUint32(&d.buf, d.o(), n, uint32(u))
	case wire.Fixed64:
		zeropb.SetFixedUint64(&d.buf, d.o(), n, u)
	case wire.Sfixed32:
		zeropb.SetFixedInt32(&d.buf, d.o(), n, int32(u))
	case wire.Sfixed64:
		zeropb.SetFixedInt64(&d.buf, d.o(), n, int64(u))
	case wire.Double:
		zeropb.SetFloat64(&d.buf, d.o(), n, math.Float64frombits(u))
	case wire.Float:
		zeropb.SetFloat32(&d.buf, d.o(), n, math.Float32frombits(uint32(u)))
	case wire.String:
		zeropb.SetString(&d.buf, d.o(), n, string(v.B))
	case wire.Bytes:
		zeropb.SetBytes(&d.buf, d.o(), n, v.B)
	default:
		panic("harness: Set of a message field")
	}
}

func (d *dyn) Sub(f *wire.Field, dst Msg) (bool, error) {
	buf := zeropb.GetBytes(d.buf, d.o(), f.Num)
	if buf == nil {
		return false, nil
	}
	return true, dst.Decode(buf)
}
func (d *dyn) SetSub(f *wire.Field, x Msg) { zeropb.SetBytes(&d.buf, d.o(), f.Num, x.Encode()) }
func (d *dyn) Append(f *wire.Field, x Msg) { zeropb.AppendBytes(&d.buf, d.o(), f.Num, x.Encode()) }

type dynIter struct {
	rest []byte
	num  int
}

func (d *dyn) Iter(f *wire.Field) Iter {
	return &dynIter{zeropb.GetRepeatedNonPacked(d.buf, d.o(), f.Num), f.Num}
}
func (it *dynIter) Next(dst Msg) (bool, error) {
	var buf []byte
	it.rest, buf = zeropb.FindNextField(it.rest, it.num)
	if buf == nil {
		return false, nil
	}
	return true, dst.Decode(buf)
}

// ---------------------------------------------------------------- generated

// TypeInfo is a generated struct type bound to its schema.
type TypeInfo struct {
	T      reflect.Type // struct type
	S      *wire.Schema
	fields map[int]*fieldInfo
}

type fieldInfo struct {
	name       string
	get, set   int // method indices of *T
	next       reflect.Type
	sub        *TypeInfo
	iter, appn int
}

// GoCase is the accessor name a field must get.
func GoCase(s string) string {
	var b strings.Builder
	up := true
	for _, r := range s {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			up = true
			continue
		}
		if up {
			r = unicode.ToUpper(r)
			up = false
		}
		b.WriteRune(r)
	}
	return b.String()
}

// GoType is the Go type of a scalar kind.
func GoType(k wire.Kind) reflect.Type {
	switch k {
	case wire.Bool:
		return reflect.TypeOf(false)
	case wire.Int32, wire.Sint32, wire.Sfixed32:
		return reflect.TypeOf(int32(0))
	case wire.Int64, wire.Sint64, wire.Sfixed64:
		return reflect.TypeOf(int64(0))
	case wire.Uint32, wire.Enum, wire.Fixed32:
		return reflect.TypeOf(uint32(0))
	case wire.Uint64, wire.Fixed64:
		return reflect.TypeOf(uint64(0))
	case wire.Double:
		return reflect.TypeOf(float64(0))
	case wire.Float:
		return reflect.TypeOf(float32(0))
	case wire.String:
		return reflect.TypeOf("")
	}
	return reflect.TypeOf([]byte(nil))
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func sigIs(t reflect.Type, in []reflect.Type, out []reflect.Type) bool {
	// t is a method expression type: the receiver comes first.
	if t.NumIn() != len(in)+1 || t.NumOut() != len(out) {
		return false
	}
	for i := range in {
		if in[i] != nil && t.In(i+1) != in[i] {
			return false
		}
	}
	for i := range out {
		if out[i] != nil && t.Out(i) != out[i] {
			return false
		}
	}
	return true
}

// BindAll binds generated struct types (values of the structs, by message name)
// to their schemas and reports accessors that are missing or have the wrong
// type. Where names clash, the generator may append underscores.
func BindAll(types map[string]reflect.Type, schemas map[string]*wire.Schema) (map[string]*TypeInfo, error) {
	infos := map[string]*TypeInfo{}
	for name, s := range schemas {
		t := types[name]
		if t == nil {
			return nil, fmt.Errorf("no generated type for message %s", name)
		}
		infos[name] = &TypeInfo{T: t, S: s, fields: map[int]*fieldInfo{}}
	}
	boolT := reflect.TypeOf(false)
	for name, ti := range infos {
		pt := reflect.PtrTo(ti.T)
		used := map[string]bool{"Encode": true, "Decode": true, "Reset": true}
		find := func(base string, ok func(reflect.Method) bool) (int, string) {
			for k := 0; k < 60; k++ {
				n := base + strings.Repeat("_", k)
				if used[n] {
					continue
				}
				if m, found := pt.MethodByName(n); found && ok(m) {
					used[n] = true
					return m.Index, n
				}
			}
			return -1, ""
		}
		for _, f := range ti.S.Fields {
			if !f.Accessible() {
				continue
			}
			fi := &fieldInfo{get: -1, set: -1, iter: -1, appn: -1}
			ti.fields[f.Num] = fi
			base := GoCase(f.Name)
			if base == "" || unicode.IsDigit([]rune(base)[0]) {
				base = "X" + base
			}
			var subT reflect.Type
			if f.Kind == wire.Message {
				fi.sub = infos[f.Sub.Name]
				if fi.sub == nil {
					return nil, fmt.Errorf("harness: no schema for %s", f.Sub.Name)
				}
				subT = fi.sub.T
			}
			var n string
			switch {
			case f.Repeated:
				fi.iter, n = find(base, func(m reflect.Method) bool {
					if !sigIs(m.Type, nil, []reflect.Type{nil}) {
						return false
					}
					it := reflect.PtrTo(m.Type.Out(0))
					nm, ok := it.MethodByName("Next")
					return ok && sigIs(nm.Type, []reflect.Type{reflect.PtrTo(subT)}, []reflect.Type{boolT, errType})
				})
				if fi.iter < 0 {
					return nil, fmt.Errorf("%s.%s: no iterator accessor %s() with Next(*%s) (bool, error)", name, f.Name, base, f.Sub.Name)
				}
				fi.next = pt.Method(fi.iter).Type.Out(0)
				fi.appn, _ = find("AppendTo"+n, func(m reflect.Method) bool { return sigIs(m.Type, []reflect.Type{subT}, nil) })
				if fi.appn < 0 {
					return nil, fmt.Errorf("%s.%s: no append accessor AppendTo%s(%s)", name, f.Name, n, f.Sub.Name)
				}
			case f.Kind == wire.Message:
				fi.get, n = find(base, func(m reflect.Method) bool {
					return sigIs(m.Type, []reflect.Type{reflect.PtrTo(subT)}, []reflect.Type{boolT, errType})
				})
				if fi.get < 0 {
					return nil, fmt.Errorf("%s.%s: no accessor %s(*%s) (bool, error)", name, f.Name, base, f.Sub.Name)
				}
				fi.set, _ = find("Set"+n, func(m reflect.Method) bool { return sigIs(m.Type, []reflect.Type{subT}, nil) })
				if fi.set < 0 {
					return nil, fmt.Errorf("%s.%s: no setter Set%s(%s)", name, f.Name, n, f.Sub.Name)
				}
			default:
				gt := GoType(f.Kind)
				fi.get, n = find(base, func(m reflect.Method) bool { return sigIs(m.Type, nil, []reflect.Type{gt}) })
				if fi.get < 0 {
					return nil, fmt.Errorf("%s.%s: no accessor %s() %s", name, f.Name, base, gt)
				}
				fi.set, _ = find("Set"+n, func(m reflect.Method) bool { return sigIs(m.Type, []reflect.Type{gt}, nil) })
				if fi.set < 0 {
					return nil, fmt.Errorf("%s.%s: no setter Set%s(%s)", name, f.Name, n, gt)
				}
			}
			fi.name = n
		}
	}
	return infos, nil
}

type coder interface {
	Decode([]byte) error
	Encode() []byte
	Reset([]byte)
}

type refl struct {
	ti *TypeInfo
	v  reflect.Value // pointer
	c  coder
}

// New makes a fresh zero struct.
func (ti *TypeInfo) New() Msg {
	v := reflect.New(ti.T)
	return &refl{ti: ti, v: v, c: v.Interface().(coder)}
}

// Struct is the pointer to the generated struct m wraps, if it does.
func Struct(m Msg) interface{} {
	if r, ok := m.(*refl); ok {
		return r.c
	}
	return nil
}

func (r *refl) Schema() *wire.Schema { return r.ti.S }
func (r *refl) Fresh() Msg           { return r.ti.New() }
func (r *refl) FreshFor(f *wire.Field) Msg {
	return r.ti.fields[f.Num].sub.New()
}
func (r *refl) Decode(b []byte) error { return r.c.Decode(b) }
func (r *refl) Encode() []byte        { return r.c.Encode() }
func (r *refl) Reset(b []byte)        { r.c.Reset(b) }

func (r *refl) Get(f *wire.Field) wire.Val {
	out := r.v.Method(r.ti.fields[f.Num].get).Call(nil)[0].Interface()
	switch x := out.(type) {
	case bool:
		return wire.Val{U: b2u(x)}
	case int32:
		return wire.Val{U: uint64(int64(x))}
	case int64:
		return wire.Val{U: uint64(x)}
	case uint32:
		return wire.Val{U: uint64(x)}
	case uint64:
		return wire.Val{U: x}
	case float64:
		return wire.Val{U: math.Float64bits(x)}
	case float32:
		return wire.Val{U: uint64(math.Float32bits(x))}
	case string:
		return wire.Val{B: []byte(x)}
	case []byte:
		return wire.Val{B: append([]byte{}, x...)}
	}
	panic("harness: unexpected accessor type")
}

func (r *refl) RawBytes(f *wire.Field) []byte {
	return r.v.Method(r.ti.fields[f.Num].get).Call(nil)[0].Interface().([]byte)
}
func (r *refl) RawString(f *wire.Field) string {
	return r.v.Method(r.ti.fields[f.Num].get).Call(nil)[0].Interface().(string)
}
func (r *refl) SetString(f *wire.Field, s string) {
	r.v.Method(r.ti.fields[f.Num].set).Call([]reflect.Value{reflect.ValueOf(s)})
}

func (r *refl) Set(f *wire.Field, v wire.Val) {
	var x interface{}
	switch f.Kind {
	case wire.Bool:
		x = v.U != 0
	case wire.Int32, wire.Sint32, wire.Sfixed32:
		x = int32(v.U)
	case wire.Int64, wire.Sint64, wire.Sfixed64:
		x = int64(v.U)
	case wire.Uint32, wire.Enum, wire.Fixed32:
		x = uint32(v.U)
	case wire.Uint64, wire.Fixed64:
		x = v.U
	case wire.Double:
		x = math.Float64frombits(v.U)
	case wire.Float:
		x = math.Float32frombits(uint32(v.U))
	case wire.String:
		x = string(v.B)
	case wire.Bytes:
		x = v.B
	default:
		panic("harness: Set of a message field")
	}
	r.v.Method(r.ti.fields[f.Num].set).Call([]reflect.Value{reflect.ValueOf(x)})
}

func (r *refl) Sub(f *wire.Field, dst Msg) (bool, error) {
	out := r.v.Method(r.ti.fields[f.Num].get).Call([]reflect.Value{dst.(*refl).v})
	err, _ := out[1].Interface().(error)
	return out[0].Bool(), err
}
func (r *refl) SetSub(f *wire.Field, x Msg) {
	r.v.Method(r.ti.fields[f.Num].set).Call([]reflect.Value{x.(*refl).v.Elem()})
}
func (r *refl) Append(f *wire.Field, x Msg) {
	r.v.Method(r.ti.fields[f.Num].appn).Call([]reflect.Value{x.(*refl).v.Elem()})
}

type reflIter struct{ v reflect.Value }

func (r *refl) Iter(f *wire.Field) Iter {
	fi := r.ti.fields[f.Num]
	p := reflect.New(fi.next)
	p.Elem().Set(r.v.Method(fi.iter).Call(nil)[0])
	return &reflIter{p.MethodByName("Next")}
}
func (it *reflIter) Next(dst Msg) (bool, error) {
	out := it.v.Call([]reflect.Value{dst.(*refl).v})
	err, _ := out[1].Interface().(error)
	return out[0].Bool(), err
}

// ---------------------------------------------------------------- comparing

// CompareOpts tunes Compare.
type CompareOpts struct {
	// Target supplies the struct an embedded message is decoded into (nil: a
	// fresh one).
	Target func(m Msg, f *wire.Field) Msg
	// Skip leaves out a field number at the top level.
	Skip int
	// Events counts what was compared.
	Events func(kind string)
	// Shallow does not descend into embedded messages beyond comparing their
	// bytes.
	MaxDepth int
}

func (o *CompareOpts) ev(s string) {
	if o.Events != nil {
		o.Events(s)
	}
}

// Compare checks every accessor of m against the model; "" means they agree.
func Compare(m Msg, model *wire.Model, o *CompareOpts) string {
	return compare(m, model, o, 0)
}

func compare(m Msg, model *wire.Model, o *CompareOpts, depth int) string {
	for _, f := range m.Schema().Fields {
		if !f.Accessible() || (depth == 0 && f.Num == o.Skip) {
			continue
		}
		fm := model.F[f.Num]
		if fm == nil {
			fm = &wire.FieldModel{LastOK: true}
		}
		if d := compareField(m, f, fm, o, depth); d != "" {
			return fmt.Sprintf("%s.%s(#%d %s): %s", m.Schema().Name, f.Name, f.Num, f.Kind, d)
		}
	}
	return ""
}

func zeroVal(f *wire.Field, v wire.Val) bool { return v.U == 0 && len(v.B) == 0 }

// CompareField checks one field.
func CompareField(m Msg, f *wire.Field, fm *wire.FieldModel, o *CompareOpts) string {
	if fm == nil {
		fm = &wire.FieldModel{LastOK: true}
	}
	return compareField(m, f, fm, o, 0)
}

func compareField(m Msg, f *wire.Field, fm *wire.FieldModel, o *CompareOpts, depth int) string {
	target := func() Msg {
		if o.Target != nil {
			return o.Target(m, f)
		}
		return m.FreshFor(f)
	}
	switch {
	case f.Repeated:
		it := m.Iter(f)
		for i := 0; ; i++ {
			dst := target()
			ok, err := it.Next(dst)
			if !ok {
				if err != nil {
					return fmt.Sprintf("iterator returned an error without an element: %v", err)
				}
				if i != len(fm.AllSubs) {
					return fmt.Sprintf("iterator ended after %d elements, want %d", i, len(fm.AllSubs))
				}
				break
			}
			if i >= len(fm.AllSubs) {
				return fmt.Sprintf("iterator yielded element %d, want only %d", i+1, len(fm.AllSubs))
			}
			if d := compareSub(dst, f.Sub, fm.AllSubs[i], err, o, depth); d != "" {
				return fmt.Sprintf("element %d: %s", i, d)
			}
			o.ev("cmp.element")
		}
		dst := target()
		if ok, err := it.Next(dst); ok || err != nil {
			return fmt.Sprintf("iterator past its end returned (%v, %v)", ok, err)
		}
	case f.Kind == wire.Message:
		dst := target()
		ok, err := m.Sub(f, dst)
		if !ok && err != nil {
			return fmt.Sprintf("absent with an error: %v", err)
		}
		if fm.Count == 0 {
			if ok {
				return "present, want absent"
			}
			o.ev("cmp.sub.absent")
			return ""
		}
		if !ok {
			if !fm.LastOK {
				return ""
			}
			return "absent, want present"
		}
		d := compareSub(dst, f.Sub, fm.Sub, err, o, depth)
		if d != "" && fm.Count > 1 {
			var merged []byte
			for _, b := range fm.AllSubs {
				merged = append(merged, b...)
			}
			if compareSub(dst, f.Sub, merged, err, o, depth) == "" {
				d = ""
			}
		}
		if d != "" {
			return d
		}
		o.ev("cmp.sub.present")
	default:
		got := m.Get(f)
		if fm.Count > 0 && got.Eq(fm.Val) {
			o.ev("cmp.scalar")
			return ""
		}
		if (fm.Count == 0 || !fm.LastOK) && zeroVal(f, got) {
			o.ev("cmp.unset")
			return ""
		}
		want := fm.Val
		if fm.Count == 0 {
			want = wire.Val{}
		}
		return fmt.Sprintf("reads %v, want %v (occurrences: %d, mistyped: %d)", got, want, fm.Count, fm.Wrong)
	}
	return ""
}

func compareSub(dst Msg, s *wire.Schema, want []byte, err error, o *CompareOpts, depth int) string {
	sub, _, class := wire.Parse(s, want)
	switch class {
	case wire.Malformed:
		if err == nil {
			return fmt.Sprintf("malformed embedded message %x accepted", clip(want))
		}
		o.ev("cmp.sub.error")
		return ""
	case wire.Either:
		if err != nil {
			return ""
		}
	default:
		if err != nil {
			return fmt.Sprintf("embedded message %x refused: %v", clip(want), err)
		}
	}
	if o.MaxDepth > 0 && depth >= o.MaxDepth {
		return ""
	}
	return compare(dst, sub, o, depth+1)
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}
