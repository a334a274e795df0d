// Package wire is the reference model the monitors judge zeropb by: schemas,
// values, an independent wire codec and recogniser, and the value every field
// of a message must have. It shares no code with zeropb and uses neither
// encoding/binary nor any protobuf library.
package wire

import (
	"fmt"
	"math"
	"sync/atomic"
)

// Kind is the declared type of a field.
type Kind int

// The kinds, in the order of golden/test.proto.
const (
	Bool Kind = iota
	Int32
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Double
	Float
	String
	Bytes
	Enum
	Message
	NumKinds
)

var kindNames = [...]string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float", "string", "bytes", "enum", "message"}

func (k Kind) String() string { return kindNames[k] }

// Wire types.
const (
	TVarint  = 0
	TFixed64 = 1
	TBytes   = 2
	TSGroup  = 3
	TEGroup  = 4
	TFixed32 = 5
)

// MaxFieldNum is the largest legal field number.
const MaxFieldNum = 1<<29 - 1

// WireType is the wire type that belongs to the kind.
func (k Kind) WireType() int {
	switch k {
	case Fixed32, Sfixed32, Float:
		return TFixed32
	case Fixed64, Sfixed64, Double:
		return TFixed64
	case String, Bytes, Message:
		return TBytes
	}
	return TVarint
}

// Field is one field of a schema.
type Field struct {
	Num      int
	Name     string
	Kind     Kind
	Repeated bool
	Sub      *Schema // for messages
	Required bool    `json:",omitempty"`
}

// Accessible is whether zeropb generates accessors for the field.
func (f *Field) Accessible() bool { return !f.Repeated || f.Kind == Message }

// Schema is a message type.
type Schema struct {
	Name   string
	Fields []*Field
	byNum  map[int]*Field
	aux    atomic.Value
}

// Aux caches something derived from the schema.
func (s *Schema) Aux(f func() interface{}) interface{} {
	if x := s.aux.Load(); x != nil {
		return x
	}
	s.aux.CompareAndSwap(nil, f())
	return s.aux.Load()
}

// ByNum finds a field by number (nil if unknown).
func (s *Schema) ByNum(n int) *Field {
	if s.byNum == nil {
		for _, f := range s.Fields {
			if f.Num == n {
				return f
			}
		}
		return nil
	}
	return s.byNum[n]
}

// Seal builds the lookup table; call it before sharing the schema.
func (s *Schema) Seal() *Schema {
	s.byNum = map[int]*Field{}
	for _, f := range s.Fields {
		s.byNum[f.Num] = f
	}
	return s
}

// MaxNum is the largest declared field number.
func (s *Schema) MaxNum() int {
	m := 0
	for _, f := range s.Fields {
		if f.Num > m {
			m = f.Num
		}
	}
	return m
}

// Val is a scalar value: numeric kinds as the bits of the Go type, strings and
// bytes as bytes.
type Val struct {
	U uint64
	B []byte
}

// Eq compares two values.
func (v Val) Eq(o Val) bool { return v.U == o.U && string(v.B) == string(o.B) }

func (v Val) String() string {
	if v.B != nil {
		if len(v.B) > 24 {
			return fmt.Sprintf("%x..(%d bytes)", v.B[:24], len(v.B))
		}
		return fmt.Sprintf("%x(%d bytes)", v.B, len(v.B))
	}
	return fmt.Sprintf("%#x", v.U)
}

// Norm truncates the numeric bits to the width of the kind's Go type (int32
// kinds are held sign-extended).
func Norm(k Kind, u uint64) uint64 {
	switch k {
	case Bool:
		if u != 0 {
			return 1
		}
		return 0
	case Int32, Sint32, Sfixed32:
		return uint64(int64(int32(uint32(u))))
	case Uint32, Enum, Fixed32, Float:
		return uint64(uint32(u))
	}
	return u
}

// PutVarint appends x in its shortest form plus pad redundant bytes (as many as
// fit in ten).
func PutVarint(b []byte, x uint64, pad int) []byte {
	n := 1
	for y := x; y >= 128; y /= 128 {
		n++
	}
	total := n + pad
	if total > 10 {
		total = 10
	}
	for i := 0; i < total; i++ {
		c := byte(x % 128)
		x /= 128
		if i < total-1 {
			c += 128
		}
		b = append(b, c)
	}
	return b
}

// VarintLen is the shortest length of x.
func VarintLen(x uint64) int {
	n := 1
	for x >= 128 {
		x /= 128
		n++
	}
	return n
}

// GetVarint reads a varint: its value and length; n==0 means cut short, n<0
// means it does not fit 64 bits.
func GetVarint(b []byte) (x uint64, n int) {
	for i := 0; i < len(b); i++ {
		c := uint64(b[i] & 0x7f)
		if i == 9 && b[i] > 1 {
			return 0, -1
		}
		x += c << (7 * uint(i))
		if b[i] < 128 {
			return x, i + 1
		}
	}
	return 0, 0
}

// RawVarint is the unsigned number a varint kind is encoded as.
func RawVarint(k Kind, u uint64) uint64 {
	switch k {
	case Sint32:
		v := int64(int32(uint32(u)))
		if v < 0 {
			return uint64(-(v+1))*2 + 1
		}
		return uint64(v) * 2
	case Sint64:
		v := int64(u)
		if v < 0 {
			return uint64(-(v+1))*2 + 1
		}
		return uint64(v) * 2
	}
	return u
}

// FromRawVarint is the inverse, for any 64-bit number.
func FromRawVarint(k Kind, raw uint64) uint64 {
	switch k {
	case Sint32, Sint64:
		h := raw / 2
		if raw%2 == 1 {
			h = math.MaxUint64 - h
		}
		return Norm(k, h)
	}
	return Norm(k, raw)
}

// EncodeVal appends the value (without tag) in its standard form. lenPad and
// varPad add redundant varint bytes.
func EncodeVal(b []byte, k Kind, v Val, pad int) []byte {
	switch k.WireType() {
	case TVarint:
		return PutVarint(b, RawVarint(k, v.U), pad)
	case TFixed32:
		u := v.U
		return append(b, byte(u), byte(u>>8), byte(u>>16), byte(u>>24))
	case TFixed64:
		u := v.U
		return append(b, byte(u), byte(u>>8), byte(u>>16), byte(u>>24), byte(u>>32), byte(u>>40), byte(u>>48), byte(u>>56))
	default:
		b = PutVarint(b, uint64(len(v.B)), pad)
		return append(b, v.B...)
	}
}

// PutTag appends a tag.
func PutTag(b []byte, num, typ, pad int) []byte {
	return PutVarint(b, uint64(num)*8+uint64(typ), pad)
}

// Tok is one field occurrence.
type Tok struct {
	Num   uint64
	Typ   int
	Start int // of the tag
	Val   int // of the value (after the tag)
	Data  int // of the payload (after the length, for TBytes)
	End   int
}

// Raw is the value's bytes, length prefix included.
func (t *Tok) Raw(buf []byte) []byte { return buf[t.Val:t.End] }

// Payload is the value's bytes without length prefix.
func (t *Tok) Payload(buf []byte) []byte { return buf[t.Data:t.End] }

// Class is the verdict of the recogniser.
type Class int

// Verdicts. Either means the specification leaves it open (field number zero or
// beyond the legal range).
const (
	WellFormed Class = iota
	Malformed
	Either
)

func (c Class) String() string { return [...]string{"well-formed", "malformed", "either"}[c] }

// Tokenize splits buf into field occurrences; reason explains Malformed.
func Tokenize(buf []byte) (toks []Tok, class Class, reason string) {
	class = WellFormed
	for i := 0; i < len(buf); {
		var t Tok
		t.Start = i
		x, n := GetVarint(buf[i:])
		if n == 0 {
			return toks, Malformed, "tag-short"
		} else if n < 0 {
			return toks, Malformed, "tag-overflow"
		}
		i += n
		t.Num, t.Typ, t.Val = x/8, int(x%8), i
		t.Data = i
		if t.Num == 0 || t.Num > MaxFieldNum {
			class = Either
		}
		switch t.Typ {
		case TVarint:
			_, n := GetVarint(buf[i:])
			if n == 0 {
				return toks, Malformed, "varint-short"
			} else if n < 0 {
				return toks, Malformed, "varint-overflow"
			}
			t.End = i + n
		case TFixed32:
			if len(buf)-i < 4 {
				return toks, Malformed, "fixed32-short"
			}
			t.End = i + 4
		case TFixed64:
			if len(buf)-i < 8 {
				return toks, Malformed, "fixed64-short"
			}
			t.End = i + 8
		case TBytes:
			l, n := GetVarint(buf[i:])
			if n == 0 {
				return toks, Malformed, "length-short"
			} else if n < 0 {
				return toks, Malformed, "length-overflow"
			}
			i += n
			if l > uint64(len(buf)-i) {
				return toks, Malformed, "payload-short"
			}
			t.Data = i
			t.End = i + int(l)
		default:
			return toks, Malformed, "wiretype"
		}
		i = t.End
		toks = append(toks, t)
	}
	return toks, class, ""
}

// FieldModel is what a monitor expects of one field.
type FieldModel struct {
	Count   int      // properly typed occurrences
	Wrong   int      // occurrences with another wire type
	LastOK  bool     // the last occurrence is properly typed
	Val     Val      // of the last properly typed occurrence (scalars)
	Sub     []byte   // last properly typed occurrence (singular messages)
	AllSubs [][]byte // all occurrences (messages)
}

// Model is the expected contents of a message.
type Model struct {
	Schema *Schema
	F      map[int]*FieldModel
}

// NewModel is an empty message.
func NewModel(s *Schema) *Model { return &Model{Schema: s, F: map[int]*FieldModel{}} }

// Field returns (creating it) the state of a field.
func (m *Model) Field(n int) *FieldModel {
	f := m.F[n]
	if f == nil {
		f = &FieldModel{LastOK: true}
		m.F[n] = f
	}
	return f
}

// DecodeVal decodes a token's value as a kind it properly belongs to.
func DecodeVal(k Kind, buf []byte, t *Tok) Val {
	switch t.Typ {
	case TVarint:
		raw, _ := GetVarint(buf[t.Val:t.End])
		return Val{U: FromRawVarint(k, raw)}
	case TFixed32, TFixed64:
		var u uint64
		for i := t.End - 1; i >= t.Val; i-- {
			u = u*256 + uint64(buf[i])
		}
		return Val{U: Norm(k, u)}
	}
	return Val{B: append([]byte{}, buf[t.Data:t.End]...)}
}

// Parse computes the expected contents of a well-formed message.
func Parse(s *Schema, buf []byte) (*Model, []Tok, Class) {
	toks, class, _ := Tokenize(buf)
	m := NewModel(s)
	if class == Malformed {
		return m, toks, class
	}
	for i := range toks {
		t := &toks[i]
		if t.Num > MaxFieldNum {
			continue
		}
		f := s.ByNum(int(t.Num))
		if f == nil || !f.Accessible() {
			continue
		}
		fm := m.Field(f.Num)
		if t.Typ != f.Kind.WireType() {
			fm.Wrong++
			fm.LastOK = false
			continue
		}
		fm.LastOK = true
		fm.Count++
		if f.Kind == Message {
			b := append([]byte{}, t.Payload(buf)...)
			fm.Sub = b
			fm.AllSubs = append(fm.AllSubs, b)
		} else {
			fm.Val = DecodeVal(f.Kind, buf, t)
		}
	}
	return m, toks, class
}
