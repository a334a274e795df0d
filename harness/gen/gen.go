// Package gen generates schemas, values, well-formed messages and hostile bytes
// from a seeded PRNG.
package gen

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"zpverif/wire"
)

// Rng is the source of all choices.
type Rng struct {
	*rand.Rand
	// NoFar keeps messages below 64 KiB unless more is asked for.
	NoFar bool
}

// New seeds one from a seed, a name and a case number.
func New(seed int64, name string, n int) *Rng {
	x := uint64(seed)*0x9E3779B97F4A7C15 + 0x1234567
	for _, c := range name {
		x = (x ^ uint64(c)) * 0x100000001B3
	}
	x += uint64(n) * 0xD1B54A32D192ED03
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	x ^= x >> 31
	return &Rng{Rand: rand.New(rand.NewSource(int64(x)))}
}

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.Float64() < p }

// Pick returns one of the arguments.
func (r *Rng) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

// Bits is a number biased towards boundaries.
func (r *Rng) Bits() uint64 {
	switch r.Intn(8) {
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return uint64(r.Intn(256))
	case 2, 3: // next to a power of two, in particular varint size steps
		k := uint(r.Intn(65))
		var x uint64
		if k < 64 {
			x = 1 << k
		}
		return x + uint64(r.Intn(3)) - 1
	case 4:
		return -uint64(r.Intn(300))
	case 5:
		k := uint(7 * (1 + r.Intn(9)))
		return uint64(1)<<k - uint64(r.Intn(2))
	case 6:
		return r.Uint64() >> uint(r.Intn(64))
	}
	return r.Uint64()
}

// Len is a payload length, at most max.
func (r *Rng) Len(max int) int {
	n := 0
	switch r.Intn(10) {
	case 0:
		n = 0
	case 1, 2, 3, 4:
		n = r.Intn(12)
	case 5:
		n = 126 + r.Intn(4)
	case 6:
		n = r.Intn(300)
	case 7:
		n = r.Intn(40)
	case 8:
		n = 16382 + r.Intn(4)
	case 9:
		n = r.Intn(2000)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

// FillBytes makes n bytes; sometimes ones that look like protobuf.
func (r *Rng) FillBytes(n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = 0x80
		}
	case 1:
		for i := range b {
			b[i] = byte(r.Pick(0, 1, 8, 0x0a, 0x10, 0x12, 0x80, 0xff))
		}
	default:
		r.Read(b)
	}
	return b
}

// Val is a random value of a scalar kind.
func (r *Rng) Val(k wire.Kind, maxBytes int) wire.Val {
	switch k {
	case wire.String, wire.Bytes:
		return wire.Val{B: r.FillBytes(r.Len(maxBytes))}
	case wire.Float:
		switch r.Intn(6) {
		case 0:
			return wire.Val{U: uint64(math.Float32bits(float32(r.NormFloat64())))}
		case 1:
			return wire.Val{U: uint64([]uint32{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 1}[r.Intn(7)])}
		}
		return wire.Val{U: uint64(r.Uint32())}
	case wire.Double:
		switch r.Intn(6) {
		case 0:
			return wire.Val{U: math.Float64bits(r.NormFloat64())}
		case 1:
			return wire.Val{U: []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 1}[r.Intn(7)]}
		}
		return wire.Val{U: r.Uint64()}
	}
	return wire.Val{U: wire.Norm(k, r.Bits())}
}

var numPool = []int{1, 2, 3, 4, 5, 7, 8, 10, 14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 1000, 2046, 2047, 2048, 2049, 3000, 4096}

// Schema makes a random schema with up to depth levels below it.
func (r *Rng) Schema(depth int, big bool) *wire.Schema {
	s := &wire.Schema{Name: fmt.Sprintf("Rand%d", r.Intn(1000000))}
	n := 1 + r.Intn(12)
	used := map[int]bool{}
	var subs []*wire.Schema
	// Numbers whose tags take four bytes or more need large offset tables.
	huge := big && r.P(0.004)
	if depth > 0 {
		for i := r.Intn(3); i > 0; i-- {
			subs = append(subs, r.Schema(depth-1, false))
		}
	}
	if !huge {
		subs = append(subs, s) // recursion
	} else if len(subs) == 0 {
		// Many structs with tables of megabytes would take minutes.
		subs = append(subs, r.Schema(0, false))
	}
	for i := 0; i < n; i++ {
		num := numPool[r.Intn(len(numPool))]
		if r.P(0.6) {
			num = 1 + r.Intn(20)
		}
		if big && i == 0 && r.P(0.1) {
			num = r.Pick(16383, 16384, 20000, 40000)
		}
		if huge && r.P(0.4) {
			num = r.Pick(262143, 262144, 262145, 270000, 300001)
			if r.P(0.03) {
				num = 1<<21 + 5
			}
		}
		if used[num] {
			continue
		}
		used[num] = true
		f := &wire.Field{Num: num, Name: fmt.Sprintf("f%d", num), Kind: wire.Kind(r.Intn(int(wire.NumKinds)))}
		if r.P(0.15) {
			f.Kind = wire.Message
		}
		f.Repeated = r.P(0.25)
		if f.Kind == wire.Message {
			f.Repeated = r.P(0.5)
			f.Sub = subs[r.Intn(len(subs))]
		}
		s.Fields = append(s.Fields, f)
	}
	return s.Seal()
}

// WireOpts shapes generated messages.
type WireOpts struct {
	N        int     // about how many occurrences
	MaxBytes int     // payload limit for strings and bytes
	Unknown  float64 // share of unknown fields
	Pad      float64 // chance of a non-minimal varint, per varint
	Wrong    float64 // chance of a wrong wire type for a declared field
	Split    bool    // allow singular messages to occur more than once
	Depth    int     // levels of embedded messages
	BadSub   float64 // chance that an embedded message is malformed
	Canon    bool    // ordered by number, no duplicates, minimal
	Far      bool    // with something large inside, so that the rest lies beyond 64 KiB
}

// DefaultOpts draws a profile.
func (r *Rng) DefaultOpts() WireOpts {
	o := WireOpts{N: 1 + r.Intn(20), MaxBytes: 200, Depth: 1 + r.Intn(3)}
	if r.P(0.1) {
		o.N = 50 + r.Intn(100)
		o.Depth = 1
	}
	if r.P(0.3) {
		o.MaxBytes = 20000
	}
	if r.P(0.5) {
		o.Unknown = 0.3 * r.Float64()
	}
	if r.P(0.4) {
		o.Pad = 0.4 * r.Float64()
	}
	if r.P(0.2) {
		o.Canon = true
		o.Unknown, o.Pad = 0, 0
	}
	o.Far = !o.Canon && r.P(0.01) && !r.NoFar
	return o
}

// FarLen is a payload length that puts what follows next to or beyond the 64 KiB
// boundary.
func (r *Rng) FarLen() int {
	switch r.Intn(8) {
	case 0, 1, 2:
		return 65536 - r.Intn(300)
	case 3:
		return 131072 - r.Intn(200)
	}
	return 65536 + r.Intn(3000)
}

// farOcc is a large occurrence of a field without consequence for what the others
// hold: nil if there is no such field.
func (r *Rng) farOcc(s *wire.Schema, o *WireOpts) ([]byte, int) {
	var fs []*wire.Field
	for _, f := range s.Fields {
		if f.Kind == wire.Bytes || f.Kind == wire.String {
			fs = append(fs, f)
		}
	}
	num := 0
	if len(fs) > 0 && (o.Unknown == 0 || r.P(0.6)) {
		num = fs[r.Intn(len(fs))].Num
	} else if o.Unknown > 0 {
		num = r.UnknownNum(s)
	} else {
		return nil, 0
	}
	b := wire.PutTag(nil, num, wire.TBytes, r.pad(o))
	p := r.FillBytes(r.FarLen())
	b = wire.PutVarint(b, uint64(len(p)), r.pad(o))
	return append(b, p...), num
}

// FarPrefix is a well-formed message of one large occurrence, of a declared field
// if there is a fitting one, else of an unknown one.
func (r *Rng) FarPrefix(s *wire.Schema) []byte {
	b, _ := r.farOcc(s, &WireOpts{Unknown: 0.5})
	return b
}

func (r *Rng) pad(o *WireOpts) int {
	if o.Pad > 0 && r.P(o.Pad) {
		return r.Pick(1, 1, 2, 3, 9)
	}
	return 0
}

// UnknownNum is a legal field number the schema does not declare.
func (r *Rng) UnknownNum(s *wire.Schema) int {
	max := s.MaxNum()
	for {
		var n int
		switch r.Intn(7) {
		case 6:
			// the same as a declared one but for some higher bit
			if len(s.Fields) == 0 {
				continue
			}
			k := uint(r.Pick(4, 7, 8, 11, 12, 13, 15, 16, 18, 20, 24, 25, 28))
			n = s.Fields[r.Intn(len(s.Fields))].Num + (1+r.Intn(2))<<k
			if n > wire.MaxFieldNum {
				continue
			}
		case 0:
			n = 1 + r.Intn(max+1)
		case 1:
			n = max + 1
		case 2:
			n = max + 1 + r.Intn(40)
		case 3:
			n = r.Pick(15, 16, 2047, 2048, 262143, 262144, 1<<25-1, 1<<25)
		case 4:
			n = wire.MaxFieldNum - r.Intn(2)
		default:
			n = 1 + r.Intn(wire.MaxFieldNum)
		}
		if s.ByNum(n) == nil {
			return n
		}
	}
}

// RandOcc appends an occurrence of the given number and wire type with a random
// value.
func (r *Rng) RandOcc(b []byte, num, typ int, o *WireOpts) []byte {
	b = wire.PutTag(b, num, typ, r.pad(o))
	switch typ {
	case wire.TVarint:
		return wire.PutVarint(b, r.Bits(), r.pad(o))
	case wire.TFixed32:
		return append(b, r.FillBytes(4)...)
	case wire.TFixed64:
		return append(b, r.FillBytes(8)...)
	}
	p := r.FillBytes(r.Len(o.MaxBytes))
	b = wire.PutVarint(b, uint64(len(p)), r.pad(o))
	return append(b, p...)
}

// Occ appends one properly typed occurrence of a field.
func (r *Rng) Occ(b []byte, f *wire.Field, o *WireOpts) []byte {
	b = wire.PutTag(b, f.Num, f.Kind.WireType(), r.pad(o))
	if f.Kind == wire.Message {
		p := r.subBytes(f, o)
		b = wire.PutVarint(b, uint64(len(p)), r.pad(o))
		return append(b, p...)
	}
	v := r.Val(f.Kind, o.MaxBytes)
	p := r.pad(o)
	if f.Kind.WireType() == wire.TVarint && f.Kind != wire.Sint32 && r.P(0.1) {
		// a number that does not fit the declared type
		return wire.PutVarint(b, r.Bits(), p)
	}
	return wire.EncodeVal(b, f.Kind, v, p)
}

func (r *Rng) subBytes(f *wire.Field, o *WireOpts) []byte {
	if o.BadSub > 0 && r.P(o.BadSub) {
		for i := 0; i < 20; i++ {
			if p := r.Hostile(f.Sub, 40); p != nil {
				if _, c, _ := wire.Tokenize(p); c == wire.Malformed {
					return p
				}
			}
		}
	}
	if o.Depth <= 0 || r.P(0.15) {
		return nil
	}
	so := *o
	so.Depth--
	so.N = r.Intn(6)
	so.Far = o.Far && r.P(0.1)
	if so.MaxBytes > 100 {
		so.MaxBytes = 100
	}
	return r.Message(f.Sub, so)
}

// Message makes a well-formed message (apart from wrong wire types and bad
// embedded messages, if asked for).
func (r *Rng) Message(s *wire.Schema, o WireOpts) []byte {
	var occs [][]byte
	var nums []int
	seen := map[int]bool{}
	for i := 0; i < o.N; i++ {
		if (o.Unknown > 0 && r.P(o.Unknown)) || len(s.Fields) == 0 {
			if o.Unknown == 0 {
				break
			}
			n := r.UnknownNum(s)
			occs = append(occs, r.RandOcc(nil, n, r.Pick(wire.TVarint, wire.TFixed32, wire.TFixed64, wire.TBytes), &o))
			nums = append(nums, n)
			continue
		}
		f := s.Fields[r.Intn(len(s.Fields))]
		if o.Wrong > 0 && r.P(o.Wrong) {
			t := r.Pick(wire.TVarint, wire.TFixed32, wire.TFixed64, wire.TBytes)
			if t != f.Kind.WireType() {
				occs = append(occs, r.RandOcc(nil, f.Num, t, &o))
				nums = append(nums, f.Num)
				continue
			}
		}
		if seen[f.Num] && !f.Repeated && ((f.Kind == wire.Message && !o.Split) || o.Canon) {
			continue
		}
		seen[f.Num] = true
		if f.Repeated && f.Kind != wire.Message && f.Kind.WireType() != wire.TBytes && r.P(0.5) {
			// packed
			var p []byte
			for j := r.Intn(5); j > 0; j-- {
				p = wire.EncodeVal(p, f.Kind, r.Val(f.Kind, 0), 0)
			}
			b := wire.PutTag(nil, f.Num, wire.TBytes, r.pad(&o))
			b = wire.PutVarint(b, uint64(len(p)), r.pad(&o))
			occs = append(occs, append(b, p...))
		} else {
			occs = append(occs, r.Occ(nil, f, &o))
		}
		nums = append(nums, f.Num)
	}
	if o.Far {
		if b, n := r.farOcc(s, &o); b != nil {
			// in front of everything, or somewhere in between
			at := 0
			if r.P(0.3) {
				at = r.Intn(len(occs) + 1)
			}
			occs = append(occs[:at:at], append([][]byte{b}, occs[at:]...)...)
			nums = append(nums[:at:at], append([]int{n}, nums[at:]...)...)
		}
	}
	idx := make([]int, len(occs))
	for i := range idx {
		idx[i] = i
	}
	if o.Canon {
		sort.SliceStable(idx, func(a, b int) bool { return nums[idx[a]] < nums[idx[b]] })
	}
	out := []byte{}
	for _, i := range idx {
		out = append(out, occs[i]...)
	}
	return out
}

// hostileNumber is a number meant to break arithmetic on lengths.
func (r *Rng) hostileNumber(remaining int) uint64 {
	switch r.Intn(9) {
	case 0:
		return uint64(remaining) + uint64(r.Intn(3))
	case 1:
		return math.MaxInt32 - uint64(r.Intn(12))
	case 2:
		return 1<<31 + uint64(r.Intn(3))
	case 3:
		return 1<<32 - 12 + uint64(r.Intn(24))
	case 4:
		return math.MaxInt64 - uint64(r.Intn(12))
	case 5:
		return 1<<63 + uint64(r.Intn(3))
	case 6:
		return math.MaxUint64 - uint64(r.Intn(40))
	case 7:
		return 1 << 40
	}
	return r.Bits()
}

// overlong appends a varint that is ten or more bytes, overflowing or not.
func (r *Rng) overlong(b []byte) []byte {
	n := 9 + r.Intn(5)
	for i := 0; i < n; i++ {
		b = append(b, byte(r.Pick(0x80, 0xff, 0x81)))
	}
	return append(b, byte(r.Pick(0, 1, 2, 3, 0x7f)))
}

// Hostile makes bytes meant to break a decoder for the schema.
func (r *Rng) Hostile(s *wire.Schema, max int) []byte {
	switch r.Intn(5) {
	case 0: // noise
		n := r.Intn(max + 1)
		if r.P(0.5) {
			return r.FillBytes(n)
		}
		b := make([]byte, n)
		r.Read(b)
		return b
	case 1, 2: // mutated message
		o := r.DefaultOpts()
		o.MaxBytes = 60
		o.Far = false
		if o.N > 20 {
			o.N = 20
		}
		o.Wrong = r.Float64() * 0.3
		o.Split = true
		b := r.Message(s, o)
		for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
			p := r.Intn(len(b))
			switch r.Intn(7) {
			case 0:
				b = b[:p]
			case 1:
				b[p] ^= 1 << uint(r.Intn(8))
			case 2:
				b[p] = byte(r.Pick(0, 1, 0x7f, 0x80, 0xff))
			case 3:
				q := p + r.Intn(len(b)-p) + 1
				b = append(b[:p:p], b[q:]...)
			case 4:
				b = append(append(append([]byte{}, b[:p]...), r.FillBytes(1+r.Intn(4))...), b[p:]...)
			case 5:
				b = append(append(append([]byte{}, b[:p]...), wire.PutVarint(nil, r.hostileNumber(len(b)-p), 0)...), b[p:]...)
			case 6:
				b = append(b, b[p:]...)
			}
		}
		return b
	default: // hostile tokens
		var b []byte
		for k := 1 + r.Intn(6); k > 0; k-- {
			var num int
			if len(s.Fields) > 0 && r.P(0.75) {
				num = s.Fields[r.Intn(len(s.Fields))].Num
			} else {
				num = r.UnknownNum(s)
			}
			if r.P(0.03) {
				num = 0
			}
			typ := r.Pick(0, 1, 2, 2, 2, 5)
			if r.P(0.1) {
				typ = r.Intn(8)
			}
			if r.P(0.04) {
				b = r.overlong(b)
			} else {
				b = wire.PutTag(b, num, typ, r.Pick(0, 0, 0, 0, 1, 3))
			}
			switch typ {
			case wire.TVarint:
				if r.P(0.15) {
					b = r.overlong(b)
				} else {
					b = wire.PutVarint(b, r.Bits(), r.Pick(0, 0, 0, 1, 9))
				}
			case wire.TFixed32:
				b = append(b, r.FillBytes(4)...)
			case wire.TFixed64:
				b = append(b, r.FillBytes(8)...)
			case wire.TBytes:
				switch r.Intn(6) {
				case 0:
					b = wire.PutVarint(b, r.hostileNumber(r.Intn(20)), r.Pick(0, 0, 0, 1))
				case 1:
					b = r.overlong(b)
				default:
					p := r.FillBytes(r.Intn(12))
					if r.P(0.3) {
						// a nested message
						f := s.ByNum(num)
						if f != nil && f.Sub != nil && max > 8 {
							p = r.Hostile(f.Sub, max/4)
						}
					}
					b = wire.PutVarint(b, uint64(len(p)), r.Pick(0, 0, 0, 1))
					b = append(b, p...)
				}
			}
			if r.P(0.1) {
				b = append(b, r.FillBytes(r.Intn(3))...)
			}
		}
		if r.P(0.3) && len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
		return b
	}
}
