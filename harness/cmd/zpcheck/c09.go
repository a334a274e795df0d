package main

import (
	"fmt"
	"math"
	"testing"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"

	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

var c09 = &engine.Check{
	ID:       "C09",
	Rule:     "each case draws a message below 64 KiB or a series of setter and append values, sometimes with a buffer of exactly the largest size the message reaches, and counts heap allocations (runtime counters, one fresh struct per run) while decoding, calling all accessors, iterating, descending, encoding, resetting, setting and appending through direct calls of generated code and of the runtime functions; a positive count is measured again before it is believed; non-trivial: at least one operation besides decode measured",
	Quick:    40000,
	Thorough: 360000,
	Serial:   true,
	Setup:    setupGolden,
	Variants: []engine.Variant{engine.Plain},
	Need:     []string{"many-fields.decode", "alloc.decode+read", "alloc.build", "alloc.decode+edit", "subject.TestMessage", "subject.raft", "subject.runtime", "near-limit.decode", "near-limit.build", "exact-room"},
	Assumptions: []string{
		"measured for the compiler in this sandbox with its default optimisations; decoding is measured on well-formed input (an error value may be allocated)",
		"the caller passes destination structs that do not themselves escape because of the caller",
	},
	Run: runC09,
}

var sink uint64

const c09runs = 8

type c09op struct {
	k wire.Kind
	n int
	u uint64
	s string
	b []byte
}

// subject is a kind of message driven through direct calls.
type subject interface {
	prepare(n int, buf int)         // n+some fresh structs, each with a buffer of that capacity
	decode(i int, raw []byte) error // raw is copied into the buffer of struct i
	reset(i int)
	read(i int)
	apply(i int, o *c09op)
	size(i int) int
}

// ---- TestMessage

type tmSubject struct {
	ms   []testzeropb.TestMessage
	bufs [][]byte
	sub  testzeropb.TestMessage
	dst  testzeropb.TestMessage
	dst2 testzeropb.TestMessage
}

func (x *tmSubject) prepare(n, buf int) {
	x.ms = make([]testzeropb.TestMessage, n)
	x.bufs = make([][]byte, n)
	for i := range x.bufs {
		x.bufs[i] = make([]byte, 0, buf)
	}
	x.dst, x.dst2 = testzeropb.TestMessage{}, testzeropb.TestMessage{}
}
func (x *tmSubject) decode(i int, raw []byte) error {
	return x.ms[i].Decode(append(x.bufs[i][:0], raw...))
}
func (x *tmSubject) reset(i int)    { x.ms[i].Reset(x.bufs[i][:0]) }
func (x *tmSubject) size(i int) int { return len(x.ms[i].Encode()) }

func readTM(m *testzeropb.TestMessage) {
	if m.Bool() {
		sink++
	}
	sink += uint64(m.Int32()) + uint64(m.Int64()) + uint64(m.Uint32()) + m.Uint64() + uint64(m.Sint32()) + uint64(m.Sint64())
	sink += uint64(m.Fixed32()) + m.Fixed64() + uint64(m.Sfixed32()) + uint64(m.Sfixed64())
	sink += math.Float64bits(m.Double()) + uint64(math.Float32bits(m.Float()))
	sink += uint64(len(m.String())) + uint64(len(m.ByteArray())) + uint64(m.Enum())
	sink += uint64(len(m.Encode()))
}

func (x *tmSubject) read(i int) {
	m := &x.ms[i]
	readTM(m)
	if ok, err := m.Message(&x.dst); ok && err == nil {
		readTM(&x.dst)
		if ok, err := x.dst.Message(&x.dst2); ok && err == nil {
			readTM(&x.dst2)
		}
	}
	it := m.Messages()
	for {
		ok, err := it.Next(&x.dst)
		if !ok {
			break
		}
		if err != nil {
			continue
		}
		readTM(&x.dst)
	}
	var local testzeropb.TestMessage // as callers mostly do
	it = m.Messages()
	for {
		ok, err := it.Next(&local)
		if !ok || err != nil {
			break
		}
		sink += uint64(local.Int32())
	}
	if ok, _ := m.Message(&local); ok {
		sink += uint64(local.Uint32())
	}
}

func (x *tmSubject) apply(i int, o *c09op) {
	m := &x.ms[i]
	switch o.n {
	case 1:
		m.SetBool(o.u != 0)
	case 2:
		m.SetInt32(int32(o.u))
	case 3:
		m.SetInt64(int64(o.u))
	case 4:
		m.SetUint32(uint32(o.u))
	case 5:
		m.SetUint64(o.u)
	case 6:
		m.SetSint32(int32(o.u))
	case 7:
		m.SetSint64(int64(o.u))
	case 8:
		m.SetFixed32(uint32(o.u))
	case 9:
		m.SetFixed64(o.u)
	case 10:
		m.SetSfixed32(int32(o.u))
	case 11:
		m.SetSfixed64(int64(o.u))
	case 12:
		m.SetDouble(math.Float64frombits(o.u))
	case 13:
		m.SetFloat(math.Float32frombits(uint32(o.u)))
	case 14:
		m.SetString(o.s)
	case 15:
		m.SetByteArray(o.b)
	case 16:
		m.SetEnum(uint32(o.u))
	case 17:
		m.SetMessage(x.sub)
	case 34:
		m.AppendToMessages(x.sub)
	}
}

// ---- raft.Message with Entry, Snapshot

type raftSubject struct {
	ms    []raftzeropb.Message
	bufs  [][]byte
	sub   raftzeropb.Entry
	snap  raftzeropb.Snapshot
	dst   raftzeropb.Entry
	dstS  raftzeropb.Snapshot
	dstM  raftzeropb.SnapshotMetadata
	dstCS raftzeropb.ConfState
}

func (x *raftSubject) prepare(n, buf int) {
	x.ms = make([]raftzeropb.Message, n)
	x.bufs = make([][]byte, n)
	for i := range x.bufs {
		x.bufs[i] = make([]byte, 0, buf)
	}
}
func (x *raftSubject) decode(i int, raw []byte) error {
	return x.ms[i].Decode(append(x.bufs[i][:0], raw...))
}
func (x *raftSubject) reset(i int)    { x.ms[i].Reset(x.bufs[i][:0]) }
func (x *raftSubject) size(i int) int { return len(x.ms[i].Encode()) }
func (x *raftSubject) read(i int) {
	m := &x.ms[i]
	sink += uint64(m.Type()) + m.To() + m.From() + m.Term() + m.LogTerm() + m.Index() + m.Commit() + m.RejectHint() + uint64(len(m.Context()))
	if m.Reject() {
		sink++
	}
	it := m.Entries()
	for {
		ok, err := it.Next(&x.dst)
		if !ok {
			break
		}
		if err == nil {
			sink += x.dst.Term() + x.dst.Index() + uint64(x.dst.Type()) + uint64(len(x.dst.Data()))
		}
	}
	var e raftzeropb.Entry
	it = m.Entries()
	if ok, err := it.Next(&e); ok && err == nil {
		sink += e.Term()
	}
	if ok, err := m.Snapshot(&x.dstS); ok && err == nil {
		sink += uint64(len(x.dstS.Data()))
		if ok, err := x.dstS.Metadata(&x.dstM); ok && err == nil {
			sink += x.dstM.Index() + x.dstM.Term()
			if ok, err := x.dstM.ConfState(&x.dstCS); ok && err == nil {
				sink += uint64(len(x.dstCS.Encode()))
			}
		}
	}
	sink += uint64(len(m.Encode()))
}
func (x *raftSubject) apply(i int, o *c09op) {
	m := &x.ms[i]
	switch o.n {
	case 1:
		m.SetType(uint32(o.u))
	case 2:
		m.SetTo(o.u)
	case 3:
		m.SetFrom(o.u)
	case 4:
		m.SetTerm(o.u)
	case 5:
		m.SetLogTerm(o.u)
	case 6:
		m.SetIndex(o.u)
	case 7:
		m.AppendToEntries(x.sub)
	case 8:
		m.SetCommit(o.u)
	case 9:
		m.SetSnapshot(x.snap)
	case 10:
		m.SetReject(o.u != 0)
	case 11:
		m.SetRejectHint(o.u)
	case 12:
		m.SetContext(o.b)
	}
}

// ---- the runtime functions, any schema

type rawMsg struct {
	buf     []byte
	offsets struct {
		a []uint16
		m map[int]uint64
	}
}

type rtSubject struct {
	s    *wire.Schema
	rep  zeropb.RepeatedFields
	ms   []rawMsg
	bufs [][]byte
	dst  rawMsg
}

func (x *rtSubject) prepare(n, buf int) {
	x.ms = make([]rawMsg, n)
	x.bufs = make([][]byte, n)
	for i := range x.bufs {
		x.bufs[i] = make([]byte, 0, buf)
		x.ms[i].offsets.a = make([]uint16, x.s.MaxNum()+1)
	}
	x.rep = zeropb.RepeatedFields{}
	for _, f := range x.s.Fields {
		if f.Repeated {
			x.rep[f.Num] = struct{}{}
		}
	}
}
func (x *rtSubject) decode(i int, raw []byte) error {
	m := &x.ms[i]
	m.buf = append(x.bufs[i][:0], raw...)
	return zeropb.Decode(m.buf, zeropb.WrapOffsets(m.offsets.a, &m.offsets.m), x.rep)
}
func (x *rtSubject) reset(i int) {
	m := &x.ms[i]
	m.buf = x.bufs[i][:0]
	zeropb.WrapOffsets(m.offsets.a, &m.offsets.m).Clear()
}
func (x *rtSubject) size(i int) int { return len(x.ms[i].buf) }
func (x *rtSubject) read(i int) {
	m := &x.ms[i]
	for _, f := range x.s.Fields {
		o := zeropb.WrapOffsets(m.offsets.a, &m.offsets.m)
		if f.Repeated {
			if f.Kind == wire.Message {
				rest := zeropb.GetRepeatedNonPacked(m.buf, o, f.Num)
				for {
					var el []byte
					rest, el = zeropb.FindNextField(rest, f.Num)
					if el == nil {
						break
					}
					sink += uint64(len(el))
				}
			}
			continue
		}
		switch f.Kind {
		case wire.Bool:
			if zeropb.GetBool(m.buf, o, f.Num) {
				sink++
			}
		case wire.Int32:
			sink += uint64(zeropb.GetInt32(m.buf, o, f.Num))
		case wire.Int64:
			sink += uint64(zeropb.GetInt64(m.buf, o, f.Num))
		case wire.Uint32, wire.Enum:
			sink += uint64(zeropb.GetUint32(m.buf, o, f.Num))
		case wire.Uint64:
			sink += zeropb.GetUint64(m.buf, o, f.Num)
		case wire.Sint32:
			sink += uint64(zeropb.GetZigZagInt32(m.buf, o, f.Num))
		case wire.Sint64:
			sink += uint64(zeropb.GetZigZagInt64(m.buf, o, f.Num))
		case wire.Fixed32:
			sink += uint64(zeropb.GetFixedUint32(m.buf, o, f.Num))
		case wire.Fixed64:
			sink += zeropb.GetFixedUint64(m.buf, o, f.Num)
		case wire.Sfixed32:
			sink += uint64(zeropb.GetFixedInt32(m.buf, o, f.Num))
		case wire.Sfixed64:
			sink += uint64(zeropb.GetFixedInt64(m.buf, o, f.Num))
		case wire.Double:
			sink += math.Float64bits(zeropb.GetFloat64(m.buf, o, f.Num))
		case wire.Float:
			sink += uint64(math.Float32bits(zeropb.GetFloat32(m.buf, o, f.Num)))
		case wire.String:
			sink += uint64(len(zeropb.GetString(m.buf, o, f.Num)))
		case wire.Bytes, wire.Message:
			sink += uint64(len(zeropb.GetBytes(m.buf, o, f.Num)))
		}
	}
}
func (x *rtSubject) apply(i int, op *c09op) {
	m := &x.ms[i]
	o := zeropb.WrapOffsets(m.offsets.a, &m.offsets.m)
	f := x.s.ByNum(op.n)
	if f.Repeated {
		zeropb.AppendBytes(&m.buf, o, op.n, op.b)
		return
	}
	switch op.k {
	case wire.Bool:
		zeropb.SetBool(&m.buf, o, op.n, op.u != 0)
	case wire.Int32:
		zeropb.SetInt32(&m.buf, o, op.n, int32(op.u))
	case wire.Int64:
		zeropb.SetInt64(&m.buf, o, op.n, int64(op.u))
	case wire.Uint32, wire.Enum:
		zeropb.SetUint32(&m.buf, o, op.n, uint32(op.u))
	case wire.Uint64:
		zeropb.SetUint64(&m.buf, o, op.n, op.u)
	case wire.Sint32:
		zeropb.SetZigZagInt32(&m.buf, o, op.n, int32(op.u))
	case wire.Sint64:
		zeropb.SetZigZagInt64(&m.buf, o, op.n, int64(op.u))
	case wire.Fixed32:
		zeropb.SetFixedUint32(&m.buf, o, op.n, uint32(op.u))
	case wire.Fixed64:
		zeropb.SetFixedUint64(&m.buf, o, op.n, op.u)
	case wire.Sfixed32:
		zeropb.SetFixedInt32(&m.buf, o, op.n, int32(op.u))
	case wire.Sfixed64:
		zeropb.SetFixedInt64(&m.buf, o, op.n, int64(op.u))
	case wire.Double:
		zeropb.SetFloat64(&m.buf, o, op.n, math.Float64frombits(op.u))
	case wire.Float:
		zeropb.SetFloat32(&m.buf, o, op.n, math.Float32frombits(uint32(op.u)))
	case wire.String:
		zeropb.SetString(&m.buf, o, op.n, op.s)
	case wire.Bytes, wire.Message:
		zeropb.SetBytes(&m.buf, o, op.n, op.b)
	}
}

func runC09(t *engine.T) {
	r := t.R
	r.NoFar = true
	var x subject
	var s *wire.Schema
	switch r.Intn(3) {
	case 0:
		s = goldenByName("TestMessage").S
		y := &tmSubject{}
		for k := r.Intn(4); k > 0; k-- {
			y.sub.SetUint64(r.Bits())
			y.sub.SetByteArray(r.FillBytes(r.Len(200)))
		}
		x = y
		t.Ev("subject.TestMessage")
	case 1:
		s = goldenByName("Message").S
		y := &raftSubject{}
		y.sub.SetTerm(r.Bits())
		y.sub.SetData(r.FillBytes(r.Len(200)))
		y.snap.SetData(r.FillBytes(r.Len(100)))
		x = y
		t.Ev("subject.raft")
	default:
		s = r.Schema(1, true)
		x = &rtSubject{s: s}
		t.Ev("subject.runtime")
	}
	t.Logf("type %s", shape(s))
	var raw []byte
	o := r.DefaultOpts()
	if o.MaxBytes > 4000 {
		o.MaxBytes = r.Pick(4000, 30000)
		o.N = 5
	}
	raw = r.Message(s, o)
	mode := r.Intn(3)
	var ops []c09op
	fs := fieldsOf(s, nil)
	if mode > 0 && len(fs) > 0 {
		small := 1
		if r.P(0.5) {
			small = 3
		}
		for k := 1 + r.Intn(25); k > 0; k-- {
			f := fs[r.Intn((len(fs)+small-1)/small)]
			op := c09op{k: f.Kind, n: f.Num}
			switch f.Kind.WireType() {
			case wire.TBytes:
				op.b = r.FillBytes(r.Len(1500))
				op.s = string(op.b)
			default:
				op.u = r.Val(f.Kind, 0).U
			}
			ops = append(ops, op)
		}
	}
	name := [...]string{"decode+read", "build", "decode+edit"}[mode]
	if len(raw) > 50000 {
		raw = nil
	}
	// Messages stay below 64 KiB: at most 25 edits of 1500 bytes each, embedded
	// ones of 800.
	buf := len(raw) + len(ops)*2600 + 64
	if buf > 65000 && mode == 2 {
		raw = r.Message(s, gen.WireOpts{N: r.Intn(8), MaxBytes: 100, Depth: 1})
		buf = len(raw) + len(ops)*2600 + 64
	}
	if mode == 0 && r.P(0.01) {
		// as many fields as there can be
		one := gen.WireOpts{N: 300, MaxBytes: 2, Unknown: 0.3 * r.Float64()}
		raw = nil
		for limit := r.Pick(20000, 60000, 65000); ; {
			part := r.Message(s, one)
			if len(raw)+len(part) > limit || len(part) == 0 {
				break
			}
			raw = append(raw, part...)
		}
		buf = len(raw) + 64
		t.Ev("many-fields.decode")
	} else if mode == 0 && r.P(0.2) {
		// fields right below the limit
		var tail []byte
		for k := 1 + r.Intn(4); k > 0; k-- {
			tail = append(tail, r.Message(s, gen.WireOpts{N: 2, MaxBytes: 20, Depth: 1})...)
		}
		raw = wire.PutTag(nil, r.UnknownNum(s), wire.TBytes, 0)
		n := 65534 - len(raw) - 3 - len(tail) - r.Pick(0, 0, 1, 2, 100)
		raw = wire.PutVarint(raw, uint64(n), 0)
		raw = append(append(raw, make([]byte, n)...), tail...)
		buf = len(raw)
		t.Ev("near-limit.decode")
	}
	if blobs := fieldsOf(s, isBlob); mode == 1 && len(blobs) > 0 && r.P(0.2) {
		f := blobs[r.Intn(len(blobs))]
		var rest []c09op
		for _, op := range ops {
			if op.k.WireType() != wire.TBytes && len(rest) < 20 {
				rest = append(rest, op)
			}
		}
		big := c09op{k: f.Kind, n: f.Num, b: make([]byte, 65534-20*15-8)}
		big.s = string(big.b)
		ops = append([]c09op{big}, rest...)
		buf = 65534
		t.Ev("near-limit.build")
	}
	steps, most := 0, len(raw)
	body := func(i int) {
		if mode != 1 {
			if x.decode(i, raw) != nil {
				steps = -1
				return
			}
			x.read(i)
		} else {
			x.reset(i)
		}
		for k := range ops {
			x.apply(i, &ops[k])
			if steps == 0 {
				most = max(most, x.size(i))
			}
		}
		if len(ops) > 0 {
			x.read(i)
		}
		x.read(i)
		x.reset(i)
		x.read(i)
		if mode == 0 {
			x.decode(i, raw)
			x.read(i)
		}
		steps++
	}
	// A dry run on a struct of its own finds out what the measured ones will do.
	x.prepare(1, buf)
	body(0)
	if steps < 0 {
		t.Ev("decode.refused")
		return
	}
	if len(ops) > 0 && most < 65535 && r.P(0.5) {
		// Exactly as much room as the message ever needs.
		buf = most
		t.Ev("exact-room")
	}
	measure := func() (n float64) {
		// AllocsPerRun makes one run more than it is asked for.
		x.prepare(c09runs+1, buf)
		i := 0
		engine.Quiet(func() {
			n = testing.AllocsPerRun(c09runs, func() { body(i); i++ })
		})
		return n
	}
	got := measure()
	if got > 0 {
		for k := 0; k < 3 && got > 0; k++ {
			got = measure()
		}
	}
	if got > 0 {
		for k := range ops {
			t.Logf("op #%d %v %d bytes", ops[k].n, ops[k].k, len(ops[k].b))
		}
		t.Fail("%s of a %s message of %d bytes with %d edits makes %v heap allocations", name, s.Name, len(raw), len(ops), got)
	}
	t.Ev("alloc." + name)
	t.EvN("alloc.measured-runs", c09runs)
	if len(raw) > 0 || len(ops) > 0 {
		t.NonTrivial(s.Name, raw, len(ops), name)
		t.Sample(func() string {
			return fmt.Sprintf("%s of %s, %d bytes, %d edits: 0 allocations in %d runs", name, shape(s), len(raw), len(ops), c09runs)
		})
	}
}
