package main

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"unsafe"
	"weak"

	"github.com/danhhz/zeropb/golden/testzeropb"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/wire"
)

// What is reachable through anything read from a message stays as it was, what
// isn't is given back: checked under a collector that runs all the time,
// overwrites everything it frees and is asked about every buffer.

var c24 = &engine.Check{
	ID: "C24",
	Rule: "each case lets go of messages and buffers while holding on to strings, bytes, embedded messages, iterators or encodings read from them, stores arguments nothing else refers to (strings, bytes, messages) while the message's memory grows, or takes a struct through several lives; some run while no other case does; the garbage collector runs at almost no heap growth and on demand, overwrites freed memory, and weak pointers tell which buffers are still allocated; " +
		"everything held must read the same after collections and new allocations, and every buffer nothing held refers to must be gone; non-trivial: at least one value held across a collection or one buffer seen freed",
	Assumptions: []string{
		"a buffer that is still allocated after sixty collections over two seconds counts as kept; pools that let go of memory after two are fine",
		"buffers of less than 32 bytes may share an allocation with others and are not tracked",
		"collections inside the code under test happen where it allocates, and wherever the runtime preempts it",
	},
	Quick:       22000,
	Thorough:    250000,
	MemoryFatal: true,
	Variants: []engine.Variant{
		{Name: "clobber", Flags: engine.Std.Flags, Run: []string{"GODEBUG=clobberfree=1"}, Share: 0.6},
		// whole collections, sweep included, at the allocation that starts them
		{Name: "stw", Flags: engine.Std.Flags, Run: []string{"GODEBUG=clobberfree=1,gcstoptheworld=2"}, Share: 0.25, Extra: true},
		{Name: "clobber386", Env: engine.I386.Env, Run: []string{"GODEBUG=clobberfree=1"}, Share: 0.15, Optional: true, Extra: true},
	},
	Need: []string{"held.string", "held.bytes", "held.message", "held.iterator", "held.encoding", "held.struct", "freed.input", "freed.string-argument", "freed.bytes-argument",
		"freed.message-argument", "freed.after-decode", "freed.after-reset", "freed.after-growth", "freed.after-error", "freed.built", "case.far", "case.alone", "case.megabytes"},
	Setup: func(env *engine.Env) error {
		debug.SetGCPercent(3)
		if env.Variant == "stw" {
			debug.SetGCPercent(20)
		}
		return setupGolden(env)
	},
	Run: runC24,
}

const trackable = 32

// tracked is a buffer that must be freed once nothing refers to it.
type tracked struct {
	what string
	ev   string
	w    weak.Pointer[byte]
}

type custody struct {
	t     *engine.T
	alone bool
	trace []tracked
}

func (c *custody) track(what, ev string, b []byte) {
	if cap(b) >= trackable {
		b = b[:cap(b)]
		c.trace = append(c.trace, tracked{what, ev, weak.Make(&b[0])})
	}
}

// gone collects until everything tracked so far is freed.
func (c *custody) gone(when string) {
	for i := 0; i < 60; i++ {
		left := c.trace[:0]
		for _, x := range c.trace {
			if x.w.Value() != nil {
				left = append(left, x)
			} else {
				c.t.Ev("freed." + x.ev)
				c.t.NonTrivial("freed", x.ev, x.what, c.t.N)
			}
		}
		c.trace = left
		if len(left) == 0 {
			return
		}
		if i >= 8 {
			// The collector treats the frame in which another worker's goroutine
			// was interrupted conservatively; give it time to move on.
			c.t.Ev("retry")
			time.Sleep(time.Duration(i) * time.Millisecond)
		}
		runtime.GC()
	}
	if len(c.trace) > 0 {
		var what []string
		for _, x := range c.trace {
			what = append(what, x.what)
		}
		c.t.Fail("%s, memory that nothing refers to any more is still kept: %s", when, strings.Join(what, ", "))
	}
}

// view is something read from a message, and how to read it again.
type view struct {
	what string
	get  func() string
	want string
	refs bool // non-empty: keeps the memory it was read from
}

// in makes the message bytes live in memory of their own, whose spare room
// varies.
//
//go:noinline
func (c *custody) in(what, ev string, raw []byte) []byte {
	r := c.t.R
	pre, post := 0, 0
	if r.P(0.3) {
		pre, post = r.Intn(60), r.Intn(60)
	}
	all := make([]byte, pre+len(raw)+post)
	copy(all[pre:], raw)
	c.track(what, ev, all)
	return all[pre : pre+len(raw) : pre+len(raw)+r.Intn(post+1)]
}

// churn allocates and drops memory of the sizes in use, so that freed memory is
// used again.
func churn(sizes ...int) {
	var keep [16][]byte
	for i := 0; i < 64; i++ {
		n := sizes[i%len(sizes)]
		if n > 1<<17 {
			continue
		}
		b := make([]byte, n)
		for j := range b {
			b[j] = 0x5a
		}
		keep[i%16] = b
	}
	runtime.KeepAlive(&keep)
}

// viewsOf reads some of the fields.
//
//go:noinline
func (c *custody) viewsOf(m adapt.Msg, depth int) []view {
	r := c.t.R
	var out []view
	add := func(v view) {
		v.want = v.get()
		out = append(out, v)
	}
	for _, f := range m.Schema().Fields {
		f := f
		if !f.Accessible() || r.P(0.4) {
			continue
		}
		switch {
		case f.Repeated:
			twin := m.Iter(f)
			skip := r.Intn(3)
			it := m.Iter(f)
			fresh := m.FreshFor(f)
			for i := 0; i < skip; i++ {
				it.Next(fresh)
				twin.Next(fresh)
			}
			want, n := drain(twin, fresh.Fresh())
			// the iterator can be used up only once
			out = append(out, view{what: "iterator over " + f.Name, want: want, refs: n > 0, get: func() string {
				s, _ := drain(it, fresh.Fresh())
				return s
			}})
			c.t.Ev("held.iterator")
		case f.Kind == wire.Message:
			dst := m.FreshFor(f)
			ok, err := m.Sub(f, dst)
			if !ok || err != nil {
				continue
			}
			if depth > 0 && r.P(0.4) {
				// hold on to something inside only
				out = append(out, c.viewsOf(dst, depth-1)...)
				continue
			}
			add(view{what: "embedded message " + f.Name, refs: len(dst.Encode()) > 0, get: func() string { return dump(dst, 2) + string(dst.Encode()) }})
			c.t.Ev("held.message")
		case f.Kind == wire.String:
			s := m.RawString(f)
			add(view{what: "string " + f.Name, refs: len(s) > 0, get: func() string { return strings.Clone(s) }})
			c.t.Ev("held.string")
		case f.Kind == wire.Bytes:
			b := m.RawBytes(f)
			add(view{what: "bytes " + f.Name, refs: len(b) > 0, get: func() string { return string(b) }})
			c.t.Ev("held.bytes")
		}
	}
	return out
}

func drain(it adapt.Iter, dst adapt.Msg) (string, int) {
	var b strings.Builder
	n := 0
	for ; n < 1000; n++ {
		ok, err := it.Next(dst)
		if !ok {
			break
		}
		fmt.Fprintf(&b, "[%x %v", dst.Encode(), err != nil)
		if err == nil {
			dumpTo(&b, dst, 1)
		}
	}
	return b.String(), n
}

func (c *custody) check(vs []view, when string) {
	for _, v := range vs {
		if got := v.get(); got != v.want {
			c.t.Fail("%s, %s reads differently: it was %s and is %s", when, v.what, clip([]byte(v.want)), clip([]byte(got)))
		}
		if v.refs {
			c.t.NonTrivial("held", v.what, v.want)
		}
	}
}

func (c *custody) message(m adapt.Msg) []byte {
	r := c.t.R
	o := r.DefaultOpts()
	o.Far = r.P(0.05)
	raw := r.Message(m.Schema(), o)
	if c.alone && r.P(0.2) {
		n := r.Pick(1<<17, 1<<20, 1<<20+5, 3<<20) + r.Intn(1000)
		raw = wire.PutTag(raw, r.UnknownNum(m.Schema()), wire.TBytes, 0)
		raw = append(wire.PutVarint(raw, uint64(n), 0), make([]byte, n)...)
		c.t.Ev("case.megabytes")
	}
	if len(raw) > 65535 {
		c.t.Ev("case.far")
	}
	return raw
}

// alone is held for reading by every case, and for writing by some: while those
// run nothing else calls the code under test, which could make it let go of what
// it kept of them.
var alone sync.RWMutex

func runC24(t *engine.T) {
	c := &custody{t: t}
	if t.R.P(0.04) {
		alone.Lock()
		defer alone.Unlock()
		c.alone = true
		t.Ev("case.alone")
	} else {
		alone.RLock()
		defer alone.RUnlock()
	}
	mode := t.R.Intn(5)
	if t.Env.Variant == "stw" && mode != 0 {
		mode = 2
	}
	if t.Env.Variant == "stw" && t.R.P(0.3) {
		c.storm()
		return
	}
	switch mode {
	case 0, 1:
		c.hold()
	case 2, 3:
		c.args()
	default:
		c.lives()
	}
}

// ---- held values

func (c *custody) hold() {
	t, r := c.t, c.t.R
	var vs []view
	var sizes []int
	inUse := map[int]bool{} // tracked buffers that some view keeps
	for k := 1 + r.Intn(6); k > 0; k-- {
		from := len(c.trace)
		got, size := c.holdOne()
		sizes = append(sizes, size+1)
		vs = append(vs, got...)
		for _, v := range got {
			if v.refs && len(c.trace) == from+1 {
				inUse[from] = true
			}
		}
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		runtime.GC()
		churn(sizes...)
	}
	for i, x := range c.trace {
		if inUse[i] {
			// Freeing it is fine if the values are copies; they are compared below.
			if x.w.Value() != nil {
				t.Ev("alive.while-held")
			} else {
				t.Ev("freed.while-held")
			}
		}
	}
	c.check(vs, "after letting go of the message and collecting garbage")
	t.Sample(func() string {
		var w []string
		for _, v := range vs {
			w = append(w, v.what)
		}
		return "held " + strings.Join(w, ", ")
	})
	vs = nil
	c.gone("after letting go of everything")
}

//go:noinline
func (c *custody) holdOne() ([]view, int) {
	t, r := c.t, c.t.R
	m := pick(t, false)
	if r.P(0.25) {
		// a message built here: only its own encoding is of interest
		m.Reset(make([]byte, 0, r.Intn(100)))
		for i := r.Intn(20); i > 0; i-- {
			if o := genOp(r, m, 300, 1, nil); o != nil {
				o.apply(m)
			}
		}
		enc := m.Encode()
		c.track("a built message", "built", enc)
		t.Ev("held.encoding")
		v := view{what: "encoding", refs: len(enc) > 0, get: func() string { return string(enc) }}
		v.want = v.get()
		out := []view{v}
		if r.P(0.5) {
			out = c.viewsOf(m, 1)
		}
		return out, cap(enc)
	}
	raw := c.message(m)
	if m.Decode(c.in("the input of a message", "input", raw)) != nil {
		t.Ev("decode.refused")
		return nil, len(raw)
	}
	if r.P(0.2) {
		// hold the struct, let go of the input
		t.Ev("held.struct")
		v := view{what: "message", refs: len(raw) > 0, get: func() string { return dump(m, 2) + string(m.Encode()) }}
		v.want = v.get()
		return []view{v}, len(raw)
	}
	return c.viewsOf(m, 2), len(raw)
}

// ---- arguments

func (c *custody) args() {
	t, r := c.t, c.t.R
	m := pickWith(t, func(f *wire.Field) bool { return isBlob(f) || f.Kind == wire.Message })
	model := wire.NewModel(m.Schema())
	if r.P(0.5) {
		m.Reset(make([]byte, 0, r.Pick(0, 8, 64, 1000)))
	} else if r.P(0.5) {
		o := r.DefaultOpts()
		raw := r.Message(m.Schema(), o)
		md, _, class := wire.Parse(m.Schema(), raw)
		if class == wire.WellFormed && m.Decode(raw) == nil {
			model = md
		} else {
			m = m.Fresh()
		}
	}
	for i := 1 + r.Intn(12); i > 0; i-- {
		c.store(m, model)
		if r.P(0.2) {
			runtime.GC()
		}
		if r.P(0.3) {
			churn(32, 64, 200)
		}
	}
	if len(c.trace) > 0 {
		c.gone("after storing copies of them in a message")
	} else {
		runtime.GC()
	}
	if d := adapt.Compare(m, model, copts(t)); d != "" {
		t.Fail("after storing values that nothing else refers to: %s", d)
	}
	if len(m.Encode()) > 65535 {
		t.Ev("case.far")
	}
	t.Sample(func() string { return "stored arguments in " + shape(m.Schema()) })
	c.track("a built message", "built", m.Encode())
	m, model = nil, nil
	c.gone("after letting go of the message")
}

//go:noinline
func (c *custody) store(m adapt.Msg, model *wire.Model) {
	t, r := c.t, c.t.R
	fs := fieldsOf(m.Schema(), func(f *wire.Field) bool { return isBlob(f) || f.Kind == wire.Message })
	if len(fs) == 0 || r.P(0.2) {
		if o := genOp(r, m, 100, 1, model); o != nil {
			o.expect(model)
			o.apply(m)
		}
		return
	}
	f := fs[r.Intn(len(fs))]
	n := r.Pick(r.Len(200), r.Len(200), r.Len(5000), 33+r.Intn(100), 65536-r.Intn(100))
	switch {
	case isBlob(f):
		val := r.FillBytes(n)
		o := &op{f: f, val: wire.Val{B: val}}
		o.expect(model)
		if f.Kind == wire.String {
			s := string(val) // of its own
			if len(s) >= trackable {
				c.trace = append(c.trace, tracked{"a string stored in a message", "string-argument", weak.Make(unsafe.StringData(s))})
			}
			if x, ok := adapt.Struct(m).(interface{ SetString(string) }); ok && f.Name == "string" {
				// directly: a call by reflection keeps its arguments
				x.SetString(s)
			} else {
				m.SetString(f, s)
			}
		} else {
			b := make([]byte, n, n+r.Intn(40))
			copy(b, val)
			c.track("bytes stored in a message", "bytes-argument", b)
			if x, ok := adapt.Struct(m).(interface{ SetByteArray([]byte) }); ok && f.Name == "byte_array" {
				x.SetByteArray(b)
			} else {
				m.Set(f, wire.Val{B: b})
			}
		}
	default:
		o := &op{f: f, sub: someSub(r, m, f, 300, 1)}
		if r.P(0.4) {
			raw := r.Message(f.Sub, r.DefaultOpts())
			o.sub = m.FreshFor(f)
			o.sub.Decode(raw)
		}
		o.enc = cp(o.sub.Encode())
		o.expect(model)
		c.track("a message stored in another", "message-argument", o.sub.Encode())
		o.apply(m)
	}
	t.Ev("stored." + f.Kind.String())
}

//go:noinline
func storeString(m *testzeropb.TestMessage, n int, x byte) {
	m.SetString(string(bytes.Repeat([]byte{x}, n)))
}

//go:noinline
func storeBytes(m *testzeropb.TestMessage, n int, x byte) {
	m.SetByteArray(bytes.Repeat([]byte{x}, n))
}

// storm stores many short-lived arguments while the other workers start
// collections.
func (c *custody) storm() {
	t, r := c.t, c.t.R
	room := make([]byte, 0, 2000)
	for i := 0; i < 400; i++ {
		var m testzeropb.TestMessage
		if r.P(0.5) {
			m.Reset(room)
		}
		n, x := 17+r.Intn(300), byte(1+r.Intn(127))
		storeString(&m, n, x)
		k, y := 17+r.Intn(300), byte(1+r.Intn(127))
		storeBytes(&m, k, y)
		if r.P(0.3) {
			n, x = r.Pick(n, n, n+1), x^1
			storeString(&m, n, x)
		}
		if got := m.String(); len(got) != n || strings.Trim(got, string(rune(x))) != "" {
			t.Fail("round %d: stored a string of %d times %#x that nothing else refers to, got %s", i, n, x, clip([]byte(got)))
		}
		if got := m.ByteArray(); len(got) != k || len(bytes.Trim(got, string(rune(y)))) != 0 {
			t.Fail("round %d: stored %d bytes %#x that nothing else refers to, got %s", i, k, y, clip(got))
		}
	}
	t.EvN("stored.in-storm", 800)
	t.NonTrivial("storm", t.N)
}

// ---- lives of a struct

func (c *custody) lives() {
	t, r := c.t, c.t.R
	m := pick(t, false)
	for k := 2 + r.Intn(4); k > 0; k-- {
		// One life.
		ev := c.life(m)
		if ev == "" {
			continue
		}
		// The next one starts: nothing of the previous one may be kept.
		switch r.Intn(3) {
		case 0:
			m.Reset(nil)
			c.rename(ev, "after-reset")
			c.gone("after Reset(nil)")
		case 1:
			m.Reset(make([]byte, 0, r.Intn(200)))
			c.rename(ev, "after-reset")
			c.gone("after Reset with another buffer")
		default:
			next := cp(r.Message(m.Schema(), r.DefaultOpts()))
			err := m.Decode(next)
			c.rename(ev, "after-decode")
			c.gone("after decoding another message")
			if err == nil {
				if model, _, class := wire.Parse(m.Schema(), next); class == wire.WellFormed {
					if d := adapt.Compare(m, model, copts(t)); d != "" {
						t.Fail("after the previous contents were freed: %s", d)
					}
				}
			}
		}
	}
	t.Sample(func() string { return "several lives of " + shape(m.Schema()) })
}

func (c *custody) rename(was, ev string) {
	if was == "error" {
		ev = "after-error"
	}
	for i := range c.trace {
		c.trace[i].ev = ev
	}
}

//go:noinline
func (c *custody) life(m adapt.Msg) string {
	t, r := c.t, c.t.R
	raw := c.message(m)
	kind := "ok"
	if r.P(0.3) {
		raw = r.Hostile(m.Schema(), 300)
	} else if r.P(0.2) && len(raw) > 0 {
		raw = raw[:r.Intn(len(raw))]
	}
	in := c.in("the previous input", "input", raw)
	if m.Decode(in) != nil {
		return "error"
	}
	// Use it: reads of everything, results dropped.
	if r.P(0.7) {
		dump(m, 2)
	}
	if r.P(0.5) {
		sub := c.viewsOf(m, 1)
		c.check(sub, "at once")
	}
	if r.P(0.5) {
		for i := 1 + r.Intn(6); i > 0; i-- {
			if o := genOp(r, m, 200, 1, nil); o != nil {
				o.apply(m)
			}
		}
		if r.P(0.5) {
			if f := fieldsOf(m.Schema(), isBlob); len(f) > 0 {
				m.Set(f[0], wire.Val{B: make([]byte, len(raw)+200)})
			}
		}
		enc := m.Encode()
		if cap(enc) > 0 && len(in) > 0 && cap(in) > 0 && !within(enc[:cap(enc)], in[:cap(in)]) {
			// It moved: the input itself is not needed any more.
			want := cp(enc)
			before := len(c.trace)
			c.letGoOfInput(&in, &enc)
			if before > 0 {
				c.gone("after the message outgrew it")
			}
			if !bytes.Equal(m.Encode(), want) {
				t.Fail("collecting garbage changed the message")
			}
			c.track("the grown message", "built", m.Encode())
		}
	}
	return kind
}

func (c *custody) letGoOfInput(in, enc *[]byte) {
	*in, *enc = nil, nil
	for i := range c.trace {
		c.trace[i].ev = "after-growth"
	}
}

func within(a, b []byte) bool {
	lo, hi := uintptr(unsafe.Pointer(&b[0])), uintptr(unsafe.Pointer(&b[0]))+uintptr(len(b))
	p := uintptr(unsafe.Pointer(&a[0]))
	return p >= lo && p < hi
}
