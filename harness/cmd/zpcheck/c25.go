//go:build amd64 || arm64

package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

// Messages of gigabytes, made of sparse memory: what is inside the large values
// is never touched, so only their headers and a few bytes take up memory.

var c25 = &engine.Check{
	ID: "C25",
	Rule: "each case lays out a message of random small fields around strings, bytes, unknown fields, embedded messages and elements of hundreds of megabytes to over 4 GiB in sparse memory (values around 2^31 and 2^32 bytes, nested, several of them), decodes it, compares every accessor, iterator and embedded message with an independent description of the layout, cuts it short (must be refused), edits fields behind the large values and replaces the last large value by a small one, in a few cases stores a value, message or element of over 2 GiB or changes the size of what is in front of one, everything compared again after each step and after decoding afresh; " +
		"non-trivial: at least one field lies beyond 2 GiB",
	Assumptions: []string{
		"64-bit builds only: a 32-bit process cannot hold such messages",
		"only a few cases store a large value or change the size of a field in front of one, as either copies gigabytes",
	},
	Quick:    80000,
	Thorough: 2500000,
	Need: []string{"huge.unknown", "huge.blob", "huge.message", "huge.element", "beyond.2g", "beyond.4g", "cut", "over", "edit", "edit.fresh", "edit.same-size", "shrink", "shrink.to-small", "cmp.element",
		"offset.2g", "offset.4g", "heavy.front", "heavy.store"},
	Setup: setupGolden,
	Run:   runC25,
}

const (
	seaSize     = 12 << 30
	hugePages   = 14
	noHugePages = 15
)

// sea is a large stretch of memory, of which little is ever touched.
type sea struct {
	mem   []byte
	dirty [][2]int
}

var (
	seasMu sync.Mutex
	seas   []*sea

	seasLimited bool
)

func takeSea() *sea {
	seasMu.Lock()
	defer seasMu.Unlock()
	if n := len(seas); n > 0 {
		s := seas[n-1]
		seas = seas[:n-1]
		return s
	}
	if !seasLimited {
		// Code that copies such a message must run out of memory before the machine
		// does.
		seasLimited = true
		most := uint64(runtime.GOMAXPROCS(0))*seaSize + 14<<30
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: most, Max: most})
	}
	mem, err := syscall.Mmap(-1, 0, seaSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic("harness: cannot reserve address space: " + err.Error())
	}
	syscall.Madvise(mem, noHugePages)
	return &sea{mem: mem}
}

func (s *sea) put(at int, b []byte) {
	if len(b) == 0 {
		return
	}
	copy(s.mem[at:], b)
	s.dirty = append(s.dirty, [2]int{at, at + len(b)})
}

// giveBack forgets what was written.
func (s *sea) giveBack() {
	const pg = 1 << 12
	drop := func(lo, hi int) {
		lo, hi = lo/pg*pg, (hi+pg-1)/pg*pg
		if hi > len(s.mem) {
			hi = len(s.mem)
		}
		if lo < hi {
			syscall.Madvise(s.mem[lo:hi], syscall.MADV_DONTNEED)
		}
	}
	for _, d := range s.dirty {
		drop(d[0], d[1])
	}
	if rss() > 5<<30 {
		drop(0, len(s.mem)) // also what was not expected to be touched
	}
	s.dirty = nil
	seasMu.Lock()
	seas = append(seas, s)
	seasMu.Unlock()
}

// rss is how much memory the process uses.
func rss() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, resident int
	fmt.Sscan(string(b), &size, &resident)
	return resident * os.Getpagesize()
}

// Edits outside the few heavy cases touch next to no memory. In case they do
// after all, one case at a time gets to.
var editMu sync.Mutex

// movedEdits counts those that did.
var movedEdits atomic.Int32

type piece struct {
	b   []byte
	gap int // that many bytes nobody wrote
}

// layout is a message and what must be read from it.
type layout struct {
	s      *wire.Schema
	pieces []piece
	size   int
	small  []byte           // all occurrences but the special ones, in order
	sp     map[int]*special // by field number
	model  *wire.Model      // of small, kept up to date by edits
	last   map[int]int      // where the last occurrence of a field begins
	solid  int              // the end of the last large value
	gaps   []int            // ends of the large values
	moved  bool             // positions are no longer known
}

type special struct {
	f    *wire.Field
	at   int // of the value (blob)
	n    int
	head []byte
	tail []byte
	tag  int // where the occurrence begins
	kids []kid
}

type kid struct {
	at int
	l  *layout
}

func (l *layout) add(b []byte) {
	l.pieces = append(l.pieces, piece{b: b})
	l.size += len(b)
}

func (l *layout) hole(n int) {
	l.pieces = append(l.pieces, piece{gap: n})
	l.size += n
	l.solid = l.size
	l.gaps = append(l.gaps, l.size)
}

func (l *layout) write(s *sea, at int) {
	for _, p := range l.pieces {
		s.put(at, p.b)
		at += len(p.b) + p.gap
	}
}

// blob appends a large length-delimited value of n bytes.
func (l *layout) blob(r *gen.Rng, num, n int) (tag, at int, head, tail []byte) {
	tag = l.size
	l.add(wire.PutVarint(wire.PutTag(nil, num, wire.TBytes, 0), uint64(n), 0))
	at = l.size
	head, tail = r.FillBytes(8), r.FillBytes(8)
	l.add(head)
	l.hole(n - 16)
	l.add(tail)
	l.solid = l.size
	l.gaps[len(l.gaps)-1] = l.size
	return
}

func hugeLen(r *gen.Rng, budget *int) int {
	n := 0
	switch r.Intn(8) {
	case 0, 1:
		n = 1<<31 - 200 + r.Intn(400)
	case 2, 3:
		n = 1<<32 - 200 + r.Intn(400)
	case 4:
		n = 1<<30 + r.Intn(1<<30)
	case 5:
		n = 1<<31 + r.Intn(1<<31)
	case 6:
		n = 1<<32 + r.Intn(1<<20)
	default:
		n = 1<<20 + r.Intn(1<<28)
	}
	if n > *budget {
		n = 64 + r.Intn(100000)
	}
	*budget -= n
	return n
}

// chunk is a few small fields, without those that must not occur (again).
func (l *layout) chunk(r *gen.Rng, skip map[int]bool) {
	raw := r.Message(l.s, gen.WireOpts{N: r.Intn(6), MaxBytes: 40, Depth: 1, Unknown: 0.1, Pad: 0.05})
	toks, _, _ := wire.Tokenize(raw)
	for i := range toks {
		num := int(toks[i].Num)
		if skip[num] {
			continue
		}
		if f := l.s.ByNum(num); f != nil && f.Kind == wire.Message && !f.Repeated {
			skip[num] = true
		}
		b := raw[toks[i].Start:toks[i].End]
		l.small = append(l.small, b...)
		l.last[num] = l.size
		l.add(b)
	}
}

func (l *layout) parse(t *engine.T) {
	model, _, class := wire.Parse(l.s, l.small)
	if class == wire.Malformed {
		panic("harness: malformed small fields")
	}
	l.model = model
}

// lay makes a message with at most budget bytes of large values.
func lay(t *engine.T, s *wire.Schema, budget *int, depth int) *layout {
	r := t.R
	l := &layout{s: s, sp: map[int]*special{}, last: map[int]int{}}
	skip := map[int]bool{}
	var specials []*wire.Field
	for k := r.Intn(3); k > 0; k-- {
		fs := fieldsOf(s, func(f *wire.Field) bool {
			return f.Kind.WireType() == wire.TBytes && !skip[f.Num] && (f.Kind != wire.Message || depth > 0)
		})
		if len(fs) == 0 {
			break
		}
		f := fs[r.Intn(len(fs))]
		skip[f.Num] = true
		specials = append(specials, f)
	}
	unknown := 0
	if len(specials) == 0 || r.P(0.4) {
		unknown = 1 + r.Intn(2)
	}
	l.chunk(r, skip)
	for len(specials) > 0 || unknown > 0 {
		if k := r.Intn(len(specials) + unknown); k >= len(specials) {
			unknown--
			l.blob(r, r.UnknownNum(s), hugeLen(r, budget))
			t.Ev("huge.unknown")
		} else {
			f := specials[k]
			specials = append(specials[:k:k], specials[k+1:]...)
			sp := &special{f: f}
			l.sp[f.Num] = sp
			switch {
			case f.Kind != wire.Message:
				if r.P(0.2) {
					// superseded by what follows
					l.blob(r, f.Num, hugeLen(r, budget))
				}
				sp.n = hugeLen(r, budget)
				sp.tag, sp.at, sp.head, sp.tail = l.blob(r, f.Num, sp.n)
				l.last[f.Num] = sp.tag
				t.Ev("huge.blob")
			default:
				n := 1
				if f.Repeated {
					n = r.Intn(4)
				}
				for ; n > 0; n-- {
					var kl *layout
					if r.P(0.7) {
						kl = lay(t, f.Sub, budget, depth-1)
					} else {
						kl = &layout{s: f.Sub, sp: map[int]*special{}, last: map[int]int{}}
						kl.chunk(r, map[int]bool{})
						kl.parse(t)
					}
					l.last[f.Num] = l.size
					l.add(wire.PutVarint(wire.PutTag(nil, f.Num, wire.TBytes, 0), uint64(kl.size), 0))
					sp.kids = append(sp.kids, kid{l.size, kl})
					l.pieces = append(l.pieces, kl.pieces...)
					l.size += kl.size
					if len(kl.gaps) > 0 {
						l.solid = l.size
						l.gaps = append(l.gaps, l.size)
					}
					if f.Repeated {
						t.Ev("huge.element")
						if r.P(0.3) {
							l.chunk(r, skip)
						}
					} else {
						t.Ev("huge.message")
					}
				}
			}
		}
		if r.P(0.7) {
			l.chunk(r, skip)
		}
	}
	l.parse(t)
	return l
}

// position is where b lies in the sea, or -1.
func position(mem, b []byte) int {
	if cap(b) == 0 {
		return -1
	}
	b = b[:cap(b)]
	p, q := uintptr(unsafe.Pointer(&b[0])), uintptr(unsafe.Pointer(&mem[0]))
	if p < q || p >= q+uintptr(len(mem)) {
		return -1
	}
	return int(p - q)
}

// verify compares everything readable with the layout; base is where the message
// begins in mem.
func (l *layout) verify(t *engine.T, m adapt.Msg, mem []byte, base int) string {
	for _, f := range l.s.Fields {
		if !f.Accessible() {
			continue
		}
		sp := l.sp[f.Num]
		d := ""
		switch {
		case sp == nil:
			d = adapt.CompareField(m, f, l.model.F[f.Num], copts(t))
		case f.Kind != wire.Message:
			var got []byte
			if f.Kind == wire.String {
				s := m.RawString(f)
				got = unsafe.Slice(unsafe.StringData(s), len(s))
			} else {
				got = m.RawBytes(f)
			}
			if len(got) != sp.n {
				d = fmt.Sprintf("has %d bytes, want %d", len(got), sp.n)
				break
			}
			if p := position(mem, got); p >= 0 && base >= 0 && !l.moved && p != base+sp.at {
				d = fmt.Sprintf("lies at %d, want %d", p-base, sp.at)
				break
			}
			if !bytes.Equal(got[:8], sp.head) || !bytes.Equal(got[sp.n-8:], sp.tail) {
				d = fmt.Sprintf("begins %x and ends %x, want %x and %x", got[:8], got[sp.n-8:], sp.head, sp.tail)
			}
		case !f.Repeated:
			dst := m.FreshFor(f)
			ok, err := m.Sub(f, dst)
			d = sp.kids[0].check(t, dst, ok, err, mem, l.where(base))
		default:
			it := m.Iter(f)
			for i := 0; ; i++ {
				dst := m.FreshFor(f)
				ok, err := it.Next(dst)
				if i == len(sp.kids) {
					if ok || err != nil {
						d = fmt.Sprintf("more than %d elements (%v)", i, err)
					}
					break
				}
				if d = sp.kids[i].check(t, dst, ok, err, mem, l.where(base)); d != "" {
					d = fmt.Sprintf("element %d %s", i, d)
					break
				}
				t.Ev("cmp.element")
			}
		}
		if d != "" {
			return fmt.Sprintf("%s(#%d %s) %s", f.Name, f.Num, f.Kind, d)
		}
		if at, ok := l.last[f.Num]; ok && at >= 1<<32 {
			t.Ev("offset.4g")
		} else if ok && at >= 1<<31 {
			t.Ev("offset.2g")
		}
	}
	return ""
}

func (l *layout) where(base int) int {
	if l.moved {
		return -1
	}
	return base
}

func (k *kid) check(t *engine.T, dst adapt.Msg, ok bool, err error, mem []byte, base int) string {
	if !ok || err != nil {
		return fmt.Sprintf("of %d bytes is not there (%v, %v)", k.l.size, ok, err)
	}
	if n := len(dst.Encode()); n != k.l.size {
		return fmt.Sprintf("has %d bytes, want %d", n, k.l.size)
	}
	at := base + k.at
	if base < 0 || k.at < 0 {
		at = -1
	}
	if d := k.l.verify(t, dst, mem, at); d != "" {
		return "." + d
	}
	return ""
}

func runC25(t *engine.T) {
	r := t.R
	m := pick(t, false)
	r.NoFar = true
	s := m.Schema()
	budget := 9 << 30
	heavy := t.N%heavyEvery == heavyEvery/2 && t.N < 50*heavyEvery
	if heavy {
		budget = 3 << 30
		heavyMu.Lock()
		defer heavyMu.Unlock()
	}
	l := lay(t, s, &budget, 2)
	const room = 1 << 20
	base := r.Intn(5000)
	if base+l.size+room > seaSize {
		return
	}
	w := takeSea()
	back := false
	giveBack := func() {
		if !back {
			back = true
			w.giveBack()
		}
	}
	defer giveBack()
	l.write(w, base)
	in := w.mem[base : base+l.size : base+l.size+room]
	t.Logf("%s, %d bytes, large values ending at %v", shape(s), l.size, l.gaps)
	if l.size > 1<<32 {
		t.Ev("beyond.4g")
	} else if l.size > 1<<31 {
		t.Ev("beyond.2g")
	}
	if l.size > 1<<31 {
		t.NonTrivial(s.Name, l.size, l.small)
	}
	t.Sample(func() string {
		return fmt.Sprintf("%s of %d bytes, large values ending at %v", shape(s), l.size, l.gaps)
	})

	if heavy {
		in = w.mem[base : base+l.size : heavyAt]
		w.dirty = append(w.dirty, [2]int{base, seaSize})
		syscall.Madvise(w.mem, hugePages)
		defer syscall.Madvise(w.mem, noHugePages)
	}
	if len(l.gaps) > 0 && r.P(0.3) {
		// cut short inside a large value
		end := l.gaps[r.Intn(len(l.gaps))]
		cut := end - 1 - r.Intn(20)
		if r.P(0.3) {
			cut = end - 1 - r.Intn(1<<20)
		}
		if cut > 0 {
			if m.Fresh().Decode(in[:cut:cut]) == nil && !endsAt(l, cut) {
				t.Fail("a message cut short at %d of %d bytes, inside a large value, is accepted", cut, l.size)
			}
			t.Ev("cut")
		}
	}
	if r.P(0.3) {
		// a length that is right only in its low bits
		n := r.Intn(100)
		b := wire.PutTag(nil, 1+r.Intn(20), wire.TBytes, 0)
		b = wire.PutVarint(b, uint64(n)+uint64(1+r.Intn(255))<<uint(r.Pick(31, 32, 33, 40, 48, 56)), 0)
		b = append(b, r.FillBytes(n)...)
		if err := m.Fresh().Decode(b); err != io.ErrUnexpectedEOF && err == nil {
			t.Fail("a field that claims more than 2 GiB but has %d bytes is accepted", n)
		}
		t.Ev("over")
	}
	if r.P(0.1) {
		// a struct that held something
		m.Decode(r.Message(s, gen.WireOpts{N: 5, MaxBytes: 30, Depth: 1}))
	}
	if err := m.Decode(in); err != nil {
		t.Fail("a well-formed message of %d bytes is refused: %v", l.size, err)
	}
	if d := l.verify(t, m, w.mem, base); d != "" {
		t.Fail("in a message of %d bytes, %s", l.size, d)
	}
	if heavy {
		for k := 0; k < 2; k++ {
			var what string
			if k == 0 {
				what = l.front(t, m)
			} else {
				what = l.store(t, m, w)
			}
			if what == "" {
				continue
			}
			t.Logf("%s", what)
			if d := l.verify(t, m, w.mem, base); d != "" {
				t.Fail("after %s in a message of %d bytes, %s", what, l.size, d)
			}
			f := m.Fresh()
			if err := f.Decode(m.Encode()); err != nil {
				t.Fail("after %s the encoding is refused: %v", what, err)
			}
			if d := l.verify(t, f, w.mem, base); d != "" {
				t.Fail("after %s, in the encoding, %s", what, d)
			}
		}
		return
	}
	alone := false
	defer func() {
		if alone {
			giveBack()
			editMu.Unlock()
		}
	}()
	for k := r.Intn(7); k > 0 && !l.moved; k-- {
		what := func() string {
			if !alone {
				editMu.Lock()
				before := rss()
				defer func() {
					if alone = rss()-before > 1<<30; !alone {
						editMu.Unlock()
					}
				}()
			}
			return l.edit(t, m)
		}()
		end := base + len(m.Encode())
		w.dirty = append(w.dirty, [2]int{max(0, end-1<<17), end + 1<<17})
		if what == "" {
			continue
		}
		t.Logf("%s", what)
		if d := l.verify(t, m, w.mem, base); d != "" {
			t.Fail("after %s in a message of %d bytes, %s", what, l.size, d)
		}
		if r.P(0.4) {
			f := m.Fresh()
			if err := f.Decode(m.Encode()); err != nil {
				t.Fail("after %s the encoding is refused: %v", what, err)
			}
			if d := l.verify(t, f, w.mem, base); d != "" {
				t.Fail("after %s, in the encoding, %s", what, d)
			}
			t.Ev("edit.fresh")
		}
	}
}

// A few cases copy gigabytes, one at a time.
const (
	heavyEvery = 12000
	heavyAt    = 15 << 29 // where what they store lies
)

var heavyMu sync.Mutex

// front changes the size of something in front of the large values.
func (l *layout) front(t *engine.T, m adapt.Msg) string {
	fs := fieldsOf(l.s, func(f *wire.Field) bool {
		at, ok := l.last[f.Num]
		return !f.Repeated && ok && at < l.solid && l.sp[f.Num] == nil
	})
	if len(fs) == 0 {
		return ""
	}
	f := fs[t.R.Intn(len(fs))]
	o := genOpOn(t.R, m, f, 60, 1, nil)
	o.apply(m)
	o.expect(l.model)
	l.moved = true
	t.Ev("heavy.front")
	return "in front of a large value: " + o.String()
}

// store stores something large.
func (l *layout) store(t *engine.T, m adapt.Msg, w *sea) string {
	r := t.R
	fs := fieldsOf(l.s, func(f *wire.Field) bool {
		if f.Repeated && l.sp[f.Num] == nil {
			if fm := l.model.F[f.Num]; fm != nil && fm.Count > 0 {
				return false
			}
		}
		return f.Kind.WireType() == wire.TBytes
	})
	if len(fs) == 0 {
		return ""
	}
	f := fs[r.Intn(len(fs))]
	if r.P(0.5) {
		if g := fieldsOf(l.s, func(f *wire.Field) bool { return isBlob(f) }); len(g) > 0 {
			f = g[r.Intn(len(g))]
		}
	}
	n := 1<<31 - 1000 + r.Intn(2000)
	if r.P(0.3) {
		n = 1<<32 - 1000 + r.Intn(2000)
	}
	sp := &special{f: f, n: n}
	before := len(m.Encode())
	if f.Kind != wire.Message {
		sp.head, sp.tail = r.FillBytes(8), r.FillBytes(8)
		w.put(heavyAt, sp.head)
		w.put(heavyAt+n-8, sp.tail)
		if b := w.mem[heavyAt : heavyAt+n : heavyAt+n]; f.Kind == wire.String {
			m.SetString(f, unsafe.String(&b[0], n))
		} else {
			m.Set(f, wire.Val{B: b})
		}
	} else {
		sub := &layout{s: f.Sub, sp: map[int]*special{}, last: map[int]int{}}
		skip := map[int]bool{}
		sub.chunk(r, skip)
		if b := fieldsOf(f.Sub, func(f *wire.Field) bool { return isBlob(f) && !skip[f.Num] && sub.last[f.Num] == 0 }); len(b) > 0 {
			g := b[r.Intn(len(b))]
			skip[g.Num] = true
			gsp := &special{f: g, n: n}
			gsp.tag, gsp.at, gsp.head, gsp.tail = sub.blob(r, g.Num, n)
			sub.sp[g.Num] = gsp
			sub.last[g.Num] = gsp.tag
		} else {
			sub.blob(r, r.UnknownNum(f.Sub), n)
		}
		sub.chunk(r, skip)
		sub.parse(t)
		sub.write(w, heavyAt)
		x := m.FreshFor(f)
		if err := x.Decode(w.mem[heavyAt : heavyAt+sub.size : heavyAt+sub.size]); err != nil {
			t.Fail("a well-formed message of %d bytes is refused: %v", sub.size, err)
		}
		if f.Repeated {
			m.Append(f, x)
			if old := l.sp[f.Num]; old != nil {
				sp.kids = old.kids
			}
		} else {
			m.SetSub(f, x)
		}
		sp.kids = append(sp.kids, kid{-1, sub})
		n = sub.size
	}
	l.sp[f.Num] = sp
	l.moved = true
	l.last[f.Num] = before
	t.Ev("heavy.store")
	t.Ev("heavy.store." + f.Kind.String())
	return fmt.Sprintf("storing %d bytes into %s(#%d %s)", n, f.Name, f.Num, f.Kind)
}

// endsAt is whether a field ends at this position, so that what comes before is a
// message of its own.
func endsAt(l *layout, at int) bool {
	toks := 0
	for _, p := range l.pieces {
		toks += len(p.b) + p.gap
		if toks == at {
			return true
		}
	}
	return false
}

// edit changes something that doesn't move gigabytes.
func (l *layout) edit(t *engine.T, m adapt.Msg) string {
	r := t.R
	fs := fieldsOf(l.s, nil)
	if len(fs) == 0 {
		return ""
	}
	f := fs[r.Intn(len(fs))]
	at, present := l.last[f.Num]
	sp := l.sp[f.Num]
	if f.Repeated && sp != nil {
		return ""
	}
	if sp != nil {
		// Replace the last large value by a small one.
		end := sp.at + sp.n
		if f.Kind == wire.Message {
			end = sp.kids[0].at + sp.kids[0].l.size
		}
		if end != l.solid {
			return ""
		}
		o := genOpOn(r, m, f, 60, 1, nil)
		removed := end - at
		o.apply(m)
		o.expect(l.model)
		delete(l.sp, f.Num)
		l.solid = 0
		for i, g := range l.gaps {
			if g == end {
				l.gaps = l.gaps[:i]
				break
			}
		}
		if n := len(l.gaps); n > 0 {
			l.solid = l.gaps[n-1]
		}
		for num, p := range l.last {
			if p > at {
				l.last[num] = p - removed
			}
		}
		l.last[f.Num] = len(m.Encode()) - 1
		t.Ev("shrink")
		if l.solid == 0 {
			t.Ev("shrink.to-small")
			l.whole(t, m)
		}
		return fmt.Sprintf("replacing %d bytes (%s)", removed, o)
	}
	if present && at < l.solid && !f.Repeated {
		if movedEdits.Load() > 5 {
			return "" // takes forever
		}
		switch f.Kind.WireType() {
		case wire.TFixed32, wire.TFixed64:
			o := genOpOn(r, m, f, 60, 1, nil)
			o.apply(m)
			o.expect(l.model)
			t.Ev("edit.same-size")
			want := wire.EncodeVal(wire.PutTag(nil, f.Num, f.Kind.WireType(), 0), f.Kind, o.val, 0)
			enc := m.Encode()[at:]
			if _, n := wire.GetVarint(enc); n < 1 || !bytes.HasPrefix(enc[n:], want[wire.VarintLen(uint64(f.Num)*8):]) {
				// Writing it in place is nothing that's promised.
				l.moved = true
				movedEdits.Add(1)
				t.Ev("edit.moved")
			}
			return "in front of a large value: " + o.String()
		}
		return ""
	}
	o := genOpOn(r, m, f, 60, 1, nil)
	o.apply(m)
	o.expect(l.model)
	if !f.Repeated {
		// What lies behind moved by some amount, but stays behind.
		l.last[f.Num] = len(m.Encode()) - 1
	} else if !present {
		l.last[f.Num] = len(m.Encode()) - 1
	}
	t.Ev("edit")
	return o.String()
}

// whole checks a message that became small against an independent parse.
func (l *layout) whole(t *engine.T, m adapt.Msg) {
	if len(m.Encode()) > 1<<20 {
		return
	}
	model, _, class := wire.Parse(l.s, m.Encode())
	if class == wire.Malformed {
		t.Fail("after the last large value was replaced the encoding is malformed: %s", clip(m.Encode()))
	}
	for num := range l.sp {
		// already compared, against the layout
		delete(model.F, num)
	}
	if d := modelDiff(model, l.model); d != "" {
		t.Fail("after the last large value was replaced the encoding holds something else: %s", d)
	}
}
