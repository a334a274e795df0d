package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"

	"zpverif/adapt"
	"zpverif/engine"
	"zpverif/gen"
	"zpverif/wire"
)

var c10 = &engine.Check{
	ID:       "C10",
	Rule:     "in the first build each case decodes a message from memory made read-only and calls every reader on it, twice, so that any write faults; in the second build, with the race detector, each case lets 4 to 8 goroutines loose at once: readers of one shared struct, decoders of the same bytes, editors of messages of their own, and code generator runs on one shared request, each comparing what it sees with a reference and yielding at random points; race reports are counted from the log; non-trivial: the message has at least one declared field, or two goroutines or more ran",
	Quick:    30000,
	Thorough: 220000,
	Setup:    setupGolden,
	Variants: []engine.Variant{share(engine.Std, 0.85), share(engine.Race, 0.15)},
	Need:     []string{"checkptr:purity.readonly", "race:concurrent.groups", "race:concurrent.reader", "race:concurrent.editor", "race:concurrent.decoder", "race:shared.edited"},
	Assumptions: []string{
		"the race detector sees races between accesses that both happen in a run, whatever their order; schedules are those the Go scheduler and random yields produce",
	},
	Run: runC10,
}

func runC10(t *engine.T) {
	if t.Env.Variant == "race" {
		runC10race(t)
		return
	}
	r := t.R
	m := pick(t, true)
	s := m.Schema()
	o := r.DefaultOpts()
	o.Split = true
	if r.P(0.3) {
		o.Wrong, o.BadSub = 0.1, 0.2
	}
	raw := r.Message(s, o)
	a := t.Arena()
	if len(raw) > a.Cap() {
		return
	}
	t.Logf("type %s", shape(s))
	t.Logf("decode %s", clip(raw))
	in := a.Put(raw)
	a.ReadOnly()
	if m.Decode(in) != nil {
		t.Ev("decode.refused")
		a.Reset()
		return
	}
	d1 := dump(m, 3)
	e1 := cp(m.Encode())
	d2 := dump(m, 3)
	if d1 != d2 {
		t.Fail("reading twice gives %s and then %s", firstDiff(d1, d2), firstDiff(d2, d1))
	}
	if !bytes.Equal(e1, raw) {
		t.Fail("the encoding of a message that was only decoded and read is %s, decoded from %s", clip(e1), clip(raw))
	}
	t.Ev("purity.readonly")
	if model, _, c := wire.Parse(s, raw); c == wire.WellFormed {
		if d := adapt.Compare(m, model, copts(t)); d != "" {
			t.Fail("%s", d)
		}
	}
	a.Reset()
	t.NonTrivial(s.Name, raw)
	t.Sample(func() string { return fmt.Sprintf("read-only %s: %s", shape(s), clip(raw)) })
}

// actor is one goroutine's part.
type actor struct {
	name string
	seed int64
	run  func(a *actor, r *gen.Rng) string
	err  string
	pan  interface{}
	n    int
}

func runC10race(t *engine.T) {
	r := t.R
	m := pick(t, false)
	s := m.Schema()
	o := r.DefaultOpts()
	if o.MaxBytes > 300 {
		o.MaxBytes = 300
	}
	if o.N > 25 {
		o.N = 25
	}
	raw := r.Message(s, o)
	t.Logf("type %s", shape(s))
	t.Logf("decode %s", clip(raw))
	if r.P(0.05) {
		if fs := fieldsOf(s, isBlob); len(fs) > 0 {
			// offsets above 64 KiB live elsewhere
			raw = append(wire.EncodeVal(wire.PutTag(nil, fs[0].Num, wire.TBytes, 0), wire.Bytes, wire.Val{B: make([]byte, 66000)}, 0), raw...)
		}
	}
	if m.Decode(cp(raw)) != nil {
		t.Ev("decode.refused")
		return
	}
	twin := m.Fresh()
	if twin.Decode(cp(raw)) != nil {
		t.Fail("decoding the same bytes again fails")
	}
	if r.P(0.6) {
		// What is shared may have been edited before: nothing reads it until the
		// goroutines do, its twin has had the same edits.
		raw = editBoth(t, m, twin)
	}
	want := dump(twin, 2)
	nap := func(r *gen.Rng) {
		if r.P(0.3) {
			runtime.Gosched()
		}
	}
	reader := func(a *actor, r *gen.Rng) string {
		for k := 2 + r.Intn(3); k > 0; k-- {
			nap(r)
			if got := dump(m, 2); got != want {
				return "a concurrent reader sees " + firstDiff(got, want) + ", want " + firstDiff(want, got)
			}
			if !bytes.Equal(m.Encode(), raw) {
				return "a concurrent reader gets another encoding"
			}
			a.n++
		}
		return ""
	}
	decoder := func(a *actor, r *gen.Rng) string {
		own := m.Fresh()
		for k := 2 + r.Intn(3); k > 0; k-- {
			nap(r)
			if err := own.Decode(raw); err != nil {
				return "concurrent decoding of the same bytes fails: " + err.Error()
			}
			if got := dump(own, 2); got != want {
				return "a struct of its own, decoded concurrently, reads " + firstDiff(got, want) + ", want " + firstDiff(want, got)
			}
			a.n++
		}
		return ""
	}
	editor := func(a *actor, r *gen.Rng) string {
		own := m.Fresh()
		model := wire.NewModel(s)
		if r.P(0.5) {
			if err := own.Decode(cp(raw)); err != nil {
				return "decode: " + err.Error()
			}
			if model, _, _ = wire.Parse(s, raw); model == nil {
				return "the shared message's encoding is malformed"
			}
		}
		for k := 3 + r.Intn(6); k > 0; k-- {
			e := genOp(r, own, 60, 1, model)
			if e == nil {
				break
			}
			nap(r)
			e.apply(own)
			e.expect(model)
			nap(r)
			if d := adapt.Compare(own, model, &adapt.CompareOpts{}); d != "" {
				return "a message of its own, edited concurrently: " + d
			}
			a.n++
		}
		return ""
	}
	req := randRequest(r, 1+r.Intn(2))
	ref, err := generate.Generate(proto.Clone(req).(*generate.CodeGeneratorRequest))
	if err != nil {
		t.Fail("Generate: %v", err)
	}
	refText := ref.String()
	generator := func(a *actor, r *gen.Rng) string {
		for k := 1 + r.Intn(2); k > 0; k-- {
			nap(r)
			res, err := generate.Generate(req)
			if err != nil {
				return "concurrent Generate: " + err.Error()
			}
			if res.String() != refText {
				return "concurrent Generate runs on one request differ"
			}
			a.n++
		}
		return ""
	}
	as := []*actor{{name: "reader", run: reader}, {name: "reader", run: reader}, {name: "editor", run: editor}, {name: "editor", run: editor}, {name: "decoder", run: decoder}}
	if r.P(0.5) {
		as = append(as, &actor{name: "decoder", run: decoder})
	}
	if r.P(0.5) {
		as = append(as, &actor{name: "generator", run: generator}, &actor{name: "generator", run: generator})
	}
	// Nobody leaves before all are done: the race detector may lose track of what
	// a goroutine did that is gone.
	go1, leave := make(chan struct{}), make(chan struct{})
	var wg sync.WaitGroup
	for i, a := range as {
		i, a := i, a
		a.seed = int64(t.N)*16 + int64(i)
		wg.Add(1)
		go func() {
			defer func() { <-leave }()
			defer wg.Done()
			defer func() { a.pan = recoverKeep(recover()) }()
			rr := gen.New(a.seed, "C10-"+a.name, i)
			<-go1
			a.err = a.run(a, rr)
		}()
	}
	close(go1)
	wg.Wait()
	close(leave)
	for _, a := range as {
		if a.pan != nil {
			t.Fail("%s: %v", a.name, a.pan)
		}
		if a.err != "" {
			t.Fail("%s", a.err)
		}
		t.EvN("concurrent."+a.name, a.n)
	}
	t.Ev("concurrent.groups")
	t.NonTrivial(s.Name, raw, len(as))
	t.Sample(func() string { return fmt.Sprintf("%d goroutines on %s: %s", len(as), shape(s), clip(raw)) })
}

// editBoth edits two equal messages alike, at times beyond 64 KiB and back, and
// returns the encoding of the second one.
func editBoth(t *engine.T, m, twin adapt.Msg) []byte {
	r := t.R
	apply := func(o *op) {
		if o == nil {
			return
		}
		t.Logf("%s", o)
		o.apply(m)
		o.apply(twin)
	}
	blobs := fieldsOf(m.Schema(), isBlob)
	var big *wire.Field
	if len(blobs) > 0 && r.P(0.25) {
		big = blobs[r.Intn(len(blobs))]
		apply(&op{f: big, val: wire.Val{B: make([]byte, 66000)}})
		t.Ev("shared.grown")
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		apply(genOp(r, m, 60, 1, nil))
	}
	if big != nil && r.P(0.7) {
		apply(&op{f: big, val: wire.Val{B: r.FillBytes(r.Intn(20))}})
		t.Ev("shared.shrunk")
	}
	t.Ev("shared.edited")
	return cp(twin.Encode())
}

// recoverKeep keeps the stack of a goroutine's panic.
func recoverKeep(r interface{}) interface{} {
	if r == nil {
		return nil
	}
	buf := make([]byte, 4096)
	buf = buf[:runtime.Stack(buf, false)]
	return fmt.Sprintf("panic: %v\n%s", r, buf)
}
