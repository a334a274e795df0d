package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/danhhz/zeropb/generate"

	"zpverif/engine"
)

var c22 = &engine.Check{
	ID:       "C22",
	Rule:     "random sequences of Write calls with random arguments (text, bytes, numbers, enums and other Stringers, indents) on a StringTree over a sound writer, or one that fails once, for a while or for good, at a random point, before, in the middle of or after taking the bytes; a monitor compares what reached the writer with the concatenation, and Error with the first failure, after every call; non-trivial: something was written",
	Quick:    400000,
	Thorough: 24000000,
	Need:     []string{"sound", "failed", "failed.mid-call", "recovered-writer", "arg.indent", "arg.deep-indent", "arg.int32", "arg.stringer", "arg.bytes", "arg.string", "after-failure"},
	Assumptions: []string{
		"the writer keeps the contract of io.Writer: it returns an error when it takes less than it is given",
	},
	Run: runC22,
}

// flaky is a writer that fails for some bytes.
type flaky struct {
	got      []byte
	calls    int
	failAt   int // byte position at which it starts to fail, -1: never
	failures int // how many calls fail, -1: all that follow
	partial  bool
	first    error // the first error it returned
	seen     int   // bytes taken up to then
	n        int   // how many errors
}

func (w *flaky) Write(p []byte) (int, error) {
	w.calls++
	if w.failAt >= 0 && len(w.got)+len(p) > w.failAt && (w.failures < 0 || w.n < w.failures) {
		k := 0
		if w.partial {
			k = w.failAt - len(w.got)
			if k < 0 {
				k = 0
			}
		}
		w.got = append(w.got, p[:k]...)
		w.n++
		err := fmt.Errorf("failure %d at byte %d", w.n, len(w.got))
		if w.n%3 == 0 {
			err = io.ErrShortWrite
		}
		if w.first == nil {
			w.first, w.seen = err, len(w.got)
		}
		return k, err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

type named string

func (n named) String() string { return "<" + string(n) + ">" }

type blob []byte

func (b blob) String() string { return strconv.Itoa(len(b)) }

type counter struct{ n int }

func (c *counter) String() string { c.n++; return "c" + strconv.Itoa(c.n) }

func runC22(t *engine.T) {
	r := t.R
	indents := []string{"  ", "\t", "", " ", "ab", "\u4e16", strings.Repeat("x", 50)}
	unit := indents[r.Intn(len(indents))]
	w := &flaky{failAt: -1}
	if r.P(0.5) {
		w.failAt, w.failures, w.partial = r.Len(600), -1, r.P(0.5)
		if r.P(0.5) {
			w.failures = 1 + r.Intn(3)
		}
	}
	st := generate.NewStringTree(w, unit)
	if err := st.Error(); err != nil {
		t.Fail("a new StringTree has the error %v", err)
	}
	var want []byte
	cnt := &counter{}
	calls := 1 + r.Intn(12)
	ind := generate.StringTreeIndent(0)
	for c := 0; c < calls; c++ {
		args := make([]interface{}, r.Len(12))
		var keep [][]byte
		before := w.first
		pieces := 0
		n0 := cnt.n
		for i := range args {
			var s string
			switch r.Intn(9) {
			case 0:
				if r.P(0.3) {
					ind = generate.StringTreeIndent(r.Len(40))
				}
				if r.P(0.02) {
					ind = generate.StringTreeIndent(r.Pick(127, 128, 255, 256, 300))
					if len(unit) <= 1 && r.P(0.1) {
						ind = generate.StringTreeIndent(r.Pick(32767, 32768, 65535, 65536, 70000))
					}
					t.Ev("arg.deep-indent")
				}
				if r.P(0.3) {
					x := ind.Next()
					if int(x) != int(ind)+1 {
						t.Fail("the indent after %d is %d", ind, x)
					}
					ind = x
				}
				args[i], s = ind, strings.Repeat(unit, int(ind))
				t.Ev("arg.indent")
			case 1:
				b := r.FillBytes(r.Len(300))
				if r.P(0.02) {
					b = nil
				}
				args[i], s = b, string(b)
				t.Ev("arg.bytes")
			case 2:
				x := int32(r.Bits())
				args[i], s = x, fmt.Sprint(x)
				t.Ev("arg.int32")
			case 3:
				x := generate.FieldDescriptorProto_Type(r.Intn(22) - 1)
				args[i], s = x, x.String()
				t.Ev("arg.stringer")
			case 4:
				x := named(r.FillBytes(r.Len(20)))
				args[i], s = x, "<"+string(x)+">"
				t.Ev("arg.stringer")
			case 5:
				x := blob(r.FillBytes(r.Len(20)))
				args[i], s = x, strconv.Itoa(len(x))
				t.Ev("arg.stringer")
			case 6:
				if w.failAt < 0 { // how often it is asked once writing has failed is not promised
					n0++
					args[i], s = cnt, "c"+strconv.Itoa(n0)
					t.Ev("arg.stringer-once")
					break
				}
				fallthrough
			default:
				s = string(r.FillBytes(r.Len(100)))
				if r.P(0.3) {
					s = []string{"", "\n", "%d%s", "func (m *", "0", "é"}[r.Intn(6)]
				}
				args[i] = s
				t.Ev("arg.string")
			}
			if b, ok := args[i].([]byte); ok {
				keep = append(keep, cp(b))
			}
			want = append(want, s...)
			if s != "" {
				pieces++
			}
		}
		t.Logf("Write %q", args)
		st.Write(args...)
		for i, k := 0, 0; i < len(args); i++ {
			if b, ok := args[i].([]byte); ok {
				if !bytes.Equal(b, keep[k]) {
					t.Fail("Write modified its argument %d", i)
				}
				k++
			}
		}
		if w.first == nil {
			if err := st.Error(); err != nil {
				t.Fail("Error is %v, but nothing has failed", err)
			}
			if !bytes.Equal(w.got, want) {
				t.Fail("%q was written, want %q", w.got, want)
			}
			if n0 != cnt.n {
				t.Fail("a Stringer was asked %d times, want %d", cnt.n, n0)
			}
			continue
		}
		if err := st.Error(); err == nil || err != w.first && !errors.Is(err, w.first) {
			t.Fail("Error is %v, but the first failure was %v", err, w.first)
		}
		if len(w.got) != w.seen {
			t.Fail("%q was written after a failure", w.got[w.seen:])
		}
		if !bytes.HasPrefix(want, w.got) {
			t.Fail("%q was written before the failure, want a beginning of %q", w.got, want)
		}
		if before == nil {
			t.Ev("failed")
			if pieces > 1 {
				t.Ev("failed.mid-call")
			}
			if w.failures > 0 {
				t.Ev("recovered-writer")
			}
		} else if pieces > 0 {
			t.Ev("after-failure")
		}
	}
	if w.failAt < 0 {
		t.Ev("sound")
	}
	if len(want) > 0 {
		t.NonTrivial(want, w.failAt, w.failures, w.partial, calls)
		t.Sample(func() string {
			return fmt.Sprintf("%d calls, %d bytes wanted, %d written, error %v", calls, len(want), len(w.got), w.first)
		})
	}
}
