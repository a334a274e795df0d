package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"

	"zpverif/engine"
	"zpverif/gen"
	"zpverif/protogen"
)

var c19 = &engine.Check{
	ID:       "C19",
	Rule:     "the two programs are built from the tree and run as processes, each case on one input: valid requests (up to hundreds of kilobytes, fed in one piece or dribbled), empty ones, requests with unknown fields, truncated, bit-flipped, spliced and random ones, requests for schemas the generator cannot handle, unreadable standard input, and standard output or error that is full, closed or cut off in the middle; monitors compare the exit status, all bytes of stdout and stderr with what the generator library and the protobuf library say in-process; real protoc runs too, where there is one; non-trivial: the program ran to its end and its outputs were compared",
	Quick:    14000,
	Thorough: 90000,
	Assumptions: []string{
		"golang/protobuf decides what a valid request is; it and the generator library called in-process are the reference for the programs",
		"an output stream that fails does so from its first byte (/dev/full, a pipe nobody reads) or after a number of bytes (a pipe whose reader goes away)",
	},
	Setup: setupC19,
	Need:  []string{"zeropb.ok", "zeropb.refused", "zeropb.unsupported", "zeropb.full", "zeropb.closed-pipe", "zeropb.cut-pipe", "text.cut-pipe", "zeropb.stdin-unreadable", "text.ok", "text.refused", "text.full", "text.stdin-unreadable"},
	Run:   runC19,
}

var plugZero, plugText string

func setupC19(env *engine.Env) error {
	dir, err := os.MkdirTemp(env.Scratch, "c19-")
	if err != nil {
		return err
	}
	for _, n := range []string{"protoc-gen-zeropb", "protoc-gen-text"} {
		cmd := exec.Command("go", "build", "-o", filepath.Join(dir, n), "github.com/danhhz/zeropb/cmd/"+n)
		cmd.Dir = filepath.Join(engine.VerifDir(), "harness")
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("building %s: %s", n, out)
		}
	}
	plugZero, plugText = filepath.Join(dir, "protoc-gen-zeropb"), filepath.Join(dir, "protoc-gen-text")
	return nil
}

// trickle feeds stdin in small pieces.
type trickle struct {
	b []byte
	r *gen.Rng
}

func (s *trickle) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + s.r.Intn(700)
	if n > len(s.b) {
		n = len(s.b)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.r.P(0.1) {
		time.Sleep(time.Duration(s.r.Intn(300)) * time.Microsecond)
	}
	return n, nil
}

type runResult struct {
	code     int // -1: by a signal
	out, err []byte
}

// cutRoom is more than what fits into the pipe to a reader that is gone.
const cutRoom = 16384

// badStream draws a way for an output stream of total bytes to fail.
func badStream(r *gen.Rng, total int) string {
	if total > cutRoom+4096 && r.P(0.6) {
		return fmt.Sprintf("cut%d", r.Intn(total-cutRoom-4096))
	}
	return []string{"full", "closed"}[r.Intn(2)]
}

// run executes a program. stdout and stderr are "", "full", "closed" or "cut"
// with a number of bytes.
func runPlugin(t *engine.T, bin string, stdin io.Reader, stdout, stderr string) runResult {
	cmd := exec.Command(bin)
	cmd.Dir = t.Env.Scratch
	cmd.Stdin = stdin
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=single"}
	var ob, eb bytes.Buffer
	open := func(kind string, buf *bytes.Buffer) (io.Writer, func()) {
		if n, err := strconv.Atoi(strings.TrimPrefix(kind, "cut")); err == nil {
			// Whoever reads this stops after n bytes.
			pr, pw, err := os.Pipe()
			if err != nil {
				panic("harness: " + err.Error())
			}
			if sz, _, e := syscall.Syscall(syscall.SYS_FCNTL, pw.Fd(), 1031 /* F_SETPIPE_SZ */, 4096); e != 0 || sz > cutRoom {
				panic("harness: cannot make a small pipe")
			}
			gone := make(chan struct{})
			go func() {
				io.CopyN(ioutil.Discard, pr, int64(n))
				pr.Close()
				close(gone)
			}()
			return pw, func() { pw.Close(); <-gone }
		}
		switch kind {
		case "full":
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return f, func() { f.Close() }
		case "closed":
			// No fork in between: for a moment the child of another worker
			// would have the reading end as well.
			syscall.ForkLock.RLock()
			pr, pw, err := os.Pipe()
			if err != nil {
				panic("harness: " + err.Error())
			}
			pr.Close()
			syscall.ForkLock.RUnlock()
			return pw, func() { pw.Close() }
		}
		return buf, func() {}
	}
	var c1, c2 func()
	cmd.Stdout, c1 = open(stdout, &ob)
	cmd.Stderr, c2 = open(stderr, &eb)
	defer c1()
	defer c2()
	if err := cmd.Start(); err != nil {
		panic("harness: cannot start the plugin: " + err.Error())
	}
	tm := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !tm.Stop() {
		t.Fail("%s does not terminate", filepath.Base(bin))
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok && cmd.ProcessState == nil {
		panic("harness: " + err.Error())
	}
	return runResult{cmd.ProcessState.ExitCode(), ob.Bytes(), eb.Bytes()}
}

// input makes the bytes for standard input.
func inputC19(t *engine.T) []byte {
	r := t.R
	req, files := protogen.Request(r, r.Intn(4))
	switch r.Intn(12) {
	case 0:
		return nil
	case 1: // something the generator cannot handle
		if len(files) > 0 {
			bad := protogen.New(r, protogen.Opts{Name: "unsupported.proto", Messages: 1 + r.Intn(2), Unrelated: true})
			if r.P(0.3) {
				typ := generate.FieldDescriptorProto_Type(19 + r.Intn(5))
				bad.Desc.MessageType[len(bad.Desc.MessageType)-1].Field[0].Type = &typ
			}
			req.ProtoFile = append(req.ProtoFile, bad.Desc)
			req.FileToGenerate = append(req.FileToGenerate, bad.Desc.GetName())
		}
	case 2: // large
		for i := 0; i < 3; i++ {
			c := strings.Repeat("a comment ", 2000+r.Intn(8000))
			f := req.ProtoFile
			if len(f) > 0 {
				f[0].SourceCodeInfo = &generate.SourceCodeInfo{Location: []*generate.SourceCodeInfo_Location{{Path: []int32{4}, Span: []int32{1, 1, 1}, LeadingComments: &c}}}
			}
		}
		for i := 0; i < 6; i++ {
			f := protogen.New(r, protogen.Opts{Name: fmt.Sprintf("large/%d.proto", i), Messages: 20})
			req.ProtoFile = append(req.ProtoFile, f.Desc)
			req.FileToGenerate = append(req.FileToGenerate, f.Desc.GetName())
		}
	}
	huge := r.P(0.001) && len(req.ProtoFile) > 0
	if huge { // what protoc sends for thousands of files
		c := strings.Repeat("many a comment ", (9<<20)/15+r.Intn(1<<20))
		req.ProtoFile[0].SourceCodeInfo = &generate.SourceCodeInfo{Location: []*generate.SourceCodeInfo_Location{{Path: []int32{4}, Span: []int32{1, 1, 1}, LeadingComments: &c}}}
		t.Ev("request.huge")
	}
	b, err := proto.Marshal(req)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if huge {
		return b
	}
	switch r.Intn(10) {
	case 0:
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	case 1:
		for k := 1 + r.Intn(4); k > 0 && len(b) > 0; k-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	case 2:
		b = append(b, r.FillBytes(1+r.Intn(12))...)
	case 3:
		b = r.FillBytes(r.Intn(60))
	case 4: // a newer protoc
		b = append(b, 0xf2, 0x2e, 0x02, 'h', 'i', 0x88, 0x27, 0x2a)
	case 5:
		if len(b) > 4 {
			i := r.Intn(len(b))
			j := i + r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		}
	}
	return b
}

func clipText(b []byte) string {
	if len(b) > 300 {
		b = b[:300]
	}
	return fmt.Sprintf("%q", b)
}

func runC19(t *engine.T) {
	r := t.R
	if t.N < 4 {
		realProtoc(t)
	}
	in := inputC19(t)
	t.Logf("stdin: %d bytes %s", len(in), clip(in))
	var stdin io.Reader = bytes.NewReader(in)
	if r.P(0.3) {
		stdin = &trickle{in, gen.New(t.Env.Seed, "C19-trickle", t.N)}
	}
	var req generate.CodeGeneratorRequest
	valid := proto.Unmarshal(in, &req) == nil
	text := r.P(0.35)
	unreadable := r.P(0.03)
	if unreadable {
		d, err := os.Open(t.Env.Scratch)
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer d.Close()
		stdin, valid = d, false
	}
	if text {
		runText(t, stdin, &req, valid, unreadable)
	} else {
		runZero(t, stdin, &req, valid, unreadable)
	}
	t.NonTrivial(in, text, unreadable)
	t.Sample(func() string {
		return fmt.Sprintf("text plugin %v, %d bytes on stdin, valid %v, files %q", text, len(in), valid, req.FileToGenerate)
	})
}

func runZero(t *engine.T, stdin io.Reader, req *generate.CodeGeneratorRequest, valid, unreadable bool) {
	var want *generate.CodeGeneratorResponse
	var wantBytes []byte
	ok := valid
	if valid {
		var err error
		if want, err = generateSafe(proto.Clone(req).(*generate.CodeGeneratorRequest)); err != nil {
			ok = false
		} else if wantBytes, err = proto.Marshal(want); err != nil {
			ok = false
		}
	}
	outKind := ""
	if ok && len(wantBytes) > 0 && t.R.P(0.12) {
		outKind = badStream(t.R, len(wantBytes))
	}
	res := runPlugin(t, plugZero, stdin, outKind, "")
	switch {
	case outKind != "":
		if res.code == 0 {
			t.Fail("the response could not be written (standard output %s) and the plugin exits with status 0", outKind)
		}
		if res.code > 0 && len(res.err) == 0 {
			t.Fail("the response could not be written (standard output %s) and the plugin says nothing", outKind)
		}
		switch outKind {
		case "full":
			t.Ev("zeropb.full")
		case "closed":
			t.Ev("zeropb.closed-pipe")
		default:
			t.Ev("zeropb.cut-pipe")
		}
	case !ok:
		what := "input that is not a valid request"
		if valid {
			what = "a request for what the generator cannot handle"
		}
		if res.code == 0 {
			t.Fail("the plugin exits with status 0 on %s", what)
		}
		if len(res.out) != 0 {
			t.Fail("the plugin writes %s to standard output on %s", clipText(res.out), what)
		}
		if len(res.err) == 0 {
			t.Fail("the plugin explains nothing on standard error on %s", what)
		}
		switch {
		case unreadable:
			t.Ev("zeropb.stdin-unreadable")
		case valid:
			t.Ev("zeropb.unsupported")
		default:
			t.Ev("zeropb.refused")
		}
	default:
		if res.code != 0 {
			t.Fail("the plugin exits with status %d on a valid request: %s", res.code, clipText(res.err))
		}
		var got generate.CodeGeneratorResponse
		if err := proto.Unmarshal(res.out, &got); err != nil {
			t.Fail("standard output is not a serialized response: %v", err)
		}
		if !proto.Equal(&got, want) || len(res.out) != len(wantBytes) {
			t.Fail("standard output holds %d bytes, a response with files %q; the generator's response is %d bytes, files %q", len(res.out), names(&got), len(wantBytes), names(want))
		}
		t.Ev("zeropb.ok")
		t.EvN("zeropb.files", len(want.File))
	}
}

func runText(t *engine.T, stdin io.Reader, req *generate.CodeGeneratorRequest, valid, unreadable bool) {
	// Is there a text form that can be read back (there is none of unknown
	// fields)?
	back := false
	size := 0
	if valid {
		var req2 generate.CodeGeneratorRequest
		s := proto.MarshalTextString(req)
		back = proto.UnmarshalText(s, &req2) == nil && proto.Equal(req, &req2)
		size = len(s)
	}
	errKind := ""
	if valid && size > 0 && t.R.P(0.12) {
		errKind = badStream(t.R, size)
	}
	res := runPlugin(t, plugText, stdin, "", errKind)
	if len(res.out) != 0 {
		t.Fail("the text plugin writes %s to standard output, where protoc expects a response", clipText(res.out))
	}
	switch {
	case errKind != "":
		if res.code == 0 {
			t.Fail("the text could not be written (standard error %s) and the text plugin exits with status 0", errKind)
		}
		if strings.HasPrefix(errKind, "cut") {
			errKind = "cut-pipe"
		}
		t.Ev("text." + errKind)
	case !valid:
		if res.code == 0 {
			t.Fail("the text plugin exits with status 0 on input that is not a valid request")
		}
		if len(res.err) == 0 {
			t.Fail("the text plugin explains nothing on input that is not a valid request")
		}
		if unreadable {
			t.Ev("text.stdin-unreadable")
		} else {
			t.Ev("text.refused")
		}
	default:
		if res.code != 0 {
			t.Fail("the text plugin exits with status %d on a valid request: %s", res.code, clipText(res.err))
		}
		if back {
			var got generate.CodeGeneratorRequest
			if err := proto.UnmarshalText(string(res.err), &got); err != nil {
				t.Fail("the text form cannot be parsed: %v", err)
			}
			if !proto.Equal(&got, req) {
				t.Fail("the text form parses to another request")
			}
			t.Ev("text.parsed-back")
		}
		t.Ev("text.ok")
	}
}

// realProtoc runs the plugins under protoc on the schemas in the repository.
func realProtoc(t *engine.T) {
	protoc, err := exec.LookPath("protoc")
	if err != nil {
		t.Ev("protoc.missing")
		return
	}
	file := []string{"golden/test.proto", "golden/raft.proto", "generate/plugin.proto", "generate/descriptor.proto"}[t.N%4]
	src, err := os.ReadFile(filepath.Join("/repo", file))
	if err != nil {
		t.Ev("protoc.no-schema")
		return
	}
	dir, err := os.MkdirTemp(t.Env.Scratch, "protoc-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	name := filepath.Base(file)
	if name == "descriptor.proto" {
		name = "d.proto.descriptor.proto"
	}
	os.WriteFile(filepath.Join(dir, name), src, 0644)
	if file == "generate/plugin.proto" {
		return // needs its import
	}
	run := func(args ...string) (string, error) {
		cmd := exec.Command(protoc, args...)
		cmd.Dir = dir
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		return errb.String(), err
	}
	txt, err := run("--plugin=protoc-gen-text="+plugText, "--text_out=.", name)
	if err != nil {
		// protoc itself may not like the schema.
		if _, e := run("-o", "x.bin", name); e != nil {
			t.Ev("protoc.refuses-schema")
			return
		}
		t.Fail("protoc with the text plugin on %s: %v: %s", file, err, clipText([]byte(txt)))
	}
	if i := strings.Index(txt, "file_to_generate"); i > 0 {
		txt = txt[i:] // after protoc's own warnings
	}
	out, err := run("--plugin=protoc-gen-zeropb="+plugZero, "--zeropb_out=.", name)
	if err != nil {
		t.Fail("protoc with the zeropb plugin on %s: %v: %s", file, err, clipText([]byte(out)))
	}
	got, err := os.ReadFile(filepath.Join(dir, strings.TrimSuffix(name, ".proto")+".zeropb.go"))
	if err != nil {
		t.Fail("protoc with the zeropb plugin on %s: %v", file, err)
	}
	t.Ev("protoc.runs")
	var req generate.CodeGeneratorRequest
	if proto.UnmarshalText(txt, &req) != nil {
		t.Ev("protoc.text-not-parsed") // unknown fields of a newer protoc
		return
	}
	res, err := generateSafe(&req)
	if err != nil || len(res.File) != 1 || res.File[0].GetContent() != string(got) {
		t.Fail("the file protoc wrote for %s is not what the generator returns for its request", file)
	}
	t.Ev("protoc.compared")
}
