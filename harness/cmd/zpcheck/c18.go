package main

import (
	"bytes"
	"fmt"
	"go/token"
	"sort"
	"strings"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"

	"zpverif/engine"
	"zpverif/gen"
	"zpverif/protogen"
)

var c18 = &engine.Check{
	ID:       "C18",
	Rule:     "random requests of 0 to 6 requested files and 0 to 3 dependencies (which may use what the generator does not support), in random order, with names that hold .proto in other places, directories and repeated requests; each is generated several times, alone, shuffled, re-serialized and after unrelated requests, and a monitor compares names, number, order and contents of the files and the request before and after; contents are parsed as Go and their struct types compared with the messages; non-trivial: at least one file was requested",
	Quick:    8000,
	Thorough: 110000,
	Assumptions: []string{
		"every requested file is in the request and no two have one name, as the plugin protocol says",
	},
	Need: []string{"requests.of-many", "files", "alone", "repeat", "shuffled", "deps"},
	Run:  runC18,
}

func genReq(t *engine.T, req *generate.CodeGeneratorRequest) *generate.CodeGeneratorResponse {
	before := proto.Clone(req)
	raw, err := proto.Marshal(req)
	if err != nil {
		panic("harness: " + err.Error())
	}
	res, err := generate.Generate(req)
	if err != nil {
		t.Fail("Generate fails: %v", err)
	}
	raw2, err := proto.Marshal(req)
	if err != nil || !proto.Equal(before, req) || !bytes.Equal(raw, raw2) {
		t.Fail("Generate modified the request")
	}
	t.Ev("monitor.request-unmodified")
	return res
}

func byName(t *engine.T, res *generate.CodeGeneratorResponse) map[string]string {
	out := map[string]string{}
	for _, f := range res.File {
		if f == nil || f.Name == nil {
			t.Fail("a file without name in the response")
		}
		if _, dup := out[f.GetName()]; dup {
			t.Fail("two files named %q in the response", f.GetName())
		}
		if f.InsertionPoint != nil {
			t.Fail("file %q has an insertion point", f.GetName())
		}
		out[f.GetName()] = f.GetContent()
	}
	if res.GetError() != "" {
		t.Fail("the response reports the error %q", res.GetError())
	}
	return out
}

func keysOf(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sameFiles(t *engine.T, what string, got, want map[string]string) {
	if g, w := keysOf(got), keysOf(want); strings.Join(g, "\n") != strings.Join(w, "\n") {
		t.Fail("%s: files %q, want %q", what, g, w)
	}
	for k, w := range want {
		if g := got[k]; g != w {
			t.Fail("%s: the contents of %q differ: %s", what, k, lineDiff(g, w))
		}
	}
}

func lineDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "<end>", "<end>"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d is %q in one and %q in the other", i+1, p, q)
		}
	}
	return "same"
}

func runC18(t *engine.T) {
	r := t.R
	n := r.Intn(7)
	if r.P(0.003) {
		n = 60 + r.Intn(240)
		t.Ev("requests.of-many")
	}
	req, files := protogen.Request(r, n)
	if r.P(0.2) && len(files) > 0 { // asking twice is asking once
		req.FileToGenerate = append(req.FileToGenerate, req.FileToGenerate[r.Intn(len(req.FileToGenerate))])
		t.Ev("requested.twice")
	}
	t.Logf("requested %q of %d files", req.FileToGenerate, len(req.ProtoFile))
	res := genReq(t, req)
	got := byName(t, res)
	t.Ev("requests")
	t.EvN("files", len(files))
	t.EvN("deps", len(req.ProtoFile)-len(files))
	// Exactly the requested ones, by name.
	want := map[string]*protogen.File{}
	for _, f := range files {
		n := f.Desc.GetName()
		want[strings.TrimSuffix(n, ".proto")+".zeropb.go"] = f
	}
	for n := range want {
		if _, ok := got[n]; !ok {
			t.Fail("no file %q in the response (it has %q) for the requested %q", n, keysOf(got), req.FileToGenerate)
		}
	}
	for n := range got {
		if want[n] == nil {
			t.Fail("unexpected file %q in the response, requested were %q", n, req.FileToGenerate)
		}
	}
	// The contents are for that file.
	pkgs := map[string]bool{}
	for n, f := range want {
		types, pkg, err := typesOf(got[n])
		if err != nil {
			t.Fail("file %q is not valid Go: %v", n, err)
		}
		pkgs[pkg] = true
		if p := f.Desc.GetPackage(); token.IsIdentifier(p) && p != "_" && f.Desc.Options == nil && pkg != p {
			t.Fail("file %q is in package %s, its proto package is %s", n, pkg, p)
		}
		for _, s := range f.Schemas {
			if !types[s.Name] {
				t.Fail("file %q has no struct type for message %s", n, s.Name)
			}
		}
		if len(types) != len(f.Schemas) {
			t.Fail("file %q has %d struct types for %d messages", n, len(types), len(f.Schemas))
		}
		t.Ev("monitor.contents")
	}
	// Again: the same, in the same order.
	first, _ := proto.Marshal(res)
	for k := 0; k < 4; k++ {
		if k == 2 {
			other, _ := protogen.Request(gen.New(t.Env.Seed, "C18-other", t.N), 2)
			genReq(t, other)
			t.Ev("interleaved")
		}
		again := genReq(t, req)
		b, _ := proto.Marshal(again)
		if !bytes.Equal(b, first) {
			sameFiles(t, "generating again", byName(t, again), got)
			t.Fail("generating again gives the files in another order: %q", names(again))
		}
		t.Ev("repeat")
	}
	// From the serialized request, as the plugin gets it.
	raw, _ := proto.Marshal(req)
	var req2 generate.CodeGeneratorRequest
	if err := proto.Unmarshal(raw, &req2); err != nil {
		panic("harness: " + err.Error())
	}
	b, _ := proto.Marshal(genReq(t, &req2))
	if !bytes.Equal(b, first) {
		t.Fail("the serialized and re-read request gives another response")
	}
	// In other company.
	for n, f := range want {
		alone := &generate.CodeGeneratorRequest{FileToGenerate: []string{f.Desc.GetName()}, ProtoFile: []*generate.FileDescriptorProto{f.Desc}}
		sameFiles(t, "generated alone", byName(t, genReq(t, alone)), map[string]string{n: got[n]})
		t.Ev("alone")
	}
	sh := proto.Clone(req).(*generate.CodeGeneratorRequest)
	r.Shuffle(len(sh.FileToGenerate), func(i, j int) {
		sh.FileToGenerate[i], sh.FileToGenerate[j] = sh.FileToGenerate[j], sh.FileToGenerate[i]
	})
	r.Shuffle(len(sh.ProtoFile), func(i, j int) { sh.ProtoFile[i], sh.ProtoFile[j] = sh.ProtoFile[j], sh.ProtoFile[i] })
	sameFiles(t, "files shuffled", byName(t, genReq(t, sh)), got)
	t.Ev("shuffled")
	if len(files) > 1 { // ask for some only: the others become dependencies
		some := proto.Clone(req).(*generate.CodeGeneratorRequest)
		some.FileToGenerate = nil
		sub := map[string]string{}
		for n, f := range want {
			if r.P(0.5) {
				some.FileToGenerate = append(some.FileToGenerate, f.Desc.GetName())
				sub[n] = got[n]
			}
		}
		sameFiles(t, "some of the files", byName(t, genReq(t, some)), sub)
		t.Ev("subset")
	}
	if len(files) > 0 {
		t.NonTrivial(raw)
	}
	t.Sample(func() string {
		return fmt.Sprintf("requested %q of %d files: %q", req.FileToGenerate, len(req.ProtoFile), names(res))
	})
}

func names(res *generate.CodeGeneratorResponse) []string {
	var out []string
	for _, f := range res.File {
		out = append(out, f.GetName())
	}
	return out
}
