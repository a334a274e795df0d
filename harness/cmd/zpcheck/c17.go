package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"

	"zpverif/bind"
	"zpverif/engine"
	"zpverif/protogen"
	"zpverif/wire"
)

var c17 = &engine.Check{
	ID:       "C17",
	Rule:     "random schema files (0 to 18 messages with 0 to 34 fields each, all kinds and labels, field numbers up to 70000, names chosen to collide with each other's accessors, the struct's methods and Go keywords, many repeated fields of one type, package names with dots, keywords and none) go through the generator; go build compiles every result; a driver program built around the compiled types binds each field's accessors by name and Go type, and, 200 cases per file, decodes random messages and applies random edits, comparing every accessor and the encoding (numbers and wire types by an independent tokenizer) with a reference model; non-trivial: a message with at least one field went through decode, edit and re-decode",
	Quick:    128,
	Thorough: 1600,
	Assumptions: []string{
		"messages have capitalized names, because other packages cannot use the types of the rest; all types are from the same file",
		"field numbers above 70000 are not compiled: the struct holds a table as large as the largest number",
	},
	Whole: wholeC17,
}

const c17batch = 64

func wholeC17(w *engine.Whole) {
	w.Res.Events["files"] = 0
	lo, hi := 0, w.Cases
	if w.Only >= 0 {
		lo = w.Only / bind.PerFile
		hi = lo + 1
	}
	for ; lo < hi && w.Res.Verdict == "held"; lo += c17batch {
		end := lo + c17batch
		if end > hi {
			end = hi
		}
		runBatch(w, lo, end)
	}
}

func violate(w *engine.Whole, n int, f string, a ...interface{}) {
	if w.Res.Verdict != "violation" {
		w.Res.Verdict, w.Res.Case, w.Res.Message = "violation", n, fmt.Sprintf(f, a...)
	}
}

func harnessError(w *engine.Whole, f string, a ...interface{}) {
	if w.Res.Verdict == "held" {
		w.Res.Verdict, w.Res.Message = "error", fmt.Sprintf(f, a...)
	}
}

// generateSafe turns a panic of the generator into an error.
func generateSafe(req *generate.CodeGeneratorRequest) (res *generate.CodeGeneratorResponse, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return generate.Generate(req)
}

// typesOf parses generated code and returns the struct types in it.
func typesOf(src string) (map[string]bool, string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return nil, "", err
	}
	out := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok {
			for _, s := range g.Specs {
				if t, ok := s.(*ast.TypeSpec); ok {
					if _, ok := t.Type.(*ast.StructType); ok {
						out[t.Name.Name] = true
					}
				}
			}
		}
	}
	return out, f.Name.Name, nil
}

func describeFile(f *protogen.File) string {
	var out []string
	for _, s := range f.Schemas {
		x := s.Name + " {"
		for _, fd := range s.Fields {
			k := fd.Kind.String()
			if fd.Kind == wire.Message {
				k = fd.Sub.Name
			}
			if fd.Repeated {
				k = "repeated " + k
			}
			x += fmt.Sprintf(" %s %s = %d;", k, fd.Name, fd.Num)
		}
		out = append(out, x+" }")
	}
	return fmt.Sprintf("file %q package %q: %s", f.Desc.GetName(), f.Desc.GetPackage(), strings.Join(out, " "))
}

var genLine = regexp.MustCompile(`(?m)^(?:\./)?gen/p(\d+)/[^:]+:\d+`)

func goRun(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS="+strings.Replace(os.Getenv("GOFLAGS"), "-mod=readonly", "-mod=mod", 1), "GOPROXY=off", "GOWORK=off")
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func runBatch(w *engine.Whole, lo, hi int) {
	dir := filepath.Join(w.Env.Scratch, fmt.Sprintf("c17-%d", lo))
	defer os.RemoveAll(dir)
	write := func(name, content string) bool {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(content), 0644); err != nil {
			harnessError(w, "%v", err)
			return false
		}
		return true
	}
	hmod, err := os.ReadFile(filepath.Join(engine.VerifDir(), "harness/go.mod"))
	hsum, err2 := os.ReadFile(filepath.Join(engine.VerifDir(), "harness/go.sum"))
	if err != nil || err2 != nil {
		harnessError(w, "%v %v", err, err2)
		return
	}
	mod := strings.Replace(string(hmod), "module zpverif", "module scratch", 1)
	mod += fmt.Sprintf("\nrequire zpverif v0.0.0\nreplace zpverif => %s\n", filepath.Join(engine.VerifDir(), "harness"))
	if !write("go.mod", mod) || !write("go.sum", string(hsum)) {
		return
	}
	var imports, regs []string
	for i := lo; i < hi; i++ {
		f := bind.Make(w.Env.Seed, i)
		n := i * bind.PerFile
		w.Res.Evaluations++
		w.Res.Events["files"]++
		req := &generate.CodeGeneratorRequest{FileToGenerate: []string{f.Desc.GetName()}, ProtoFile: []*generate.FileDescriptorProto{f.Desc}}
		res, err := generateSafe(proto.Clone(req).(*generate.CodeGeneratorRequest))
		if err != nil {
			violate(w, n, "the generator fails on a supported schema: %v\n%s", err, describeFile(f))
			return
		}
		if len(res.File) != 1 {
			violate(w, n, "%d files generated for %s", len(res.File), describeFile(f))
			return
		}
		types, pkg, err := typesOf(res.File[0].GetContent())
		if err != nil {
			violate(w, n, "the generated file is not valid Go: %v\n%s", err, describeFile(f))
			return
		}
		_ = pkg
		var tl []string
		for _, s := range f.Schemas {
			w.Res.Events["messages"]++
			w.Res.Events["fields"] += int64(len(s.Fields))
			if !types[s.Name] {
				violate(w, n, "no struct type is generated for message %s\n%s", s.Name, describeFile(f))
				return
			}
			tl = append(tl, fmt.Sprintf("%q: reflect.TypeOf(p%d.%s{})", s.Name, i, s.Name))
		}
		if !write(fmt.Sprintf("gen/p%d/generated.go", i), res.File[0].GetContent()) {
			return
		}
		alias := fmt.Sprintf("p%d", i)
		if len(tl) == 0 {
			alias = "_"
		}
		imports = append(imports, fmt.Sprintf("%s \"scratch/gen/p%d\"", alias, i))
		regs = append(regs, fmt.Sprintf("{N: %d, Types: map[string]reflect.Type{%s}},", i, strings.Join(tl, ", ")))
	}
	out, err := goRun(dir, "build", "-gcflags=-e", "./gen/...")
	if err != nil {
		var bad []int
		for _, m := range genLine.FindAllStringSubmatch(out, -1) {
			k, _ := strconv.Atoi(m[1])
			bad = append(bad, k)
		}
		if len(bad) == 0 {
			harnessError(w, "go build of the generated packages failed for another reason:\n%s", out)
			return
		}
		sort.Ints(bad)
		var lines []string
		for _, l := range strings.Split(out, "\n") {
			if strings.Contains(l, fmt.Sprintf("gen/p%d/", bad[0])) && len(lines) < 6 {
				lines = append(lines, l)
			}
		}
		violate(w, bad[0]*bind.PerFile, "the generated file does not compile:\n%s\n%s", strings.Join(lines, "\n"), describeFile(bind.Make(w.Env.Seed, bad[0])))
		return
	}
	w.Res.Events["files.compiled"] += int64(hi - lo)
	main := "package main\n\nimport (\n\"reflect\"\n\n\"zpverif/bind\"\n\"zpverif/engine\"\n\n" + strings.Join(imports, "\n") +
		"\n)\n\nvar _ reflect.Type\n\nfunc main() {\nengine.Main([]*engine.Check{bind.Check([]bind.Pkg{\n" + strings.Join(regs, "\n") + "\n})})\n}\n"
	if !write("main.go", main) {
		return
	}
	bin := filepath.Join(dir, "driver")
	if out, err := goRun(dir, "build", "-gcflags=github.com/danhhz/zeropb/...=-d=checkptr", "-o", bin, "."); err != nil {
		harnessError(w, "building the driver: %s", out)
		return
	}
	a, b := lo*bind.PerFile, hi*bind.PerFile
	if w.Only >= 0 {
		a, b = w.Only, w.Only+1
	}
	r := bind.Check(nil).Exec(bin, engine.Std, w.Env, a, b)
	w.Res.Add(r, "driver")
}
