// Package protogen generates protobuf schema files: descriptors as protoc hands
// them to plugins, and the reference schemas of their messages.
package protogen

import (
	"fmt"
	"strings"

	"github.com/danhhz/zeropb/generate"

	"zpverif/gen"
	"zpverif/wire"
)

// File is a generated schema file.
type File struct {
	Desc    *generate.FileDescriptorProto
	Schemas []*wire.Schema // one per message, in order
}

// Opts shapes a file.
type Opts struct {
	Name      string // file name
	Messages  int    // how many; negative: random
	BigNums   bool   // allow field numbers up to 70000
	Unrelated bool   // put in things the generator does not support
}

func str(s string) *string { return &s }
func i32(n int) *int32     { x := int32(n); return &x }

var (
	words = []string{"foo", "bar", "baz", "type", "id", "a", "b", "x", "m", "i", "buf", "offsets", "range", "func", "map", "string", "int", "err", "len",
		"next", "encode", "decode", "reset", "set", "get", "append", "to", "zeropb", "error", "unsafe", "init", "main", "nil", "true", "1", "2", "3d"}
	msgNames = []string{"A", "B", "C", "AB", "BC", "ABC", "Foo", "Bar", "FooBar", "Foo_Bar", "BarIterator", "FooBarIterator", "FooIterator", "ABIterator",
		"AAIterator", "ABCIterator", "M", "X", "I", "Message", "Iterator", "Offsets", "Decode", "Encode", "Reset", "RepeatedFields", "Bytes", "String", "Next", "T1", "T2_", "FooXBarIterator",
		"HTTPRequest", "Entry", "A_", "B_C", "X_1"}
	packages = []string{"", "", "foo", "foo.bar", "foo.bar.v1", "a", "type", "func", "map.range", "zeropb", "string", "x_y", "_x", "x1", "int", "go", "package", "select",
		"error", "a.b.c.d.e", "Upper", "camelCase", "fallthrough", "foo.type", "unsafe", "github.com", "nil", "byte", "_1", "default", "defer.go", "_", "__", "_._", "X9", "proto", "pb", "v1", "test", "generate"}
	kindTypes = map[wire.Kind]generate.FieldDescriptorProto_Type{
		wire.Bool: generate.FieldDescriptorProto_TYPE_BOOL, wire.Int32: generate.FieldDescriptorProto_TYPE_INT32, wire.Int64: generate.FieldDescriptorProto_TYPE_INT64,
		wire.Uint32: generate.FieldDescriptorProto_TYPE_UINT32, wire.Uint64: generate.FieldDescriptorProto_TYPE_UINT64, wire.Sint32: generate.FieldDescriptorProto_TYPE_SINT32,
		wire.Sint64: generate.FieldDescriptorProto_TYPE_SINT64, wire.Fixed32: generate.FieldDescriptorProto_TYPE_FIXED32, wire.Fixed64: generate.FieldDescriptorProto_TYPE_FIXED64,
		wire.Sfixed32: generate.FieldDescriptorProto_TYPE_SFIXED32, wire.Sfixed64: generate.FieldDescriptorProto_TYPE_SFIXED64, wire.Double: generate.FieldDescriptorProto_TYPE_DOUBLE,
		wire.Float: generate.FieldDescriptorProto_TYPE_FLOAT, wire.String: generate.FieldDescriptorProto_TYPE_STRING, wire.Bytes: generate.FieldDescriptorProto_TYPE_BYTES,
		wire.Enum: generate.FieldDescriptorProto_TYPE_ENUM, wire.Message: generate.FieldDescriptorProto_TYPE_MESSAGE,
	}
)

// fieldName makes a legal field name, close to the ones before it.
func fieldName(r *gen.Rng, prev []string) string {
	var n string
	switch x := r.Intn(20); {
	case x < 3 && len(prev) > 0:
		n = []string{"set_", "append_to_", "append_", "set", "AppendTo", "_", "Set"}[r.Intn(7)] + prev[r.Intn(len(prev))]
	case x < 5 && len(prev) > 0:
		n = prev[r.Intn(len(prev))] + []string{"_", "__", "_1", "1", "_x"}[r.Intn(5)]
	case x < 7 && len(prev) > 0: // the same accessor, spelled differently
		p := prev[r.Intn(len(prev))]
		var b strings.Builder
		up := false
		for i, c := range p {
			if c == '_' {
				up = true
				if r.P(0.3) {
					b.WriteRune('_')
				}
				continue
			}
			if up && i > 0 {
				if r.P(0.5) {
					b.WriteRune('_')
				} else {
					c = []rune(strings.ToUpper(string(c)))[0]
				}
			} else if i == 0 && r.P(0.5) {
				c = []rune(strings.ToUpper(string(c)))[0]
			}
			up = false
			b.WriteRune(c)
		}
		n = b.String()
	case x == 7:
		n = []string{"_", "__", "_1", "_2x", "___3", "encode", "Decode", "RESET", "reset_", "decode_", "_encode"}[r.Intn(11)]
	default:
		k := 1 + r.Intn(3)
		style := r.Intn(3)
		for i := 0; i < k; i++ {
			w := words[r.Intn(len(words))]
			switch {
			case style == 1:
				if i > 0 {
					w = strings.Title(w)
				}
			case style == 2:
				w = strings.ToUpper(w)
				fallthrough
			default:
				if i > 0 {
					w = "_" + w
				}
			}
			n += w
		}
	}
	if n == "" || n[0] >= '0' && n[0] <= '9' {
		n = "_" + n
	}
	return n
}

func fieldNum(r *gen.Rng, big bool) int {
	switch x := r.Intn(100); {
	case x < 70:
		return 1 + r.Intn(20)
	case x < 90:
		return r.Pick(15, 16, 17, 31, 63, 64, 99, 100, 127, 128, 200, 255, 256)
	case !big || x < 97:
		return r.Pick(257, 1000, 2047, 2048, 2049, 3000)
	}
	return r.Pick(16383, 16384, 18999, 20000, 32767, 32768, 65535, 65536, 70000)
}

// New makes a file whose messages are all in the supported subset.
func New(r *gen.Rng, o Opts) *File {
	f := &File{Desc: &generate.FileDescriptorProto{Name: str(o.Name)}}
	d := f.Desc
	pkg := packages[r.Intn(len(packages))]
	if r.P(0.2) {
		pkg = "" // named after the file
	}
	if pkg != "" || r.P(0.5) {
		d.Package = str(pkg)
	}
	switch r.Intn(3) {
	case 0:
		d.Syntax = str("proto2")
	case 1:
		d.Syntax = str("proto3")
	}
	prefix := "."
	if pkg != "" {
		prefix = "." + pkg + "."
	}
	n := o.Messages
	if n < 0 {
		n = r.Intn(7)
		if n > 0 && r.P(0.05) {
			n += 12
		}
	}
	used := map[string]bool{}
	var names []string
	list := map[string]string{} // messages that should have a list of another
	for len(names) < n {
		s := msgNames[r.Intn(len(msgNames))]
		if r.P(0.25) {
			s = strings.Title(words[r.Intn(len(words))]) + strings.Title(words[r.Intn(len(words))])
			if s[0] < 'A' || s[0] > 'Z' {
				s = "N" + s
			}
		} else if r.P(0.2) && len(names) > 0 { // looks like an iterator
			of, el := names[r.Intn(len(names))], names[r.Intn(len(names))]
			s = of + el + "Iterator"
			if r.P(0.2) {
				s = of + strings.Title(words[r.Intn(len(words))]) + el + "Iterator"
			}
			list[of] = el
		}
		if used[s] {
			continue
		}
		used[s] = true
		names = append(names, s)
		f.Schemas = append(f.Schemas, &wire.Schema{Name: s})
	}
	d.EnumType = append(d.EnumType, &generate.EnumDescriptorProto{Name: str("AnEnum"), Value: []*generate.EnumValueDescriptorProto{{Name: str("ZERO"), Number: i32(0)}}})
	for i, s := range f.Schemas {
		m := &generate.DescriptorProto{Name: str(names[i])}
		if r.P(0.3) {
			m.EnumType = append(m.EnumType, &generate.EnumDescriptorProto{Name: str("Inner"), Value: []*generate.EnumValueDescriptorProto{{Name: str("INNER_ZERO"), Number: i32(0)}}})
		}
		if r.P(0.1) {
			m.ReservedName = []string{"reserved"}
			m.ReservedRange = []*generate.DescriptorProto_ReservedRange{{Start: i32(19999), End: i32(20000)}}
		}
		k := r.Intn(11)
		if r.P(0.15) {
			k = 20 + r.Intn(15)
		}
		if r.P(0.07) {
			k = 0
		}
		tries, wide := 200, r.P(0.03)
		if wide {
			k, tries = 40+r.Intn(100), 2000
		}
		favourite := f.Schemas[r.Intn(len(f.Schemas))]
		nums, fnames := map[int]bool{}, map[string]bool{}
		var prev []string
		for try := 0; len(s.Fields) < k && try < tries; try++ {
			num, name := fieldNum(r, o.BigNums), fieldName(r, prev)
			if wide && r.P(0.9) {
				num = 1 + r.Intn(k+20)
			}
			if nums[num] || fnames[name] {
				continue
			}
			nums[num], fnames[name] = true, true
			prev = append(prev, name)
			wf := &wire.Field{Num: num, Name: name, Kind: wire.Kind(r.Intn(int(wire.NumKinds)))}
			if r.P(0.2) {
				wf.Kind = wire.Message
			}
			wf.Repeated = r.P(0.2)
			fd := &generate.FieldDescriptorProto{Name: str(name), Number: i32(num)}
			if wf.Kind == wire.Message {
				wf.Repeated = r.P(0.55)
				wf.Sub = f.Schemas[r.Intn(len(f.Schemas))]
				if r.P(0.5) {
					wf.Sub = favourite
				}
				if el := list[names[i]]; el != "" && r.P(0.5) {
					wf.Repeated = true
					for _, x := range f.Schemas {
						if x.Name == el {
							wf.Sub = x
						}
					}
				}
				fd.TypeName = str(prefix + wf.Sub.Name)
			}
			if wf.Kind == wire.Enum {
				fd.TypeName = str(prefix + "AnEnum")
				if len(m.EnumType) > 0 && r.P(0.5) {
					fd.TypeName = str(prefix + names[i] + ".Inner")
				}
			}
			label := generate.FieldDescriptorProto_LABEL_OPTIONAL
			if wf.Repeated {
				label = generate.FieldDescriptorProto_LABEL_REPEATED
			} else if r.P(0.2) {
				label = generate.FieldDescriptorProto_LABEL_REQUIRED
				wf.Required = true
			}
			typ := kindTypes[wf.Kind]
			fd.Label, fd.Type = &label, &typ
			if r.P(0.5) {
				fd.JsonName = str(name + "Json")
			}
			s.Fields = append(s.Fields, wf)
			m.Field = append(m.Field, fd)
		}
		d.MessageType = append(d.MessageType, m)
		s.Seal()
	}
	if r.P(0.2) {
		d.Service = append(d.Service, &generate.ServiceDescriptorProto{Name: str("Service"), Method: []*generate.MethodDescriptorProto{{Name: str("Call"), InputType: str(prefix + "In"), OutputType: str(prefix + "Out")}}})
	}
	if r.P(0.3) {
		d.SourceCodeInfo = &generate.SourceCodeInfo{Location: []*generate.SourceCodeInfo_Location{{Path: []int32{4, 0}, Span: []int32{1, 2, 3}, LeadingComments: str(" a comment with \"quotes\" and `ticks`\n")}}}
	}
	if o.Unrelated {
		group, opt := generate.FieldDescriptorProto_TYPE_GROUP, generate.FieldDescriptorProto_LABEL_OPTIONAL
		d.MessageType = append(d.MessageType, &generate.DescriptorProto{Name: str("WithGroup"), Field: []*generate.FieldDescriptorProto{
			{Name: str("grp"), Number: i32(1), Label: &opt, Type: &group, TypeName: str(prefix + "WithGroup.Grp")},
		}, NestedType: []*generate.DescriptorProto{{Name: str("Grp")}}})
	}
	return f
}

// Name makes a file name, none of which repeats an earlier one.
func Name(r *gen.Rng, used map[string]bool) string {
	for i := 0; ; i++ {
		base := []string{"foo", "bar", "a", "x.y", "foo.proto", "proto", "foo_test", "1", "foo-bar", "Foo", ".proto.proto", "protoproto", "x.protos", "a.b.c", "zeropb", "raft",
			"a+b c@1", "", "_", "x.", "é", "日本", "9lives", "x.PROTO", "a,b;c", "func", "$", "x!~y"}[r.Intn(28)]
		dir := []string{"", "", "", "d/", "a/b/", "x.proto/", "foo.proto.d/", ".proto/", "./", "../", "/abs/", "google/protobuf/"}[r.Intn(12)]
		n := dir + base + ".proto"
		if base != "" && !strings.HasSuffix(base, ".proto") && r.P(0.06) {
			n = dir + base // protoc does not insist on the suffix
		}
		if i > 20 {
			n = fmt.Sprintf("%s%s%d.proto", dir, base, i)
		}
		if stem := strings.TrimSuffix(n, ".proto"); !used[stem] {
			used[stem] = true
			return n
		}
	}
}

// Request makes a request for n files, with dependencies.
func Request(r *gen.Rng, n int) (*generate.CodeGeneratorRequest, []*File) {
	req := &generate.CodeGeneratorRequest{}
	used := map[string]bool{}
	var files []*File
	deps := r.Intn(4)
	for i := 0; i < n+deps; i++ {
		f := New(r, Opts{Name: Name(r, used), Messages: -1, Unrelated: i >= n && r.P(0.4)})
		if i < n {
			files = append(files, f)
		}
		req.ProtoFile = append(req.ProtoFile, f.Desc)
		for j := 0; j < i; j++ {
			if r.P(0.2) {
				f.Desc.Dependency = append(f.Desc.Dependency, req.ProtoFile[j].GetName())
			}
		}
	}
	r.Shuffle(len(req.ProtoFile), func(i, j int) { req.ProtoFile[i], req.ProtoFile[j] = req.ProtoFile[j], req.ProtoFile[i] })
	for _, f := range files {
		req.FileToGenerate = append(req.FileToGenerate, f.Desc.GetName())
	}
	r.Shuffle(len(req.FileToGenerate), func(i, j int) {
		req.FileToGenerate[i], req.FileToGenerate[j] = req.FileToGenerate[j], req.FileToGenerate[i]
	})
	if r.P(0.3) {
		req.Parameter = str([]string{"", "paths=source_relative", "x=1,y", "plugins=grpc"}[r.Intn(4)])
	}
	if r.P(0.3) {
		req.CompilerVersion = &generate.Version{Major: i32(3), Minor: i32(r.Intn(30)), Patch: i32(0)}
	}
	return req, files
}
