// Package schemas binds the generated message types checked in to the
// repository to hand-written copies of their schemas.
package schemas

import (
	"reflect"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"

	"zpverif/adapt"
	"zpverif/wire"
)

// Set is a family of bound types.
type Set struct {
	Types map[string]*adapt.TypeInfo
	Order []string
}

func fld(num int, name string, k wire.Kind) *wire.Field {
	return &wire.Field{Num: num, Name: name, Kind: k}
}

func rep(f *wire.Field) *wire.Field { f.Repeated = true; return f }

func msg(num int, name string, s *wire.Schema) *wire.Field {
	return &wire.Field{Num: num, Name: name, Kind: wire.Message, Sub: s}
}

// TestSchema is golden/test.proto.
func TestSchema() *wire.Schema {
	s := &wire.Schema{Name: "TestMessage"}
	names := []string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float", "string", "byte_array", "enum", "message"}
	for k := wire.Bool; k < wire.NumKinds; k++ {
		f := fld(int(k)+1, names[k], k)
		if k == wire.Message {
			f.Sub = s
		}
		s.Fields = append(s.Fields, f)
	}
	for k := wire.Bool; k < wire.NumKinds; k++ {
		f := rep(fld(int(k)+18, names[k]+"s", k))
		if k == wire.Message {
			f.Sub = s
		}
		s.Fields = append(s.Fields, f)
	}
	return s.Seal()
}

// RaftSchemas is golden/raft.proto.
func RaftSchemas() []*wire.Schema {
	entry := &wire.Schema{Name: "Entry", Fields: []*wire.Field{
		fld(2, "Term", wire.Uint64), fld(3, "Index", wire.Uint64), fld(1, "Type", wire.Enum), fld(4, "Data", wire.Bytes)}}
	conf := &wire.Schema{Name: "ConfState", Fields: []*wire.Field{
		rep(fld(1, "nodes", wire.Uint64)), rep(fld(2, "learners", wire.Uint64))}}
	meta := &wire.Schema{Name: "SnapshotMetadata", Fields: []*wire.Field{
		msg(1, "conf_state", conf), fld(2, "index", wire.Uint64), fld(3, "term", wire.Uint64)}}
	snap := &wire.Schema{Name: "Snapshot", Fields: []*wire.Field{
		fld(1, "data", wire.Bytes), msg(2, "metadata", meta)}}
	m := &wire.Schema{Name: "Message", Fields: []*wire.Field{
		fld(1, "type", wire.Enum), fld(2, "to", wire.Uint64), fld(3, "from", wire.Uint64), fld(4, "term", wire.Uint64),
		fld(5, "logTerm", wire.Uint64), fld(6, "index", wire.Uint64), rep(msg(7, "entries", entry)), fld(8, "commit", wire.Uint64),
		msg(9, "snapshot", snap), fld(10, "reject", wire.Bool), fld(11, "rejectHint", wire.Uint64), fld(12, "context", wire.Bytes)}}
	hard := &wire.Schema{Name: "HardState", Fields: []*wire.Field{
		fld(1, "term", wire.Uint64), fld(2, "vote", wire.Uint64), fld(3, "commit", wire.Uint64)}}
	cc := &wire.Schema{Name: "ConfChange", Fields: []*wire.Field{
		fld(1, "ID", wire.Uint64), fld(2, "Type", wire.Enum), fld(3, "NodeID", wire.Uint64), fld(4, "Context", wire.Bytes)}}
	out := []*wire.Schema{entry, conf, meta, snap, m, hard, cc}
	for _, s := range out {
		s.Seal()
	}
	return out
}

// Golden binds every type checked in to the repository.
func Golden() ([]*adapt.TypeInfo, error) {
	ts := map[string]*wire.Schema{"TestMessage": TestSchema()}
	a, err := adapt.BindAll(map[string]reflect.Type{"TestMessage": reflect.TypeOf(testzeropb.TestMessage{})}, ts)
	if err != nil {
		return nil, err
	}
	rs := map[string]*wire.Schema{}
	for _, s := range RaftSchemas() {
		rs[s.Name] = s
	}
	b, err := adapt.BindAll(map[string]reflect.Type{
		"Entry":            reflect.TypeOf(raftzeropb.Entry{}),
		"ConfState":        reflect.TypeOf(raftzeropb.ConfState{}),
		"SnapshotMetadata": reflect.TypeOf(raftzeropb.SnapshotMetadata{}),
		"Snapshot":         reflect.TypeOf(raftzeropb.Snapshot{}),
		"Message":          reflect.TypeOf(raftzeropb.Message{}),
		"HardState":        reflect.TypeOf(raftzeropb.HardState{}),
		"ConfChange":       reflect.TypeOf(raftzeropb.ConfChange{}),
	}, rs)
	if err != nil {
		return nil, err
	}
	out := []*adapt.TypeInfo{a["TestMessage"]}
	for _, n := range []string{"Entry", "ConfState", "SnapshotMetadata", "Snapshot", "Message", "HardState", "ConfChange"} {
		out = append(out, b[n])
	}
	return out, nil
}
