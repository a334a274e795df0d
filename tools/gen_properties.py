#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OFF = ("field offset table", "for every field number, where that field's data starts in the encoded bytes (small table, spilling to a map above 64 KiB)", "offsets.go; the offsets member of every generated struct")
BUF = ("encoded buffer", "the one and only representation of the message; every accessor reads it and every setter edits it", "the buf member of every generated struct")

p("C01", "Decoded fields carry the values the wire bytes encode",
  "After a well-formed encoded message has been decoded without error, every generated accessor returns exactly the value the protocol buffers specification assigns to that field: the value of its last occurrence on the wire, or the type's zero value when it does not occur. This holds for all scalar types, strings, bytes, enums and embedded messages, for any order of fields, duplicate occurrences, interleaved unknown fields, non-minimal varints and any message size. A singular embedded message that is split over several occurrences must be either rejected or merged, never silently reduced to one of its parts.",
  ["inputs"], "every well-formed byte string, for every supported schema",
  "TestDecode checks only error cases and TestRandDecode decodes one random message per run, as laid out by one encoder: field-ordered, minimal varints, no duplicates, no unknown fields, under 64 KiB, values drawn uniformly so that boundary values almost never occur.",
  ["zeropb.go", "offsets.go", "golden/testzeropb/test.zeropb.go", "golden/raftzeropb/raft.zeropb.go"],
  [("one forward parse that records the offset of each field", "zeropb.go Decode"), ("lazy per-type readers", "zeropb.go GetBool .. GetBytes"), ("last occurrence wins for singular fields", "zeropb.go Decode")],
  ["return value of every generated accessor after Decode"], [OFF, BUF])

p("C02", "Encoded output is standard protobuf for exactly the values set",
  "Whatever sequence of setters and appends built a message, the bytes returned by encoding it are a well-formed protocol buffers encoding that any standard decoder reads back as exactly the last value set for each field and exactly the appended elements in order, with nothing else present. Every value is written in the standard form for its declared type (wire type, sign extension, zig-zag, little-endian, length prefix), so that other implementations agree bit for bit. In proto2 schemas, where a field set to its default differs from an unset one, every field that was set occurs. Encoding changes nothing and can be repeated.",
  ["inputs", "histories"], "every sequence of setter and append calls with any argument values, for every supported schema",
  "TestRandEncode builds one message per run with each setter called once; the mutation test covers one schema with field numbers up to 34, small values and at most 10-byte strings, and never looks at the bytes themselves.",
  ["zeropb.go", "golden/testzeropb/test.zeropb.go", "golden/raftzeropb/raft.zeropb.go"],
  [("per-type writers", "zeropb.go SetBool .. SetBytes, AppendBytes"), ("tag, optional length and value appended to the buffer", "zeropb.go setSingle, appendSingle")],
  ["bytes returned by Encode, read by an independent decoder and by golang/protobuf"], [BUF])

p("C03", "Setting a field changes that field and no other, in any history",
  "Start from an empty or a decoded message (in any well-formed encoding, including non-minimal tags and lengths and duplicate fields) and apply any history of setters, appends, accessors and encodings: after every step each accessor returns the last value set for its field, or the originally decoded value, and every repeated field yields its elements in order. At every step decoding the current encoding afresh gives the same values as the live message. Bytes belonging to fields other than the one being set are never lost, changed or re-attributed.",
  ["histories", "inputs"], "every starting message and every finite sequence of operations on it",
  "TestRandMutations follows one random history of 1000 steps per run that starts empty, for one schema, with minimal encodings and small values; lengths rarely change by more than a few bytes, there are no duplicates and no decoded starting points mixed with edits.",
  ["zeropb.go", "offsets.go"],
  [("in-place overwrite when the size is unchanged", "zeropb.go setSingle"), ("splice out, shift later offsets, append", "zeropb.go setSingle"), ("first-occurrence offset for repeated fields", "zeropb.go appendSingle, Decode")],
  ["every accessor after every operation", "Encode followed by a fresh Decode"], [OFF, BUF])

p("C04", "No byte string can crash or hang decoding or access",
  "For every byte string whatsoever, decoding it returns (with or without an error) after work bounded by its size, and never panics or reads or writes outside the given bytes. If decoding succeeded, then calling any accessor, iterating any repeated field to its end, descending into any embedded message and calling any setter likewise terminates without panicking and without touching memory outside the message.",
  ["inputs"], "every byte string, truncated, mutated or adversarial, and every generated message type",
  "TestDecode feeds eight truncated inputs, all for known field numbers and supported wire types; there is no fuzzing (the README lists it as missing) and no accessor is ever called on hostile input.",
  ["zeropb.go", "offsets.go"],
  [("bounds checks while parsing", "zeropb.go Decode, fieldDataSize"), ("accessors rely on the validation done by decoding", "zeropb.go Get*, FindNextField, GetRepeatedNonPacked")],
  ["return, panic, fault or CPU use of Decode and of every accessor, iterator and setter afterwards"], [OFF, BUF])

p("C05", "Decode accepts exactly the well-formed byte strings",
  "Decoding returns an error for every byte string that is not a complete sequence of fields: a tag, length or varint that is cut short or longer than 64 bits, a value or length-delimited payload that extends past the end, or a wire type outside the four supported ones. It returns no error for every well-formed sequence of supported fields with legal field numbers, whatever its order, duplication or size.",
  ["inputs"], "every byte string, in particular every truncation point of every message",
  "TestDecode checks eight hand-written truncations of one-field messages; truncation inside later fields, over-long varints, lengths near the integer limits, unsupported wire types and acceptance of unusual but valid input are not covered.",
  ["zeropb.go"],
  [("validation during the forward parse", "zeropb.go Decode"), ("size of one value by wire type", "zeropb.go fieldDataSize")],
  ["the error returned by Decode against an independent recogniser"])

p("C06", "Fields unknown to the reader's schema do not disturb known fields",
  "A message written with a newer schema decodes without error under an older one even when it holds fields the older schema does not declare, with any legal field number (below, between or far above the declared ones), any supported wire type and any position. All declared fields, including repeated and embedded ones, then read exactly as if the unknown fields were absent, and setting declared fields on such a message works as on any other.",
  ["inputs", "configurations"], "every pair of schemas where one extends the other, and every message of the extended one",
  "No existing test decodes a message containing a field the reader does not declare.",
  ["zeropb.go", "offsets.go"],
  [("unknown numbers skipped by wire type", "zeropb.go Decode, FindNextField"), ("table sized by the largest declared number", "generate/generate.go generateMessage")],
  ["Decode error and every accessor, against the same message without the unknown fields"], [OFF])

p("C07", "Iterating a repeated field yields every element once, in order",
  "Iterating a repeated embedded-message field yields exactly its elements in wire order (for built messages: append order), each once, then reports the end, and keeps reporting the end when asked again. This holds however the elements are interleaved with other fields, when elements are empty, and for any number of elements; independent iterators over the same message do not affect each other, and a message without elements yields none.",
  ["inputs", "histories"], "every message with a repeated embedded-message field, every placement of its elements, every interleaving of iterators",
  "The random tests iterate contiguous runs of at most four non-empty elements written by one encoder, with one iterator at a time.",
  ["zeropb.go", "golden/testzeropb/test.zeropb.go", "golden/raftzeropb/raft.zeropb.go", "generate/generate.go"],
  [("offset of the first element, then re-parse of the rest", "zeropb.go GetRepeatedNonPacked, FindNextField"), ("generated iterator type", "generate/generate.go generateRepeatedMessageField")],
  ["sequence of (ok, error, element contents) returned by Next"], [OFF, BUF])

p("C08", "A reused message struct keeps nothing of its previous life",
  "Decoding into, or resetting, a message struct that has been used before (decoded, failed to decode, edited, grown beyond 64 KiB, in any order) leaves it indistinguishable from a fresh struct decoded from, or reset with, the same input: every accessor, iterator and later edit behaves identically and no earlier value can be seen. Resetting with a non-empty buffer is refused with a panic and resetting with an empty one yields an empty message that is built in the supplied memory when it is large enough.",
  ["histories"], "every sequence of decode, failed decode, reset and edit operations on one struct",
  "The tests decode into fresh structs, or repeatedly into one struct inputs that always fail; reset is called only from benchmarks.",
  ["zeropb.go", "offsets.go", "generate/generate.go"],
  [("offset table cleared at the start of decode and reset", "offsets.go Clear; zeropb.go Decode"), ("generated Reset", "generate/generate.go generateMessage")],
  ["every accessor and the encoding of the reused struct against a fresh one"], [OFF])

p("C09", "No heap allocation below 64 KiB",
  "As long as the message's encoding stays below 65535 bytes, decoding into a struct, every accessor, iterating repeated fields, descending into embedded messages, encoding, and resetting allocate no heap memory. Setting and appending fields allocate nothing either when the buffer given at reset has enough capacity for the message and the values set do not themselves come from that message.",
  ["inputs", "histories"], "every message below 64 KiB and every sequence of decode, read, iterate, set, append and encode operations on reused structs with enough buffer capacity",
  "The benchmarks report allocations but assert nothing, are not run as tests, and cover two messages with a handful of fields.",
  ["zeropb.go", "offsets.go", "generate/generate.go"],
  [("stack scratch buffers and views into the encoded bytes", "zeropb.go Get*, Set*, setSingle, appendSingle"), ("offset map allocated lazily, only above 64 KiB", "offsets.go Set"), ("wrapping of the table inlined by the compiler", "offsets.go WrapOffsets")],
  ["runtime allocation counters around each operation"], [OFF])

p("C10", "Reading is pure: concurrent readers and messages are safe",
  "Accessors, iterators, encoding and descending into embedded messages never modify the message or its encoded bytes, so any number of goroutines may read one decoded message, or decode the same bytes into their own structs, concurrently, without data races and with every goroutine seeing the same values. Operations on distinct messages in distinct goroutines, edits included, never interfere with each other, and neither do concurrent runs of the code generator on one request.",
  ["schedules", "inputs"], "every set of concurrent read operations on shared messages and of arbitrary operations on unshared ones, under every schedule",
  "No existing test starts a goroutine, and none looks at whether reading writes.",
  ["zeropb.go", "offsets.go", "generate/generate.go"],
  [("no package-level mutable state", "zeropb.go, offsets.go, generate/generate.go"), ("accessors take the buffer and the table by value", "zeropb.go Get*")],
  ["race detector reports", "write faults on read-only memory", "byte comparison of buffer and accessor results before and after"], [OFF, BUF])

p("C11", "Values handed in or out cannot corrupt the message",
  "Appending to a byte slice returned by an accessor never changes the message, and editing an embedded message or element obtained from a parent never changes any other field, sibling or element of the parent. Setters and appends copy their argument and never modify it, so changing the argument afterwards has no effect on the message; a failed or successful decode never modifies the bytes it was given.",
  ["histories", "inputs"], "every value obtained from or given to a message, and every later append, edit or overwrite of that value",
  "The existing tests never append to a returned slice, never edit an embedded message they read, and never modify an argument after handing it over.",
  ["zeropb.go", "golden/testzeropb/test.zeropb.go", "golden/raftzeropb/raft.zeropb.go"],
  [("returned slices are limited to the value", "zeropb.go GetBytes, FindNextField"), ("values are copied into the buffer", "zeropb.go setSingle, appendSingle")],
  ["all accessors of the message, and its neighbours in memory, before and after"], [BUF])

p("C12", "A message's own values can be stored back into it",
  "Passing to a setter or append a string, byte slice or embedded message that was read from the same message (or a part of one), or from a message it is embedded in, with no edit of either since, stores exactly the value that was read, and leaves every other field unchanged. In particular reading an embedded message, editing it in any way and storing it back yields the edited value whether it grew, shrank or kept its size.",
  ["histories", "inputs"], "every read value or sub-slice, every target field of the same message, every relation between old and new sizes",
  "The existing tests only store values that live in separate memory.",
  ["zeropb.go"],
  [("value preserved while its old bytes are spliced out", "zeropb.go setSingle")],
  ["all accessors after the store, against the value captured before it"], [BUF])

p("C13", "Crossing 64 KiB is invisible apart from allocation",
  "Messages longer than 65534 bytes behave exactly like shorter ones: decoding, reading, iterating, setting and appending give the same results wherever the fields lie, including fields that start at or next to the 65535-byte boundary and histories that move fields across it in either direction, any number of times.",
  ["inputs", "histories"], "every position of every field relative to the boundary, and every sequence of edits that grows or shrinks the message across it",
  "TestEncode makes one crossing in each direction with a single large field; the random tests never reach the boundary, as a TODO there admits.",
  ["offsets.go", "zeropb.go"],
  [("offsets that do not fit the table live in a map, marked by a sentinel", "offsets.go Get, Set"), ("offsets moved back to the table when they shrink", "offsets.go Set; zeropb.go setSingle")],
  ["every accessor, iterator and the encoding after each operation near the boundary"], [OFF])

p("C14", "Embedded messages: presence, contents and lazy errors are reported",
  "Accessing a singular embedded message reports absent exactly when the field does not occur, and otherwise present, also when the embedded message is empty; the filled struct then reads as the embedded bytes, at any nesting depth, and replaces whatever the struct held before. When the embedded bytes are malformed, access (single or by iterator) returns an error while the enclosing message, its other fields and the remaining elements stay usable.",
  ["inputs"], "every embedded message, empty, valid or malformed, at every depth and position",
  "The random tests embed only valid, non-empty messages with fresh target structs, to depth three, and no test has a malformed embedded message.",
  ["zeropb.go", "generate/generate.go", "golden/testzeropb/test.zeropb.go", "golden/raftzeropb/raft.zeropb.go"],
  [("generated embedded accessor and iterator", "generate/generate.go generateMessageField, generateRepeatedMessageField"), ("nil marks an absent field, a non-nil empty slice an empty one", "zeropb.go GetBytes, FindNextField")],
  ["(present, error) of embedded access and the contents of the filled struct"])

p("C15", "A field with the wrong wire type is never misread",
  "When the bytes under a declared field's number were written with a wire type that does not belong to the field's declared type, no accessor returns a value made up from those bytes: the field reads as unset or as its last properly typed occurrence (or decoding returns an error), iterators skip the odd occurrence, and all other fields are unaffected. Setting such a field afterwards gives it the new value and leaves the others intact.",
  ["inputs", "histories"], "every declared type, every other supported wire type, every payload and position",
  "No existing test decodes a field whose wire type differs from its declared type and then reads or sets it.",
  ["zeropb.go"],
  [("readers check the wire type that precedes the value", "zeropb.go Get*, GetRepeatedNonPacked, FindNextField"), ("replacement uses the size of what is really stored", "zeropb.go setSingle")],
  ["every accessor after decoding and after setting the affected field"], [BUF])

p("C16", "Setting replaces: repeated edits do not make the encoding grow",
  "In a message built only through setters and appends every singular field occurs at most once in the encoding, however often and in whatever order fields were set, and the encoded length equals the sum of the encoded sizes of the current field values and elements. Setting a field of a decoded message never increases the number of its occurrences beyond what was decoded (or one).",
  ["histories"], "every sequence of setter and append calls",
  "The existing tests compare values as read back, and later occurrences hide earlier ones, so leftovers of replaced values go unnoticed.",
  ["zeropb.go"],
  [("old occurrence overwritten or spliced out before the new one is written", "zeropb.go setSingle")],
  ["occurrence counts and length of the encoding, by an independent tokenizer"], [BUF])

p("C17", "Generated code compiles and binds every field correctly",
  "For every schema within the supported subset (top-level messages with capitalized names, of scalar, enum and message fields whose types are in the same file, optional, required or repeated, any legal field names and numbers, any package name other than main and init), the generated file compiles, and each singular field gets a reader and a setter and each repeated message field an iterator and an append, named after the field, that use precisely that field's number and the encoding of its declared type. Schemas whose field names clash with each other's accessors or with the struct's own methods, several repeated fields of one message type, empty messages and files without messages are included.",
  ["programs", "configurations"], "every supported schema",
  "TestGolden compares the output for two fixed schemas byte for byte with itself as recorded earlier; nothing generates code for any other schema, compiles it or runs it.",
  ["generate/generate.go", "generate/stringtree.go"],
  [("templates per field class", "generate/generate.go generateMessage and its helpers"), ("field type to accessor mapping", "generate/generate.go fieldToGoTypeSimple, fieldToGoTypeMessage"), ("naming", "generate/generate.go toGoCase")],
  ["go build of generated packages, and the behaviour of every generated accessor against an independent codec"])

p("C18", "The generator emits one correct file per requested schema file",
  "For every code generation request the response holds exactly one file for each requested input file and none for files that are only present as dependencies, in a stable order, each named after its input with only the .proto suffix replaced by .zeropb.go, and in the Go package named as its proto package where that is possible and no option says otherwise. The same request always yields identical output, the contents for one file do not depend on which other files are in the request, and the request is not modified.",
  ["inputs", "programs"], "every request: any number, order and naming of requested and dependency files",
  "TestGolden uses requests with exactly one file, run once each.",
  ["generate/generate.go"],
  [("filter by requested names", "generate/generate.go Generate"), ("output name", "generate/generate.go generateFile")],
  ["names, order and contents of the files in the response"])

p("C19", "The plugin programs honour the protoc plugin contract",
  "Given a valid request on standard input, the zeropb plugin writes exactly one serialized response, holding what the generator library returns for that request, to standard output, nothing else, and exits with status zero; the text plugin writes a text form of the request that parses back to it. Given input that is not a valid request, or one the generator cannot handle, the program explains on standard error, writes no response and exits with a non-zero status, so that a failure is never taken for success.",
  ["inputs", "fault_sequences"], "every request, every corrupted or truncated request, and failing output streams",
  "The cmd packages have no tests at all.",
  ["cmd/protoc-gen-zeropb/main.go", "cmd/protoc-gen-text/main.go"],
  [("read, generate, write in that order", "cmd/protoc-gen-zeropb/main.go run"), ("error reporting", "cmd/protoc-gen-zeropb/main.go main, cmd/protoc-gen-text/main.go main")],
  ["stdout, stderr and exit status of the programs"])

p("C20", "The field offset table behaves as a map for any offsets",
  "The exported offset table stores, for each field number it covers, the last positive offset set for it, of any magnitude, independently of all other fields, and reports a field as present exactly when an offset was set since the table was last cleared. Copies of the handle wrapping the same storage see the same contents, and a fresh or cleared table is empty whatever it held before.",
  ["histories", "inputs"], "every sequence of set, get, clear and re-wrap operations with offsets below, at and above the small-table limit",
  "The table is only tested through messages of a few hundred bytes and one large one, so the transitions between its two representations are barely exercised.",
  ["offsets.go"],
  [("two-level representation with sentinel values", "offsets.go Get, Set, Clear")],
  ["results of Get after every operation against a plain map"], [OFF])

p("C21", "The plugin's descriptor types read and write the official schemas",
  "The Go types for plugin.proto and descriptor.proto (requests, responses, file, message, field, enum, service and option descriptors) read every serialized or text-form message of the official schemas as another protobuf implementation does, every field and enum value alike, keep unknown fields and extensions (until told to discard them), merge alike, write back an equivalent message, have the same text and JSON forms, return the official defaults from getters of unset fields (also on nil messages), and carry descriptors, enum names and extension ranges that agree with the official ones.",
  ["inputs"], "every message of every type of the two schemas",
  "The golden tests read a few requests and use a handful of the fields; a wrong number, type or default in any of the rest stays unnoticed until a schema uses it.",
  ["generate/plugin.pb.go", "generate/descriptor.pb.go", "cmd/protoc-gen-zeropb/main.go", "cmd/protoc-gen-text/main.go"],
  [("message types of the plugin protocol", "generate/plugin.pb.go CodeGeneratorRequest, CodeGeneratorResponse"), ("descriptor types", "generate/descriptor.pb.go")],
  ["fields, getters, bytes and text of a message in both implementations", "descriptors of both"])
p("C22", "StringTree writes exactly its arguments and reports the first failure",
  "Through any sequence of Write calls, a StringTree writes to its writer exactly the concatenation of its arguments in order (text and bytes as they are, int32 in decimal, Stringers by their String method, indents as that many copies of the indentation string), and leaves the arguments alone. Error is nil as long as no write failed; from the first failed write on, nothing more is written and Error returns that first error, even if the writer would work again.",
  ["inputs", "histories", "fault_sequences"], "every sequence of calls and arguments, every point at which the writer fails",
  "It is only used on in-memory buffers that cannot fail, by the generator.",
  ["generate/stringtree.go"],
  [("type switch over the arguments", "generate/stringtree.go Write"), ("sticky error", "generate/stringtree.go Write, Error")],
  ["bytes reaching the writer, before and after it fails", "the result of Error after every call"])
p("C23", "Decoding and access cost what the documentation promises",
  "Decoding takes time at most proportional to the number of top-level fields, however much is inside strings, bytes, unknown fields and embedded messages. Reading a field, opening an embedded message, starting at the first element of a list, taking the encoding and adding a new field or element at the end (given room) take time independent of the size of the message, that of the value read included. Iterating over a list takes time proportional to the number of fields of the message at most, not to its square, and building a list of n elements takes time proportional to n.",
  ["inputs"], "every message size and shape, every position of the field in it",
  "Tests use messages of a few hundred bytes; benchmarks decide nothing and look at three fixed small messages. Something quadratic is invisible there.",
  ["zeropb.go", "offsets.go", "README.md"],
  [("decoding skips over the data of each field", "zeropb.go Decode, fieldDataSize"), ("access by recorded offset", "zeropb.go Get*, getOffset, tagBegin"), ("iteration parses on from the last element", "zeropb.go GetRepeatedNonPacked, FindNextField")],
  ["CPU time of the thread per operation at two sizes"])
p("C24", "Memory lives exactly as long as something refers to it",
  "What was read from a message (strings, bytes, embedded messages, iterators, the encoding) stays valid and unchanged for as long as it is held, also when the message and its input were let go of and memory was collected and used again. Arguments of setters (strings, bytes, messages) are stored intact even if nothing else refers to them. Conversely nothing is kept: once a message was decoded from other bytes, reset or dropped, and nothing read from it is held, its previous buffer can be freed, and arguments can be freed as soon as the call returns.",
  ["histories", "schedules", "inputs"], "every history of holding and letting go, every moment at which memory is collected",
  "Tests keep all messages and inputs alive to the end, and a collection hardly ever happens during them; memory used after being freed, or never freed, goes unnoticed.",
  ["zeropb.go", "offsets.go", "golden/", "generate/generate.go"],
  [("unsafe conversions between strings and bytes", "zeropb.go GetString, SetString"), ("views of the buffer", "zeropb.go GetBytes, GetRepeatedNonPacked, FindNextField"), ("Reset and Decode replace the buffer", "generate/generate.go generateMessage")],
  ["values held across collections", "which buffers are still allocated"])
p("C25", "Messages of gigabytes work like small ones",
  "On 64-bit systems every guarantee about decoding, access, iteration and edits holds regardless of how large a message and its values are: values, embedded messages, elements and unknown fields of more than 2 or 4 GiB, and fields that lie beyond 2 or 4 GiB, are decoded, measured, skipped, returned and replaced correctly, and a message cut short or a field claiming more bytes than there are is refused however large the claim.",
  ["inputs", "histories"], "every size, length and offset up to the limits of a 64-bit address space",
  "Tests use messages of at most a few kilobytes; lengths and offsets that don't fit in 32 bits never occur.",
  ["zeropb.go", "offsets.go", "golden/", "generate/generate.go"],
  [("lengths and offsets are computed as int and uint64", "zeropb.go Decode, fieldDataSize, FindNextField, GetString, GetBytes"), ("removing a value shifts the offsets behind it", "zeropb.go setSingle"), ("offsets above 64 KiB are 64 bit", "offsets.go Get, Set")],
  ["values, lengths and positions read from sparse messages of up to 9 GiB"])
p("C26", "The text of a TestMessage shows exactly what is set",
  "TestMessage.Text and WriteText list every singular field that is present in the message, also one set to its default, with the value its accessor returns, in the order of the schema, then every element of messages in order, embedded messages nested to any depth, and nothing that is not set. They change nothing in the message. It is what test failures are reported with, and the only place that tells a field set to its default from an unset one.",
  ["inputs", "histories"], "every message, decoded, built or edited",
  "The text is only looked at when another test fails.",
  ["golden/testzeropb/string.go", "offsets.go"],
  [("presence by the offset table", "golden/testzeropb/string.go WriteText, offsets.go Get")],
  ["the text after each step"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
