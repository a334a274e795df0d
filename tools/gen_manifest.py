#!/usr/bin/env python3
"""Writes MANIFEST.json and validates it."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = "runtime monitoring: "
T = {
 "C01": (RM + "differential oracle (independent wire parser) over accessor results", "random well-formed messages of random and checked-in types"),
 "C02": (RM + "independent encoder and parser, and gogo/protobuf, as oracles of the encoding", "random build histories"),
 "C03": (RM + "online model of the edit history checked after every operation", "random histories; all accessors and all bytes of other fields after each step"),
 "C04": ("sanitizers: read-only guarded memory, checkptr and bounds checks, canaries, CPU and heap watchdogs, 64- and 32-bit builds", "hostile byte strings up to a few hundred bytes, some of tens of kilobytes"),
 "C05": (RM + "independent recogniser as oracle of accept and refuse, 64- and 32-bit builds", "hostile strings, all prefixes and one-token changes of well-formed messages"),
 "C06": (RM + "differential oracle: the same message without its unknown fields", "random messages with undeclared fields"),
 "C07": (RM + "trace monitor of interleaved iterators against the element sequence", "random messages and interleavings of iterator steps"),
 "C08": (RM + "twin comparison of a reused and a fresh struct", "random lives of a struct"),
 "C09": (RM + "heap allocation counters around direct calls", "random messages and edits below 64 KiB"),
 "C10": ("sanitizers: Go race detector on concurrent histories, write faults on read-only messages", "the schedules the Go scheduler and random yields produce"),
 "C11": ("sanitizers: canaries and byte-level change tracking around every argument, result and message", "random histories of appends to results and edits of embedded messages"),
 "C12": (RM + "online model, value captured before the aliasing store", "random aliasing stores"),
 "C13": (RM + "online model over histories that cross the 64 KiB boundary", "fields at each offset around 65535, random edits"),
 "C14": (RM + "differential oracle for presence, errors and contents at every depth", "random nested messages, malformed ones included"),
 "C15": (RM + "differential oracle over messages with mistyped occurrences", "every declared type against every other wire type"),
 "C16": (RM + "occurrence and byte conservation counted by an independent tokenizer", "random repeated edits"),
 "C17": (RM + "compiled generated code driven against a reference model", "random schemas, compiled and executed"),
 "C18": (RM + "trace of generator responses checked for names, number, order, repeatability and independence", "random multi-file requests"),
 "C19": (RM + "process outputs and exit status under input corruption and output faults", "random valid, corrupt and unsupported requests, failing streams"),
 "C20": (RM + "online map model of the offset table, 64- and 32-bit builds", "random operation sequences"),
 "C21": (RM + "differential monitor against an independent implementation of the two schemas", "random messages of all types by reflection"),
 "C22": (RM + "online trace monitor of a writer with injected failures", "random call sequences and faults"),
 "C24": ("sanitizers: garbage collector stress with freed memory overwritten, pointer checks, and weak pointers to every buffer", "random values held, arguments passed and lives of a struct, under the collections that happened"),
 "C26": (RM + "independently made text as oracle, after every operation", "random messages and edits of TestMessage"),
 "C25": (RM + "independent layout of sparse messages of gigabytes as oracle, checked after every operation", "random layouts around 2^31 and 2^32 bytes"),
 "C23": (RM + "thread CPU time monitor at two sizes", "random operations and message shapes"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for i in ids:
    tech, within = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "bash run.sh %s quick" % i,
        "thorough_cmd": "bash run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech,
        "level": "exploration",
        "level_note": "Shows the property on the executions observed only: " + within + ". Trusts the reference model in harness/wire (self-tested against golang/protobuf where that is possible) and the Go toolchain.",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything the monitors need is observable through exported functions, generated code, memory protection, allocation counters and process outputs. Replay a violation with: bash run.sh <id> replay <file>."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
