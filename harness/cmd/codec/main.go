// codec holds the checks of the runtime library (prutal, grpccodec).
package main

import (
	"reflect"

	"verif/rt"
)

func main() { rt.Main(props) }

func valueOf(x any) reflect.Value { return reflect.ValueOf(x).Elem() }

const ruleSchema = "each case draws a schema (random reflect-built struct types, compiled types with oneofs and recursion, official protoc-gen-go types) "

const ruleKinds = "each case takes one field of the list of all kinds of fields (scalars and messages with and without presence, lists packed or not, all pairs of map key and value) "

var props = []rt.Prop{
	{ID: "C01", Suites: []rt.Suite{
		{Name: "roundtrip", Quick: 150000, Thorough: 3000000, Fn: roundTrip, Rule: ruleSchema + "and a value of it; non-trivial: the encoding is not empty"},
		{Name: "kinds", Quick: 200000, Thorough: 5000000, Fn: func(t *rt.T) { roundTripNew(t, kindSchema(t)) }, Rule: ruleKinds + "and a value of it; non-trivial: not empty"},
		{Name: "lenprefix", Quick: 6000, Thorough: 40000, Fn: lenPrefix, Rule: "nested messages whose lengths lie around the boundaries of the length prefix (128, 16384, 2097152); all are non-trivial"},
		{Name: "large", Quick: 800, Thorough: 20000, Fn: func(t *rt.T) { roundTripNew(t, largeSchema(t)) }, Rule: ruleLarge + "a value of it; non-trivial: not empty"},
	}},
	{ID: "C02", Suites: []rt.Suite{
		{Name: "encode", Quick: 150000, Thorough: 3000000, Fn: encodeCompat, Rule: ruleSchema + "and a value of it; non-trivial: the encoding is not empty"},
		{Name: "kinds", Quick: 200000, Thorough: 5000000, Fn: func(t *rt.T) { encodeCompatOf(t, kindSchema(t)) }, Rule: ruleKinds + "and a value of it; non-trivial: not empty"},
		{Name: "large", Quick: 700, Thorough: 12000, Fn: func(t *rt.T) { encodeCompatOf(t, largeSchema(t)) }, Rule: ruleLarge + "a value of it; non-trivial: not empty"},
	}},
	{ID: "C03", Suites: []rt.Suite{
		{Name: "anyvalid", Quick: 150000, Thorough: 4000000, Fn: decodeAny, Rule: ruleSchema + "and a valid but arbitrary encoding (any order, repeats, chunks, odd map entries, unknown and mismatched records); non-trivial: not empty"},
		{Name: "plain", Quick: 30000, Thorough: 80000, Fn: decodePlain, Rule: ruleSchema + "and an encoding as encoders write it, in any record order; non-trivial: not empty"},
		{Name: "kinds", Quick: 400000, Thorough: 10000000, Fn: func(t *rt.T) { decodeAnyOf(t, kindSchema(t)) }, Rule: ruleKinds + "and a valid but arbitrary encoding of it; non-trivial: not empty"},
		{Name: "large", Quick: 800, Thorough: 20000, Fn: func(t *rt.T) { decodeAnyOf(t, largeSchema(t)) }, Rule: ruleLarge + "a valid but arbitrary encoding of it; non-trivial: not empty"},
	}},
	{ID: "C04", Suites: []rt.Suite{
		{Name: "size", Quick: 150000, Thorough: 3000000, Fn: sizeExact, Rule: ruleSchema + "and a value of it; non-trivial: the encoding is not empty"},
		{Name: "kinds", Quick: 200000, Thorough: 5000000, Fn: func(t *rt.T) { sizeExactOf(t, kindSchema(t)) }, Rule: ruleKinds + "and a value of it; non-trivial: not empty"},
		{Name: "large", Quick: 800, Thorough: 20000, Fn: func(t *rt.T) { sizeExactOf(t, largeSchema(t)) }, Rule: ruleLarge + "a value of it; non-trivial: not empty"},
		{Name: "noalloc", Quick: 5000, Thorough: 15000, Workers: 1, Fn: sizeNoAlloc, Rule: ruleSchema + "and a value of it, and counts the allocations of Size; non-trivial: the encoding is not empty"},
	}},
	{ID: "C05", Suites: []rt.Suite{
		{Name: "append", Quick: 120000, Thorough: 3000000, Fn: appendPrefix, Rule: ruleSchema + ", a value and a destination slice (offset, prefix, spare capacity); non-trivial: message and prefix are not empty"},
		{Name: "kinds", Quick: 200000, Thorough: 5000000, Fn: func(t *rt.T) { appendPrefixOf(t, kindSchema(t)) }, Rule: ruleKinds + "a value and a destination slice (offset, prefix, spare capacity); non-trivial: not empty"},
		{Name: "large", Quick: 700, Thorough: 12000, Fn: func(t *rt.T) { appendPrefixOf(t, largeSchema(t)) }, Rule: ruleLarge + "a value of it and a destination slice; non-trivial: not empty"},
		{Name: "failing", Quick: 5000, Thorough: 60000, Fn: appendFails, Rule: "a value that contains itself somewhere and a destination slice; encoding fails; non-trivial: there is a prefix"},
	}},
	{ID: "C06", Suites: []rt.Suite{
		{Name: "malformed", Quick: 100000, Thorough: 900000, Fn: malformed, Rule: ruleSchema + "and an encoding damaged by 1 to 3 mutations at any level (cuts, flips, wrong lengths, overlong varints, bad tags); non-trivial: the official decoder rejects it"},
		{Name: "kinds", Quick: 400000, Thorough: 10000000, Fn: func(t *rt.T) { malformedOf(t, kindSchema(t)) }, Rule: ruleKinds + "and a damaged encoding of it; non-trivial: not empty"},
		{Name: "cut", Quick: 30000, Thorough: 200000, Fn: cutValue, Rule: ruleSchema + "and an encoding that ends inside the value of a scalar field, decoded into memory that was in use before; all are non-trivial"},
		{Name: "alloc", Quick: 4000, Thorough: 30000, Workers: 1, Fn: boundedAlloc, Rule: "a repetitive input (up to 128 KiB) or one with claimed lengths up to 2^62; the memory allocated is measured; non-trivial: more than 8 bytes"},
	}},
	{ID: "C07", Suites: []rt.Suite{
		{Name: "barrier", Quick: 100, Thorough: 3000, Workers: 1, Fn: lateMark, Rule: "up to 70 messages that the garbage collector reaches late are decoded into while it marks (with clobbered free memory); non-trivial: it was still marking, and some input is not empty"},
		{Name: "aliasing", Quick: 12000, Thorough: 200000, Fn: noAliasing, Rule: ruleSchema + "and decodes up to 4 messages; the memory they refer to is compared pairwise; non-trivial: it consists of more regions than messages"},
		{Name: "kinds", Quick: 30000, Thorough: 1500000, Fn: func(t *rt.T) { noAliasingOf(t, kindSchema) }, Rule: ruleKinds + "and decodes up to 4 messages of different kinds; the memory they refer to is compared pairwise; non-trivial: it consists of more regions than messages"},
		{Name: "large", Quick: 500, Thorough: 8000, Fn: func(t *rt.T) { noAliasingOf(t, largeSchema) }, Rule: ruleLarge + "decodes up to 4 of them; the memory they refer to is compared pairwise; non-trivial: it consists of more regions than messages"},
		{Name: "arena", Quick: 2000, Thorough: 60000, Fn: arena, Rule: "1 to 3 messages of 20 to 420 elements with small values of all sizes and alignments; each preferring some kinds; all are compared with what was encoded after their spare capacity was overwritten; non-trivial: more than 4096 bytes"},
		{Name: "gc", Quick: 500, Thorough: 20000, Fn: survivesGC, Rule: "up to 15 messages are decoded, some are dropped, two garbage collections with clobbered free memory follow; non-trivial: some input is not empty"},
	}},
	{ID: "C08", Suites: []rt.Suite{
		{Name: "pass", Quick: 80000, Thorough: 1500000, Fn: unknownPass, Rule: "a random schema, an older version of it that lacks fields, and an encoding that goes through 1 or 2 programs with the older schema; non-trivial: not empty and fields are missing"},
		{Name: "storage", Quick: 60000, Thorough: 400000, Fn: unknownStorage, Rule: "a struct type whose storage for unknown fields is of one of 16 forms (direct, pointer, old name, promoted, of another type, missing), possibly in a list, and an encoding with unknown fields; non-trivial: there are unknown fields"},
		{Name: "reset", Quick: 30000, Thorough: 60000, Fn: unknownReset, Rule: ruleSchema + "and two inputs of unknown fields decoded into one target; non-trivial: the first is not empty"},
	}},
	{ID: "C09", Suites: []rt.Suite{
		{Name: "presence", Quick: 120000, Thorough: 2000000, Fn: presence, Rule: ruleSchema + "and for each field whether it is unset, zero or something else; non-trivial: a field is set"},
		{Name: "oneof", Quick: 80000, Thorough: 2000000, Fn: oneofLast, Rule: "a sequence of records of oneof members; non-trivial: more than one"},
	}},
	{ID: "C10", Suites: []rt.Suite{
		{Name: "nesting", Quick: 6000, Thorough: 40000, Fn: nesting, Rule: "a recursive message nested 0 to 100000 times through a drawn pattern of fields (pointer, list, map, oneof, by value); non-trivial: more than 2 levels"},
		{Name: "cycles", Quick: 1500, Thorough: 5000, Fn: cycles, Rule: "a Go value that contains itself through a drawn ring of fields; all are non-trivial"},
		{Name: "groups", Quick: 2000, Thorough: 40000, Fn: nestedGroups, Rule: "up to 5000000 unknown groups inside each other, some not closed; non-trivial: more than 2"},
	}},
	{ID: "C11", Suites: []rt.Suite{{Name: "concurrent", Quick: 5000, Thorough: 25000, Workers: 4, Fn: concurrent, Rule: "2 to 8 goroutines that use new and known types and shared values at the same time, under the race detector; all are non-trivial"}}},
	{ID: "C12", Suites: []rt.Suite{
		{Name: "types", Quick: 50000, Thorough: 700000, Fn: typeVerdicts, Rule: "a history of uses of random struct types that refer to each other, some of them unsupported in a drawn way; non-trivial: an unsupported type is used"},
		{Name: "arguments", Quick: 2000, Thorough: 2000, Fn: badArguments, Rule: "an argument that is no pointer to a struct; all are non-trivial"},
	}},
	{ID: "C13", Suites: []rt.Suite{
		{Name: "merge", Quick: 120000, Thorough: 2500000, Fn: mergeInto, Rule: ruleSchema + ", content of the target, and 1 or 2 encodings decoded into it; non-trivial: the encoding is not empty"},
		{Name: "kinds", Quick: 200000, Thorough: 5000000, Fn: func(t *rt.T) { mergeIntoOf(t, kindSchema(t)) }, Rule: ruleKinds + "content of the target and 1 or 2 encodings; non-trivial: not empty"},
		{Name: "large", Quick: 500, Thorough: 15000, Fn: func(t *rt.T) { mergeIntoOf(t, largeSchema(t)) }, Rule: ruleLarge + "content of the target and 1 or 2 encodings; non-trivial: not empty"},
	}},
	{ID: "C14", Suites: []rt.Suite{
		{Name: "grpccodec", Quick: 80000, Thorough: 1000000, Fn: grpcCodec, Rule: ruleSchema + "and a value of it; non-trivial: the encoding is not empty"},
		{Name: "verdicts", Quick: 20000, Thorough: 400000, Fn: grpcVerdicts, Rule: "a message, a nil pointer, a pointer to an unsupported type, no pointer at all, or a value that contains itself; and a valid, empty or damaged input; non-trivial: the input is not empty or the target is no plain message"},
	}},
	{ID: "C15", Suites: []rt.Suite{
		{Name: "pure", Quick: 100000, Thorough: 2000000, Fn: pureMarshal, Rule: ruleSchema + "and a value, encoded several times; its memory is compared before and after; non-trivial: the encoding is not empty"},
		{Name: "kinds", Quick: 200000, Thorough: 5000000, Fn: func(t *rt.T) { pureMarshalOf(t, kindSchema(t)) }, Rule: ruleKinds + "and a value of it, encoded several times; non-trivial: not empty"},
		{Name: "large", Quick: 300, Thorough: 8000, Fn: func(t *rt.T) { pureMarshalOf(t, largeSchema(t)) }, Rule: ruleLarge + "a value of it, encoded several times; non-trivial: not empty"},
	}},
	{ID: "C16", Suites: []rt.Suite{{Name: "official", Quick: 120000, Thorough: 3000000, Fn: official, Rule: "a value and an encoding of a message of the official generated packages (well-known types, descriptors, plugin, all field types of proto2 and proto3); non-trivial: not empty"}}},
	{ID: "C17", Suites: []rt.Suite{{Name: "history", Quick: 30000, Thorough: 900000, Fn: history, Rule: "a history of up to 30 calls on 2 to 4 messages of 1 to 3 schemas: valid and damaged inputs, encodings of all kinds, values that contain themselves, deep inputs, arguments that are no messages, buffers that are used again; each result is compared with the reference; non-trivial: a call failed and others worked"}}},
}
