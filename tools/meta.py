#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, observe=None):
    """mech: list of (name, where); tech None: not claimed, note is the reason"""
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe))


D, E, S = "internal/prutal/decoder.go", "internal/prutal/encoder.go", "internal/prutal/sizer.go"
API = ["prutal.go", "internal/prutal/prutal.go"]
DESC = ["internal/desc/desc.go", "internal/desc/type.go", "internal/desc/tag.go", "internal/desc/funcs.go", "internal/desc/map.go"]
WIRE = ["internal/wire/encoder.go", "internal/wire/encoder_list.go", "internal/wire/encoder_packed.go", "internal/wire/encoder_map.go",
        "internal/wire/size.go", "internal/wire/size_map.go", "internal/wire/builder.go", "internal/wire/decoder.go", "internal/wire/decoder_map.go", "internal/wire/decoder_packed.go"]
PW = ["internal/protowire/wire.go", "internal/protowire/wire_ext.go"]
SCHEMAS = "The schemas are random: struct types built by reflection, a compiled set with oneofs and recursion, and code of the official generator."
ORACLE = "The oracle is the official Go protobuf implementation run on the same schema."
LVL = "Generated-input search with a fixed number of cases per run (the seed is VERIF_SEED); shows the property on the cases of the run, not on all inputs. "

prop("C01", "Round trip: decoding an encoding gives back the message",
     "Encoding any message value and decoding the bytes into a fresh message gives an equal message: every field, list order, map entry, oneof choice, presence and preserved unknown data survive. This holds for every combination of scalar type, integer encoding, list packing, map key and value type and nesting, and at any message size. Encoding the decoded message again gives bytes that mean the same.",
     ["inputs", "programs"], "all message types (fields, numbers, types, shapes, nesting) and all their values",
     "The tests round-trip a few hand-written structs; the encoder picks specialised functions per (type, wire form, packing, map key, map value), so the combinations and boundary values (field numbers around 1000, lengths 127/128, 16383/16384) are far more than what they sample.",
     API + [D, E] + WIRE + DESC,
     [("encoder of a message, with lengths written after the content", E), ("decoder of a message", D), ("specialised list and map functions chosen per field", "internal/desc/funcs.go, internal/wire")],
     "property-based testing: random schemas and values, round trip against a model and bit-exact comparison of the Go values",
     LVL + SCHEMAS)

prop("C02", "Encodings are valid protobuf that others read as the same message",
     "The bytes produced for any message are a valid protobuf encoding which the official implementation decodes to the same message. Absent fields are not written, present ones are, and lists are packed exactly if they are declared packed. No record is written twice.",
     ["inputs", "programs"], "all message types and all their values",
     "The tests compare a handful of encodings byte by byte or only decode them with the same library, so an error made by encoder and decoder alike goes unnoticed.",
     API + [E] + WIRE + DESC, [("encoder", E), ("wire forms of scalars, lists and maps", "internal/wire/encoder*.go"), ("tag parsing that decides the wire form", "internal/desc/tag.go")],
     "property-based differential testing: random schemas and values, decoded by the official implementation and compared record by record with its encoding",
     LVL + SCHEMAS + " " + ORACLE)

prop("C03", "Every valid encoding is decoded to what protobuf says it means",
     "Any valid protobuf encoding of a message type, whichever encoder wrote it, is accepted and gives the message that the official implementation reads. That includes records in any order, repeated scalars packed or not or both, split and repeated messages that merge, last-one-wins scalars, oversized but legal varints, map entries with missing, swapped, repeated or unknown parts, and records whose wire type does not fit their field, which count as unknown.",
     ["inputs", "programs"], "all message types and all valid encodings of them",
     "The tests decode what the library or the official one encodes, in field order and in canonical form; encoders in other languages, concatenation and schema changes produce the rest.",
     API + [D] + WIRE + PW + DESC, [("record loop of the decoder", D), ("packed and map decoders", "internal/wire/decoder_packed.go, internal/wire/decoder_map.go"), ("acceptance of other wire types", "internal/desc/desc.go")],
     "property-based differential testing: grammar-based generation of arbitrary valid encodings for random schemas, against the official decoder",
     LVL + SCHEMAS + " " + ORACLE)

prop("C04", "The computed size is exactly the encoded length, without allocating",
     "The size reported for a message equals the number of bytes its encoding has, for every message. Computing it allocates no memory. Where encoding fails, computing the size fails too.",
     ["inputs", "programs"], "all message types and all their values",
     "Size and encoding are two independent implementations with their own per-type functions; the tests compare them on a few messages.",
     API + [S, E, "internal/wire/size.go", "internal/wire/size_map.go", "internal/desc/funcs.go"], [("size computation", S), ("specialised size functions", "internal/wire/size.go, internal/wire/size_map.go")],
     "property-based testing: random schemas and values; size against the encoded length and an allocation count",
     LVL + SCHEMAS)

prop("C05", "Appending an encoding leaves the destination's prefix alone",
     "Encoding with append semantics returns the given bytes unchanged followed by exactly the message's encoding. It behaves so for every prefix and spare capacity of the destination, changes no byte before the destination or behind the result, and on failure leaves the prefix intact.",
     ["inputs", "programs"], "all messages and all destination slices (length, capacity, sharing)",
     "Lengths of nested messages are inserted after their content is written, moving bytes within a buffer that may or may not grow; the tests append to a few buffers.",
     API + [E, "internal/wire/builder.go"], [("length prefix insertion", E), ("growth of the buffer", "internal/prutal/prutal.go")],
     "property-based testing: random messages and destination slices with guard bytes around them",
     LVL + SCHEMAS)

prop("C06", "Malformed input is rejected safely, with bounded memory",
     "Whatever bytes are decoded, the call returns; it reports an error exactly if the official implementation rejects the bytes as malformed (which invalid UTF-8 is not, and apart from limits on nesting). It never panics, reads or writes outside of the input and the message, and uses memory and time proportional to the input, whatever lengths the input claims. After an error the message contains only what the input said, and later calls work as before.",
     ["inputs", "programs"], "all message types and all byte strings",
     "The decoder works with unsafe pointers and unchecked lengths; the tests try a handful of damaged inputs of single fields.",
     API + [D, "internal/prutal/span.go"] + WIRE + PW, [("bounds checks of the record parser", "internal/protowire/wire_ext.go, internal/protowire/wire.go"), ("allocation of lists and strings", D), ("memory for small values", "internal/prutal/span.go")],
     "structure-aware fuzzing: damaged encodings of random schemas, verdict and result against the official decoder, allocation budget, freed memory is overwritten",
     LVL + SCHEMAS + " " + ORACLE + " Reads outside of the input are noticed only if they fault or change the outcome.")

prop("C07", "Decoded messages own their memory",
     "A decoded message shares no memory with the input bytes nor with any other decoded message, and its own lists, strings and byte fields do not overlap, so changing or dropping one never changes another. Everything it refers to stays alive as long as it does, through garbage collection.",
     ["inputs", "histories"], "all sequences of decoding calls, changes to and releases of inputs and messages, with collections in between",
     "Strings, byte slices and lists are carved from shared untyped blocks with unsafe pointers that the collector must be able to follow; a mistake shows only with particular sizes, alignments and collection times.",
     [D, "internal/prutal/span.go", "internal/hack/hack.go", "internal/wire/decoder_packed.go"], [("block allocator with alignment", "internal/prutal/span.go"), ("typed allocation for values with pointers", D)],
     "property-based testing over histories: pairwise comparison of the memory regions reachable from decoded messages, and forced collections with clobbered free memory",
     LVL + "Run with GODEBUG=clobberfree=1.")

prop("C08", "Unknown fields are preserved byte for byte",
     "Fields that a message type does not know are kept when decoding and written again when encoding, with their exact bytes and in their order, at every level of nesting. A newer program thus reads its own message unchanged after an older program decoded and re-encoded it. Each decoding call starts with empty unknown fields, and types without room for them drop them without harm.",
     ["inputs", "programs", "histories"], "all pairs of an older and a newer message type, and all messages",
     "The tests keep one or two unknown fields at the top level of one type.",
     [D, E, S, "internal/desc/desc.go"], [("collection of unknown records", D), ("writing them", E), ("finding their place in the struct", "internal/desc/desc.go")],
     "property-based testing: random schema evolution, messages passed through older schemas, against the official implementation",
     LVL + SCHEMAS + " " + ORACLE)

prop("C09", "Presence of fields and the last oneof member are kept",
     "A field with presence that is set to its zero value is encoded and decoded as set, and an unset one stays unset; a field without presence is encoded only if it is not zero. Of the members of a oneof that an encoding contains, the last one is set and all others are gone, except that records of the same message member merge.",
     ["inputs", "histories"], "all presence states of all kinds of fields, and all sequences of oneof records",
     "Zero values, empty strings and messages, negative zero and several members of one oneof in a row are combinations the tests hardly touch.",
     [D, E, S, "internal/desc/desc.go"], [("zero checks of fields without presence", E), ("oneof wrappers", D)],
     "property-based testing against a presence model and the official implementation",
     LVL + SCHEMAS)

prop("C10", "Nesting is limited the same way in all directions",
     "Deep nesting never exhausts the stack: beyond a fixed depth encoding, computing the size and decoding all report an error, for every way of nesting (pointers, lists, maps, oneofs, values). What can be encoded can be decoded and the other way round, and ordinary depths are accepted. A Go value that contains itself is reported as an error rather than crashing the program.",
     ["inputs", "programs"], "all recursive message types, nesting depths and paths",
     "Every kind of field passes the depth on at its own place in three implementations; the tests try one kind.",
     [D, E, S, "internal/prutal/errors.go"], [("depth counters", D + ", " + E + ", " + S)],
     "property-based testing: generated nesting patterns and depths around the limit, agreement of three implementations",
     LVL)

prop("C11", "All functions can be used concurrently",
     "Any number of goroutines may encode, decode and compute sizes at the same time, also for types that are used for the first time, and for the same message if nobody changes it. Each gets the result it would get alone, without data races. Types that are rejected at the same time do not disturb others.",
     ["schedules", "histories"], "all interleavings of calls on new and known types",
     "Types are parsed on first use into a cache that readers access without locking, and buffers and map iterators come from pools; the tests use types one after another.",
     ["internal/desc/desc.go", "internal/desc/map.go", "internal/desc/type.go", D, "internal/prutal/prutal.go", "internal/hack/hack.go"], [("copy-on-write cache of types", "internal/desc/map.go"), ("lock for parsing", "internal/desc/desc.go"), ("pools", "internal/desc/type.go, internal/prutal/decoder.go")],
     "randomised concurrent histories over new types under the race detector, each result compared with the sequential one",
     LVL + "Schedules are those the Go scheduler takes; the race detector reports unsynchronised accesses even if they did no harm.")

prop("C12", "Unsupported Go types are refused, supported ones always work",
     "A Go struct type is accepted exactly if its field tags are valid protobuf tags that fit their Go types; otherwise each call that needs the type reports an error, and none panics or silently loses a field. The verdict does not depend on which types were used before, including rejected types that refer to good ones or are referred to by them. Arguments that are not pointers to structs are reported as errors.",
     ["programs", "histories"], "all struct types and tags, all orders of first use",
     "The tests reject a few types, each in isolation.",
     ["internal/desc/desc.go", "internal/desc/tag.go", "internal/desc/type.go", "internal/desc/funcs.go", "internal/prutal/prutal.go"], [("parsing of types and tags", "internal/desc"), ("cache of types", "internal/desc/map.go")],
     "property-based testing over histories of random valid and invalid struct types, against a table of what protobuf allows",
     LVL)

prop("C13", "Decoding into a used message merges as protobuf defines",
     "Decoding into a message that already has content merges: scalars are replaced, lists are appended, maps are updated, messages are merged, and fields that the input does not mention keep their value. Memory beyond the length of existing lists is never mistaken for content.",
     ["inputs", "histories"], "all contents of the target, and all inputs",
     "The tests almost always decode into fresh messages.",
     [D] + WIRE, [("growth of lists", D), ("merging of messages", D), ("packed decoders that append", "internal/wire/decoder_packed.go")],
     "property-based differential testing: random targets (with spare capacity holding old data) and inputs, against the official merge",
     LVL + SCHEMAS + " " + ORACLE)

prop("C14", "The gRPC codec behaves as the library",
     "The gRPC codec encodes each message to the bytes the library produces for it and decodes to the message the library decodes, and reports the same errors. It presents itself under the codec name that gRPC uses for protobuf.",
     ["inputs"], "all messages and byte strings",
     "The tests send a few messages.",
     ["pkg/grpccodec/grpccodec.go"], [("codec", "pkg/grpccodec/grpccodec.go")],
     "property-based testing: codec against the library and the official implementation",
     LVL + SCHEMAS)

prop("C15", "Encoding does not change the message",
     "Encoding a message or computing its size changes nothing in the message nor in anything it refers to, and the result does not depend on earlier calls: encoding the same message again gives the same bytes, up to the order of map entries. The result shares no memory with the message or with earlier results.",
     ["inputs", "histories"], "all messages and sequences of calls",
     "No test looks at the message after encoding it, and buffers are pooled and reused.",
     API + [E, S] + WIRE, [("encoder with pooled buffers", "internal/prutal/prutal.go"), ("map iteration through unsafe iterators", "internal/hack/hack.go")],
     "property-based testing: memory image of the message before and after repeated encoding, region disjointness",
     LVL + SCHEMAS)

prop("C16", "Messages of the official generator work unchanged",
     "Message types generated by the official Go generator can be used with this library as they are: it encodes and decodes them like the official implementation does. What it decoded is an ordinary message for the official packages, which compare, clone and encode it as if they had decoded it themselves.",
     ["inputs", "programs"], "all messages of officially generated types",
     "The tests use one generated file.",
     [D, E, S, "internal/desc/desc.go"], [("oneof wrappers and unknown fields of official structs", "internal/desc/desc.go")],
     "property-based differential testing on officially generated types, with both implementations working on the same values",
     LVL + ORACLE)

prop("C17", "Calls do not influence each other",
     "What a call does depends on its arguments only, never on what was called before: after any history of encodings, size computations and decodings of any messages and types, directly or through the gRPC codec, including calls that failed (damaged or too deep inputs, values that contain themselves, arguments that are no messages) and garbage collections in between, every call gives the result it gives in a new process, and messages and outputs of earlier calls stay as they are.",
     ["inputs", "histories"], "all sequences of calls, with failures at any place",
     "Encoders, decoders, memory blocks and temporary map variables are pooled and reused; the tests call functions on fresh data and hardly ever after a failure.",
     API + [D, E, S, "internal/prutal/span.go", "internal/desc/type.go", "internal/desc/map.go", "pkg/grpccodec"], [("pooled encoders and decoders", "internal/prutal/prutal.go"), ("temporary map variables of a type", "internal/desc/type.go")],
     "stateful model-based testing: random histories of calls on several messages with injected failures, each result compared with a model kept by the official implementation",
     LVL + ORACLE)

exec(open(os.path.join(HERE, "tools", "meta_gen.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks use the public API and the generator's packages as they are", "source_commits": []},
         "checks": [], "not_applicable": []}
    for p in P:
        if p["tech"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                                "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["note"]})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
