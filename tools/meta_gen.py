GEN = "prutalgen/pkg/prutalgen/"
PARSER = [GEN + f for f in ("prutalgen.go", "proto.go", "message.go", "field.go", "enum.go", "oneof.go", "option.go", "type.go")]
PROJ = "The schemas are random projects: up to four files of proto2, proto3 and edition 2023 with imports (public too), nesting, maps, oneofs, options, written in random but valid formatting. "
REF = "The expectation comes from the schema itself and, for Go names, from the front end of the official Go generator run on an independently built descriptor."

prop("G01", "Generated code always compiles and is formatted",
     "For every valid schema the generator produces Go code, and it compiles together with the code of all files it imports, whatever names, packages, comments, options and flags (getters, marshal methods) are used. The code is in the form gofmt gives it, starts with the notice of generated code, and belongs to the Go package that the schema asks for.",
     ["inputs", "configurations"], "all valid schemas (any number of files) and generator flags",
     "The tests compile a few fixed schemas; clashes of import names, keywords, odd package names and comments that end up in code need particular combinations.",
     [GEN + f for f in ("code.go", "codewriter.go", "proto.go", "type.go")],
     [("code templates", GEN + "code.go"), ("import management", GEN + "codewriter.go"), ("package names", GEN + "proto.go")],
     "property-based testing: random schemas, generated code is type-checked with go/types and compared with gofmt's output",
     LVL + PROJ + "Packages other than the generated ones are replaced by declarations for the type check.")

prop("G03", "Generated names are those of the official generator",
     "The exported types, constants, variables, struct fields (and their order), oneof wrappers, getters and methods of the generated code are named exactly as the official Go generator names them for the same schema. That includes camel-casing, nesting, and the suffixes that resolve conflicts, so code written against one works with the other. Nothing else is exported.",
     ["inputs"], "all names in valid schemas",
     "Names need conversion and conflict resolution that depends on the order and on the other names of a message; the tests use ordinary ones.",
     [GEN + f for f in ("message.go", "field.go", "enum.go", "oneof.go", "service.go", "code.go")], [("camel-casing and conflict resolution", GEN + "message.go, prutalgen/internal/protobuf/strs")],
     "property-based differential testing: identifiers of the type-checked generated code against protogen on random schemas with conflict-prone names",
     LVL + PROJ + REF)

prop("G04", "Type references mean what the language's scoping rules say",
     "A reference to a type, in any of the forms the language allows (relative, partly qualified, absolute), names the declaration that the scoping rules select: innermost scope first, across packages spread over files, through direct and public imports only. The generated field or method uses exactly that type, imported from the Go package where it is declared.",
     ["inputs"], "all valid schemas and all ways to write references in them",
     "Names hide each other only with particular nestings of packages and messages of the same name; the tests have few of them.",
     PARSER + [GEN + "codewriter.go"], [("resolution of type names", GEN + "type.go, " + GEN + "proto.go"), ("imports and their names", GEN + "codewriter.go")],
     "property-based testing: schemas with few names that hide each other, references written in every form that an independent resolver admits",
     LVL + PROJ + REF)

prop("G05", "Struct fields have the type and wire description of their schema field",
     "Every field of a message becomes a struct field whose Go type, presence (pointer or not), number, label, integer encoding and packing in the tag are what the schema says. This accounts for proto2, proto3 and edition defaults, features at file and field level, map key and value types, and oneof members. No field is lost or added.",
     ["inputs"], "all fields of valid schemas",
     "Presence and packing depend on syntax, label, type and features at several levels; the tests sample a few combinations.",
     PARSER + [GEN + "code.go"], [("features and their defaults", GEN + "option.go"), ("struct tags", GEN + "field.go")],
     "property-based testing: struct fields and tags of the type-checked generated code against protoreflect descriptors of the same schema",
     LVL + PROJ + REF)

prop("G06", "Enums are generated completely and correctly",
     "Every enum of a schema, at any nesting, becomes a Go type with one constant per value, holding its number (any int32), and with maps between names and numbers. For aliases the map from numbers has the first name. The String method gives the name of a known number and the decimal number of an unknown one.",
     ["inputs"], "all enums of valid schemas and all int32 values",
     "The tests have few enums, none deeply nested, with extreme values or aliases.",
     [GEN + "enum.go", GEN + "code.go"], [("enum code", GEN + "code.go")],
     "property-based testing: constants and maps of the type-checked generated code against the schema",
     LVL + PROJ)

prop("G12", "Directives and gogoproto options take effect exactly where they apply",
     "A prutalgen directive or gogoproto option on a file, message, enum, value or field has its documented effect (unknown fields kept or not, by-value messages, constants without prefix, no name maps) on that element and what it contains, and on nothing else. The innermost setting wins, and directives are recognised before an element and at the end of its line.",
     ["inputs"], "all placements and combinations of directives and options",
     "The interplay of levels is large; the tests try single ones.",
     [GEN + f for f in ("directive.go", "option.go", "message.go", "field.go", "enum.go")], [("directives in comments", GEN + "directive.go"), ("gogoproto options", GEN + "option.go")],
     "property-based testing: random placements, effects computed from the documented rules and compared with the type-checked code",
     LVL + PROJ)

prop("G08", "Valid schemas are accepted and broken ones refused with a message",
     "A schema that obeys the rules of the Protocol Buffers language is accepted however it is formatted. One that breaks one of the rules below is refused with a message, and no code is written. Rules: grammar, known syntax or edition, references that are declared and visible, field numbers (duplicated, reserved or out of range), names (duplicated in a scope, or reserved), enum numbers (duplicated without allow_alias, reserved or out of range), bounds of reserved ranges (not 32-bit integers), labels, map keys, map and label in oneofs, values of boolean and feature options, one package, message types of methods, a Go package, existing imports without cycles.",
     ["inputs"], "all valid schemas, and those with a fault in one place",
     "The tests have a few wrong files; each rule must hold at every nesting, syntax and position.",
     PARSER + [GEN + "service.go"], [("verification of messages, fields and enums", GEN + "message.go, field.go, enum.go"), ("loader", GEN + "prutalgen.go")],
     "property-based testing: valid random schemas must load; schemas with one rule broken (about 40 mutations of model or text) must be refused",
     LVL + PROJ + "A mutation is drawn for each case; the unmutated schema is loaded too. Suite grammar goes through all forms of the language by name, with what each declares; the forms prutalgen's grammar does not know (aggregate values with lists or without colons, identifiers inf and nan, and others; known-findings.txt) are reported as known findings, groups are not generated.")

prop("G09", "The generator never crashes or hangs on any input",
     "For arbitrary text, including truncated or corrupted schemas and random bytes, loading ends in bounded time: with a model and code that parses as Go, or with an error message that names the file. There is no panic with a runtime error and no endless recursion.",
     ["inputs"], "all byte strings as schemas and as imported files",
     "The tests have a few hand-written errors; crashes come from half-built models after particular errors.",
     PARSER + ["prutalgen/internal/parser/protobuf_parser.go"], [("loader and error collection", GEN + "prutalgen.go")],
     "fuzzing: structure-aware mutation of random schemas, token soup, random bytes and deep nesting",
     LVL + "Texts are corrupted schemas (bytes, tokens and lines deleted, repeated, swapped), sequences of random tokens, random bytes and deep nesting; a time limit applies to each.")

prop("G10", "The generated code depends on the meaning of the schema only",
     "The same schema gives the same code byte for byte: on every run, in concurrent runs, from any directory or split of include directories, when a file is loaded alone or with others, by a new loader or one that was used before (even for a broken file), and when it is generated twice from one model. The layout of the text (white space, comments aside, order of imports and options, equivalent literals and forms of references) does not change the code.",
     ["inputs", "schedules", "configurations"], "all valid schemas, layouts of them and concurrent runs",
     "A map iteration or shared state shows up only on some runs and schemas; the tests compare nothing across runs.",
     [GEN + f for f in ("prutalgen.go", "code.go", "codewriter.go", "proto.go")], [("loader", GEN + "prutalgen.go"), ("code templates", GEN + "code.go")],
     "metamorphic property-based testing: one random schema generated several times, differently written, placed and scheduled; a part runs under the race detector",
     LVL + PROJ + "The generated code is compared byte for byte, or token for token if the layout was changed.")

prop("G13", "The parsed model says what the schema says",
     "What a plugin sees of a schema is complete and right: files in dependency order with imports and packages, declarations in order with names, full names, numbers, labels, key and value types, oneof membership, reserved numbers, options with their values, services and methods with streams, what each type refers to (declaration, Go import path and name), directives, and the comments that precede an element or end its line. Parent links lead to the containing element.",
     ["inputs"], "all valid schemas",
     "The tests check parts of a few models; omissions show up with combinations of nesting, options and comments.",
     PARSER + [GEN + f for f in ("service.go", "comment.go", "directive.go")] , [("model", GEN + "message.go, field.go, enum.go, oneof.go, service.go"), ("comments", GEN + "comment.go")],
     "property-based testing: every element of the loaded model is compared with the random schema that was written",
     LVL + PROJ + "Comments are compared if the text is written plainly, one declaration per line.")

prop("G02", "Generated messages encode and decode as the schema says",
     "A message of generated code, filled through its struct fields, encodes to bytes that the official library decodes, with the descriptor of the same schema, to the same values; and bytes the official library encodes decode into the generated struct with the same values. That holds for every type of every valid schema: all scalar types, enums, nested and recursive messages, maps, oneofs, presence and packing. Generated Marshal and Unmarshal methods do the same.",
     ["inputs", "configurations"], "all messages of all valid schemas, and all values of them",
     "It needs generator and codec to agree on every combination of type, label, presence and nesting; the tests run a few fixed messages.",
     [GEN + f for f in ("code.go", "field.go", "message.go", "type.go", "oneof.go")] + ["internal/desc/desc.go"],
     [("struct tags and oneof wrappers", GEN + "code.go"), ("codec descriptors from tags", "internal/desc/desc.go")],
     "property-based differential testing end to end: code of random schemas is compiled, linked and run against dynamic messages of the official library",
     LVL + PROJ + "Each program holds up to 12 projects; the driver draws the values.")

prop("G07", "Getters and enum methods of generated code return what is stored or the default",
     "With getters requested, each field has a getter that returns the stored value, and the zero value of its type on a nil message or unset field: zero, empty, false, nil, or the first (zero) enum value. Oneof getters give the value only if that member is set. Getters never panic. The String method of an enum gives the name of the value, or its number if it has none.",
     ["inputs"], "all fields of valid schemas and all values",
     "Getters are templates that depend on type, presence and oneof membership; the tests look at few of them.",
     [GEN + f for f in ("code.go", "field.go", "oneof.go", "enum.go")], [("getter templates", GEN + "code.go")],
     "property-based testing: code of random schemas is compiled and run; every getter is called by reflection on nil, empty and filled messages",
     LVL + PROJ + "Explicit proto2 defaults (documented as unsupported) and enums without a zero value are only checked for panics.")

prop("G11", "Literals have the value the language gives them",
     "String literals (either quote, all escapes, adjacent pieces, any bytes) and integer literals (decimal, hexadecimal, octal, signs, extremes) have the value that the Protocol Buffers language defines at every place a schema takes them: imports, packages of Go, option values, defaults, reserved names and ranges, field and enum numbers. Literals out of range are refused.",
     ["inputs"], "all string and integer literals, at all places",
     "The tests have a few escapes; each escape has its own rule and many neighbours.",
     ["prutalgen/internal/protobuf/text/decode_string.go"] + PARSER, [("unquoting", "prutalgen/internal/protobuf/text/decode_string.go"), ("integers", GEN + "field.go, enum.go, reserved.go")],
     "property-based testing: random values are written with random spellings, and what the model holds is compared with the value",
     LVL + "Values are drawn first and then spelled, so the oracle does not parse. Escapes the grammar file does not know (question mark, Unicode, short hex and octal) are not generated.")

prop("G14", "The command line tool writes the right code to the right files",
     "The prutalgen command, run with any order and spelling of its flags (-I/--proto_path, --go_out, --go_opt with M and paths options, --gen_getter) and any form of the file arguments, writes one file per argument: at the Go import path below the output directory, or beside the .proto file for source_relative. Include directories are searched in order. The code is that of the library; no other file is touched. A wrong or missing file gives a message and a failing exit status.",
     ["inputs", "configurations"], "all command lines, include directories and layouts of files",
     "No test runs the command; the combinations of flags, relative and absolute paths and several files are many.",
     ["prutalgen/main.go", "prutalgen/pkg/utils/args/go_opts.go", GEN + "code.go", GEN + "prutalgen.go"],
     [("flags", "prutalgen/main.go, prutalgen/pkg/utils/args/go_opts.go"), ("output paths", GEN + "code.go"), ("search of files", GEN + "prutalgen.go")],
     "property-based testing: the tool is built and run with random command lines on random directory trees; the tree afterwards is compared with a model",
     LVL + PROJ + "The files written may exist already, with longer content. The notice holds the arguments.")

prop("G15", "The helpers for plugins do what they say",
     "A CodeWriter yields, for every sequence of its operations, the header, package clause, exactly the imports asked for (last name wins, sorted, grouped by weight) and the text in the order it was written, with each F ending its line; Bytes may be called any time, and Reset starts anew. Directives are recognised in comments and looked up as documented (last list, no_ form), the last option of a name counts, and go_opt arguments give the path type and the M mapping. Schemas registered as embedded are found by their names without a file and give the same code, and the exported parts of the generator (an enum, a message, a file without formatting, paths with another suffix) give on their own, in any order, what the generated file has.",
     ["histories", "inputs"], "all sequences of operations of a CodeWriter, all comments, option lists and go_opt arguments",
     "The tests use one short sequence of calls and a few strings.",
     [GEN + "codewriter.go", GEN + "directive.go", GEN + "option.go", GEN + "embed.go", "prutalgen/pkg/utils/args/go_opts.go", "prutalgen/pkg/utils/args/args.go"],
     [("code writer", GEN + "codewriter.go"), ("directives and options", GEN + "directive.go, " + GEN + "option.go"), ("go_opt", "prutalgen/pkg/utils/args/go_opts.go")],
     "model-based testing: random operation sequences on the code writer against a model; random directives, options and arguments against reference functions; embedded schemas against the same ones in files",
     LVL + "The output of the writer is judged by parsing it with go/parser.")

prop("G16", "Comments of the schema appear at the Go elements they belong to",
     "The comment directly before a message, enum, field or enum value becomes the documentation of the Go type, struct field (of the wrapper for oneof members) or constant, and the comment at the end of its line the comment behind the Go element. Every such comment appears exactly once, whole, at its own element only, and its text never turns into code.",
     ["inputs"], "all comments before and behind declarations of valid schemas",
     "Comments hang on tokens that neighbouring declarations share; the tests check a few placements.",
     [GEN + f for f in ("comment.go", "code.go", "message.go", "field.go", "enum.go")],
     [("comments of tokens", GEN + "comment.go"), ("code templates", GEN + "code.go")],
     "property-based testing: comments with unique marks in random schemas are looked for in the parsed generated code",
     LVL + PROJ + "White space in comments is not compared, because gofmt changes it.")
