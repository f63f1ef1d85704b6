// gen holds the checks of the code generator (prutalgen).
package main

import "verif/rt"

func main() { rt.Main(props) }

const ruleProject = "each case draws a project of .proto files (proto2, proto3, edition 2023; imports, nested types, maps, oneofs) "

var props = []rt.Prop{
	{ID: "G01", Suites: []rt.Suite{{Name: "compile", Quick: 6000, Thorough: 60000, Fn: compiles, Rule: ruleProject + "with all that may appear in them; the generated code is parsed, formatted and type-checked; non-trivial: more than one type"}}},
	{ID: "G03", Suites: []rt.Suite{{Name: "names", Quick: 6000, Thorough: 60000, Fn: goNames, Rule: ruleProject + "with names that need conversion or conflict resolution; the exported identifiers, fields and methods of the code are compared with those of protogen; non-trivial: a name is changed by more than camel-casing"}}},
	{ID: "G04", Suites: []rt.Suite{{Name: "references", Quick: 6000, Thorough: 60000, Fn: references, Rule: ruleProject + "with few names for types and packages, so that they hide each other, and references in any valid form; non-trivial: more than one reference"}}},
	{ID: "G05", Suites: []rt.Suite{{Name: "fields", Quick: 6000, Thorough: 60000, Fn: fieldTypes, Rule: ruleProject + "and compares the type and tag of each struct field with the descriptor; non-trivial: a field exists"}}},
	{ID: "G06", Suites: []rt.Suite{{Name: "enums", Quick: 6000, Thorough: 60000, Fn: enums, Rule: ruleProject + "with many enums (aliases, extreme values, nesting); constants, maps and methods are compared with the schema; non-trivial: an enum exists"}}},
	{ID: "G12", Suites: []rt.Suite{{Name: "directives", Quick: 6000, Thorough: 60000, Fn: directives, Rule: ruleProject + "with prutalgen directives and gogoproto options; non-trivial: one of them has an effect"}}},

	{ID: "G08", Suites: []rt.Suite{{Name: "invalid", Quick: 12000, Thorough: 120000, Fn: rejects, Rule: ruleProject + "that is valid, and then breaks one rule of the language in one place; it must be refused with a message; non-trivial: all"},
		{Name: "embedded", Quick: 500, Thorough: 5000, Workers: 1, Fn: embeddedCycle, Rule: "each case is a cycle of 1 to 4 files, some registered as embedded, which must be refused; non-trivial: one is embedded"},
		{Name: "grammar", Quick: 6000, Thorough: 60000, Fn: grammar, Rule: "each case is a form of the language (statements, options and values, identifiers that are keywords) at one of the places where it may stand, in a small schema with any space between its tokens; it must be accepted and declare what it says; non-trivial: all"}}},

	{ID: "G09", Suites: []rt.Suite{{Name: "robust", Quick: 12000, Thorough: 150000, Fn: robust, Rule: "each case is a project with random changes to its text, a sequence of random tokens, random bytes or deeply nested text; the answer must be code that parses or a message; non-trivial: all"}}},

	{ID: "G10", Suites: []rt.Suite{{Name: "stable", Quick: 1200, Thorough: 15000, Fn: stable, Rule: ruleProject + "; the code is generated again with another formatting, concurrently, from other directories, and file by file; non-trivial: code was generated"}}},
	{ID: "G13", Suites: []rt.Suite{{Name: "model", Quick: 6000, Thorough: 60000, Fn: modelFidelity, Rule: ruleProject + "; every element of the loaded model is compared with the schema, and comments too if the text is plain; non-trivial: a declaration exists"}}},
	{ID: "G02", Suites: []rt.Suite{{Name: "wire", Quick: 250, Thorough: 4000, Fn: wireFidelity, Rule: "each case draws up to 12 projects of .proto files; their generated code is compiled and linked with a driver that encodes and decodes random messages of every type and compares with the official library's dynamic messages; non-trivial: messages were compared"}}},
	{ID: "G07", Suites: []rt.Suite{{Name: "getters", Quick: 150, Thorough: 2500, Fn: getters, Rule: "as G02, but the driver calls all getters on nil, empty and filled messages and the String methods of enums; non-trivial: methods were called"}}},
	{ID: "G11", Suites: []rt.Suite{{Name: "literals", Quick: 20000, Thorough: 300000, Fn: literals, Rule: "each case writes random strings (all bytes, quotes, escapes, several adjacent literals) and integers (decimal, hexadecimal, octal) at all places of a schema that take them; the parsed values are compared; non-trivial: an escape or option occurs"}}},
	{ID: "G14", Suites: []rt.Suite{{Name: "command", Quick: 3000, Thorough: 40000, Fn: commandLine, Rule: ruleProject + "spread over include directories, and a command line in any of its forms; the tool is run and the files it writes are compared with the expected set, and with the code of the library; non-trivial: all"}}},
	{ID: "G15", Suites: []rt.Suite{
		{Name: "writer", Quick: 100000, Thorough: 3000000, Fn: codeWriter, Rule: "each case is a sequence of up to 40 operations (F, Write, UsePkg, SetGroupingFunc, Reset, Bytes) on a CodeWriter, compared with a model by parsing the output; non-trivial: a package is imported"},
		{Name: "directives", Quick: 100000, Thorough: 3000000, Fn: directiveParse, Rule: "each case is a list of comments with directives and look-alikes, and a list of options; non-trivial: there is a directive"},
		{Name: "options", Quick: 100000, Thorough: 3000000, Fn: goOptions, Rule: "each case is a list of go_opt arguments; non-trivial: there is an M option"},
		{Name: "embedded", Quick: 800, Thorough: 10000, Workers: 1, Fn: embedded, Rule: ruleProject + "some of which are registered as embedded files; the code is compared with that from files; non-trivial: an import is embedded"},
		{Name: "pieces", Quick: 1500, Thorough: 20000, Fn: pieces, Rule: ruleProject + "; its enums and messages are generated one by one in a random order with one generator, and the file without formatting; the declarations and imports are compared with those of the file; non-trivial: there are several"},
	}},
	{ID: "G16", Suites: []rt.Suite{{Name: "comments", Quick: 6000, Thorough: 60000, Fn: notesCarried, Rule: ruleProject + "with comments before elements and behind them; the comments of types, fields and constants of the parsed code are compared with those of the schema; non-trivial: there is a comment"}}},
}
