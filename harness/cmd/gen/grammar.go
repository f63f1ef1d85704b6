package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"verif/pgen"
	"verif/rt"
)

// form is a construct of the language. Its tokens are separated by spaces; where it
// stands is one of:
//
//	file, message, enum, oneof, service, method   a statement there
//	value                                         the value of an option of type Opt (below)
//	scalar                                        "field = value": a field of Opt set by name
//	name                                          an identifier of some declaration
type form struct {
	name string
	at   string
	text string
	syn  string   // "": any; else the syntaxes
	want []string // what it declares, relative to where it is
}

// optProto declares the options that are used.
const optProto = `syntax = "proto2";
package q;
import "google/protobuf/descriptor.proto";
option go_package = "example.com/q";
enum Kind { K0 = 0; K1 = 1; }
message Opt {
  optional int32 a = 1;
  optional string s = 2;
  optional double f = 3;
  optional bool b = 4;
  optional Kind e = 5;
  optional Opt o = 6;
  repeated int32 l = 7;
  repeated Opt r = 8;
  optional uint64 u = 9;
  optional bytes y = 10;
  extensions 100 to 200;
}
extend Opt { optional int32 ext = 100; optional Opt mext = 101; }
extend google.protobuf.FileOptions { optional Opt file = 50001; }
extend google.protobuf.MessageOptions { optional Opt msg = 50001; }
extend google.protobuf.FieldOptions { optional Opt fld = 50001; }
extend google.protobuf.EnumOptions { optional Opt enm = 50001; }
extend google.protobuf.EnumValueOptions { optional Opt val = 50001; }
extend google.protobuf.OneofOptions { optional Opt one = 50001; }
extend google.protobuf.ServiceOptions { optional Opt svc = 50001; }
extend google.protobuf.MethodOptions { optional Opt mtd = 50001; }
extend google.protobuf.ExtensionRangeOptions { optional Opt rng = 50001; }
`

// featuresProto stands for the file of that name.
const featuresProto = `syntax = "proto2";
package pb;
import "google/protobuf/descriptor.proto";
option go_package = "example.com/pb";
extend google.protobuf.FeatureSet { optional GoFeatures go = 1002; }
message GoFeatures {
  enum APILevel { API_LEVEL_UNSPECIFIED = 0; API_OPEN = 1; }
  optional APILevel api_level = 2;
}
`

var forms = []form{
	// statements
	{"empty statement", "file", ";", "", nil},
	{"empty statements", "message", "; ; ;", "", nil},
	{"empty statement in an enum", "enum", ";", "", nil},
	{"empty statement in a service", "service", ";", "", nil},
	{"empty statement in a method", "method", ";", "", nil},
	{"empty message", "file", "message X { }", "", []string{"M X"}},
	{"empty service", "file", "service X { }", "", []string{"S X"}},
	{"file options", "file", "option optimize_for = LITE_RUNTIME ; option java_package = \"a.b\" ; option cc_enable_arenas = true ;", "", nil},
	{"file option in pieces", "file", "option java_package = \"a\" '.' \"b\" ;", "", nil},
	{"oneof", "message", "oneof x { int32 a = 50 ; string b = 51 [ deprecated = true ] ; Sub c = 52 ; }", "", []string{"F a=50", "F b=51", "F c=52"}},
	{"oneof with options", "message", "oneof x { option ( q.one ) . a = 1 ; int32 a = 50 ; option ( q.one ) . b = true ; }", "", []string{"F a=50"}},
	{"map", "message", "map < string , Sub > x = 50 [ deprecated = true ] ;", "", []string{"F x=50"}},
	{"map of enums", "message", "map < int64 , .p.E > x = 50 ;", "", []string{"F x=50"}},
	{"optional", "message", "optional int32 x = 50 ;", "proto2 proto3", []string{"F x=50"}},
	{"required", "message", "required Sub x = 50 ;", "proto2", []string{"F x=50"}},
	{"repeated", "message", "repeated .p.E x = 50 [ packed = true , deprecated = false ] ;", "proto2 proto3", []string{"F x=50"}},
	{"hexadecimal field number", "message", "repeated int32 x = 0x3E8 ;", "", []string{"F x=1000"}},
	{"octal field number", "message", "repeated int32 x = 0144 ;", "", []string{"F x=100"}},
	{"reserved numbers", "message", "reserved 50 , 52 to 55 , 0x64 to 0144 , 900 to max ;", "", nil},
	{"reserved names", "message", "reserved 'x' , \"y\" , \"z\" ;", "proto2 proto3", nil},
	{"reserved names in pieces", "message", "reserved \"x\" \"1\" , 'y' \"2\" ;", "proto2 proto3", nil},
	{"reserved identifiers", "message", "reserved x , y ;", "2023", nil},
	{"extension range", "message", "extensions 500 ;", "proto2 2023", nil},
	{"extension ranges", "message", "extensions 500 to 599 , 601 , 700 to max ;", "proto2 2023", nil},
	{"extension range options", "message", "extensions 500 to 599 [ verification = UNVERIFIED ] ;", "proto2 2023", nil},
	{"extension declarations", "message", "extensions 500 to 599 [ declaration = { number : 500 full_name : \".p.x\" type : \"int32\" } , declaration = { number : 501 reserved : true } ] ;", "proto2 2023", nil},
	{"extend in a message", "message", "extend q.Opt { optional int32 x = 150 ; repeated q.Opt y = 151 ; }", "proto2", nil},
	{"extend in a file", "file", "extend .q.Opt { optional string x = 152 [ default = \"a\" , deprecated = true ] ; }", "proto2", nil},
	{"extend of options", "file", "extend google.protobuf.FieldOptions { repeated string x = 50100 ; }", "proto2", nil},
	{"nested types", "message", "message X { message Y { enum Z { A = 0 ; } Z z = 1 [ json_name = \"q\" ] ; } }", "proto3 2023", []string{"M X", "M X.Y", "E X.Y.Z", "V X.Y.Z.A=0", "F X.Y.z=1"}},
	{"enum", "file", "enum X { A_X = 0 ; B_X = - 1 ; C_X = 0x7fffffff ; D_X = -017 ; }", "", []string{"E X", "V X.A_X=0", "V X.B_X=-1", "V X.C_X=2147483647", "V X.D_X=-15"}},
	{"enum aliases", "file", "enum X { option allow_alias = true ; A_X = 0 ; B_X = 0 ; }", "", []string{"E X", "V X.A_X=0", "V X.B_X=0"}},
	{"enum value options", "enum", "W = 7 [ deprecated = true , ( q.val ) . a = 2 ] ;", "", []string{"V W=7"}},
	{"enum reserved numbers", "enum", "reserved 50 , 52 to 55 , 900 to max ;", "", nil},
	{"enum reserved negative numbers", "enum", "reserved - 50 , -20 to - 10 ;", "", nil},
	{"enum reserved range from a negative number", "enum", "reserved -20 to -1 , 50 ;", "", nil},
	{"enum reserved names", "enum", "reserved \"X\" , 'Y' ;", "proto2 proto3", nil},
	{"enum reserved identifiers", "enum", "reserved X , Y ;", "2023", nil},
	{"method", "service", "rpc X ( Msg ) returns ( .p.Msg.Sub ) ;", "", []string{"R X"}},
	{"streaming methods", "service", "rpc X ( stream Msg ) returns ( Msg ) ; rpc Y ( Msg ) returns ( stream p.Msg ) { } rpc Z ( stream .p.Msg ) returns ( stream Msg.Sub ) { ; }", "", []string{"R X", "R Y", "R Z"}},
	{"method options", "service", "rpc X ( Msg ) returns ( Msg ) { option deprecated = true ; option idempotency_level = NO_SIDE_EFFECTS ; }", "", []string{"R X"}},
	{"method with a semicolon behind its body", "service", "rpc X ( Msg ) returns ( Msg ) { } ;", "", []string{"R X"}},
	{"service options", "service", "option deprecated = false ; option ( q.svc ) = { a : 1 } ;", "", nil},

	// field options
	{"json_name", "message", "repeated int32 x = 50 [ json_name = \"a\\tb\" ] ;", "", []string{"F x=50"}},
	{"field options of the descriptor", "message", "repeated string x = 50 [ ctype = CORD , debug_redact = true , retention = RETENTION_SOURCE , targets = TARGET_TYPE_FIELD , targets = TARGET_TYPE_FILE ] ;", "", []string{"F x=50"}},
	{"jstype and lazy", "message", "repeated int64 x = 50 [ jstype = JS_STRING ] ; repeated Sub y = 51 [ lazy = true , unverified_lazy = false ] ;", "", []string{"F x=50", "F y=51"}},
	{"edition defaults", "message", "repeated int64 x = 50 [ edition_defaults = { edition : EDITION_2023 , value : \"x\" } ] ;", "", []string{"F x=50"}},
	{"integer default", "message", "optional sint32 x = 50 [ default = -0x80000000 ] ; optional uint64 y = 51 [ default = 18446744073709551615 ] ;", "proto2", []string{"F x=50", "F y=51"}},
	{"float default", "message", "optional double x = 50 [ default = -1.5e-3 ] ; optional float y = 51 [ default = 5 ] ; optional float z = 52 [ default = .5 ] ;", "proto2", []string{"F x=50", "F y=51", "F z=52"}},
	{"special float default", "message", "optional double x = 50 [ default = inf ] ; optional float y = 51 [ default = -inf ] ; optional float z = 52 [ default = nan ] ;", "proto2", []string{"F x=50", "F y=51", "F z=52"}},
	{"default -nan", "message", "optional double x = 50 [ default = -nan ] ;", "proto2", []string{"F x=50"}},
	{"string default", "message", "optional string x = 50 [ default = \"a\" 'b' ] ; optional bytes y = 51 [ default = \"\\xff\\0\" ] ;", "proto2", []string{"F x=50", "F y=51"}},
	{"bool and enum default", "message", "optional bool x = 50 [ default = true ] ; optional E y = 51 [ default = V ] ;", "proto2", []string{"F x=50", "F y=51"}},
	{"features of a file", "file", "option features . field_presence = IMPLICIT ; option features . repeated_field_encoding = EXPANDED ;", "2023", nil},
	{"features as one value", "file", "option features = { utf8_validation : NONE , json_format : LEGACY_BEST_EFFORT ; } ;", "2023", nil},
	{"features of fields", "message", "string x = 50 [ features . field_presence = EXPLICIT , features . utf8_validation = NONE ] ;", "2023", []string{"F x=50"}},
	{"features of enums", "enum", "option features . enum_type = OPEN ;", "2023", nil},
	{"language features", "file", "import \"google/protobuf/go_features.proto\" ; option features . ( pb.go ) . api_level = API_OPEN ;", "2023", nil},

	// names of options
	{"option name", "option", "( NAME ) = { a : 1 }", "", nil},
	{"option name with a leading dot", "option", "( .NAME ) = { a : 1 }", "", nil},
	{"option name with fields", "option", "( NAME ) . a = 1", "", nil},
	{"option name with several fields", "option", "( NAME ) . o . o . a = 1", "", nil},
	{"option name with an extension", "option", "( NAME ) . ( q.ext ) = 1", "", nil},
	{"option name with an extension and a field", "option", "( NAME ) . ( q.mext ) . a = 1", "", nil},
	{"option name with a field and an extension", "option", "( NAME ) . o . ( q.ext ) = 1", "", nil},

	// values
	{"", "scalar", "a = 0", "", nil},
	{"", "scalar", "a = -1", "", nil},
	{"", "scalar", "a = - 0x1F", "", nil},
	{"", "scalar", "a = 017", "", nil},
	{"", "scalar", "u = 18446744073709551615", "", nil},
	{"", "scalar", "f = 1.", "", nil},
	{"", "scalar", "f = .5E+10", "", nil},
	{"", "scalar", "f = -1e-5", "", nil},
	{"", "scalar", "f = inf", "", nil},
	{"", "scalar", "f = -inf", "", nil},
	{"", "scalar", "f = nan", "", nil},
	{"", "scalar", "b = true", "", nil},
	{"", "scalar", "b = false", "", nil},
	{"", "scalar", "e = K1", "", nil},
	{"", "scalar", "s = \"\"", "", nil},
	{"", "scalar", "s = \"it's\" '\"x\"'", "", nil},
	{"", "scalar", "y = '\\000\\xff'", "", nil},
	{"", "value", "{ }", "", nil},
	{"", "value", "{ a : 1 }", "", nil},
	{"", "value", "{ a : 1 s : \"x\" }", "", nil},
	{"", "value", "{ a : 1 , s : \"x\" ; f : 1.5 , }", "", nil},
	{"", "value", "{ a : -1 f : -inf u : 0x1F }", "", nil},
	{"", "value", "{ s : \"x\" 'y' \"z\" b : true e : K1 }", "", nil},
	{"", "value", "{ o : { o : { a : 1 } } }", "", nil},
	{"", "value", "{ l : 1 l : 2 r : { } r : { a : 1 } }", "", nil},
	{"message in a value without colon", "value", "{ o { a : 1 } }", "", nil},
	{"message in a value without colon", "value", "{ a : 1 , r { } r { o { } } }", "", nil},
	{"list in a value", "value", "{ l : [ 1 , 2 ] }", "", nil},
	{"list in a value", "value", "{ l : [ ] }", "", nil},
	{"list in a value", "value", "{ r : [ { a : 1 } , { } ] }", "", nil},
	{"list of messages in a value without colon", "value", "{ r [ { a : 1 } , { } ] }", "", nil},
	{"angle brackets in a value", "value", "{ o : < a : 1 > }", "", nil},
	{"angle brackets in a value", "value", "{ o < a : 1 > }", "", nil},
	{"extension in a value", "value", "{ [ q.ext ] : 1 }", "", nil},
	{"extension in a value", "value", "{ [ q.mext ] : { a : 1 } }", "", nil},
}

// identifiers that the grammar could take for something else
var idents = []string{"syntax", "edition", "import", "weak", "public", "package", "option", "optional", "required", "repeated", "oneof", "map", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "double", "float", "bytes", "reserved", "extensions", "to", "max", "enum", "message", "service", "extend", "rpc", "stream", "returns", "true", "false", "group", "inf", "nan", "export", "local", "default", "packed", "e1", "x1F", "_", "_1"}

var identForms []form

func init() {
	for _, n := range idents {
		at := func(n string) string {
			return "identifier " + n
		}
		identForms = append(identForms,
			form{at(n), "message", "repeated int32 " + n + " = 50 ;", "", []string{"F " + n + "=50"}},
			form{at(n), "message", "map < int32 , int32 > " + n + " = 50 ;", "", []string{"F " + n + "=50"}},
			form{at(n), "message", "oneof " + n + " { int32 x = 50 ; }", "", []string{"F x=50"}},
			form{at(n), "file", "message " + n + " { }", "", []string{"M " + n}},
			form{at(n), "file", "enum " + n + " { X_1 = 0 ; } message X_2 { repeated .p." + n + " x = 1 ; }", "", []string{"E " + n, "V " + n + ".X_1=0", "M X_2", "F X_2.x=1"}},
			form{at(n), "message", "message " + n + " { } repeated Msg." + n + " x = 50 ;", "", []string{"M " + n, "F x=50"}},
			form{at(n), "file", "service " + n + " { rpc X ( Msg ) returns ( Msg ) ; }", "", []string{"S " + n, "R X"}},
			form{at(n), "service", "rpc " + n + " ( Msg ) returns ( Msg ) ;", "", []string{"R " + n}},
		)
		if n != "reserved" && n != "option" { // these start other statements
			identForms = append(identForms, form{at(n), "enum", n + " = 50 ;", "", []string{"V " + n + "=50"}})
		}
	}
}

// dump lists what a model declares.
func dump(p *prutalgen.Proto) (out []string) {
	enum := func(prefix string, e *prutalgen.Enum) {
		out = append(out, "E "+prefix+e.Name)
		for _, v := range e.Fields {
			out = append(out, fmt.Sprintf("V %s%s.%s=%d", prefix, e.Name, v.Name, v.Value))
		}
	}
	var message func(prefix string, m *prutalgen.Message)
	message = func(prefix string, m *prutalgen.Message) {
		out = append(out, "M "+prefix+m.Name)
		prefix += m.Name + "."
		for _, f := range m.Fields {
			out = append(out, fmt.Sprintf("F %s%s=%d", prefix, f.Name, f.FieldNumber))
		}
		for _, e := range m.Enums {
			enum(prefix, e)
		}
		for _, x := range m.Messages {
			message(prefix, x)
		}
	}
	for _, e := range p.Enums {
		enum("", e)
	}
	for _, m := range p.Messages {
		message("", m)
	}
	for _, s := range p.Services {
		out = append(out, "S "+s.Name)
		for _, m := range s.Methods {
			out = append(out, "R "+m.Name)
		}
	}
	return
}

// spaced writes the tokens of a snippet with any space between them.
func spaced(t *rt.T, s string) string {
	var b strings.Builder
	last := ""
	wordy := func(c byte) bool {
		return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for _, x := range strings.Split(s, " ") {
		if last != "" {
			need := wordy(last[len(last)-1]) && wordy(x[0]) && x != "." && last != "." || last[len(last)-1] == x[0] && (x[0] == '"' || x[0] == '\'')
			switch rt.Weighted(t, 10, 6, 1, 1, 1, 1) {
			case 0:
				b.WriteByte(' ')
			case 1:
				if need {
					b.WriteByte(' ')
				}
			case 2:
				b.WriteString(rt.Pick(t, "\n", "\r\n", "  "))
			case 3:
				b.WriteString("\t")
			case 4:
				b.WriteString("/* ; */")
			case 5:
				b.WriteString("// }\n")
			}
		}
		b.WriteString(x)
		last = x
	}
	return b.String()
}

var knownOnce sync.Once

var knownFindings = map[string]string{} // signatures of this check's known findings

func loadKnown(prop string) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "known-findings.txt"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, m := range regexp.MustCompile(`(?m)^known: property=`+prop+` "([^"]+)" (.*)$`).FindAllStringSubmatch(string(b), -1) {
		knownFindings[m[1]] = m[2]
	}
}

// G08: each form of the language is accepted and declares what it says
func grammar(t *rt.T) {
	knownOnce.Do(func() { loadKnown("G08") })
	f := rt.Pick(t, forms...)
	if rt.Chance(t, 40) {
		f = rt.Pick(t, identForms...)
	}
	syn := rt.Pick(t, "proto3", "proto2", "2023")
	if f.syn != "" {
		syn = rt.Pick(t, strings.Fields(f.syn)...)
	}
	name, text, at := f.name, f.text, f.at
	if name == "" {
		name = at + " " + text
	}
	deep := rt.Chance(t, 40)    // the message is a nested one
	first := rt.Chance(t, 50)   // the snippet is before the other declarations
	snip := map[string]string{} // what is inserted
	names := map[string]string{"file": "q.file", "message": "q.msg", "field": "q.fld", "enum": "q.enm", "enumvalue": "q.val", "oneof": "q.one", "service": "q.svc", "method": "q.mtd", "range": "q.rng"}
	if at == "value" || at == "scalar" || at == "option" {
		places := []string{"file", "message", "field", "enum", "enumvalue", "oneof", "service", "method"}
		if syn != "proto3" {
			places = append(places, "range")
		}
		place := rt.Pick(t, places...)
		var o string
		switch at {
		case "value":
			o = "( " + names[place] + " ) = " + text
		case "scalar":
			o = "( " + names[place] + " ) . " + text
		case "option":
			o = strings.ReplaceAll(text, "NAME", names[place])
		}
		at = place
		switch place {
		case "field", "enumvalue", "range":
			if rt.Chance(t, 40) && place != "range" {
				o = rt.Pick(t, "deprecated = true , "+o, o+" , deprecated = false")
			}
			text = "[ " + o + " ]"
		default:
			text = "option " + o + " ;"
		}
	}
	snip[at] = spaced(t, text)
	label := ""
	if syn == "proto2" {
		label = "optional "
	}
	before, after := func(s string) string {
		if first {
			return s + "\n"
		}
		return ""
	}, func(s string) string {
		if !first {
			return s + "\n"
		}
		return ""
	}
	ext := ""
	if syn != "proto3" {
		ext = "extensions 400 to 409 " + snip["range"] + ";\n"
	}
	msg := "message Msg {\n" + before(snip["message"]) + label + "int32 f = 1 " + snip["field"] + ";\nmessage Sub {}\n" +
		"oneof o {\n" + before(snip["oneof"]) + "string g = 2 ;\n" + after(snip["oneof"]) + "}\n" + ext + after(snip["message"]) + "}\n"
	prefix := "Msg"
	var want []string
	if deep {
		// the type is found from inside as before
		msg = "message Msg {\nmessage Sub {}\n}\nmessage Up {\n" + msg + "}\n"
		prefix = "Up.Msg"
		want = append(want, "M Msg", "M Msg.Sub", "M Up")
	}
	want = append(want, "M "+prefix, "M "+prefix+".Sub", "F "+prefix+".f=1", "F "+prefix+".g=2", "E E", "V E.Z=0", "V E.V=1", "S Svc", "R Run")
	for _, w := range f.want {
		k, n := w[:2], w[2:]
		switch {
		case at == "message":
			n = prefix + "." + n
		case at == "enum":
			n = "E." + n
		}
		want = append(want, k+n)
	}
	kw := "syntax"
	if syn == "2023" {
		kw = "edition"
	}
	decls := []string{msg,
		"enum E {\n" + rt.Pick(t, "", ";") + "Z = 0 ;\n" + before(snip["enum"]) + "V = 1 " + snip["enumvalue"] + ";\n" + after(snip["enum"]) + "}\n",
		"service Svc {\n" + before(snip["service"]) + "rpc Run(Msg) returns (Msg)" + map[bool]string{true: ";", false: " {" + snip["method"] + "}"}[snip["method"] == "" && first] + "\n" + after(snip["service"]) + "}\n"}
	rot := t.Int(3)
	decls = append(decls[rot:], decls[:rot]...)
	imports := "import \"opt.proto\";\nimport \"google/protobuf/descriptor.proto\";\n"
	if !strings.Contains(text, "q.") && !strings.Contains(text, "google") && rt.Chance(t, 90) {
		imports = ""
	}
	src := kw + " = \"" + syn + "\";\npackage p;\noption go_package = \"example.com/p\";\n" + imports + before(snip["file"]) + strings.Join(decls, "") + after(snip["file"])
	t.LogLazy(func() string { return src })
	t.Sample(func() string { return src })
	t.Key(src)
	t.NonTrivial(true)

	dir, clean := scratch()
	defer clean()
	pgen.WriteTexts(dir, map[*pgen.File]string{{Path: "root.proto"}: src, {Path: "opt.proto"}: optProto, {Path: "google/protobuf/go_features.proto"}: featuresProto})
	ps, l, err := pgen.Load([]string{dir}, "root.proto", nil)
	if err != nil {
		m := strings.ReplaceAll(err.Error(), dir, "DIR")
		if _, ok := knownFindings[name]; ok && strings.TrimSpace(m) != "" {
			t.Label("known: " + name)
			rt.Known("G08", name+" is refused: "+knownFindings[name])
			return
		}
		t.Fatalf("a valid form (%s) is refused: %v", name, m)
	}
	got := dump(ps[0])
	sort.Strings(got)
	sort.Strings(want)
	if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
		t.Fatalf("%s: the model holds\n%s\ninstead of\n%s", name, g, w)
	}
	out, err := pgen.GenSource(ps[0], l, filepath.Join(dir, "out"), pgen.GenOpt{Getter: true})
	if err != nil {
		t.Fatalf("%s: generating: %v", name, err)
	}
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", out, parser.SkipObjectResolution); err != nil {
		t.Fatalf("%s: the code does not parse: %v\n%s", name, err, out)
	}
}
