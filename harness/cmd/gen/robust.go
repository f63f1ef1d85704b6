package main

import (
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"verif/pgen"
	"verif/rt"
)

var vocabulary = strings.Fields(`syntax edition = ; "proto3" "proto2" "2023" 'proto3' package import public weak option go_package "x/y" "x/y;z" ( ) [ ] { } < > , . : - +
 message enum service rpc stream returns oneof map extend extensions reserved to max optional required repeated group int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64
 sfixed32 sfixed64 bool string bytes float double true false inf nan A B C a b c a.b .a.b .A A.B features.field_presence IMPLICIT EXPLICIT LEGACY_REQUIRED features features.repeated_field_encoding
 PACKED EXPANDED packed allow_alias deprecated json_name default (gogoproto.nullable) (gogoproto.goproto_enum_prefix) 0 1 2 3 10 100 19000 536870911 536870912 2147483647 -1 0x10 017 1.5 1e10 "" '' "\n" "\x41" "\101" "\u0041" "\U0001F600" "\u"
 "\8" "google/protobuf/timestamp.proto" "google/protobuf/any.proto" google.protobuf.Timestamp
 //prutalgen:no_pointer //prutalgen:unknown_fields,no_enum_prefix /* */ /**/ // /* " ' \ @ # $ % _ __ é`)

// soup is a text of random tokens.
func soup(t *rt.T, n int) string {
	var b strings.Builder
	if rt.Chance(t, 70) {
		b.WriteString(rt.Pick(t, "syntax = \"proto3\";\n", "edition = \"2023\";\n", "syntax = 'proto2';\n") + "option go_package = \"x/y\";\n")
	}
	for ; n > 0; n-- {
		switch rt.Weighted(t, 55, 10, 10, 8, 7, 5, 5) {
		case 0:
			b.WriteString(vocabulary[t.Int(len(vocabulary))])
		case 1:
			b.WriteString(rt.Pick(t, "message A { ", "message B { ", "enum E { ", "service S { ", "oneof o { ", "extend A { "))
		case 2:
			b.WriteString(rt.Pick(t, "int32 a = 1;", "A a = 2;", "E e = 3;", "map<string, A> m = 4;", "repeated int32 r = 5 [packed = true];", "ZERO = 0;", "ONE = 1 [deprecated = true];", "rpc M (A) returns (stream B);", "reserved 1, 2 to 5, 10 to max;", "reserved \"x\";"))
		case 3:
			b.WriteString("}")
		case 4:
			b.WriteString(rt.Pick(t, remark(t), "// c\n", "/* c */", "\n\n", "\r\n", "\t", "\f", "\v", "\ufeff", "\u00a0"))
		case 5:
			b.WriteString(string(rune(t.Int(0x300))))
		case 6:
			b.Write(rt.Bytes(t, 1+t.Int(4)))
		}
		b.WriteString(rt.Pick(t, " ", " ", "", "\n"))
	}
	return b.String()
}

// deep nests something.
func deep(t *rt.T) string {
	n := 1 + t.Int(rt.Pick(t, 10, 100, 400))
	head := "syntax = \"proto3\";\noption go_package = \"x/y\";\n"
	closed := n
	if rt.Chance(t, 30) {
		closed = t.Int(n + 5)
	}
	switch t.Int(6) {
	case 0:
		return head + strings.Repeat("message A { ", n) + "int32 a = 1;" + strings.Repeat("}", closed)
	case 1:
		return head + "option (x) = " + strings.Repeat("{ a: ", n) + "1" + strings.Repeat("}", closed) + ";"
	case 2:
		return head + "message A { int32 a = 1 [(x) = " + strings.Repeat("{ a: ", n) + "1" + strings.Repeat("}", closed) + "]; }"
	case 3:
		return head + "message A { " + strings.Repeat("a.", n) + "A x = 1; }"
	case 4:
		return head + strings.Repeat(rt.Pick(t, "(", "[", "{", "<", ";", "/*", "message A { oneof o {", "/", "\"", "-"), n*3)
	default:
		return head + "message " + strings.Repeat(rt.Pick(t, "A", "_", "a_", "x1"), n) + " { " + rt.Pick(t, "int32 ", "repeated ") + strings.Repeat("f", n) + " = " + strings.Repeat("1", 1+n%12) + "; }"
	}
}

// remark is a comment, mostly with directives, well written or not.
func remark(t *rt.T) string {
	var b strings.Builder
	end := rt.Pick(t, "\n", "\n", "\n", " */")
	b.WriteString(rt.Pick(t, "//prutalgen:", "//prutalgen:", "// ", "//"))
	if end == " */" {
		b.Reset()
		b.WriteString(rt.Pick(t, "/*", "/**", "/*\n", "/*//prutalgen:"))
	}
	for n := t.Int(6); n > 0; n-- {
		b.WriteString(rt.Pick(t, ",", ",", " ", "no_pointer", "unknown_fields", "no_unknown_fields", "no_enum_prefix", "no_enum_mapping", "//prutalgen:", "//", "/*", "%", "%s", "\\", "\"", "'", "`", "\t", "\r", "x", "-", "+build", "go:", "\u00a0", "{PRUTALGEN_GO_IMPORTS}"))
		if end == " */" && rt.Chance(t, 10) {
			b.WriteString("\n//prutalgen:")
		}
	}
	return b.String() + end
}

// edit makes random changes to s.
func edit(t *rt.T, s string) string {
	for k := 1 + rt.Weighted(t, 50, 25, 15, 10); k > 0; k-- {
		if s == "" {
			return s
		}
		i := t.Int(len(s))
		j := min(len(s), i+1+t.Int(rt.Pick(t, 1, 1, 5, 30)))
		switch rt.Weighted(t, 25, 15, 25, 15, 10, 10, 12) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:j] + s[i:]
		case 2:
			s = s[:i] + " " + vocabulary[t.Int(len(vocabulary))] + " " + s[i:]
		case 3:
			a := t.Int(len(s))
			b := min(len(s), a+t.Int(40))
			s = s[:i] + s[a:b] + s[i:]
		case 4:
			s = s[:i]
		case 5:
			s = s[:i] + string(rt.Bytes(t, 1)) + s[i+1:]
		case 6: // at the begin or the end of a line
			i = strings.LastIndexByte(s[:i], '\n') + rt.Pick(t, 0, 1)
			s = s[:max(0, i)] + remark(t) + s[max(0, i):]
		}
	}
	return s
}

// G09: any text is answered with code or a message
func robust(t *rt.T) {
	dir, clean := scratch()
	defer clean()
	var root string
	kind := ""
	switch rt.Weighted(t, 45, 35, 10, 10) {
	case 0:
		kind = "edited"
		c := pgen.Cfg{Svc: true, WKT: rt.Chance(t, 20), SameGo: true, Enums: rt.Chance(t, 30), Resv: true, Noise: true, Ext: true, Notes: true, Dirs: rt.Chance(t, 50), OddGo: true}
		p := pgen.Draw(t, c)
		st := pgen.Style{R: t, Wild: rt.Chance(t, 30), Refs: true, Lits: true}
		texts := map[*pgen.File]string{}
		for _, f := range p.Root().Closure() {
			if f.WKT == nil {
				texts[f] = pgen.Render(f, st)
				if rt.Chance(t, 60) {
					texts[f] = edit(t, texts[f])
				}
			}
		}
		if rt.Chance(t, 15) { // files that import each other, or themselves
			cl := p.Root().Closure()
			for k := 1 + rt.Weighted(t, 70, 30); k > 0; k-- {
				if f := cl[t.Int(len(cl))]; f.WKT == nil {
					texts[f] += "import " + rt.Pick(t, "", "public ") + "\"" + cl[rt.Pick(t, len(cl)-1, t.Int(len(cl)))].Path + "\";\n"
				}
			}
			t.Label("import cycles")
		}
		t.LogLazy(func() string { return pgen.DumpTexts(p, texts) })
		t.Key(texts[p.Root()])
		t.Sample(func() string { return pgen.DumpTexts(p, texts) })
		pgen.WriteTexts(dir, texts)
		root = p.Root().Path
	default:
		var s string
		switch rt.Weighted(t, 60, 20, 20) {
		case 0:
			kind, s = "tokens", soup(t, 1+t.Int(60))
		case 1:
			kind, s = "bytes", string(rt.Bytes(t, t.Int(200)))
		case 2:
			kind, s = "nesting", deep(t)
		}
		t.LogLazy(func() string { return s })
		t.Key(s)
		t.Sample(func() string { return s })
		root = "a.proto"
		if err := os.WriteFile(filepath.Join(dir, root), []byte(s), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	t.Label(kind)
	type result struct {
		ps  []*prutalgen.Proto
		l   *pgen.Logger
		src []string
		err error
	}
	done := make(chan result, 1)
	opt := pgen.GenOpt{Getter: rt.Chance(t, 50), Marshal: rt.Chance(t, 20)}
	go func() {
		var r result
		r.ps, r.l, r.err = pgen.Load([]string{dir}, root, nil)
		if r.err == nil {
			for _, p := range r.ps {
				if !strings.HasPrefix(p.ProtoFile, dir) {
					continue
				}
				s, err := pgen.GenSource(p, r.l, filepath.Join(dir, "out"), opt)
				r.src = append(r.src, s)
				if err != nil {
					r.err = err
					break
				}
			}
		}
		done <- r
	}()
	var r result
	select {
	case r = <-done:
	case <-time.After(60 * time.Second):
		t.Fatalf("no answer within 60 s")
	}
	t.NonTrivial(true)
	switch e := r.err.(type) {
	case nil:
		t.Label("accepted")
		for _, s := range r.src {
			if _, err := parser.ParseFile(token.NewFileSet(), "", s, 0); err != nil {
				t.Fatalf("the text is accepted but its code does not even parse: %v\n%s", err, s)
			}
		}
	case pgen.Fatal:
		t.Label("rejected")
		if strings.TrimSpace(e.Msg) == "" {
			t.Fatalf("the text is rejected without a message")
		}
	default:
		t.Fatalf("%v", e)
	}
}
