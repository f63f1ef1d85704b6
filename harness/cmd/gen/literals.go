package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"verif/pgen"
	"verif/rt"
)

// strLit writes s as one or more adjacent string literals.
func strLit(t *rt.T, s string) string {
	var b strings.Builder
	var q byte
	open := func() {
		q = rt.Pick(t, byte('"'), '\'')
		b.WriteByte(q)
	}
	open()
	for i := 0; i < len(s); {
		if rt.Chance(t, 8) { // the literal ends here and another one continues
			b.WriteByte(q)
			b.WriteString(rt.Pick(t, " ", "", "\n", "  \t ", " // \"x\" '\n", " /* ' \" */ "))
			open()
		}
		x, n := pgen.CharAny(t, s, i, q, 16)
		b.WriteString(x)
		i += n
	}
	b.WriteByte(q)
	return b.String()
}

func drawString(t *rt.T) string {
	var b strings.Builder
	for n := rt.Pick(t, 3, 0, 1, 8, 20, 60); n > 0; n-- {
		switch rt.Weighted(t, 10, 5, 3, 3, 2, 2) {
		case 0:
			b.WriteByte("abcxyzXU0179 .,;={}[]()<>/*?"[t.Int(28)])
		case 1:
			b.WriteByte("'\"\\"[t.Int(3)])
		case 2:
			b.WriteString(rt.Pick(t, "é", "世", "\U0001F600", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\U0010ffff", "\ud7ff", "\ue000"))
		case 3:
			b.WriteByte("\a\b\f\n\r\t\v\x00\x7f"[t.Int(9)])
		case 4:
			b.WriteByte(byte(t.Int(256)))
		case 5:
			b.WriteString(rt.Pick(t, "//", "/*", "*/", "\\n", "\\x41", "'x'", "true", "\\\\"))
		}
	}
	return b.String()
}

// intLit writes v in one of the notations.
func intLit(t *rt.T, v int64) string {
	s, u := "", v
	if v < 0 {
		s, u = rt.Pick(t, "-", "- ", "-\n", "-/**/"), -v
	}
	return s + fmt.Sprintf(rt.Pick(t, "%d", "0x%x", "0X%X", "0%o", "0x000%X", "00%o"), u)
}

// G11: literals denote what the language says
func literals(t *rt.T) {
	type want struct {
		what string
		get  func(p *prutalgen.Proto) (string, bool)
		val  string
	}
	var wants []want
	var b strings.Builder
	opt := func(indent, where string, n int, of func(p *prutalgen.Proto) prutalgen.Options) string {
		name := fmt.Sprintf("(o%d)", len(wants))
		if rt.Chance(t, 15) {
			name = fmt.Sprintf("(a.b.o%d).c", len(wants))
		}
		val, lit := "", ""
		switch rt.Weighted(t, 70, 12, 6, 6, 6) {
		case 0:
			val = drawString(t)
			lit = strLit(t, val)
		case 1:
			lit = rt.Pick(t, "1", "-5", "0x1F", "017", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "0")
			val = lit
		case 2:
			lit = rt.Pick(t, "1.5", "1e10", "-2.5e-3", ".5", "1.", "0.0", "-inf", "1E+5")
			val = lit
		case 3:
			lit = rt.Pick(t, "true", "false")
			val = lit
		case 4:
			lit = rt.Pick(t, "SPEED", "a.b.c", "message", "x_1")
			val = lit
		}
		wants = append(wants, want{where + " option " + name, func(p *prutalgen.Proto) (string, bool) { return of(p).Get(name) }, val})
		return name + rt.Pick(t, " = ", "=", " =\n") + lit
	}
	syn := rt.Pick(t, "proto3", "proto2", "2023")
	kw := "syntax"
	if syn == "2023" {
		kw = "edition"
	}
	fmt.Fprintf(&b, "%s = %s;\n", kw, strLit(t, syn))
	imp := rt.Pick(t, "dep.proto", "x/dep.proto", "x y/d'e\"p.proto", "ü/世.proto", "a\\b.proto")
	fmt.Fprintf(&b, "import %s;\n", strLit(t, imp))
	gp := rt.Pick(t, "example.com/x/pb", "example.com/x/v2;pkg", "pb", "example.com/ü;x")
	fmt.Fprintf(&b, "package p;\noption go_package = %s;\n", strLit(t, gp))
	for i := t.Int(4); i > 0; i-- {
		fmt.Fprintf(&b, "option %s;\n", opt("", "file", i, func(p *prutalgen.Proto) prutalgen.Options { return p.Options }))
	}
	b.WriteString("message M {\n")
	for i := t.Int(3); i > 0; i-- {
		fmt.Fprintf(&b, " option %s;\n", opt("", "message", i, func(p *prutalgen.Proto) prutalgen.Options { return p.Messages[0].Options }))
	}
	label := ""
	if syn == "proto2" {
		label = "optional "
	}
	num := int64(1 + t.Int(18000))
	fmt.Fprintf(&b, " %sstring f = %s", label, intLit(t, num))
	for i, n := 0, t.Int(3); i < n; i++ {
		fmt.Fprintf(&b, "%s%s", rt.Pick(t, " [", ", ")[:0]+map[bool]string{true: " [", false: ", "}[i == 0], opt("", "field", i, func(p *prutalgen.Proto) prutalgen.Options { return p.Messages[0].Fields[0].Options }))
		if i == n-1 {
			b.WriteString("]")
		}
	}
	b.WriteString(";\n")
	lo := int64(20001 + t.Int(1000))
	hi := lo + int64(t.Int(1000))
	resv := ""
	if syn != "2023" {
		resv = fmt.Sprintf("r_%d", t.Int(100))
		fmt.Fprintf(&b, " reserved %s;\n", strLit(t, resv))
	}
	fmt.Fprintf(&b, " reserved %s to %s;\n}\nenum E {\n", intLit(t, lo), intLit(t, hi))
	for i := t.Int(3); i > 0; i-- {
		fmt.Fprintf(&b, " option %s;\n", opt("", "enum", i, func(p *prutalgen.Proto) prutalgen.Options { return p.Enums[0].Options }))
	}
	ev := rt.Pick(t, int64(1), -1, 1<<31-1, -1<<31, 8, 9, 64, 255)
	fmt.Fprintf(&b, " Z = %s;\n V = %s", intLit(t, 0), intLit(t, ev))
	for i, n := 0, t.Int(3); i < n; i++ {
		fmt.Fprintf(&b, "%s%s", map[bool]string{true: " [", false: ", "}[i == 0], opt("", "value", i, func(p *prutalgen.Proto) prutalgen.Options { return p.Enums[0].Fields[1].Options }))
		if i == n-1 {
			b.WriteString("]")
		}
	}
	b.WriteString(";\n}\nservice S {\n")
	for i := t.Int(2); i > 0; i-- {
		fmt.Fprintf(&b, " option %s;\n", opt("", "service", i, func(p *prutalgen.Proto) prutalgen.Options { return p.Services[0].Options }))
	}
	b.WriteString(" rpc R (M) returns (M) {\n")
	for i := t.Int(3); i > 0; i-- {
		fmt.Fprintf(&b, "  option %s;\n", opt("", "method", i, func(p *prutalgen.Proto) prutalgen.Options { return p.Services[0].Methods[0].Options }))
	}
	b.WriteString(" }\n}\n")
	src := b.String()
	t.LogLazy(func() string { return src })
	t.Sample(func() string { return src })
	t.Key(src)
	t.NonTrivial(strings.Contains(src, "\\") || len(wants) > 0)

	dir, clean := scratch()
	defer clean()
	for name, s := range map[string]string{"root.proto": src, imp: "syntax = \"proto3\";\noption go_package = \"d\";\n"} {
		fn := filepath.Join(dir, name)
		if os.MkdirAll(filepath.Dir(fn), 0o755) != nil || os.WriteFile(fn, []byte(s), 0o644) != nil {
			panic("harness: cannot write " + fn)
		}
	}
	ps, _, err := pgen.Load([]string{dir}, "root.proto", nil)
	if err != nil {
		t.Fatalf("a valid schema is refused: %v", err)
	}
	p := ps[0]
	eq := func(what string, got, want any) {
		if got != want {
			t.Fatalf("%s is %#v, want %#v", what, got, want)
		}
	}
	eq("syntax", p.Edition, syn)
	eq("import", p.Imports[0].ProtoFile, filepath.Join(dir, imp))
	v, _ := p.Options.Get("go_package")
	eq("go_package", v, gp)
	path, _, _ := strings.Cut(gp, ";")
	eq("import path", p.GoImport, path)
	eq("field number", int64(p.Messages[0].Fields[0].FieldNumber), num)
	for _, x := range []int64{lo, hi, lo - 1, hi + 1, num} {
		eq(fmt.Sprintf("reserved(%d)", x), p.Messages[0].IsReservedField(int32(x)), x >= lo && x <= hi)
	}
	eq("enum value", int64(p.Enums[0].Fields[1].Value), ev)
	for _, w := range wants {
		got, ok := w.get(p)
		if !ok {
			t.Fatalf("%s is missing", w.what)
		}
		eq(w.what, got, w.val)
	}
}
