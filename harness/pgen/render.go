package pgen

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"verif/rt"
)

// Style decides the formatting of the text; with Rnd nil the text is plain.
type Style struct {
	R    rt.Rnd
	Wild bool // any white space and comments between any two tokens
	Refs bool // any valid form of type references (else fully qualified)
	Lits bool // any form of literals
}

type printer struct {
	b     strings.Builder
	s     Style
	f     *File
	syms  map[string]string
	ind   int
	last  byte
	lastT string
	bol   bool // at the beginning of a line
	inl   bool // what follows must stay on the line
	wildN int
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (p *printer) raw(s string) {
	if s != "" {
		p.b.WriteString(s)
		p.last = s[len(s)-1]
		p.bol = p.last == '\n'
	}
}

// gap writes what separates two tokens.
func (p *printer) gap(need, nice bool) {
	if p.s.Wild {
		r := p.s.R
		switch rt.Weighted(r, 60, 10, 8, 6, 5, 4, 4, 3) {
		case 1:
			p.raw("  ")
			return
		case 2:
			p.raw("\n")
			return
		case 3:
			p.raw(rt.Pick(r, "\t", "\t", "\v", "\f"))
			return
		case 4:
			p.wildN++
			p.raw(fmt.Sprintf("/* w%d */", p.wildN))
			return
		case 5:
			p.wildN++
			p.raw(fmt.Sprintf("// w%d; } %%s\n", p.wildN))
			return
		case 6:
			p.raw("\r\n")
			return
		case 7:
			if !need {
				return
			}
		}
	}
	if need || nice {
		p.raw(" ")
	}
}

// tok writes tokens.
func (p *printer) tok(ts ...string) {
	for _, t := range ts {
		if t == "" {
			continue
		}
		if p.bol && !p.s.Wild {
			p.raw(strings.Repeat("  ", p.ind))
		} else if p.last != 0 && !p.bol {
			need := (word(p.last) || p.last == '.') && (word(t[0]) || t[0] == '.') || (p.last == '/' && t[0] != ' ') || (p.last == '"' || p.last == '\'') && (t[0] == '"' || t[0] == '\'') || (p.last == '-' || p.last == '+') && false
			nice := true
			switch t {
			case ";", ",", ")", "]", ">":
				nice = false
			}
			switch p.lastT {
			case "(", "[", "<", "-":
				nice = false
			}
			if t == "(" || t == "<" {
				nice = p.lastT == "returns"
			}
			if p.lastT == "-" && p.s.Wild {
				need, nice = false, false
			}
			p.gap(need, nice)
		} else if p.bol && p.s.Wild && rt.Chance(p.s.R, 20) {
			p.raw(strings.Repeat(rt.Pick(p.s.R, " ", "\t", "  "), p.s.R.Int(4)))
		}
		p.raw(t)
		p.lastT = t
	}
}

func (p *printer) nl() {
	if p.s.Wild && rt.Chance(p.s.R, 30) {
		if rt.Chance(p.s.R, 30) {
			p.raw("\n\n")
		}
		return
	}
	p.raw("\n")
}

// headNote writes the comment lines before an element.
func (p *printer) headNote(n Note, dirs []string) {
	if len(n.Head)+len(dirs) == 0 && n.Apart == "" {
		return
	}
	if !p.bol && p.last != 0 {
		p.raw("\n")
	}
	ind := strings.Repeat("  ", p.ind)
	if n.Apart != "" {
		p.raw(ind + n.Apart)
		p.bol = true // the blank line may end with spaces
	}
	for _, l := range n.Head {
		p.raw(ind + l + "\n")
	}
	if len(dirs) > 0 {
		if p.s.R != nil && rt.Chance(p.s.R, 50) {
			p.raw(ind + "//prutalgen:" + strings.Join(dirs, ",") + "\n")
		} else if p.s.R != nil && rt.Chance(p.s.R, 30) {
			p.raw(ind + "//prutalgen: " + strings.Join(dirs, " , ") + "\n")
		} else {
			for _, d := range dirs {
				p.raw(ind + "//prutalgen:" + d + "\n")
			}
		}
	}
}

// end writes what follows an element on its line.
func (p *printer) end(n Note, dirs []string) {
	if len(dirs) > 0 {
		p.raw(" //prutalgen:" + strings.Join(dirs, ",") + "\n")
		return
	}
	if n.Inline != "" {
		p.raw(" " + n.Inline + "\n")
		return
	}
	p.nl()
	if p.s.Wild && rt.Chance(p.s.R, 5) {
		p.tok(";")
		p.nl()
	}
}

// str writes a string literal.
func (p *printer) str(s string) string {
	if !p.s.Lits || p.s.R == nil {
		return strconv.Quote(s)
	}
	return QuoteAny(p.s.R, s)
}

var shortEscape = map[byte]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`, '\\': `\\`, '\'': `\'`, '"': `\"`, '?': `\?`}

// CharAny writes the character at s[i] of a string literal between two q in one of its
// forms, and says how many bytes of s that is. plain is how likely it comes as it is.
func CharAny(r rt.Rnd, s string, i int, q byte, plain int) (string, int) {
	c := s[i]
	ru, n := utf8.DecodeRuneInString(s[i:])
	whole := !(ru == utf8.RuneError && n == 1) // the bytes are those of a character
	w := []int{0, 0, 2, 2, 0, 0}
	if c != 0 && c != '\n' && c != '\\' && c != q && whole {
		w[0] = plain
	}
	sh, short := shortEscape[c]
	if short {
		w[1] = 4
		if c == '?' {
			w[1] = 2
		}
	}
	if whole {
		w[4], w[5] = 1, 1
		if c >= 0x80 {
			w[4], w[5] = 3, 2
		}
	}
	// digits that follow belong to an escape that is not full
	next := func() byte {
		if i+1 < len(s) {
			return s[i+1]
		}
		return 0
	}
	isHex := func(x byte) bool { return x >= '0' && x <= '9' || x >= 'a' && x <= 'f' || x >= 'A' && x <= 'F' }
	isOct := func(x byte) bool { return x >= '0' && x <= '7' }
	switch rt.Weighted(r, w...) {
	case 0:
		return s[i : i+n], n
	case 1:
		return sh, 1
	case 2:
		if c < 16 && !isHex(next()) && rt.Chance(r, 50) {
			return fmt.Sprintf(rt.Pick(r, `\x%x`, `\X%X`), c), 1
		}
		return fmt.Sprintf(rt.Pick(r, `\x%02x`, `\X%02X`, `\x%02X`, `\X%02x`), c), 1
	case 3:
		if c < 64 && !isOct(next()) && rt.Chance(r, 50) {
			return fmt.Sprintf(rt.Pick(r, `\%o`, `\%02o`), c), 1
		}
		return fmt.Sprintf(`\%03o`, c), 1
	case 4:
		if ru > 0xffff { // a surrogate pair
			hi, lo := utf16.EncodeRune(ru)
			return fmt.Sprintf(rt.Pick(r, `\u%04x\u%04X`, `\u%04X\u%04x`), hi, lo), n
		}
		return fmt.Sprintf(rt.Pick(r, `\u%04x`, `\u%04X`), ru), n
	}
	return fmt.Sprintf(rt.Pick(r, `\U%08x`, `\U%08X`), ru), n
}

// QuoteAny writes s as a string literal in one of its many forms.
func QuoteAny(r rt.Rnd, s string) string {
	q := rt.Pick(r, byte('"'), byte('\''))
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); {
		x, n := CharAny(r, s, i, q, 30)
		b.WriteString(x)
		i += n
	}
	b.WriteByte(q)
	return b.String()
}

// Num writes a non-negative integer literal.
func (p *printer) num(n int64) string {
	if !p.s.Lits || p.s.R == nil {
		return strconv.FormatInt(n, 10)
	}
	return IntAny(p.s.R, n)
}

// IntAny writes n >= 0 in one of the forms of integer literals.
func IntAny(r rt.Rnd, n int64) string {
	switch rt.Weighted(r, 70, 15, 15) {
	case 1:
		return fmt.Sprintf(rt.Pick(r, "0x%x", "0X%X", "0x%X", "0x0%x"), n)
	case 2:
		if n == 0 {
			return rt.Pick(r, "0", "00")
		}
		return fmt.Sprintf(rt.Pick(r, "0%o", "00%o"), n)
	}
	return strconv.FormatInt(n, 10)
}

func (p *printer) signed(n int64) {
	if n < 0 {
		p.tok("-", p.num(-n))
		return
	}
	p.tok(p.num(n))
}

// ref writes a reference to a type.
func (p *printer) ref(scope, full string) string {
	if !p.s.Refs || p.s.R == nil {
		return "." + full
	}
	rs := refs(p.syms, scope, full)
	return rs[p.s.R.Int(len(rs))]
}

func (p *printer) opt(o Opt) {
	p.tok("option", o.Name, "=", o.Val, ";")
	p.end(Note{}, nil)
}

func (p *printer) feats(aggr bool, kv ...string) []Opt {
	var out []Opt
	var in []string
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "" {
			out = append(out, Opt{"features." + kv[i], kv[i+1]})
			in = append(in, kv[i]+": "+kv[i+1])
		}
	}
	if aggr && len(in) > 0 {
		sep := " "
		if p.s.R != nil {
			sep = rt.Pick(p.s.R, " ", ", ", "; ")
		}
		return []Opt{{"features", "{ " + strings.Join(in, sep) + " }"}}
	}
	return out
}

// Render writes the file.
func Render(f *File, s Style) string {
	p := &printer{s: s, f: f, syms: f.symbols()}
	if s.Wild && rt.Chance(s.R, 3) {
		p.b.WriteString("\ufeff") // a byte order mark
	}
	p.bol = true
	p.headNote(Note{}, f.Dirs)
	if f.RawSyn != "" {
		p.tok(f.RawSyn)
		p.nl()
	} else if !f.NoSyntax {
		if f.Syn == E23 {
			p.tok("edition", "=", p.str("2023"), ";")
		} else {
			p.tok("syntax", "=", p.str(f.Syn.String()), ";")
		}
		p.nl()
	}
	// package, imports and options come in any order
	var parts []func()
	if f.Pkg != "" {
		parts = append(parts, func() { p.tok("package", f.Pkg, ";"); p.nl() })
	}
	for _, d := range f.Deps {
		parts = append(parts, func() {
			p.tok("import")
			if d.Public {
				p.tok("public")
			}
			if d.Weak {
				p.tok("weak")
			}
			p.tok(p.str(d.F.Path), ";")
			p.nl()
		})
	}
	for _, o := range f.allOpts(p) {
		parts = append(parts, func() { p.opt(o) })
	}
	if s.Wild {
		for k := len(parts) - 1; k > 0; k-- {
			j := k - s.R.Int(k+1)
			if j != k {
				parts[k], parts[j] = parts[j], parts[k]
			}
		}
	}
	for _, x := range parts {
		x()
	}
	for _, d := range f.Decls {
		p.decl(d)
	}
	return p.b.String()
}

func (p *printer) decl(d any) {
	switch x := d.(type) {
	case *Message:
		p.message(x)
	case *Enum:
		p.enum(x)
	case *Extend:
		scope := p.f.Pkg
		if x.Up != nil {
			scope = x.Up.Full()
		}
		p.tok("extend", p.ref(scope, x.Msg.Full()), "{")
		p.nl()
		p.ind++
		for _, f := range x.Fields {
			p.tok(f.Label, f.Type, f.Name, "=", p.num(int64(f.Num)), ";")
			p.nl()
		}
		p.ind--
		p.tok("}")
		p.nl()
	case *Service:
		p.service(x)
	}
}

func (p *printer) message(m *Message) {
	p.headNote(m.Note, m.Dirs)
	p.tok("message", m.Name, "{")
	p.nl()
	p.ind++
	for _, o := range m.AllOpts() {
		p.opt(o)
	}
	for _, d := range m.Decls {
		switch x := d.(type) {
		case *Field:
			p.field(x)
		case *Oneof:
			p.tok("oneof", x.Name, "{")
			p.nl()
			p.ind++
			for _, o := range x.Opts {
				p.opt(o)
			}
			for _, f := range x.Fields {
				p.field(f)
			}
			p.ind--
			p.tok("}")
			p.nl()
		case *Reserved:
			p.reserved(x)
		case *ExtRange:
			p.tok("extensions", p.num(int64(x.From)), "to")
			if x.To == 536870911 {
				p.tok("max")
			} else {
				p.tok(p.num(int64(x.To)))
			}
			p.tok(";")
			p.nl()
		default:
			p.decl(d)
		}
	}
	p.ind--
	p.tok("}")
	p.end(m.Note, m.DirsIn)
}

func (p *printer) reserved(x *Reserved) {
	if len(x.Ranges) > 0 {
		p.tok("reserved")
		for i, r := range x.Ranges {
			if i > 0 {
				p.tok(",")
			}
			p.signed(r[0])
			if r[1] == x.Max {
				p.tok("to", "max")
			} else if r[0] != r[1] || p.s.Wild && rt.Chance(p.s.R, 10) {
				p.tok("to")
				p.signed(r[1])
			}
		}
		p.tok(";")
		p.nl()
	}
	if len(x.Names) > 0 {
		p.tok("reserved")
		for i, r := range x.Names {
			if i > 0 {
				p.tok(",")
			}
			p.tok(p.str(r))
		}
		p.tok(";")
		p.nl()
	}
}

func (p *printer) field(f *Field) {
	p.headNote(f.Note, f.Dirs)
	scope := f.M.Full()
	t := f.Type
	if f.Msg != nil {
		t = p.ref(scope, f.Msg.Full())
	} else if f.Enum != nil {
		t = p.ref(scope, f.Enum.Full())
	}
	if f.IsMap() {
		p.tok(f.Label, "map", "<", f.Key, ",", t, ">")
	} else {
		p.tok(f.Label, t)
	}
	p.tok(f.Name, "=", f.Raw)
	if f.Raw == "" {
		p.tok(p.num(int64(f.Num)))
	}
	p.options(f.allOpts(p))
	p.tok(";")
	p.end(f.Note, f.DirsIn)
}

func (p *printer) options(os []Opt) {
	if len(os) == 0 {
		return
	}
	if p.s.Wild {
		for k := len(os) - 1; k > 0; k-- {
			j := k - p.s.R.Int(k+1)
			os[k], os[j] = os[j], os[k]
		}
	}
	p.tok("[")
	for i, o := range os {
		if i > 0 {
			p.tok(",")
		}
		p.tok(o.Name, "=", o.Val)
	}
	p.tok("]")
}

func (p *printer) enum(e *Enum) {
	p.headNote(e.Note, e.Dirs)
	p.tok("enum", e.Name, "{")
	p.nl()
	p.ind++
	for _, o := range e.AllOpts() {
		p.opt(o)
	}
	for _, v := range e.Vals {
		p.headNote(v.Note, v.Dirs)
		p.tok(v.Name, "=")
		if p.tok(v.Raw); v.Raw == "" {
			p.signed(int64(v.Num))
		}
		p.options(append([]Opt{}, v.Opts...))
		p.tok(";")
		p.end(v.Note, nil)
	}
	for _, r := range e.Reserved {
		p.reserved(r)
	}
	p.ind--
	p.tok("}")
	p.end(e.Note, e.DirsIn)
}

func (p *printer) service(s *Service) {
	p.headNote(s.Note, s.Dirs)
	p.tok("service", s.Name, "{")
	p.nl()
	p.ind++
	for _, o := range s.Opts {
		p.opt(o)
	}
	scope := join(p.f.Pkg, s.Name)
	for _, m := range s.Methods {
		p.headNote(m.Note, m.Dirs)
		p.tok("rpc", m.Name, "(")
		if m.SIn {
			p.tok("stream")
		}
		p.tok(p.ref(scope, m.In.Full()), ")", "returns", "(")
		if m.SOu {
			p.tok("stream")
		}
		p.tok(p.ref(scope, m.Out.Full()), ")")
		if m.Block {
			p.tok("{")
			p.nl()
			for _, o := range m.Opts {
				p.opt(o)
			}
			p.tok("}")
			p.end(m.Note, m.DirsIn)
		} else {
			p.tok(";")
			p.end(m.Note, m.DirsIn)
		}
	}
	p.ind--
	p.tok("}")
	p.end(s.Note, s.DirsIn)
}

// AllOpts lists the options of the file in the order of plain text.
func (f *File) AllOpts() []Opt { return f.allOpts(&printer{}) }

func (f *File) allOpts(p *printer) (os []Opt) {
	if f.GoPkg != "" {
		os = append(os, Opt{"go_package", p.str(f.GoPkg)})
	}
	os = append(os, f.Opts...)
	if f.Syn == E23 {
		os = append(os, p.feats(f.AggrFeat, "field_presence", f.Presence, "repeated_field_encoding", f.Packing, "enum_type", f.EnumType)...)
	}
	if f.GogoUnk != "" {
		os = append(os, Opt{"(gogoproto.goproto_unrecognized_all)", f.GogoUnk})
	}
	if f.GogoEnum != "" {
		os = append(os, Opt{"(gogoproto.goproto_enum_prefix_all)", f.GogoEnum})
	}
	return
}

// AllOpts lists the options of the message.
func (m *Message) AllOpts() []Opt {
	os := append([]Opt{}, m.Opts...)
	if m.GogoUnk != "" {
		os = append(os, Opt{"(gogoproto.goproto_unrecognized)", m.GogoUnk})
	}
	return os
}

// AllOpts lists the options of the field.
func (f *Field) AllOpts() []Opt { return f.allOpts(&printer{}) }

func (f *Field) allOpts(p *printer) (os []Opt) {
	if f.Packed != "" {
		os = append(os, Opt{"packed", f.Packed})
	}
	os = append(os, p.feats(f.AggrFeat, "field_presence", f.Presence, "repeated_field_encoding", f.Packing)...)
	if f.JSON != "" {
		os = append(os, Opt{"json_name", p.str(f.JSON)})
	}
	if f.Default != "" {
		os = append(os, Opt{"default", f.Default})
	}
	if f.NullOpt != "" {
		os = append(os, Opt{"(gogoproto.nullable)", f.NullOpt})
	}
	return append(os, f.Opts...)
}

// AllOpts lists the options of the enum.
func (e *Enum) AllOpts() []Opt {
	os := append([]Opt{}, e.Opts...)
	if e.Alias {
		os = append(os, Opt{"allow_alias", "true"})
	}
	if e.EnumType != "" {
		os = append(os, Opt{"features.enum_type", e.EnumType})
	}
	if e.GogoPfx != "" {
		os = append(os, Opt{"(gogoproto.goproto_enum_prefix)", e.GogoPfx})
	}
	return os
}

// Reserved lists the reserved declarations.
func (m *Message) Reserved() []*Reserved { return sub[*Reserved](m.Decls) }
