// Package pgen draws random .proto projects, renders them as text, describes
// them as descriptors (the reference meaning) and runs prutalgen on them.
package pgen

import (
	"strings"

	"google.golang.org/protobuf/types/descriptorpb"
)

type Syntax int

const (
	P2 Syntax = iota
	P3
	E23
)

func (s Syntax) String() string { return [...]string{"proto2", "proto3", "2023"}[s] }

// Project is a set of files; file i imports files with smaller indexes only.
type Project struct {
	Files []*File
	M     map[string]string // M options
	used  map[string]string // full name -> kind of symbol ("package", "message", "enum", "other")
}

// Root is the file the generator is asked for.
func (p *Project) Root() *File { return p.Files[len(p.Files)-1] }

type Dep struct {
	F            *File
	Public, Weak bool
}

type File struct {
	Prj      *Project
	Path     string
	Pkg      string
	Syn      Syntax
	NoSyntax bool   // proto2 without a syntax line
	RawSyn   string // syntax statement as written, if not Syn
	GoPkg    string // option go_package; "" if absent
	GoPath   string // expected Go import path
	GoName   string // expected Go package name
	Presence string // features of the file, "" if not set
	Packing  string
	EnumType string
	AggrFeat bool // features written as one aggregate
	Deps     []*Dep
	Decls    []any // *Message, *Enum, *Service, *Extend
	Opts     []Opt // options without meaning for the generator
	Dirs     []string
	GogoUnk  string // (gogoproto.goproto_unrecognized_all)
	GogoEnum string // (gogoproto.goproto_enum_prefix_all)
	WKT      *descriptorpb.FileDescriptorProto

	vis map[*File]bool
}

type Opt struct{ Name, Val string } // Val is proto source text

// Note is the comment text around an element (proto source, without newlines at the ends).
type Note struct {
	Apart  string // comments before it that do not belong to it, with the blank line between
	Head   []string
	Inline string
}

type Message struct {
	F       *File
	Up      *Message
	Name    string
	Decls   []any // *Field, *Oneof, *Message, *Enum, *Reserved, *ExtRange, *Extend
	Opts    []Opt
	Dirs    []string
	DirsIn  []string // directives in the inline comment
	GogoUnk string
	Note    Note
	exts    bool
}

type Field struct {
	M     *Message
	Up    *Oneof
	Name  string
	Num   int32
	Raw   string // number as written, if not Num
	Label string // as written: optional, required, repeated or ""
	Type  string // scalar name, or "" for Msg/Enum
	Key   string // map
	Msg   *Message
	Enum  *Enum

	Packed   string // "true", "false" or "": option packed
	Presence string // features of the field
	Packing  string
	AggrFeat bool
	Default  string
	JSON     string
	Opts     []Opt
	NullOpt  string // (gogoproto.nullable)
	Dirs     []string
	DirsIn   []string
	Note     Note
}

type Oneof struct {
	M      *Message
	Name   string
	Fields []*Field
	Opts   []Opt
}

type Enum struct {
	F        *File
	Up       *Message
	Name     string
	Vals     []*EnumVal
	Alias    bool
	EnumType string
	Reserved []*Reserved
	Opts     []Opt
	Dirs     []string
	DirsIn   []string
	GogoPfx  string
	Note     Note
}

type EnumVal struct {
	E    *Enum
	Name string
	Num  int32
	Raw  string // number as written, if not Num
	Opts []Opt
	Dirs []string
	Note Note
}

type Reserved struct {
	Ranges [][2]int64 // inclusive; [1] == max means "to max"
	Names  []string
	Max    int64
}

type ExtRange struct{ From, To int32 } // inclusive

type Extend struct {
	F      *File
	Up     *Message
	Msg    *Message
	Fields []*Field
}

type Service struct {
	F       *File
	Name    string
	Methods []*Method
	Opts    []Opt
	Dirs    []string
	DirsIn  []string
	Note    Note
}

type Method struct {
	S        *Service
	Name     string
	In, Out  *Message
	SIn, SOu bool
	Opts     []Opt
	Block    bool
	Dirs     []string
	DirsIn   []string
	Note     Note
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func (m *Message) Full() string {
	if m.Up != nil {
		return m.Up.Full() + "." + m.Name
	}
	return join(m.F.Pkg, m.Name)
}

func (e *Enum) Full() string {
	if e.Up != nil {
		return e.Up.Full() + "." + e.Name
	}
	return join(e.F.Pkg, e.Name)
}

func (m *Message) Fields() (fs []*Field) {
	for _, d := range m.Decls {
		switch x := d.(type) {
		case *Field:
			fs = append(fs, x)
		case *Oneof:
			fs = append(fs, x.Fields...)
		}
	}
	return
}

func sub[T any](ds []any) (out []T) {
	for _, d := range ds {
		if x, ok := d.(T); ok {
			out = append(out, x)
		}
	}
	return
}

func (m *Message) Oneofs() []*Oneof     { return sub[*Oneof](m.Decls) }
func (m *Message) Messages() []*Message { return sub[*Message](m.Decls) }
func (m *Message) Enums() []*Enum       { return sub[*Enum](m.Decls) }
func (f *File) Messages() []*Message    { return sub[*Message](f.Decls) }
func (f *File) Enums() []*Enum          { return sub[*Enum](f.Decls) }
func (f *File) Services() []*Service    { return sub[*Service](f.Decls) }

// AllMessages are the messages of the file with nested ones, in preorder.
func (f *File) AllMessages() (out []*Message) {
	var walk func(ms []*Message)
	walk = func(ms []*Message) {
		for _, m := range ms {
			out = append(out, m)
			walk(m.Messages())
		}
	}
	walk(f.Messages())
	return
}

// AllEnums are the enums of the file with nested ones.
func (f *File) AllEnums() (out []*Enum) {
	out = append(out, f.Enums()...)
	for _, m := range f.AllMessages() {
		out = append(out, m.Enums()...)
	}
	return
}

func (f *Field) Repeated() bool { return f.Label == "repeated" }
func (f *Field) IsMap() bool    { return f.Key != "" }

// Visible reports which files' declarations f may refer to.
func (f *File) Visible() map[*File]bool {
	if f.vis != nil {
		return f.vis
	}
	v := map[*File]bool{f: true}
	var pub func(x *File)
	pub = func(x *File) {
		if v[x] {
			return
		}
		v[x] = true
		for _, d := range x.Deps {
			if d.Public {
				pub(d.F)
			}
		}
	}
	for _, d := range f.Deps {
		pub(d.F)
	}
	f.vis = v
	return v
}

// Closed reports whether the enum is closed.
func (e *Enum) Closed() bool {
	switch e.F.Syn {
	case P2:
		return true
	case P3:
		return false
	}
	if e.EnumType != "" {
		return e.EnumType == "CLOSED"
	}
	return e.F.EnumType == "CLOSED"
}

func (f *Field) NoPtr() bool {
	for _, d := range [][]string{f.Dirs, f.DirsIn, f.M.Dirs, f.M.DirsIn} {
		for _, s := range d {
			if s == "no_pointer" {
				return true
			}
		}
	}
	return f.NullOpt == "false"
}

// Closure lists f and everything it imports, directly or not.
func (f *File) Closure() (out []*File) {
	seen := map[*File]bool{}
	var walk func(x *File)
	walk = func(x *File) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, d := range x.Deps {
			walk(d.F)
		}
		out = append(out, x)
	}
	walk(f)
	return
}

func lastPart(s string) string { return s[strings.LastIndexByte(s, '.')+1:] }
