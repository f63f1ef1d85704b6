package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	"verif/pgen"
	"verif/rt"
)

// scratch returns an empty directory for the case, removed by the returned func.
func scratch() (string, func()) {
	d, err := os.MkdirTemp(rt.OutDir(), "case")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d, func() { os.RemoveAll(d) }
}

// ready is a valid project with its reference meaning.
type ready struct {
	t     *rt.T
	p     *pgen.Project
	reg   *protoregistry.Files
	off   *protogen.Plugin
	texts map[*pgen.File]string
}

// draw makes a valid project for which the official generator has an answer.
func draw(t *rt.T, c pgen.Cfg, s pgen.Style) *ready {
	r := drawOr(t, c, s)
	if r == nil {
		t.Skip()
	}
	return r
}

// drawOr is like draw, but returns nil where draw skips the case.
func drawOr(t *rt.T, c pgen.Cfg, s pgen.Style) *ready {
	p := pgen.Draw(t, c)
	r := &ready{t: t, p: p}
	var err error
	if r.reg, err = pgen.Registry(p.Root()); err != nil {
		note("registry: " + err.Error())
		return nil
	}
	if r.off, err = pgen.Official(p, p.Root()); err != nil {
		note("protogen: " + err.Error())
		return nil
	}
	if why := pgen.Collides(r.off); why != "" {
		note("collides: " + why)
		return nil
	}
	s.R = t
	r.texts = map[*pgen.File]string{}
	for _, f := range p.Root().Closure() {
		if f.WKT == nil {
			r.texts[f] = pgen.Render(f, s)
		}
	}
	t.LogLazy(func() string { return pgen.DumpTexts(p, r.texts) })
	t.Sample(func() string { return pgen.DumpTexts(p, r.texts) })
	var all []any
	for _, f := range p.Files {
		all = append(all, r.texts[f])
	}
	t.Key(all...)
	return r
}

func note(s string) {
	if os.Getenv("GEN_SKIPS") != "" {
		fmt.Fprintln(os.Stderr, "SKIP", s)
	}
}

// run generates the code; the schema is valid, so it must not fail.
func (r *ready) run(o pgen.GenOpt) *pgen.Out {
	dir, clean := scratch()
	defer clean()
	out, err := r.p.Run(dir, r.texts, o)
	if err != nil {
		r.t.Fatalf("a valid schema is refused: %v", strings.ReplaceAll(err.Error(), dir, "DIR"))
	}
	return out
}

// check type-checks the generated code.
func (r *ready) check(out *pgen.Out) *pgen.Checked {
	c, err := out.Check()
	if err != nil {
		r.t.Fatalf("%v", err)
	}
	return c
}

func (r *ready) file(f *pgen.File) *protogen.File { return r.off.FilesByPath[f.Path] }

// messages calls fn for every message of f that becomes a Go type.
func eachMessage(f *protogen.File, fn func(m *protogen.Message)) {
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if m.Desc.IsMapEntry() {
				continue
			}
			fn(m)
			walk(m.Messages)
		}
	}
	walk(f.Messages)
}

func eachEnum(f *protogen.File, fn func(e *protogen.Enum)) {
	for _, e := range f.Enums {
		fn(e)
	}
	eachMessage(f, func(m *protogen.Message) {
		for _, e := range m.Enums {
			fn(e)
		}
	})
}

func qualified(p *types.Package) string { return p.Path() }

func typeText(t types.Type) string { return types.TypeString(t, qualified) }

// structOf finds the struct type of a Go identifier.
func structOf(c *pgen.Checked, id protogen.GoIdent) (*types.Named, *types.Struct, error) {
	o, err := typeOf(c, id)
	if err != nil {
		return nil, nil, err
	}
	s, ok := o.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, fmt.Errorf("%s is no struct but %s", id, o.Underlying())
	}
	return o, s, nil
}

func typeOf(c *pgen.Checked, id protogen.GoIdent) (*types.Named, error) {
	pkg := c.Pkgs[string(id.GoImportPath)]
	if pkg == nil {
		return nil, fmt.Errorf("no package %s was generated", id.GoImportPath)
	}
	o := pkg.Scope().Lookup(id.GoName)
	if o == nil {
		return nil, fmt.Errorf("%s does not exist; the package has %s", id, strings.Join(pkg.Scope().Names(), " "))
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("%s is no type", id)
	}
	n, ok := tn.Type().(*types.Named)
	if !ok {
		return nil, fmt.Errorf("%s is no defined type", id)
	}
	return n, nil
}

func fieldOf(s *types.Struct, name string) (*types.Var, string, bool) {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i), s.Tag(i), true
		}
	}
	return nil, "", false
}

func identText(id protogen.GoIdent) string { return string(id.GoImportPath) + "." + id.GoName }

var goScalar = map[protoreflect.Kind]string{
	protoreflect.BoolKind: "bool", protoreflect.Int32Kind: "int32", protoreflect.Sint32Kind: "int32", protoreflect.Sfixed32Kind: "int32",
	protoreflect.Uint32Kind: "uint32", protoreflect.Fixed32Kind: "uint32", protoreflect.Int64Kind: "int64", protoreflect.Sint64Kind: "int64",
	protoreflect.Sfixed64Kind: "int64", protoreflect.Uint64Kind: "uint64", protoreflect.Fixed64Kind: "uint64", protoreflect.FloatKind: "float32",
	protoreflect.DoubleKind: "float64", protoreflect.StringKind: "string", protoreflect.BytesKind: "[]byte",
}

// elemType is the Go type of one element; noptr: messages by value.
func elemType(f *protogen.Field, noptr bool) string {
	switch {
	case f.Enum != nil:
		return identText(f.Enum.GoIdent)
	case f.Message != nil:
		if noptr {
			return identText(f.Message.GoIdent)
		}
		return "*" + identText(f.Message.GoIdent)
	}
	return goScalar[f.Desc.Kind()]
}

// goType is the Go type of the struct field.
func goType(f *protogen.Field, noptr bool) string {
	switch {
	case f.Desc.IsMap():
		return "map[" + goScalar[f.Desc.MapKey().Kind()] + "]" + elemType(f.Message.Fields[1], noptr)
	case f.Desc.IsList():
		return "[]" + elemType(f, noptr)
	}
	e := elemType(f, noptr)
	if f.Desc.HasPresence() && f.Message == nil && f.Desc.Kind() != protoreflect.BytesKind && (f.Oneof == nil || f.Oneof.Desc.IsSynthetic()) && !noptr {
		return "*" + e
	}
	return e
}

var wireEnc = map[protoreflect.Kind]string{
	protoreflect.BoolKind: "varint", protoreflect.Int32Kind: "varint", protoreflect.Int64Kind: "varint", protoreflect.Uint32Kind: "varint", protoreflect.Uint64Kind: "varint", protoreflect.EnumKind: "varint",
	protoreflect.Sint32Kind: "zigzag32", protoreflect.Sint64Kind: "zigzag64",
	protoreflect.Sfixed32Kind: "fixed32", protoreflect.Fixed32Kind: "fixed32", protoreflect.FloatKind: "fixed32",
	protoreflect.Sfixed64Kind: "fixed64", protoreflect.Fixed64Kind: "fixed64", protoreflect.DoubleKind: "fixed64",
	protoreflect.StringKind: "bytes", protoreflect.BytesKind: "bytes", protoreflect.MessageKind: "bytes",
}

// realOneof reports the oneof that the field is a member of, if any.
func realOneof(f *protogen.Field) *protogen.Oneof {
	if f.Oneof == nil || f.Oneof.Desc.IsSynthetic() {
		return nil
	}
	return f.Oneof
}

func isIdent(s string) bool { return token.IsIdentifier(s) }

type protoMessage = prutalgen.Message

func eachProtoMessage(p *prutalgen.Proto, fn func(m *protoMessage)) {
	var walk func(ms []*prutalgen.Message)
	walk = func(ms []*prutalgen.Message) {
		for _, m := range ms {
			fn(m)
			walk(m.Messages)
		}
	}
	walk(p.Messages)
}
