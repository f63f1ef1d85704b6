package pgen

import (
	"errors"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/pluginpb"
)

// Fatal is what the generator reported through Fatalf.
type Fatal struct{ Msg string }

func (f Fatal) Error() string { return "rejected: " + strings.TrimSpace(f.Msg) }

// Panic is a panic of the generator.
type Panic struct {
	V     any
	Stack string
}

func (p Panic) Error() string { return fmt.Sprintf("panic: %v\n%s", p.V, p.Stack) }

// Logger collects what the generator prints.
type Logger struct{ Lines []string }

func (l *Logger) Printf(f string, v ...any) { l.Lines = append(l.Lines, fmt.Sprintf(f, v...)) }
func (l *Logger) Fatalf(f string, v ...any) { panic(Fatal{fmt.Sprintf(f, v...)}) }

func guard(f func()) (err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case Fatal:
			err = e
		default:
			err = Panic{e, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// Guard calls f and returns what it reported or panicked with.
func Guard(f func()) error { return guard(f) }

// Load runs the loader.
func Load(includes []string, file string, m map[string]string) (ps []*prutalgen.Proto, l *Logger, err error) {
	l = &Logger{}
	err = guard(func() {
		x := prutalgen.NewLoader(append([]string{}, includes...), m)
		x.SetLogger(l)
		ps = x.LoadProto(file)
	})
	return
}

// GenOpt selects what is generated.
type GenOpt struct {
	Getter  bool
	Marshal bool
}

// GenSource returns the code generated for p (formatted, as written to disk).
func GenSource(p *prutalgen.Proto, l *Logger, dir string, o GenOpt) (src string, err error) {
	before := len(l.Lines)
	err = guard(func() {
		g := prutalgen.NewGoCodeGen()
		g.Getter = o.Getter
		if o.Marshal {
			g.Marshaler = prutalgen.MarshalerKitexProtobuf
		}
		if e := g.Gen(p, prutalgen.GenByImport, dir); e != nil {
			panic(Fatal{e.Error()})
		}
		b, e := os.ReadFile(g.SourcePath(p, prutalgen.GenByImport, dir, ".pb.go"))
		if e != nil {
			panic(Fatal{e.Error()})
		}
		src = string(b)
	})
	for _, s := range l.Lines[before:] {
		if strings.Contains(s, "[WARN") && err == nil {
			err = errors.New(s)
		}
	}
	return
}

// Out is the result of running the generator on a project.
type Out struct {
	Prj   *Project
	Dir   string
	Text  map[*File]string
	Log   *Logger
	Order []*prutalgen.Proto
	Proto map[*File]*prutalgen.Proto
	Src   map[*File]string
}

// WriteTexts writes the files of the project below dir.
func WriteTexts(dir string, texts map[*File]string) {
	for f, s := range texts {
		fn := filepath.Join(dir, filepath.FromSlash(f.Path))
		if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
			panic("harness: " + err.Error())
		}
		if err := os.WriteFile(fn, []byte(s), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
}

// Run writes the project into dir and generates the code of all its files
// that the root needs.
func (p *Project) Run(dir string, texts map[*File]string, o GenOpt) (*Out, error) {
	out := &Out{Prj: p, Dir: dir, Text: texts, Proto: map[*File]*prutalgen.Proto{}, Src: map[*File]string{}}
	WriteTexts(dir, texts)
	ps, l, err := Load([]string{dir}, p.Root().Path, p.M)
	out.Log = l
	if err != nil {
		return out, err
	}
	out.Order = ps
	for _, f := range p.Root().Closure() {
		want := f.Path
		if f.WKT == nil {
			want = filepath.Join(dir, filepath.FromSlash(f.Path))
		}
		for _, x := range ps {
			if x.ProtoFile == want {
				out.Proto[f] = x
			}
		}
		if out.Proto[f] == nil {
			return out, fmt.Errorf("file %s is not among the loaded files", f.Path)
		}
	}
	for _, f := range p.Root().Closure() {
		if f.WKT != nil {
			continue
		}
		src, err := GenSource(out.Proto[f], l, filepath.Join(dir, "out"), o)
		if err != nil {
			return out, fmt.Errorf("generating %s: %w", f.Path, err)
		}
		out.Src[f] = src
	}
	return out, nil
}

// Checked is type-checked generated code.
type Checked struct {
	Fset  *token.FileSet
	Files map[*File]*ast.File
	Pkgs  map[string]*types.Package
	Info  *types.Info
	out   *Out
	dirty map[string]bool
}

var stubs = map[string]string{
	"strconv":                     "package strconv\nfunc Itoa(i int) string { return \"\" }\n",
	"github.com/cloudwego/prutal": "package prutal\nfunc MarshalAppend(b []byte, v interface{}) ([]byte, error) { return nil, nil }\nfunc Marshal(v interface{}) ([]byte, error) { return nil, nil }\nfunc Unmarshal(b []byte, v interface{}) error { return nil }\nfunc Size(v interface{}) int { return 0 }\n",
}

var (
	stubMu   sync.Mutex
	stubPkgs = map[string]*types.Package{}
)

// stubPackage returns a package that is not generated here.
func stubPackage(path string) *types.Package {
	stubMu.Lock()
	defer stubMu.Unlock()
	if p := stubPkgs[path]; p != nil {
		return p
	}
	if s, ok := stubs[path]; ok {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, s, 0)
		if err != nil {
			panic("harness: " + err.Error())
		}
		p, err := (&types.Config{}).Check(path, fs, []*ast.File{f}, nil)
		if err != nil {
			panic("harness: " + err.Error())
		}
		stubPkgs[path] = p
		return p
	}
	var pkg *types.Package
	for _, n := range WellKnownNames() {
		f := WellKnown(n)
		if f.GoPath != path {
			continue
		}
		if pkg == nil {
			pkg = types.NewPackage(path, path[strings.LastIndexByte(path, '/')+1:])
		}
		req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{f.Path}}
		for _, x := range f.Closure() {
			req.ProtoFile = append(req.ProtoFile, x.WKT)
		}
		req = proto.Clone(req).(*pluginpb.CodeGeneratorRequest)
		g, err := protogen.Options{}.New(req)
		if err != nil {
			panic("harness: " + err.Error())
		}
		named := func(name string, under types.Type) *types.Named {
			tn := types.NewTypeName(token.NoPos, pkg, name, nil)
			t := types.NewNamed(tn, under, nil)
			pkg.Scope().Insert(tn)
			return t
		}
		enum := func(e *protogen.Enum) {
			t := named(e.GoIdent.GoName, types.Typ[types.Int32])
			for _, v := range e.Values {
				pkg.Scope().Insert(types.NewConst(token.NoPos, pkg, v.GoIdent.GoName, t, constant.MakeInt64(int64(v.Desc.Number()))))
			}
		}
		var msg func(m *protogen.Message)
		msg = func(m *protogen.Message) {
			if m.Desc.IsMapEntry() {
				return
			}
			named(m.GoIdent.GoName, types.NewStruct(nil, nil))
			for _, e := range m.Enums {
				enum(e)
			}
			for _, x := range m.Messages {
				msg(x)
			}
		}
		gf := g.FilesByPath[f.Path]
		for _, e := range gf.Enums {
			enum(e)
		}
		for _, m := range gf.Messages {
			msg(m)
		}
	}
	if pkg != nil {
		pkg.MarkComplete()
		stubPkgs[path] = pkg
	}
	return pkg
}

type importer struct{ c *Checked }

func (i importer) Import(path string) (*types.Package, error) {
	if p := stubPackage(path); p != nil {
		return p, nil
	}
	return i.c.check(path)
}

func (c *Checked) check(path string) (*types.Package, error) {
	if p := c.Pkgs[path]; p != nil {
		return p, nil
	}
	if c.dirty[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	c.dirty[path] = true
	var fs []*ast.File
	var src []*File
	for _, f := range c.out.Prj.Root().Closure() {
		if f.WKT == nil && f.GoPath == path {
			fs = append(fs, c.Files[f])
			src = append(src, f)
		}
	}
	if len(fs) == 0 {
		return nil, fmt.Errorf("imports %q, which no file belongs to", path)
	}
	var errs []string
	conf := types.Config{Importer: importer{c}, Error: func(e error) { errs = append(errs, e.Error()) }, DisableUnusedImportCheck: false}
	p, _ := conf.Check(path, c.Fset, fs, c.Info)
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		var b strings.Builder
		for _, f := range src {
			fmt.Fprintf(&b, "---- %s\n%s", f.Path, c.out.Src[f])
		}
		return nil, fmt.Errorf("generated code of package %s does not compile: %s\n%s", path, strings.Join(errs, "; "), b.String())
	}
	c.Pkgs[path] = p
	return p, nil
}

// Check parses and type-checks all generated files.
func (o *Out) Check() (*Checked, error) {
	c := &Checked{Fset: token.NewFileSet(), Files: map[*File]*ast.File{}, Pkgs: map[string]*types.Package{}, Info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}, out: o, dirty: map[string]bool{}}
	for f, s := range o.Src {
		a, err := parser.ParseFile(c.Fset, f.Path, s, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, fmt.Errorf("generated code of %s does not parse: %v\n%s", f.Path, err, s)
		}
		c.Files[f] = a
	}
	paths := map[string]bool{}
	for f := range o.Src {
		paths[f.GoPath] = true
	}
	var ps []string
	for p := range paths {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if _, err := c.check(p); err != nil {
			return nil, err
		}
	}
	return c, nil
}

// Dump shows all proto texts.
func (o *Out) Dump() string { return DumpTexts(o.Prj, o.Text) }

func DumpTexts(p *Project, texts map[*File]string) string {
	var b strings.Builder
	for _, f := range p.Files {
		if s, ok := texts[f]; ok {
			fmt.Fprintf(&b, "---- %s\n%s\n", f.Path, s)
		}
	}
	var ks []string
	for k := range p.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "---- --go_opt=M%s=%s\n", k, p.M[k])
	}
	return b.String()
}
