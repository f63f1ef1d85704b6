package main

import (
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"github.com/cloudwego/prutal/prutalgen/pkg/utils/args"

	"verif/rt"
)

// G15: the code writer, used by plugins, gives all text in order and exactly the imports that were asked for
func codeWriter(t *rt.T) {
	headers := []string{"", "// header", "// Code generated. DO NOT EDIT.\n// 100%d %s", "/* a */\n", "// a\n\n// b"}
	pkgs := []string{"main", "pb", "foo_bar", "v1"}
	paths := []string{"fmt", "strconv", "net/http", "github.com/cloudwego/prutal", "github.com/cloudwego/gopkg/x", "github.com/cloudwegox/a", "example.com/b", "a/b", "a", "a/b/c", "zz", "gopkg.in/yaml.v3", "example.com/v2"}
	type group struct {
		name string
		f    func(string) int
	}
	groups := []group{
		{"length", func(s string) int { return len(s) % 3 }},
		{"reverse", func(s string) int { return -len(s) }},
		{"one", func(s string) int { return 7 }},
		{"first letter", func(s string) int { return int(s[0]) }},
	}
	weight := func(s string) int {
		if strings.HasPrefix(s, "github.com/cloudwego/") {
			return 10
		}
		return 0
	}
	header, pkg := headers[t.Int(len(headers))], pkgs[t.Int(len(pkgs))]
	var hist []string
	t.LogLazy(func() string { return strings.Join(hist, "\n") })
	log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	log("NewCodeWriter(%q, %q)", header, pkg)
	w := prutalgen.NewCodeWriter(header, pkg)
	used := map[string]string{}
	var text strings.Builder
	checks := 0
	check := func() {
		checks++
		out := string(w.Bytes())
		again := string(w.Bytes())
		if out != again {
			t.Fatalf("Bytes gives another result when it is called again\n--- first\n%s\n--- second\n%s", out, again)
		}
		head, ok := strings.CutSuffix(out, text.String())
		if !ok {
			t.Fatalf("the output does not end with the text that was written %q\n%s", text.String(), out)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, "x.go", head, parser.ParseComments)
		if err != nil {
			t.Fatalf("the part before the text is no Go file: %v\n%s", err, head)
		}
		if f.Name.Name != pkg {
			t.Fatalf("package %s instead of %s", f.Name.Name, pkg)
		}
		if !strings.HasPrefix(head, header) {
			t.Fatalf("the output does not start with the header\n%s", head)
		}
		if header != "" && f.Doc != nil {
			t.Fatalf("the header becomes the documentation of the package\n%s", head)
		}
		type imp struct {
			p string
			w int
		}
		var want []imp
		for p := range used {
			want = append(want, imp{p, weight(p)})
		}
		sort.Slice(want, func(i, j int) bool {
			if want[i].w != want[j].w {
				return want[i].w < want[j].w
			}
			return want[i].p < want[j].p
		})
		if len(f.Imports) != len(want) {
			t.Fatalf("%d imports instead of %d\n%s", len(f.Imports), len(want), head)
		}
		for i, s := range f.Imports {
			p, _ := strconv.Unquote(s.Path.Value)
			if p != want[i].p {
				t.Fatalf("import %d is %s instead of %s\n%s", i, p, want[i].p, head)
			}
			name := ""
			if s.Name != nil {
				name = s.Name.Name
			}
			if name != used[p] {
				t.Fatalf("import %s has name %q instead of %q\n%s", p, name, used[p], head)
			}
			if i > 0 {
				gap := fs.Position(s.Pos()).Line - fs.Position(f.Imports[i-1].Pos()).Line
				if (gap > 1) != (want[i].w != want[i-1].w) {
					t.Fatalf("grouping between %s and %s is wrong\n%s", want[i-1].p, p, head)
				}
			}
		}
	}
	line := func(s string) {
		text.WriteString(s)
		if !strings.HasSuffix(s, "\n") {
			text.WriteString("\n")
		}
	}
	most, many := 0, 0
	for n := rt.Pick(t, 4, 1, 10, 40); n > 0; n-- {
		switch rt.Weighted(t, 5, 8, 1, 2, 2, 1, 1) {
		case 0:
			s := rt.Pick(t, "var x = 1", "// 100% done", "%d", "func f() {}\n", "a\nb", "\n", "{PRUTALGEN_GO_IMPORTS}", "import \"x\"", "% x %s\n\n", "\t")
			log("F(%q)", s)
			w.F(s)
			line(s)
		case 1:
			p := paths[t.Int(len(paths))]
			a := rt.Pick(t, "", "x", path.Base(p), "_", "b", "http")
			if rt.Chance(t, 4) {
				p = ""
			}
			log("UsePkg(%q, %q)", p, a)
			w.UsePkg(p, a)
			if p != "" {
				if a == path.Base(p) {
					a = ""
				}
				used[p] = a
			}
		case 2:
			header, pkg = headers[t.Int(len(headers))], pkgs[t.Int(len(pkgs))]
			log("Reset(%q, %q)", header, pkg)
			w.Reset(header, pkg)
			used = map[string]string{}
			text.Reset()
			many++
		case 3:
			s := rt.Pick(t, "", "abc", "// x\n", "%s %d", "{PRUTALGEN_GO_IMPORTS}", "\x00\xff")
			log("Write(%q)", s)
			k, err := w.Write([]byte(s))
			if err != nil || k != len(s) {
				t.Fatalf("Write returns %d, %v", k, err)
			}
			text.WriteString(s)
		case 4:
			f := rt.Pick(t, "%s", "x = %v // 100%%", "%d %s\n", "%[1]q", "")
			var as []any
			switch f {
			case "%s", "%[1]q":
				as = []any{rt.Pick(t, "a", "50%", "line\n", "%d", "", "{PRUTALGEN_GO_IMPORTS}")}
			case "x = %v // 100%%":
				as = []any{t.Int(100)}
			case "%d %s\n":
				as = []any{t.Int(9), rt.Pick(t, "a", "b%")}
			}
			log("F(%q, %v)", f, as)
			w.F(f, as...)
			s := fmt.Sprintf(f, as...)
			if f == "%s" && s == "" {
				// nothing is written yet at this point of the line: a new line only if one is open
				s = ""
				if !strings.HasSuffix(text.String(), "\n") && text.Len() > 0 {
					s = "\n"
				}
				text.WriteString(s)
				break
			}
			line(s)
		case 5:
			g := groups[t.Int(len(groups))]
			if rt.Chance(t, 20) {
				log("SetGroupingFunc(nil)")
				w.SetGroupingFunc(nil)
				break
			}
			log("SetGroupingFunc(%s)", g.name)
			w.SetGroupingFunc(g.f)
			weight = g.f
		case 6:
			log("Bytes()")
			check()
		}
		if len(used) > most {
			most = len(used)
		}
	}
	log("Bytes()")
	check()
	t.Key(strings.Join(hist, ";"))
	t.Sample(func() string { return strings.Join(hist, "; ") })
	t.NonTrivial(most > 0)
	t.LabelIf(most > 1, "several imports")
	t.LabelIf(many > 0, "reset")
	t.LabelIf(checks > 1, "read and written again")
}

// G15: directives are recognised in comments, and nothing else is
func directiveParse(t *rt.T) {
	names := []string{"no_pointer", "pointer", "no_enum_prefix", "unknown_fields", "no_unknown_fields", "x", "no_x", "no_no_x", "a b", "no_"}
	var want []string
	var parts []string
	for n := rt.Pick(t, 1, 0, 2, 3); n > 0; n-- {
		var ls []string
		for k := rt.Pick(t, 1, 0, 2, 4); k > 0; k-- {
			switch rt.Weighted(t, 5, 3) {
			case 0:
				var ds []string
				for m := rt.Pick(t, 1, 2, 3, 0); m > 0; m-- {
					sp := func() string { return rt.Pick(t, "", "", " ", "\t") }
					if rt.Chance(t, 10) {
						ds = append(ds, sp())
						continue
					}
					d := names[t.Int(len(names))]
					want = append(want, d)
					ds = append(ds, sp()+d+sp())
				}
				ls = append(ls, rt.Pick(t, "", " ", "\t")+"//prutalgen:"+strings.Join(ds, ",")+rt.Pick(t, "", " ", "\r"))
			case 1:
				ls = append(ls, rt.Pick(t, "", "// text", "// prutalgen:no_pointer", "// //prutalgen:no_pointer", "/* //prutalgen:x */", "//prutal:no_pointer", "//prutalgen", "prutalgen:x", "no_pointer", "//PRUTALGEN:x", "///prutalgen:x", "//prutalgen :x"))
			}
		}
		parts = append(parts, strings.Join(ls, "\n")+rt.Pick(t, "", "\n"))
	}
	var dd prutalgen.Directives
	if rt.Chance(t, 30) {
		dd = append(dd, "old", "x")
	}
	dd.Parse(parts...)
	t.LogLazy(func() string { return fmt.Sprintf("Parse(%q)", parts) })
	t.Key(fmt.Sprint(parts))
	t.Sample(func() string { return fmt.Sprintf("%q gives %q", parts, dd) })
	if strings.Join(dd, "|") != strings.Join(want, "|") || len(dd) != len(want) {
		t.Fatalf("directives are %q instead of %q", []string(dd), want)
	}
	for _, n := range append(names, "y") {
		has, v, ok := false, false, false
		for _, s := range want {
			has = has || s == n
			if !ok && (s == n || s == "no_"+n) {
				v, ok = s == n, true
			}
		}
		if dd.Has(n) != has {
			t.Fatalf("Has(%q) of %q is %v", n, want, !has)
		}
		if gv, gok := dd.IsSet(n); gv != v || gok != ok {
			t.Fatalf("IsSet(%q) of %q is %v, %v instead of %v, %v", n, want, gv, gok, v, ok)
		}
	}
	// options: the last one of a name counts
	var oo prutalgen.Options
	lastOf := map[string]string{}
	for n := t.Int(6); n > 0; n-- {
		k, v := rt.Pick(t, "a", "b", "(a)", "a.b", ""), rt.Pick(t, "true", "false", "", "1")
		oo = append(oo, &prutalgen.Option{Name: k, Value: v})
		lastOf[k] = v
	}
	for _, k := range []string{"a", "b", "(a)", "a.b", "", "c"} {
		v, ok := oo.Get(k)
		w, wok := lastOf[k]
		if v != w || ok != wok {
			t.Fatalf("Get(%q) of %v is %q, %v", k, oo, v, ok)
		}
		for _, x := range []string{"true", "false", "", "1"} {
			if oo.Is(k, x) != (wok && w == x) {
				t.Fatalf("Is(%q, %q) of %v is %v", k, x, oo, oo.Is(k, x))
			}
		}
	}
	t.NonTrivial(len(want) > 0)
}

// G15: the options of the command line, for plugins
func goOptions(t *rt.T) {
	var argv, flat []string
	files := []string{"a.proto", "x/y.proto", "./b.proto", "x/../c.proto", "d=e.proto", "M.proto"}
	clean := map[string]string{"a.proto": "a.proto", "x/y.proto": "x/y.proto", "./b.proto": "b.proto", "x/../c.proto": "c.proto", "M.proto": "M.proto"}
	want := map[string]string{}
	pt := prutalgen.GenByImport
	for n := rt.Pick(t, 1, 2, 3, 0); n > 0; n-- {
		var os []string
		for k := rt.Pick(t, 1, 1, 2, 4); k > 0; k-- {
			switch rt.Weighted(t, 6, 2, 2, 2) {
			case 0:
				f := files[t.Int(len(files))]
				v := rt.Pick(t, "example.com/a", "example.com/b;bb", "", "x=y", "a/b")
				os = append(os, "M"+f+"="+v)
				if f == "d=e.proto" { // the first '=' ends the name
					want["d"] = "e.proto=" + v
				} else {
					want[clean[f]] = v
				}
			case 1:
				os = append(os, "paths=import")
				pt = prutalgen.GenByImport
			case 2:
				os = append(os, "paths=source_relative")
				pt = prutalgen.GenBySourceRelative
			case 3:
				os = append(os, rt.Pick(t, "", "Mnothing", "plugins=grpc", "module=example.com", "paths=", "m=a", "a.proto=b", "path=source_relative"))
			}
		}
		s := strings.Join(os, ",")
		argv = append(argv, s)
		flat = append(flat, os...)
	}
	var o args.GoOpts
	fs := flag.NewFlagSet("x", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	fs.Var(&o, "go_opt", "")
	var cmd []string
	for _, a := range argv {
		cmd = append(cmd, "-go_opt="+a)
	}
	if err := fs.Parse(cmd); err != nil {
		t.Fatalf("%v", err)
	}
	t.LogLazy(func() string { return fmt.Sprintf("%q", cmd) })
	t.Key(fmt.Sprint(cmd))
	t.Sample(func() string { return fmt.Sprintf("%q", cmd) })
	if got := o.GenPathType(); got != pt {
		t.Fatalf("path type %v instead of %v", got, pt)
	}
	got := o.Proto2pkg()
	if len(got) != len(want) {
		t.Fatalf("mapping %q instead of %q", got, want)
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			t.Fatalf("mapping %q instead of %q", got, want)
		}
	}
	if o.String() != strings.Join(argv, ",") {
		t.Fatalf("String is %q", o.String())
	}
	t.NonTrivial(len(want) > 0)
}
