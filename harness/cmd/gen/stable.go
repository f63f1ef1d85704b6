package main

import (
	"errors"
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"verif/pgen"
	"verif/rt"
)

// tokens lists the tokens of Go code without comments.
func tokens(src string) (out []string) {
	var s scanner.Scanner
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", fs.Base(), len(src)), []byte(src), nil, 0)
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			return
		}
		if tok == token.SEMICOLON {
			lit = ";"
		}
		out = append(out, tok.String()+" "+lit)
	}
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			lo := max(0, i-8)
			return strings.Join(a[lo:min(len(a), i+5)], " ") + "   <>   " + strings.Join(b[lo:min(len(b), i+5)], " ")
		}
	}
	return ""
}

// G10: the code depends on nothing but the meaning of the schema and the comments
func stable(t *rt.T) {
	c := pgen.Cfg{WKT: rt.Chance(t, 50), Svc: true, Noise: true, Ext: rt.Chance(t, 30), Resv: true, OddGo: rt.Chance(t, 50), SameGo: true, Notes: rt.Chance(t, 40), Dirs: rt.Chance(t, 40), M: rt.Chance(t, 30), Enums: rt.Chance(t, 20)}
	r := draw(t, c, pgen.Style{})
	opt := pgen.GenOpt{Getter: rt.Chance(t, 60), Marshal: rt.Chance(t, 30)}
	base := r.run(opt)
	t.NonTrivial(len(base.Src) > 0)

	// formatting, order of imports and options, forms of references and literals
	if !c.Dirs || !c.Notes {
		st := pgen.Style{R: t, Wild: true, Refs: true, Lits: true}
		w := *r
		w.texts = map[*pgen.File]string{}
		for f := range r.texts {
			w.texts[f] = pgen.Render(f, st)
		}
		t.LogLazy(func() string { return "rewritten:\n" + pgen.DumpTexts(r.p, w.texts) })
		out := w.run(opt)
		for f, s := range base.Src {
			if a, b := tokens(s), tokens(out.Src[f]); strings.Join(a, "\n") != strings.Join(b, "\n") {
				t.Fatalf("%s: the code differs with the formatting of the schema: %s", f.Path, firstDiff(a, b))
			}
		}
	}

	// again, in another place, at the same time
	same := func(how string, f *pgen.File, s string) {
		if s != base.Src[f] {
			t.Fatalf("%s: the code differs %s: %s\n---- once\n%s\n---- else\n%s", f.Path, how, firstDiff(strings.Split(base.Src[f], "\n"), strings.Split(s, "\n")), base.Src[f], s)
		}
	}
	outs := make([]*pgen.Out, 3)
	errs := make([]error, len(outs))
	var wg sync.WaitGroup
	for i := range outs {
		dir, clean := scratch()
		defer clean()
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i], errs[i] = r.p.Run(dir, r.texts, opt)
		}()
	}
	wg.Wait()
	for i, o := range outs {
		if errs[i] != nil {
			t.Fatalf("a valid schema is refused when run concurrently: %v", errs[i])
		}
		for f, s := range o.Src {
			same("from run to run", f, s)
		}
	}

	// each file on its own, with the includes spread over directories
	dir, clean := scratch()
	defer clean()
	incl := []string{filepath.Join(dir, "empty"), filepath.Join(dir, "i1"), filepath.Join(dir, "i2")}
	if err := os.MkdirAll(incl[0], 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	for f, s := range r.texts {
		pgen.WriteTexts(incl[1+t.Int(2)], map[*pgen.File]string{f: s})
	}
	for _, f := range r.p.Root().Closure() {
		if f.WKT != nil {
			continue
		}
		ps, l, err := pgen.Load(incl, f.Path, r.p.M)
		if err != nil {
			t.Fatalf("%s is refused on its own: %v", f.Path, err)
		}
		if !strings.HasSuffix(filepath.ToSlash(ps[0].ProtoFile), "/"+f.Path) {
			t.Fatalf("loading %s gives %s first", f.Path, ps[0].ProtoFile)
		}
		s, err := pgen.GenSource(ps[0], l, filepath.Join(dir, "out"), opt)
		if err != nil {
			t.Fatalf("%s: %v", f.Path, err)
		}
		same("when the file is loaded on its own", f, s)
		// the same loaded model again
		s, err = pgen.GenSource(ps[0], l, filepath.Join(dir, "out2"), opt)
		if err != nil {
			t.Fatalf("%s: %v", f.Path, err)
		}
		same("when it is generated twice from one model", f, s)
	}
	// all files with one loader, which has also seen a broken one
	l := &pgen.Logger{}
	x := prutalgen.NewLoader(incl, r.p.M)
	x.SetLogger(l)
	pgen.WriteTexts(incl[0], map[*pgen.File]string{{Path: "broken.proto"}: rt.Pick(t, brokenTexts...)})
	models := map[*pgen.File]*prutalgen.Proto{}
	var order []*pgen.File
	for _, f := range r.p.Root().Closure() {
		if f.WKT != nil {
			continue
		}
		if rt.Chance(t, 30) {
			if err := pgen.Guard(func() { x.LoadProto("broken.proto") }); err == nil {
				panic("harness: the broken file is accepted")
			}
		}
		if err := pgen.Guard(func() { models[f] = x.LoadProto(f.Path)[0] }); err != nil {
			t.Fatalf("%s is refused by a loader that was used before: %v", f.Path, err)
		}
		order = append(order, f)
	}
	for len(order) > 0 {
		i := t.Int(len(order))
		f := order[i]
		order = append(order[:i], order[i+1:]...)
		s, err := pgen.GenSource(models[f], l, filepath.Join(dir, "out3"), opt)
		if err != nil {
			t.Fatalf("%s: %v", f.Path, err)
		}
		same("when a loader loads several files", f, s)
	}
	t.LabelIf(len(base.Src) > 1, "several files")
}

var brokenTexts = []string{
	"syntax = \"proto3\"; option go_package = \"a/b\"; message A { message B { NoSuch x = 1; } }",
	"syntax = \"proto3\"; option go_package = \"a/b\"; message A { message B { enum E { Z = 0; ",
	"syntax = \"proto3\"; option go_package = \"a/b\"; message A { message B { oneof o { int32 a = 1; int32 a = 2; } } }",
	"syntax = \"proto3\"; import \"no/such.proto\"; option go_package = \"a/b\"; message A {}",
	"syntax = \"proto3\"; option go_package = \"a/b\"; import \"broken.proto\"; message A {}",
	"syntax = \"proto9\"; option go_package = \"a/b\"; message A {}",
	"syntax = \"proto3\"; option go_package = \"a/b\"; service S { rpc M (X) returns (Y); }",
	"syntax = \"proto3\"; option go_package = \"a/b\"; enum E { A = 99999999999; }",
}

var embeddedCases atomic.Int64

// G15: files registered as embedded are found without being on disk and mean
// the same. (They cannot be unregistered: their names are never used again.)
func embedded(t *rt.T) {
	c := pgen.Cfg{WKT: rt.Chance(t, 50), Svc: true, Noise: true, Ext: rt.Chance(t, 30), Resv: true, OddGo: rt.Chance(t, 50), SameGo: true, Notes: rt.Chance(t, 40), M: rt.Chance(t, 30)}
	c.Dir = fmt.Sprintf("embedded%d/", embeddedCases.Add(1))
	st := pgen.Style{}
	if !c.Notes {
		st = pgen.Style{R: t, Wild: rt.Chance(t, 50), Refs: true, Lits: true}
	}
	r := draw(t, c, st)
	opt := pgen.GenOpt{Getter: rt.Chance(t, 60), Marshal: rt.Chance(t, 30)}
	base := r.run(opt)
	dir, clean := scratch()
	defer clean()
	on := map[*pgen.File]bool{}
	for f := range r.texts {
		on[f] = false
	}
	n := 0
	for _, f := range r.p.Root().Closure() {
		if f.WKT != nil {
			continue
		}
		if rt.Chance(t, 60) {
			on[f] = true
			n++
			prutalgen.RegisterEmbeddedProto(f.Path, []byte(r.texts[f]))
			t.NonTrivial(f != r.p.Root())
		} else {
			pgen.WriteTexts(dir, map[*pgen.File]string{f: r.texts[f]})
		}
	}
	incl := []string{dir}
	if n == len(on) && rt.Chance(t, 50) {
		incl = nil
	}
	ps, l, err := pgen.Load(incl, r.p.Root().Path, r.p.M)
	if err != nil {
		t.Fatalf("a valid schema is refused with embedded files: %v", err)
	}
	for _, f := range r.p.Root().Closure() {
		if f.WKT != nil {
			continue
		}
		name := f.Path
		if !on[f] {
			name = filepath.Join(dir, filepath.FromSlash(f.Path))
		}
		found := 0
		for _, p := range ps {
			if p.ProtoFile != name {
				continue
			}
			found++
			s, err := pgen.GenSource(p, l, filepath.Join(dir, "out"), opt)
			if err != nil {
				t.Fatalf("%s: %v", f.Path, err)
			}
			if s != base.Src[f] {
				t.Fatalf("%s: the code differs with embedded files: %s", f.Path, firstDiff(strings.Split(base.Src[f], "\n"), strings.Split(s, "\n")))
			}
		}
		if found != 1 {
			t.Fatalf("%s is loaded %d times", f.Path, found)
		}
	}
	t.LabelIf(on[r.p.Root()], "root")
	t.LabelIf(incl == nil, "no directory")
}

// G08: a cycle of imports through embedded files is refused too
func embeddedCycle(t *rt.T) {
	pre := fmt.Sprintf("cycle%d/", embeddedCases.Add(1))
	dir, clean := scratch()
	defer clean()
	n := 1 + t.Int(4)
	texts := make([]string, n)
	for i := range texts {
		texts[i] = fmt.Sprintf("syntax = \"proto3\";\npackage p;\noption go_package = \"example.com/p\";\nimport %s\"%sf%d.proto\";\nmessage M%d {}\n", rt.Pick(t, "", "public "), pre, (i+1)%n, i)
	}
	start := t.Int(n)
	if rt.Chance(t, 30) { // the file that is loaded is not part of it
		texts = append(texts, fmt.Sprintf("syntax = \"proto3\";\npackage p;\noption go_package = \"example.com/p\";\nimport \"%sf%d.proto\";\nmessage M {}\n", pre, start))
		start = n
	}
	t.Logf("%s", strings.Join(texts, "\n"))
	open := rt.Chance(t, 20) // the cycle is not closed: valid
	if open {
		texts[n-1] = "syntax = \"proto3\";\npackage p;\noption go_package = \"example.com/p\";\nmessage Last {}\n"
	}
	emb := 0
	for i, s := range texts {
		name := fmt.Sprintf("%sf%d.proto", pre, i)
		if rt.Chance(t, 60) {
			t.Logf("%s is embedded", name)
			emb++
			prutalgen.RegisterEmbeddedProto(name, []byte(s))
			continue
		}
		fn := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
			panic("harness: " + err.Error())
		}
		if err := os.WriteFile(fn, []byte(s), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	_, _, err := pgen.Load([]string{dir}, fmt.Sprintf("%sf%d.proto", pre, start), nil)
	var ft pgen.Fatal
	switch {
	case open:
		if err != nil {
			t.Fatalf("files without a cycle are refused: %v", err)
		}
	case !errors.As(err, &ft):
		t.Fatalf("a cycle of imports through embedded files is not refused: %v", err)
	}
	t.Key(start, emb, strings.ReplaceAll(strings.Join(texts, ""), pre, ""))
	t.NonTrivial(emb > 0)
	t.LabelIf(open, "no cycle")
}
