package main

import (
	"context"
	"fmt"
	"go/format"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"verif/pgen"
	"verif/rt"
)

var (
	cliOnce sync.Once
	cliPath string
)

// cli builds the command line tool.
func cli() string {
	cliOnce.Do(func() {
		fn := filepath.Join(rt.OutDir(), fmt.Sprintf("prutalgen-%d", os.Getpid()))
		c := exec.Command("go", "build", "-o", fn, "github.com/cloudwego/prutal/prutalgen")
		c.Env = append(os.Environ(), "CGO_ENABLED=0")
		if b, err := c.CombinedOutput(); err != nil {
			panic("harness: " + err.Error() + "\n" + string(b))
		}
		cliPath = fn
	})
	return cliPath
}

// tree lists the files below dir.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// body is the code after the two lines of notice.
func body(src string) (notice [2]string, rest string, ok bool) {
	ls := strings.SplitN(src, "\n", 3)
	if len(ls) < 3 {
		return notice, "", false
	}
	return [2]string{ls[0], ls[1]}, ls[2], true
}

// unformatted generates the code without formatting it, over an older file, which
// must be the formatted code except for the format.
func unformatted(t *rt.T, x *prutalgen.Proto, dir string, getter bool, formatted string) {
	g := prutalgen.NewGoCodeGen()
	g.Getter, g.Format = getter, false
	fn := g.SourcePath(x, prutalgen.GenByImport, dir, ".pb.go")
	if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.WriteFile(fn, []byte(strings.Repeat("older and longer text\n", 1+t.Int(5000))), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	if err := g.Gen(x, prutalgen.GenByImport, dir); err != nil {
		t.Fatalf("Gen without Format: %v", err)
	}
	b, err := os.ReadFile(fn)
	if err != nil {
		t.Fatalf("Gen without Format: %v", err)
	}
	if f, err := format.Source(b); err != nil {
		t.Fatalf("the code of Gen without Format does not parse: %v\n%s", err, b)
	} else if string(f) != formatted {
		t.Fatalf("the code of Gen without Format differs\n--- without\n%s\n--- with\n%s", f, formatted)
	}
}

// G14: the command line tool writes the right files with the right code
func commandLine(t *rt.T) {
	getter := rt.Chance(t, 40)
	r := draw(t, pgen.Cfg{Files: 4, Msgs: 2, M: true, OddGo: true, SameGo: true, WKT: true}, pgen.Style{})
	p := r.p
	var files []*pgen.File // those of the project, dependencies first
	for _, f := range p.Root().Closure() {
		if f.WKT == nil {
			files = append(files, f)
		}
	}
	// what the library generates
	ref, clean := scratch()
	defer clean()
	want := map[*pgen.File]string{}
	{
		pgen.WriteTexts(ref, r.texts)
		ps, l, err := pgen.Load([]string{ref}, p.Root().Path, p.M)
		if err != nil {
			t.Fatalf("a valid schema is refused: %v", strings.ReplaceAll(err.Error(), ref, "DIR"))
		}
		for _, f := range files {
			for _, x := range ps {
				if x.ProtoFile != filepath.Join(ref, filepath.FromSlash(f.Path)) {
					continue
				}
				src, err := pgen.GenSource(x, l, filepath.Join(ref, "out"), pgen.GenOpt{Getter: getter})
				if err != nil {
					t.Fatalf("generating %s: %v", f.Path, err)
				}
				_, want[f], _ = body(src)
				if rt.Chance(t, 15) {
					unformatted(t, x, filepath.Join(ref, "raw"), getter, src)
				}
			}
		}
	}

	dir, clean2 := scratch()
	defer clean2()
	work := filepath.Join(dir, rt.Pick(t, "w", "w/x", "w x"))
	if err := os.MkdirAll(work, 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	put := func(fn, s string) {
		if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
			panic("harness: " + err.Error())
		}
		if err := os.WriteFile(fn, []byte(s), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	// directories that are searched, in order
	var incs []string // relative to work
	var args []string
	flag := func(name, val string) []string {
		d := rt.Pick(t, "-", "--")
		if rt.Chance(t, 50) {
			return []string{d + name, val}
		}
		return []string{d + name + "=" + val}
	}
	var groups [][]string // flags whose order matters among themselves only by group
	n := rt.Pick(t, 1, 0, 2, 3)
	for i := 0; i < n; i++ {
		d := rt.Pick(t, "inc", "protos/a", ".", "../side", "in c")
		if rt.Chance(t, 8) {
			d = rt.Pick(t, "in\nc", "in`c", "in\xffc", "in'c", "in\"c", "in\tc", "in\rc", "in\\c", "*/ in", "世", "in\ufeffc", "in\x01c")
		}
		if d != "." {
			d += fmt.Sprint(i)
		}
		incs = append(incs, d)
		given := d
		switch rt.Weighted(t, 6, 2, 1, 1) {
		case 1:
			given = filepath.Join(work, d)
		case 2:
			given = d + "/"
		case 3:
			given = "./" + d
		}
		groups = append(groups, flag(rt.Pick(t, "I", "proto_path"), given))
	}
	if n == 0 {
		incs = []string{"."}
	}
	at := map[*pgen.File]int{}
	home := map[*pgen.File]string{}
	for _, f := range files {
		at[f] = t.Int(len(incs))
		home[f] = filepath.Join(work, incs[at[f]], filepath.FromSlash(f.Path))
		put(home[f], r.texts[f])
		if rt.Chance(t, 25) {
			// a file of the same name further back in the search order must not be taken
			for j := at[f] + 1; j < len(incs); j++ {
				fn := filepath.Join(work, incs[j], filepath.FromSlash(f.Path))
				if fn != home[f] {
					put(fn, "this is not a schema")
				}
			}
		}
	}
	// a file is found where it is put only if no decoy or other file is first: all are distinct names
	for _, f := range files {
		for j := 0; j < at[f]; j++ {
			if _, err := os.Stat(filepath.Join(work, incs[j], filepath.FromSlash(f.Path))); err == nil && filepath.Join(work, incs[j]) != filepath.Join(work, incs[at[f]]) {
				t.Skip()
			}
		}
	}

	relative := false
	var opts []string
	for _, f := range files {
		if m, ok := p.M[f.Path]; ok {
			key := f.Path
			if rt.Chance(t, 20) {
				key = "./" + key
			}
			opts = append(opts, "M"+key+"="+m)
		}
	}
	switch rt.Weighted(t, 5, 3, 4) {
	case 1:
		opts = append(opts, "paths=import")
	case 2:
		opts = append(opts, "paths=source_relative")
		relative = true
	}
	if rt.Chance(t, 15) {
		opts = append(opts, "Mnot/there.proto=example.com/none")
	}
	for i := len(opts) - 1; i > 0; i-- {
		j := t.Int(i + 1)
		opts[i], opts[j] = opts[j], opts[i]
	}
	for i := 0; i < len(opts); {
		j := i + 1
		for j < len(opts) && rt.Chance(t, 40) {
			j++
		}
		groups = append(groups, flag("go_opt", strings.Join(opts[i:j], ",")))
		i = j
	}
	outDir := work
	if rt.Chance(t, 70) {
		o := rt.Pick(t, "out", ".", "gen/new/deep", "../other", "o ut")
		outDir = filepath.Join(work, o)
		if rt.Chance(t, 25) {
			o = outDir
		}
		groups = append(groups, flag("go_out", o))
	}
	if getter {
		groups = append(groups, []string{rt.Pick(t, "-gen_getter", "--gen_getter", "--gen_getter=true")})
	} else if rt.Chance(t, 20) {
		groups = append(groups, []string{"--gen_getter=false"})
	}
	// mix the groups; the order of include directories stays
	var incGroups, rest [][]string
	for i, g := range groups {
		if i < n {
			incGroups = append(incGroups, g)
		} else {
			rest = append(rest, g)
		}
	}
	for len(incGroups)+len(rest) > 0 {
		k := t.Int(len(incGroups) + len(rest))
		if k < len(incGroups) {
			args = append(args, incGroups[0]...)
			incGroups = incGroups[1:]
		} else {
			k -= len(incGroups)
			args = append(args, rest[k]...)
			rest = append(rest[:k:k], rest[k+1:]...)
		}
	}
	// the files to generate
	expect := map[string]*pgen.File{} // path relative to dir
	bad := ""
	count := 1 + t.Int(len(files))
	for i := 0; i < count; i++ {
		f := files[t.Int(len(files))]
		_, m := p.M[f.Path]
		a := f.Path
		forms := 3
		if m {
			forms = 2
		}
		switch t.Int(forms) {
		case 1:
			a = "./" + a
		case 2:
			if rel, err := filepath.Rel(work, home[f]); err == nil && rt.Chance(t, 60) {
				a = rel
				// the path must not be found below an include directory by accident
				for _, d := range incs {
					fn := filepath.Join(work, d, a)
					if _, err := os.Stat(fn); err == nil && fn != home[f] {
						a = f.Path
						break
					}
				}
			} else {
				a = home[f]
			}
		}
		args = append(args, a)
		fn := filepath.Join(outDir, filepath.FromSlash(f.GoPath), strings.TrimSuffix(filepath.Base(home[f]), ".proto")+".pb.go")
		if relative {
			fn = strings.TrimSuffix(home[f], ".proto") + ".pb.go"
		}
		rel, _ := filepath.Rel(dir, fn)
		if g := expect[rel]; g != nil && g != f {
			t.Skip()
		}
		expect[rel] = f
	}
	if rt.Chance(t, 12) {
		d := filepath.Join(work, incs[t.Int(len(incs))])
		switch t.Int(4) {
		case 0:
			bad = "missing_q.proto"
		case 1:
			bad = "wrong_q.proto"
			put(filepath.Join(d, bad), "syntax = \"proto3\"; option go_package = \"example.com/q\"; message A { B b = 1; }")
		case 2:
			bad = "nopkg_q.proto"
			put(filepath.Join(d, bad), "syntax = \"proto3\"; message A { }")
		case 3:
			bad = "syntax_q.proto"
			put(filepath.Join(d, bad), "syntax = \"proto3\"; option go_package = \"example.com/q\"; message A {")
		}
		args = append(args, bad)
	}
	t.LogLazy(func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "cd %s; prutalgen %q\n", strings.ReplaceAll(work, dir, "DIR"), args)
		for _, f := range files {
			fmt.Fprintf(&b, "%s is at %s\n", f.Path, strings.ReplaceAll(home[f], dir, "DIR"))
		}
		return strings.ReplaceAll(b.String(), dir, "DIR")
	})
	t.Key(strings.ReplaceAll(strings.Join(args, " "), dir, "DIR"))

	// some of the files exist already
	for rel := range expect {
		if rt.Chance(t, 20) {
			put(filepath.Join(dir, rel), strings.Repeat("older and longer text\n", 2000))
		}
	}
	before := tree(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, cli(), args...)
	c.Dir = work
	text, err := c.CombinedOutput()
	if ctx.Err() != nil {
		panic("harness: the command takes too long")
	}
	clear := func(s string) string { return strings.ReplaceAll(s, dir, "DIR") }
	if bad == "" && err != nil {
		t.Fatalf("the command fails: %v\n%s", err, clear(string(text)))
	}
	if bad != "" {
		if _, ok := err.(*exec.ExitError); !ok {
			t.Fatalf("the command succeeds although %s is wrong\n%s", bad, clear(string(text)))
		}
		if strings.Contains(string(text), "goroutine ") {
			t.Fatalf("the command crashes\n%s", clear(string(text)))
		}
		if len(strings.TrimSpace(string(text))) == 0 {
			t.Fatalf("there is no message")
		}
		t.Label("refused")
	}
	after := tree(dir)
	var names []string
	for rel := range after {
		names = append(names, rel)
	}
	sort.Strings(names)
	for _, rel := range names {
		if expect[rel] != nil {
			continue
		}
		if s, ok := before[rel]; !ok {
			t.Fatalf("unexpected file %s", rel)
		} else if s != after[rel] {
			t.Fatalf("file %s was changed", rel)
		}
	}
	for rel := range before {
		if _, ok := after[rel]; !ok {
			t.Fatalf("file %s was removed", rel)
		}
	}
	for rel, f := range expect {
		src, ok := after[rel]
		if !ok {
			t.Fatalf("there is no file %s\n%s", rel, clear(string(text)))
		}
		notice, code, ok := body(src)
		if !ok || notice[0] != "// Code generated by prutalgen. DO NOT EDIT." || !strings.HasPrefix(notice[1], "// ") {
			t.Fatalf("%s starts with %q", rel, notice)
		}
		for _, a := range args {
			if !strings.Contains(notice[1], a) && !strings.Contains(notice[1], strconv.Quote(a)) && !strings.Contains(notice[1], strings.ReplaceAll(a, "'", `\'`)) {
				t.Fatalf("the notice of %s does not hold the argument %q: %s", rel, a, clear(notice[1]))
			}
		}
		if code != want[f] {
			t.Fatalf("the code of %s differs from what the library generates\n--- command\n%s\n--- library\n%s", rel, clear(code), want[f])
		}
	}
	t.NonTrivial(true)
	t.LabelIf(relative, "source_relative")
	t.LabelIf(len(expect) > 1, "several")
}
