package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"

	"verif/e2e"
	"verif/pgen"
	"verif/rt"
)

// tools are the compiler and linker, and the export data of what generated
// code and the driver import.
type tools struct {
	compile, link, cfg string
	err                error
}

var (
	toolOnce sync.Once
	tool     tools
)

func toolchain() *tools {
	toolOnce.Do(func() {
		var eb bytes.Buffer
		goRun := func(args ...string) string {
			c := exec.Command("go", args...)
			c.Env = append(os.Environ(), "CGO_ENABLED=0")
			c.Stderr = &eb
			b, err := c.Output()
			if err != nil {
				panic("harness: go " + strings.Join(args, " ") + ": " + err.Error() + "\n" + eb.String())
			}
			return strings.TrimSpace(string(b))
		}
		td := goRun("env", "GOTOOLDIR")
		tool.compile, tool.link = filepath.Join(td, "compile"), filepath.Join(td, "link")
		known := "google.golang.org/protobuf/types/known/"
		args := []string{"list", "-export", "-deps", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}", "verif/e2e", "github.com/cloudwego/prutal"}
		for _, s := range []string{"anypb", "apipb", "durationpb", "emptypb", "fieldmaskpb", "sourcecontextpb", "structpb", "timestamppb", "typepb", "wrapperspb"} {
			args = append(args, known+s)
		}
		args = append(args, "google.golang.org/protobuf/types/descriptorpb")
		tool.cfg = goRun(args...) + "\n"
	})
	return &tool
}

// built is a project with the code that is generated for it.
type built struct {
	r   *ready
	out *pgen.Out
	opt pgen.GenOpt
}

// runGenerated compiles the code of the projects and runs the driver on it.
func runGenerated(t *rt.T, bs []*built, jobs []e2e.Job) *e2e.Result {
	tl := toolchain()
	dir, clean := scratch()
	defer clean()
	cfg := tl.cfg
	write := func(name, s string) string {
		fn := filepath.Join(dir, name)
		if err := os.WriteFile(fn, []byte(s), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
		return fn
	}
	late := false
	command := func(name string, args ...string) (string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, name, args...)
		c.Dir = dir
		c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
		b, err := c.CombinedOutput()
		late = ctx.Err() != nil
		return string(b), err
	}
	n := 0
	compile := func(path string, src []string) error {
		n++
		fn := filepath.Join(dir, fmt.Sprintf("p%d.a", n))
		args := []string{"-p", path, "-complete", "-pack", "-importcfg", write(fmt.Sprintf("cfg%d", n), cfg), "-o", fn}
		for i, s := range src {
			args = append(args, write(fmt.Sprintf("s%d_%d.go", n, i), s))
		}
		b, err := command(tl.compile, args...)
		if late {
			panic("harness: the compiler takes too long")
		}
		if err != nil {
			return fmt.Errorf("%v: %s", err, b)
		}
		cfg += "packagefile " + path + "=" + fn + "\n"
		return nil
	}
	var imports, body strings.Builder
	used := 0
	for i, b := range bs {
		// packages in the order of their imports
		byPkg := map[string][]*pgen.File{}
		for _, f := range b.r.p.Root().Closure() {
			if f.WKT == nil {
				byPkg[f.GoPath] = append(byPkg[f.GoPath], f)
			}
		}
		done := map[string]bool{}
		var visit func(path string)
		visit = func(path string) {
			if done[path] {
				return
			}
			done[path] = true
			var src []string
			for _, f := range byPkg[path] {
				for _, g := range f.Closure() { // (public imports lead further)
					if g.WKT == nil && g.GoPath != path {
						visit(g.GoPath)
					}
				}
				src = append(src, b.out.Src[f])
			}
			if err := compile(path, src); err != nil {
				t.Fatalf("generated code of %s does not compile: %v\n%s", path, err, strings.Join(src, "\n----\n"))
			}
		}
		var paths []string
		for p := range byPkg {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		alias := map[string]string{}
		for _, p := range paths {
			visit(p)
			used++
			alias[p] = fmt.Sprintf("q%d", used)
		}
		need := map[string]bool{}
		ident := func(id protogen.GoIdent) string {
			need[string(id.GoImportPath)] = true
			return alias[string(id.GoImportPath)] + "." + id.GoName
		}
		var ms, es strings.Builder
		for _, f := range b.r.p.Root().Closure() {
			if f.WKT != nil {
				continue
			}
			eachMessage(b.r.file(f), func(m *protogen.Message) {
				fmt.Fprintf(&ms, "%q: (*%s)(nil), ", m.Desc.FullName(), ident(m.GoIdent))
			})
			eachEnum(b.r.file(f), func(e *protogen.Enum) {
				fmt.Fprintf(&es, "%q: %s(0), ", e.Desc.FullName(), ident(e.GoIdent))
			})
		}
		for _, p := range paths {
			if need[p] {
				fmt.Fprintf(&imports, "import %s %q\n", alias[p], p)
			}
		}
		fmt.Fprintf(&body, "{Msgs: map[string]any{%s}, Enums: map[string]any{%s}},\n", ms.String(), es.String())
		fs, err := proto.Marshal(pgen.FileSet(b.r.p.Root()))
		if err != nil {
			panic("harness: " + err.Error())
		}
		jobs[i].Files = fs
	}
	if err := compile("main", []string{"package main\nimport \"verif/e2e\"\n" + imports.String() + "func main() { e2e.Main([]e2e.Proj{\n" + body.String() + "}) }\n"}); err != nil {
		t.Fatalf("a program that uses the generated types does not compile: %v", err)
	}
	if b, err := command(tl.link, "-importcfg", write("linkcfg", cfg), "-s", "-w", "-buildmode=exe", "-o", filepath.Join(dir, "driver"), filepath.Join(dir, fmt.Sprintf("p%d.a", n))); err != nil {
		panic(fmt.Sprintf("harness: link: %v: %s", err, b))
	}
	jb, _ := json.Marshal(jobs)
	out, err := command(filepath.Join(dir, "driver"), write("jobs", string(jb)))
	if late {
		t.Fatalf("the program that uses the generated code does not terminate")
	}
	if err != nil {
		if strings.Contains(out, "harness:") {
			panic("harness: " + out)
		}
		t.Fatalf("the program that uses the generated code dies: %v\n%s", err, out)
	}
	var res e2e.Result
	_, js, ok := strings.Cut(out, "RESULT ")
	if !ok || json.Unmarshal([]byte(js), &res) != nil {
		panic("harness: driver says " + out)
	}
	return &res
}

// batch draws projects and runs the driver on the code of all of them.
func batch(t *rt.T, wire bool) {
	var bs []*built
	var jobs []e2e.Job
	for k := 0; k < 12 && (k == 0 || rt.Chance(t, 93)); k++ {
		c := pgen.Cfg{Prefix: fmt.Sprintf("p%d.test", k), WKT: rt.Chance(t, 40), SameGo: rt.Chance(t, 40), Enums: rt.Chance(t, 25), OddNm: rt.Chance(t, 25), Ext: wire && rt.Chance(t, 30), Msgs: 5}
		if rt.Chance(t, 25) {
			c.Dirs, c.ByValue = true, rt.Chance(t, 60)
		}
		r := drawOr(t, c, pgen.Style{Lits: rt.Chance(t, 20), Refs: rt.Chance(t, 30)})
		if r == nil || (c.Dirs && (r.p.ByValueCycle() || r.clashes())) {
			continue
		}
		opt := pgen.GenOpt{Getter: !wire || rt.Chance(t, 40), Marshal: wire && rt.Chance(t, 50)}
		b := &built{r: r, out: r.run(opt), opt: opt}
		j := e2e.Job{Seed: t.U64(), Rounds: 3, Wire: wire, Getter: !wire, Marshal: opt.Marshal, Enums: map[string]bool{}}
		for _, f := range r.p.Root().Closure() {
			for _, e := range f.AllEnums() {
				if f.WKT == nil && !e.NoMapping() {
					j.Enums[e.Full()] = true
				}
			}
		}
		bs, jobs = append(bs, b), append(jobs, j)
	}
	if len(bs) == 0 {
		t.Skip()
	}
	res := runGenerated(t, bs, jobs)
	if !res.OK {
		b := bs[res.Proj]
		t.Fatalf("%s\n%s", res.Msg, b.out.Dump())
	}
	t.NonTrivial(res.Values > 0 || res.Calls > 0)
	for range bs {
		t.Label("projects")
	}
}

// G02: generated types and wire format
func wireFidelity(t *rt.T) { batch(t, true) }

// G07: getters and String
func getters(t *rt.T) { batch(t, false) }
