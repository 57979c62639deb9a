package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/bobg/tsdecls"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"github.com/bobg/fab/ts"
)

// C32: ts.Decls over histories of edits, against the generator library.

type tsMethodSpec struct{ Name, Param, Result string }

func declsCase(c *Case) {
	r := c.R
	base := c.Dir()
	lib := filepath.Join(base, []string{"lib", "a/b", "l-ib"}[r.Intn(3)])
	must(os.MkdirAll(lib, 0755))
	must(os.WriteFile(filepath.Join(base, "go.mod"), []byte("module example.com/ts\n\ngo 1.20\n"), 0644))
	types := []string{"Server", "Client", "Thing"}
	n := 0
	word := func() string { n++; return fmt.Sprintf("N%d", n) }
	files := map[string]string{}
	put := func(f, s string) {
		files[f] = s
		os.Remove(filepath.Join(lib, f))
		must(os.WriteFile(filepath.Join(lib, f), []byte(s), 0644))
	}
	basics := []string{"int", "string", "[]string", "map[string]int", "bool", "*float64", "[3]uint8"}
	// source makes a file that declares some structures and methods on the types.
	source := func(decl bool) string {
		var sb strings.Builder
		sb.WriteString("package lib\n\nimport \"context\"\n\nvar _ context.Context\n\n")
		if decl {
			for _, t := range types {
				fmt.Fprintf(&sb, "type %s struct { %s int }\n", t, word())
			}
		}
		structs := []string{}
		for k := r.Intn(3); k > 0; k-- {
			s := "S" + word()
			fmt.Fprintf(&sb, "type %s struct {\n", s)
			for j := r.Intn(3); j > 0; j-- {
				tag := ""
				if r.Intn(3) == 0 {
					tag = " `json:\"" + strings.ToLower(word()) + ",omitempty\"`"
				}
				t := basics[r.Intn(len(basics))]
				if len(structs) > 0 && r.Intn(3) == 0 {
					t = []string{"", "*", "[]"}[r.Intn(3)] + structs[r.Intn(len(structs))]
				}
				fmt.Fprintf(&sb, "\tF%s %s%s\n", word(), t, tag)
			}
			sb.WriteString("}\n")
			structs = append(structs, s)
		}
		typ := func() string {
			if len(structs) > 0 && r.Intn(2) == 0 {
				return structs[r.Intn(len(structs))]
			}
			return basics[r.Intn(len(basics))]
		}
		for k := r.Intn(4); k > 0; k-- {
			recv := []string{"", "*"}[r.Intn(2)] + types[r.Intn(len(types))]
			name := "Do" + word()
			if r.Intn(6) == 0 {
				name = "hidden" + word()
			}
			switch r.Intn(6) {
			case 0:
				fmt.Fprintf(&sb, "func (%s) %s() {}\n", recv, name)
			case 1:
				fmt.Fprintf(&sb, "func (%s) %s(ctx context.Context) error { return nil }\n", recv, name)
			case 2:
				fmt.Fprintf(&sb, "func (%s) %s(x %s) (res %s, err error) { return }\n", recv, name, typ(), typ())
			case 3:
				fmt.Fprintf(&sb, "func (%s) %s(ctx context.Context, req %s) (res %s, err error) { return }\n", recv, name, typ(), typ())
			case 4:
				fmt.Fprintf(&sb, "func (%s) %s(a, b, c int) {}\n", recv, name)
			case 5:
				fmt.Fprintf(&sb, "func (%s) %s(req %s) (res %s) { return }\n", recv, name, typ(), typ())
			}
		}
		if r.Intn(2) == 0 {
			fmt.Fprintf(&sb, "// comment %s\n", word())
		}
		return sb.String()
	}
	put("main.go", source(true))
	for k := r.Intn(3); k > 0; k-- {
		put(fmt.Sprintf("more%d.go", k), source(false))
	}
	typ, prefix := types[0], "/p"
	outs := []string{filepath.Join(base, "out.ts"), filepath.Join(lib, "gen.ts")}
	out := outs[r.Intn(2)]
	auto := r.Intn(2) == 0
	ctx := context.Background()
	db := must1(sqlite.Open(filepath.Join(base, "hash.db")))
	defer db.Close()
	ctx = fab.WithHashDB(ctx, db)
	var hist []string
	ydir := []string{"", "sub"}[r.Intn(2)]
	must(os.MkdirAll(filepath.Join(base, "sub"), 0755))
	rel := func(f string) string {
		if r.Intn(3) == 0 {
			return f
		}
		return relPath(filepath.Join(base, ydir), f)
	}
	yamlRun := r.Intn(2) == 0
	wdir, wouts := rel(lib), map[string]string{outs[0]: rel(outs[0]), outs[1]: rel(outs[1])}
	if !yamlRun && r.Intn(3) == 0 {
		wd := must1(os.Getwd())
		lib2 := relPath(wd, lib)
		wdir = lib2
	} else if !yamlRun {
		wdir = lib
	}
	w := func() map[string]any {
		return map[string]any{"history": hist, "files": files, "type": typ, "prefix": prefix, "out": out, "yaml": yamlRun}
	}
	last, lastOut := "", ""
	steps := 4 + r.Intn(4)
	for i := 0; i < steps; i++ {
		broken := ""
		if i > 0 {
			for k := r.Intn(3); k > 0; k-- {
				fs := sortedKeys(files)
				f := fs[r.Intn(len(fs))]
				switch r.Intn(9) {
				case 0:
					put(f, files[f])
					hist = append(hist, "rewrite "+f)
				case 1:
					nf := fmt.Sprintf("x%d.go", i)
					put(nf, source(false))
					hist = append(hist, "add "+nf)
				case 2:
					os.Remove(out)
					hist = append(hist, "remove output")
				case 3:
					if exists(out) {
						must(os.WriteFile(out, []byte("tampered "+word()), 0644))
					}
					hist = append(hist, "tamper")
				case 4:
					typ = types[r.Intn(3)]
					hist = append(hist, "type "+typ)
				case 5:
					prefix = "/" + []string{"p", "q", "it's"}[r.Intn(3)]
					hist = append(hist, "prefix "+prefix)
				case 6:
					if f != "main.go" {
						os.Remove(filepath.Join(lib, f))
						delete(files, f)
						hist = append(hist, "remove "+f)
					}
				default:
					put(f, source(f == "main.go"))
					hist = append(hist, "change "+f)
				}
			}
			if r.Intn(12) == 0 {
				out = outs[r.Intn(2)]
			}
			if r.Intn(8) == 0 {
				broken = []string{"syntax", "type error", "missing type", "output"}[r.Intn(4)]
			}
		}
		keepTyp, keepOut := typ, out
		switch broken {
		case "syntax":
			put("broken.go", "package lib\n\nfunc {\n")
		case "type error":
			put("broken.go", "package lib\n\nvar x int = \"s\"\n")
		case "missing type":
			typ = "Nothing"
		case "output":
			out = filepath.Join(base, "no/such/dir/out.ts")
			wouts[out] = rel(out)
		}
		var ref bytes.Buffer
		refErr := tsdecls.Write(&ref, lib, typ, prefix)
		if broken == "" && refErr != nil {
			panic(fmt.Sprintf("harness: tsdecls: %v", refErr))
		}
		state := fmt.Sprintf("%q %q %q", typ, prefix, out)
		for _, f := range sortedKeys(files) {
			state += fmt.Sprintf("%s %q\n", f, files[f])
		}
		outNow, _ := os.ReadFile(out)
		past := time.Unix(1000000000, 0)
		os.Chtimes(out, past, past)
		var ino os.FileInfo
		ino, _ = os.Stat(out)
		var err error
		if yamlRun {
			con := fab.NewController(base)
			text := ""
			if ydir != "" {
				text = "_dir: sub\n"
			}
			text += fmt.Sprintf("D: !ts.Decls\n  Dir: %s\n  Type: %s\n  Prefix: %s\n  Out: %s\n  Autoclean: %t\n", yq(wdir), yq(typ), yq(prefix), yq(wouts[out]), auto)
			must(os.WriteFile(filepath.Join(base, ydir, "fab.yaml"), []byte(text), 0644))
			if err = con.ReadYAMLFile(ydir); err == nil {
				t, _ := con.RegistryTarget(filepath.Join(ydir, "D"))
				err = con.Run(ctx, t)
			}
		} else {
			con := fab.NewController("")
			var t fab.Target
			if broken == "" && r.Intn(4) == 0 && !auto {
				t = ts.MustDecls(wdir, typ, prefix, out)
			} else {
				t, err = ts.Decls(wdir, typ, prefix, out, fab.Autoclean(auto))
			}
			if err == nil {
				err = con.Run(ctx, t)
			}
		}
		c.Event()
		hist = append(hist, fmt.Sprintf("run %s %s %s (%s): %v", typ, prefix, out, broken, err))
		if broken != "" {
			if err == nil {
				c.Fail(w(), "%s: no error is reported", broken)
				return
			}
			c.Count("failures_reported", 1)
			os.Remove(filepath.Join(lib, "broken.go"))
			delete(files, "broken.go")
			typ, out = keepTyp, keepOut
			last = ""
			if r.Intn(2) == 0 { // the same again, without the fault: nothing may be taken for up to date wrongly
				i--
				steps--
			}
			continue
		}
		if err != nil {
			c.Fail(w(), "ts.Decls fails: %v", err)
			return
		}
		got, _ := os.ReadFile(out)
		if !bytes.Equal(got, ref.Bytes()) {
			c.Fail(w(), "the output is %q, the generator makes %q", clip(string(got), 2000), clip(ref.String(), 2000))
			return
		}
		c.Count("outputs_compared", 1)
		if state == last && string(outNow) == lastOut {
			now, _ := os.Stat(out)
			if !os.SameFile(ino, now) || !now.ModTime().Equal(past) {
				c.Fail(w(), "nothing has changed, but the output is written again")
				return
			}
			c.Count("runs_skipped", 1)
		}
		last, lastOut = state, string(got)
		c.Nontrivial(state)
	}
	if r.Intn(4) == 0 && auto && exists(out) { // in a process of its own: the autoclean registry is global
		b, err := exec.Command(must1(os.Executable()), "helper", "declsclean", lib, typ, prefix, out).CombinedOutput()
		if err != nil || exists(out) {
			c.Fail(w(), "the output is not autocleaned: %v %s", err, b)
		}
		c.Count("autocleaned", 1)
	}
	c.Sample(w())
}

func helperDeclsClean(args []string) {
	must1(ts.Decls(args[0], args[1], args[2], args[3], fab.Autoclean(true)))
	must(fab.NewController("").Run(context.Background(), &fab.Clean{Autoclean: true}))
}

func init() {
	checks["C32"] = func(m *Mon) {
		m.silenceStdout()
		m.Parallel("decls", m.N(60, 3000), 8, declsCase)
		m.Rule("histories of edits and runs of ts.Decls targets (Go and YAML) on random packages; after each run the output is compared with what tsdecls.Write makes of the present source; " +
			"the output of runs without changes must not be written; broken sources, missing types and impossible outputs must be reported; distinct = states")
		m.Assume("no methods in test files or in files excluded by build constraints (the generator reads these too); one package per directory, which imports the standard library only")
	}
}
