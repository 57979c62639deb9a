package main

import (
	"bytes"
	"context"
	"database/sql"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/ts"
)

// C11: dry runs of projects made of all built-in targets.
// Every command of the project leaves a trace, every file of it is watched (contents, identity and times), and so is the hash database.

type dnode struct {
	Kind    string // cmd, shelllist, clean, files, all, seq, deps, arg, gobin, proto, decls
	Kids    []int
	Shell   string
	Args    []string
	Dir     string
	Out     string // destination kinds of stdout and stderr
	Err     string
	OutFile string // without directory
	ErrFile string
	Stdin   string
	Files   []string
	In      []string
	Auto    bool
}

type dryProj struct {
	Dir   string
	Nodes []dnode
	Root  []int
}

// metaSnapshot is like snapshot, with the identities and modification times of the files.
func metaSnapshot(root string) map[string]string {
	s := snapshot(root)
	for p := range s {
		info, err := os.Lstat(filepath.Join(root, p))
		if err != nil {
			continue
		}
		st := info.Sys().(*syscall.Stat_t)
		s[p] += fmt.Sprintf(" | inode %d mtime %d.%d links %d", st.Ino, st.Mtim.Sec, st.Mtim.Nsec, st.Nlink)
	}
	return s
}

func genDryProj(r *rand.Rand, dir string, golangs bool) *dryProj {
	p := &dryProj{Dir: dir}
	must(os.MkdirAll(filepath.Join(dir, "sub/deep"), 0755))
	names := []string{"a", "b.txt", "c", "sub/d", "sub/deep/e", "out1", "out2", "sub/out3"}
	for _, n := range names {
		if r.Intn(4) > 0 {
			must(os.WriteFile(filepath.Join(dir, n), []byte(someContent(r)), 0644))
		}
	}
	if r.Intn(2) == 0 {
		must(os.MkdirAll(filepath.Join(dir, "empty"), 0755))
	}
	if r.Intn(3) == 0 {
		os.Symlink("a", filepath.Join(dir, "link"))
	}
	pick := func() string {
		return append(names, "empty", "link", "nowhere", "sub", "new/file")[r.Intn(len(names)+5)]
	}
	picks := func() (res []string) {
		for k := r.Intn(4); k > 0; k-- {
			res = append(res, pick())
		}
		return
	}
	nl := 2 + r.Intn(6)
	for i := 0; i < nl; i++ {
		n := dnode{}
		k := r.Intn(10)
		if !golangs && k >= 8 {
			k = r.Intn(8)
		}
		switch {
		case k < 5:
			n.Kind = "cmd"
			mark := fmt.Sprintf("ran%d", i)
			switch r.Intn(4) {
			case 0:
				n.Shell = fmt.Sprintf("echo x >%s; rm -f a b.txt", mark)
			case 1:
				n.Shell = fmt.Sprintf("mkdir %s; echo changed >>out1; touch c", mark)
			case 2:
				n.Args = []string{"touch", mark, "a"}
			default:
				n.Args = []string{"cp", "a", mark}
			}
			if r.Intn(4) == 0 {
				n.Kind, n.Shell, n.Args = "shelllist", "echo 1 >"+mark+"\necho 2 >>"+mark, nil
			}
			n.Dir = []string{"", "", "sub", "nowhere"}[r.Intn(4)]
			sinks := []string{"", "", "file", "append", "discard", "std", "fn"}
			n.Out, n.Err = sinks[r.Intn(len(sinks))], sinks[r.Intn(len(sinks))]
			n.OutFile, n.ErrFile = pick(), pick()
			if r.Intn(3) == 0 {
				n.ErrFile = n.OutFile
			}
			if r.Intn(3) == 0 {
				n.Stdin = pick()
			}
		case k < 8:
			n.Kind, n.Files, n.Auto = "clean", picks(), r.Intn(2) == 0
		default:
			n.Kind = []string{"gobin", "proto", "decls"}[r.Intn(3)]
			n.OutFile = []string{"goout", "a", "sub/gen"}[r.Intn(3)]
			n.Auto = r.Intn(2) == 0
		}
		p.Nodes = append(p.Nodes, n)
	}
	used := map[int]bool{}
	for k := r.Intn(6); k > 0; k-- {
		n := dnode{Kind: []string{"all", "seq", "deps", "arg", "files", "files"}[r.Intn(6)]}
		m := 1 + r.Intn(3)
		if n.Kind == "arg" || n.Kind == "files" {
			m = 1
		}
		for ; m > 0; m-- {
			x := r.Intn(len(p.Nodes))
			n.Kids = append(n.Kids, x)
			used[x] = true
		}
		if n.Kind == "arg" {
			n.Args = []string{"-x", oddArg(r), "z"}
		}
		if n.Kind == "files" {
			n.In, n.Files, n.Auto = picks(), picks(), r.Intn(2) == 0
			n.Files = append(n.Files, fmt.Sprintf("made%d", k))
			if r.Intn(4) == 0 {
				n.Files = nil
			}
		}
		p.Nodes = append(p.Nodes, n)
	}
	for i := range p.Nodes {
		if !used[i] || r.Intn(5) == 0 {
			p.Root = append(p.Root, i)
		}
	}
	if golangs {
		for f, s := range map[string]string{
			"gomod/go.mod":      "module example.com/x\n\ngo 1.21\n",
			"gomod/main.go":     "package main\n\nimport \"example.com/x/lib\"\n\nfunc main() { println(lib.X) }\n",
			"gomod/lib/lib.go":  "package lib\n\nconst X = 1\n",
			"gomod/svc/svc.go":  "package svc\n\ntype S struct{}\n\ntype Req struct{ A int }\n\ntype Resp struct{ B []string }\n\nfunc (*S) Do(r Req) (Resp, error) { return Resp{}, nil }\n",
			"protos/x.proto":    "syntax = \"proto3\";\nimport \"y.proto\";\nmessage X { Y y = 1; }\n",
			"protos/y.proto":    "syntax = \"proto3\";\nmessage Y { int32 a = 1; }\n",
			"protos/unrelated":  "?",
			"gomod/lib/data.md": "?",
		} {
			f = filepath.Join(dir, f)
			must(os.MkdirAll(filepath.Dir(f), 0755))
			must(os.WriteFile(f, []byte(s), 0644))
		}
	}
	old := time.Now().Add(-time.Hour)
	filepath.Walk(dir, func(f string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			os.Chtimes(f, old, old)
		}
		return nil
	})
	return p
}

func (p *dryProj) abs(f string) string {
	if f == "" {
		return ""
	}
	return filepath.Join(p.Dir, f)
}
func (p *dryProj) absAll(fs []string) (res []string) {
	for _, f := range fs {
		res = append(res, p.abs(f))
	}
	return
}

func (p *dryProj) goTargets() []fab.Target {
	var ts_ []fab.Target
	for i, n := range p.Nodes {
		var kids []fab.Target
		for _, k := range n.Kids {
			kids = append(kids, ts_[k])
		}
		var t fab.Target
		switch n.Kind {
		case "cmd", "shelllist":
			c := &fab.Command{Shell: n.Shell, Dir: p.abs(n.Dir)}
			if c.Dir == "" {
				c.Dir = p.Dir
			}
			if n.Args != nil {
				c.Cmd, c.Args = n.Args[0], n.Args[1:]
			}
			file := p.abs(n.OutFile)
			switch n.Out {
			case "file":
				c.StdoutFile = file
			case "append":
				c.StdoutFile = ">>" + file
			case "discard":
				c.Stdout = io.Discard
			case "std":
				c.Stdout = os.Stdout
			case "fn":
				c.StdoutFn = dryIndent
			}
			file = p.abs(n.ErrFile)
			switch n.Err {
			case "file":
				c.StderrFile = file
			case "append":
				c.StderrFile = ">>" + file
			case "discard":
				c.Stderr = io.Discard
			case "std":
				c.Stderr = os.Stdout
			case "fn":
				c.StderrFn = dryIndent
			}
			if n.Stdin != "" {
				c.StdinFile = p.abs(n.Stdin)
			}
			t = c
		case "clean":
			t = &fab.Clean{Files: p.absAll(n.Files), Autoclean: n.Auto}
		case "files":
			t = fab.Files(kids[0], p.absAll(n.In), p.absAll(n.Files), fab.Autoclean(n.Auto))
		case "all":
			t = fab.All(kids...)
		case "seq":
			t = fab.Seq(kids...)
		case "deps":
			t = fab.Deps(kids[0], kids[1:]...)
		case "arg":
			t = fab.ArgTarget(kids[0], n.Args...)
		case "gobin":
			t = must1(golang.Binary(p.abs("gomod"), p.abs(n.OutFile)))
		case "proto":
			t = must1(proto.Proto([]string{p.abs("protos/x.proto")}, []string{p.abs(fmt.Sprintf("%s.desc", n.OutFile))}, []string{p.abs("protos")}, []string{"--descriptor_set_out=" + p.abs(n.OutFile+".desc")}, fab.Autoclean(n.Auto)))
		case "decls":
			t = must1(ts.Decls(p.abs("gomod/svc"), "S", "/p/", p.abs(n.OutFile), fab.Autoclean(n.Auto)))
		default:
			panic("harness: " + n.Kind)
		}
		_ = i
		ts_ = append(ts_, t)
	}
	return ts_
}

func (p *dryProj) yaml(goTags bool) string {
	var sb strings.Builder
	for i, n := range p.Nodes {
		fmt.Fprintf(&sb, "N%d: ", i)
		var kids []string
		for _, k := range n.Kids {
			kids = append(kids, fmt.Sprintf("N%d", k))
		}
		list := "[" + strings.Join(kids, ", ") + "]"
		switch n.Kind {
		case "cmd", "shelllist":
			sb.WriteString("!Command\n")
			switch {
			case n.Kind == "shelllist":
				fmt.Fprintf(&sb, "  Shell: %s\n", yqs(strings.Split(n.Shell, "\n")))
			case n.Args != nil:
				fmt.Fprintf(&sb, "  Cmd: %s\n  Args: %s\n", n.Args[0], yqs(n.Args[1:]))
			default:
				fmt.Fprintf(&sb, "  Shell: %s\n", yq(n.Shell))
			}
			fmt.Fprintf(&sb, "  Dir: %s\n", yq(p.abs(n.Dir)+map[bool]string{true: p.Dir}[n.Dir == ""]))
			sink := func(field, kind, file string) {
				switch kind {
				case "file":
					fmt.Fprintf(&sb, "  %s: %s\n", field, yq(file))
				case "append":
					fmt.Fprintf(&sb, "  %s: %s\n", field, yq(">>"+file))
				case "discard":
					fmt.Fprintf(&sb, "  %s: $discard\n", field)
				case "std":
					fmt.Fprintf(&sb, "  %s: $stdout\n", field)
				case "fn":
					fmt.Fprintf(&sb, "  %s: $indent\n", field)
				}
			}
			sink("Stdout", n.Out, n.OutFile)
			sink("Stderr", n.Err, n.ErrFile)
			if n.Stdin != "" {
				fmt.Fprintf(&sb, "  Stdin: %s\n", yq(n.Stdin))
			}
		case "clean":
			fmt.Fprintf(&sb, "!Clean\n  Files: %s\n  Autoclean: %v\n", yqs(n.Files), n.Auto)
		case "files":
			fmt.Fprintf(&sb, "!Files\n  Target: %s\n  In: %s\n  Out: %s\n  Autoclean: %v\n", kids[0], yqs(n.In), yqs(n.Files), n.Auto)
		case "all":
			fmt.Fprintf(&sb, "!All %s\n", list)
		case "seq":
			fmt.Fprintf(&sb, "!Seq %s\n", list)
		case "deps":
			fmt.Fprintf(&sb, "!Deps %s\n", list)
		case "arg":
			fmt.Fprintf(&sb, "!ArgTarget\n  - %s\n", kids[0])
			for _, a := range n.Args {
				fmt.Fprintf(&sb, "  - %s\n", yq(a))
			}
		case "gobin":
			fmt.Fprintf(&sb, "!go.Binary\n  Dir: gomod\n  Out: %s\n", n.OutFile)
		case "proto":
			fmt.Fprintf(&sb, "!proto.Proto\n  Inputs: [protos/x.proto]\n  Outputs: [%s.desc]\n  Includes: [protos]\n  Opts: [%s]\n  Autoclean: %v\n", n.OutFile, yq("--descriptor_set_out="+p.abs(n.OutFile+".desc")), n.Auto)
		case "decls":
			fmt.Fprintf(&sb, "!ts.Decls\n  Dir: gomod/svc\n  Type: S\n  Prefix: /p/\n  Out: %s\n  Autoclean: %v\n", n.OutFile, n.Auto)
		}
	}
	return sb.String()
}

// wrapTools puts wrappers of go and protoc in front of PATH, which note what they are asked to build.
func (m *Mon) wrapTools() (log string) {
	dir := filepath.Join(m.Scratch, "wrap")
	must(os.MkdirAll(dir, 0755))
	log = filepath.Join(m.Scratch, "wrap.log")
	must(os.WriteFile(log, nil, 0644))
	for _, tool := range []string{"go", "protoc"} {
		real, err := exec.LookPath(tool)
		if err != nil {
			continue
		}
		must(os.WriteFile(filepath.Join(dir, tool), []byte(fmt.Sprintf("#!/bin/sh\nif [ %s = protoc ] || [ \"$1\" = build ]; then echo \"%s $PWD $*\" >>%s; fi\nexec %s \"$@\"\n", tool, tool, shq(log), shq(real))), 0755))
	}
	must(os.Setenv("PATH", dir+":"+os.Getenv("PATH")))
	return log
}

func grepFile(file, sub string) (res []string) {
	for _, l := range strings.Split(string(must1(os.ReadFile(file))), "\n") {
		if strings.Contains(l, sub) {
			res = append(res, l)
		}
	}
	return
}

func dryCase(golangs bool, wraplog string) func(c *Case) {
	return func(c *Case) {
		r := c.R
		dir := filepath.Join(c.Dir(), "proj")
		must(os.MkdirAll(dir, 0755))
		p := genDryProj(r, dir, golangs)
		con := fab.NewController(dir)
		var targets []fab.Target
		isYAML := r.Intn(2) == 0
		wit := map[string]any{"project": p}
		if isYAML {
			// The output of yaml goes to a file that is not part of the snapshot's changes.
			must(os.WriteFile(filepath.Join(dir, "fab.yaml"), []byte(p.yaml(true)), 0644))
			wit["yaml"] = p.yaml(true)
			if err := con.ReadYAMLFile(""); err != nil {
				panic(fmt.Sprintf("harness: %s\n%s", err, p.yaml(true)))
			}
			for _, i := range p.Root {
				t, _ := con.RegistryTarget(fmt.Sprintf("N%d", i))
				targets = append(targets, t)
			}
		} else {
			all := p.goTargets()
			for i, t := range all {
				must1(con.RegisterTarget(fmt.Sprintf("N%d", i), "", t))
			}
			for _, i := range p.Root {
				targets = append(targets, all[i])
			}
		}
		db := newMemDB()
		ctx := fab.WithDryRun(context.Background(), true)
		if r.Intn(5) > 0 {
			ctx = fab.WithHashDB(ctx, db)
		}
		verbose, force := r.Intn(2) == 0, r.Intn(4) == 0
		ctx = fab.WithForce(fab.WithVerbose(ctx, verbose), force)
		before := metaSnapshot(dir)
		runs := 1 + r.Intn(2)
		for k := 0; k < runs; k++ {
			if err := con.Run(ctx, targets...); err != nil {
				c.Count("dry_runs_with_error", 1)
			}
			c.Count("dry_runs", 1)
		}
		gone, added, changed := diffSnapshots(before, metaSnapshot(dir))
		wit["verbose"], wit["force"], wit["before"] = verbose, force, sortedKeys(before)
		if len(gone)+len(added)+len(changed) > 0 {
			c.Fail(wit, "a dry run changed files: removed %q, made %q, changed %q", gone, added, changed)
			return
		}
		if db.has+db.add > 0 {
			c.Fail(wit, "a dry run used the hash database: %d lookups, %d additions", db.has, db.add)
			return
		}
		if golangs {
			if l := grepFile(wraplog, dir); len(l) > 0 {
				c.Fail(wit, "a dry run executed commands: %q", l)
				return
			}
		}
		kinds := map[string]bool{}
		for _, n := range p.Nodes {
			kinds[n.Kind] = true
			c.Count("targets_"+n.Kind, 1)
		}
		c.Nontrivial(fmt.Sprint(p.Nodes, p.Root))
		if len(p.Nodes) < 5 {
			c.Sample(map[string]any{"nodes": p.Nodes, "roots": p.Root, "yaml": isYAML})
		}
	}
}

// dumpHashes reads the entries of a hash database.
func dumpHashes(file string) []string {
	db, err := sql.Open("sqlite3", "file:"+file+"?mode=ro")
	must(err)
	defer db.Close()
	rows, err := db.Query("SELECT * FROM hashes")
	if err != nil {
		if strings.Contains(err.Error(), "no such table") {
			return nil
		}
		must(err)
	}
	defer rows.Close()
	cols := must1(rows.Columns())
	var res []string
	for rows.Next() {
		vals := make([]any, len(cols))
		for i := range vals {
			vals[i] = new(any)
		}
		must(rows.Scan(vals...))
		s := ""
		for _, v := range vals {
			s += fmt.Sprintf("%x|", *(v.(*any)))
		}
		res = append(res, s)
	}
	must(rows.Err())
	sort.Strings(res)
	return res
}

// runFab runs the fab command.
func (c *Case) runFab(fabexe, dir string, env []string, args ...string) (output string, err error) {
	stdout, stderr, err := c.runFab2(fabexe, dir, env, "", args...)
	return stdout + stderr, err
}

func (c *Case) runFab2(fabexe, dir string, env []string, stdin string, args ...string) (stdout, stderr string, err error) {
	cmd := exec.Command(fabexe, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	}
	err = cmd.Run()
	c.Event()
	return out.String(), er.String(), err
}

// dryCLI runs fab -n at random points of a history of builds and edits.
// Its runs must not show: neither in the files, nor in the hash database, nor in what later builds do.
func dryCLI(driver bool) func(c *Case) {
	return func(c *Case) {
		r := c.R
		base := c.Dir()
		dir, fabdir, log := filepath.Join(base, "proj"), filepath.Join(base, "fabdir"), filepath.Join(base, "log")
		must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
		y := fmt.Sprintf(`Build: !Files
  Target: !Command
    Shell: echo build >>%[1]s; cat in mid >out
  In: [in, mid]
  Out: [out]
  Autoclean: true
Mid: !Files
  Target: MidCmd
  In: [sub/src]
  Out: [mid]
MidCmd: !Command
  Shell: echo mid >>%[1]s; cat sub/src
  Stdout: mid
Always: !Command
  Shell: [ 'echo always >>%[1]s', 'echo one', 'echo two' ]
  Stdout: '>> always.log'
  Stderr: errs
Clean: !Clean
  Files: [always.log, errs]
  Autoclean: true
Everything: !Seq
  - Build
  - !All [ Always, Mid ]
Dep: !Deps [ Always, Build ]
`, log)
		targets := []string{"Build", "Mid", "Always", "Clean", "Everything", "Dep"}
		if driver {
			must(os.MkdirAll(filepath.Join(dir, "_fab"), 0755))
			fabModule(dir, "example.com/dry")
			g := fmt.Sprintf("package build\n\nimport \"github.com/bobg/fab\"\n\nvar Go fab.Target = fab.Files(fab.Shellf(\"echo go >>%s; cat in out >goout\"), []string{\"in\", \"out\"}, []string{\"goout\"}, fab.Autoclean(true))\n", log)
			must(os.WriteFile(filepath.Join(dir, "_fab", "build.go"), []byte(g), 0644))
			targets = append(targets, "Go", "Go")
		}
		must(os.WriteFile(filepath.Join(dir, "fab.yaml"), []byte(y), 0644))
		must(os.WriteFile(filepath.Join(dir, "in"), []byte("1\n"), 0644))
		must(os.WriteFile(filepath.Join(dir, "sub/src"), []byte("1\n"), 0644))
		must(os.WriteFile(log, nil, 0644))
		fabexe := os.Getenv("FABV_FAB")
		var env []string
		var hist []string
		clean := false // what the last real run was asked for is up to date
		fresh := map[string]bool{}
		_ = clean
		steps := 5 + r.Intn(6)
		for i := 0; i < steps; i++ {
			t := targets[r.Intn(len(targets))]
			switch r.Intn(5) {
			case 0, 1, 2:
				args := []string{"-fab", fabdir, "-n"}
				if r.Intn(2) == 0 {
					args = append(args, "-v")
				}
				if r.Intn(4) == 0 && !driver {
					args = append(args, "-f")
				}
				args = append(args, t)
				if r.Intn(3) == 0 {
					args = append(args, targets[r.Intn(len(targets))])
				}
				before, logBefore := metaSnapshot(dir), must1(os.ReadFile(log))
				var dbBefore []string
				dbfile := filepath.Join(fabdir, "hash.db")
				if exists(dbfile) {
					dbBefore = dumpHashes(dbfile)
				}
				hist = append(hist, "fab "+strings.Join(args, " "))
				out, err := c.runFab(fabexe, dir, env, args...)
				c.Count("cli_dry_runs", 1)
				wit := map[string]any{"history": hist, "output": out}
				if err != nil {
					if strings.Contains(out, "go mod tidy") || strings.Contains(out, "go build") {
						panic("harness: the driver does not compile: " + out)
					}
					c.Count("cli_dry_run_errors", 1)
				}
				if gone, added, changed := diffSnapshots(before, metaSnapshot(dir)); len(gone)+len(added)+len(changed) > 0 {
					c.Fail(wit, "fab -n changed files of the project: removed %q, made %q, changed %q", gone, added, changed)
					return
				}
				if l := must1(os.ReadFile(log)); !bytes.Equal(l, logBefore) {
					c.Fail(wit, "fab -n executed commands: %q", l[len(logBefore):])
					return
				}
				var dbAfter []string
				if exists(dbfile) {
					dbAfter = dumpHashes(dbfile)
				}
				if strings.Join(dbBefore, "\n") != strings.Join(dbAfter, "\n") {
					c.Fail(wit, "fab -n changed the hash database: from %q to %q", dbBefore, dbAfter)
					return
				}
			case 3:
				hist = append(hist, "fab "+t)
				logBefore := must1(os.ReadFile(log))
				out, err := c.runFab(fabexe, dir, env, "-fab", fabdir, t)
				wit := map[string]any{"history": hist, "output": out}
				if err != nil {
					if t == "Go" && !exists(filepath.Join(dir, "out")) {
						continue // nothing has made its input yet
					}
					panic(fmt.Sprintf("harness: fab %s: %s %q", t, err, out))
				}
				ran := string(must1(os.ReadFile(log))[len(logBefore):])
				c.Count("cli_real_runs", 1)
				_ = wit
				if t == "Mid" && strings.Contains(ran, "mid") == fresh["Mid"] {
					c.Fail(wit, "after the dry runs, the real run executed %q; Mid was up to date: %v", ran, fresh["Mid"])
					return
				}
				if t == "Build" && strings.Contains(ran, "build") == fresh["Build"] {
					c.Fail(wit, "after the dry runs, the real run executed %q; Build was up to date: %v", ran, fresh["Build"])
					return
				}
				switch t {
				case "Mid":
					fresh["Mid"] = true
				case "Build", "Everything", "Dep":
					fresh["Mid"], fresh["Build"] = true, true
				case "Clean":
					fresh["Build"] = fresh["Build"] && false
				}
			case 4:
				f := []string{"in", "sub/src"}[r.Intn(2)]
				must(os.WriteFile(filepath.Join(dir, f), []byte(fmt.Sprintln("edit", i, r.Int63())), 0644))
				hist = append(hist, "edit "+f)
				fresh["Build"] = false
				if f == "sub/src" {
					fresh["Mid"] = false
				}
			}
		}
		c.Nontrivial(strings.Join(hist, ";"))
		if len(hist) < 7 {
			c.Sample(hist)
		}
	}
}

func dryIndent(_ context.Context, con *fab.Controller) io.Writer {
	return con.IndentingCopier(os.Stdout, "  ")
}

// fabModule writes the go.mod and go.sum of a project that uses the fab under test.
func fabModule(dir, path string) {
	repo := must1(os.ReadFile("/repo/go.mod"))
	_, reqs, _ := strings.Cut(string(repo), "\nrequire")
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+path+"\n\ngo 1.20\n\nrequire"+reqs+"\nrequire github.com/bobg/fab v0.0.0\n\nreplace github.com/bobg/fab => /repo\n"), 0644))
	must(os.WriteFile(filepath.Join(dir, "go.sum"), must1(os.ReadFile("/repo/go.sum")), 0644))
}

func init() {
	checks["C11"] = func(m *Mon) {
		m.silenceStdout()
		log := m.wrapTools()
		m.Parallel("dry", m.N(4000, 60000), 8, dryCase(false, log))
		m.Parallel("drygo", m.N(60, 1500), 8, dryCase(true, log))
		m.Parallel("cli", m.N(60, 1000), 8, dryCLI(false))
		m.Parallel("clidriver", m.N(2, 20), 2, dryCLI(true))
		m.Rule("a case is a random project of all kinds of built-in targets (Go or YAML) run in dry-run mode, or a history of real and dry runs of the fab command with edits; " +
			"contents, identities and modification times of all the project's files, a log of executed commands and the calls to (or rows of) the hash database are compared; " +
			"non-trivial = a dry run took place; distinct = projects and histories")
		m.Assume("commands of the projects leave traces in their directories or logs; go and protoc are wrapped to leave a trace when they build something")
	}
}
