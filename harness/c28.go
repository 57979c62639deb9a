package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/sqlite"
)

// C28: proto.Deps against a model of the generated files (itself checked against protoc where protoc accepts them),
// and proto.Proto over histories of edits with a wrapped protoc.

type pfile struct {
	Path    string // on disk
	Imports []string
	Pkg     string
	N       int
}

type pworld struct {
	Base     string
	Includes []string // absolute, in order
	Files    map[string]*pfile
	next     int
}

var protoNames = []string{"a.proto", "b.proto", "c.proto", "x/a.proto", "x/y/c.proto", "with space.proto", "x/ünï.proto", "d.e.proto", "noext", "x/q'q.proto"}

func genProtos(r *rand.Rand, base string) *pworld {
	pw := &pworld{Base: base, Files: map[string]*pfile{}}
	dirs := []string{"inc", "inc2", "inc/x", "inc three", "."}
	r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	for _, d := range dirs[:1+r.Intn(3)] {
		pw.Includes = append(pw.Includes, filepath.Join(base, d))
		must(os.MkdirAll(filepath.Join(base, d), 0755))
	}
	for k := 2 + r.Intn(8); k > 0; k-- {
		pw.add(r)
	}
	return pw
}

// add writes a new file, or replaces one.
func (pw *pworld) add(r *rand.Rand) *pfile {
	inc := pw.Includes[r.Intn(len(pw.Includes))]
	f := filepath.Join(inc, protoNames[r.Intn(len(protoNames))])
	pw.next++
	p := &pfile{Path: f, Pkg: fmt.Sprintf("pk%d", pw.next)}
	for _, n := range protoNames {
		exists := false
		for _, inc := range pw.Includes {
			exists = exists || pw.Files[filepath.Join(inc, n)] != nil
		}
		if exists && r.Intn(4) == 0 || r.Intn(40) == 0 {
			p.Imports = append(p.Imports, n)
		}
	}
	r.Shuffle(len(p.Imports), func(i, j int) { p.Imports[i], p.Imports[j] = p.Imports[j], p.Imports[i] })
	pw.Files[f] = p
	pw.write(r, p)
	return p
}

func (pw *pworld) write(r *rand.Rand, p *pfile) {
	p.N++
	must(os.MkdirAll(filepath.Dir(p.Path), 0755))
	os.Remove(p.Path)
	must(os.WriteFile(p.Path, []byte(pw.text(r, p)), 0644))
}

func protoString(r *rand.Rand, s string) string {
	q := []string{"\"", "'"}[r.Intn(2)]
	var sb strings.Builder
	sb.WriteString(q)
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case b == q[0]:
			sb.WriteString("\\" + q)
		case r.Intn(25) == 0:
			fmt.Fprintf(&sb, "\\%03o", b)
		case r.Intn(25) == 0:
			fmt.Fprintf(&sb, "\\x%02x", b)
		case r.Intn(25) == 0 && i > 0 && b < 0x80:
			sb.WriteString(q + []string{" ", "\n\t", " /* and */ "}[r.Intn(3)] + q)
			sb.WriteByte(b)
		default:
			sb.WriteByte(b)
		}
	}
	return sb.String() + q
}

// text is the source of a file, in a random style.
func (pw *pworld) text(r *rand.Rand, p *pfile) string {
	var sb strings.Builder
	if r.Intn(12) == 0 {
		sb.WriteString("\xef\xbb\xbf")
	}
	decoy := func() string { return protoNames[r.Intn(len(protoNames))] }
	decoys := func() {
		switch r.Intn(12) {
		case 0:
			fmt.Fprintf(&sb, "// import \"%s\";\n", decoy())
		case 1:
			fmt.Fprintf(&sb, "/* import \"%s\";\n import \"%s\"; */", decoy(), decoy())
		case 2:
			fmt.Fprintf(&sb, "message D%d { optional string import = 1 [default = \"}; import '%s';\"]; /* } */ }\n", pw.id(), decoy())
		case 3:
			fmt.Fprintf(&sb, "message E%d { message import { optional int32 public = 1; } optional import f = 2; // {\n }\n", pw.id())
		case 4:
			fmt.Fprintf(&sb, "enum F%d { F%d_0 = 0; }", pw.id(), pw.next)
		case 5:
			sb.WriteString(";")
		case 6:
			fmt.Fprintf(&sb, "\n// it's an odd quote \" in a comment\n")
		}
	}
	sb.WriteString([]string{"syntax = \"proto2\";\n", "syntax='proto2';", "/* licence */\nsyntax = \"proto2\"; // proto2\n", "// import \"a.proto\";\r\nsyntax = \"proto2\";\r\n"}[r.Intn(4)])
	stmts := []string{fmt.Sprintf("package %s;", p.Pkg)}
	if r.Intn(3) == 0 {
		stmts = append(stmts, fmt.Sprintf("option java_package = \"x; import '%s'; //\";", decoy()))
	}
	for _, imp := range p.Imports {
		ws := func() string { return []string{" ", " ", "  ", "\t", "\n", " /* c */ ", "\r\n", " // c\n"}[r.Intn(8)] }
		s := "import"
		if q := r.Intn(6); q < 2 {
			s += ws() + []string{"public", "weak"}[q]
		}
		if r.Intn(6) > 0 {
			s += ws()
		}
		s += protoString(r, imp)
		if r.Intn(5) == 0 {
			s += ws()
		}
		stmts = append(stmts, s+";")
	}
	if r.Intn(10) == 0 {
		stmts = append(stmts, "import \"google/protobuf/timestamp.proto\";")
	}
	r.Shuffle(len(stmts), func(i, j int) { stmts[i], stmts[j] = stmts[j], stmts[i] })
	for _, s := range stmts {
		if r.Intn(3) == 0 {
			decoys()
		}
		sb.WriteString([]string{"", "", "  ", "\t"}[r.Intn(4)] + s + []string{"\n", "\n", " ", "", " // import \"a.proto\";\n"}[r.Intn(5)])
	}
	decoys()
	fmt.Fprintf(&sb, "\nmessage M%d_%d {}", pw.id(), p.N)
	return sb.String()
}

func (pw *pworld) id() int { pw.next++; return pw.next }

// deps are the files reachable from the given one.
func (pw *pworld) deps(file string) []string {
	seen := map[string]bool{}
	var visit func(f string)
	visit = func(f string) {
		if seen[f] {
			return
		}
		seen[f] = true
		p := pw.Files[f]
		if p == nil {
			return
		}
		for _, imp := range p.Imports {
			for _, inc := range pw.Includes {
				if q := filepath.Join(inc, imp); pw.Files[q] != nil {
					visit(q)
					break
				}
			}
		}
	}
	visit(file)
	return sortedKeys(seen)
}

// protocDeps asks protoc for the files it reads.
func (pw *pworld) protocDeps(file string) ([]string, string, error) {
	args := []string{}
	for _, inc := range pw.Includes {
		args = append(args, "-I"+inc)
	}
	out := filepath.Join(pw.Base, "deps.d")
	args = append(args, "--descriptor_set_out="+filepath.Join(pw.Base, "ds"), "--dependency_out="+out, file)
	cmd := exec.Command("protoc", args...)
	b, err := cmd.CombinedOutput()
	if err != nil {
		return nil, string(b), err
	}
	_, list, _ := strings.Cut(string(must1(os.ReadFile(out))), ": ")
	var res []string
	for _, l := range strings.Split(list, "\\\n") {
		l = strings.TrimSpace(l)
		if l != "" && !strings.HasPrefix(l, "/usr/") {
			res = append(res, filepath.Clean(l))
		}
	}
	return res, string(b), nil
}

func protoDepsCase(c *Case) {
	r := c.R
	base := c.Dir()
	pw := genProtos(r, base)
	for k := 0; k < 4; k++ {
		f := sortedKeys(pw.Files)[r.Intn(len(pw.Files))]
		want := pw.deps(f)
		texts := map[string]string{}
		for f := range pw.Files {
			texts[f] = string(must1(os.ReadFile(f)))
		}
		w := map[string]any{"file": f, "includes": pw.Includes, "texts": texts, "want": want}
		if k < 2 {
			if got, msg, err := pw.protocDeps(f); err == nil {
				if fmt.Sprint(uniqSorted(got)) != fmt.Sprint(want) {
					j, _ := json.MarshalIndent(w, "", " ")
					panic(fmt.Sprintf("harness: protoc reads %v, the model says %v: %s %s", got, want, msg, j))
				}
				c.Count("model_checked_against_protoc", 1)
			} else {
				c.Count("not_accepted_by_protoc", 1)
			}
		}
		incs := append([]string(nil), pw.Includes...)
		if r.Intn(4) == 0 {
			i := r.Intn(len(incs) + 1)
			incs = append(incs[:i], append([]string{filepath.Join(base, []string{"nonexistent", "plainfile", "oddity"}[r.Intn(3)])}, incs[i:]...)...)
			must(os.WriteFile(filepath.Join(base, "plainfile"), []byte("import"), 0644))
			for _, n := range protoNames { // directories named like the files
				must(os.MkdirAll(filepath.Join(base, "oddity", n), 0755))
			}
		}
		if r.Intn(6) == 0 {
			incs = append(incs, incs[r.Intn(len(incs))])
		}
		spell := func(f string) string {
			switch r.Intn(4) {
			case 0:
				return relPath(must1(os.Getwd()), f)
			case 1:
				return f + "/"
			}
			return f
		}
		var (
			got []string
			err error
		)
		if r.Intn(3) == 0 {
			ydir := []string{"", "y", "inc"}[r.Intn(3)]
			rel := func(f string) string {
				if r.Intn(2) == 0 {
					return f
				}
				return relPath(filepath.Join(base, ydir), f)
			}
			var ys []string
			for _, i := range incs {
				ys = append(ys, rel(i))
			}
			var n yaml.Node
			must(yaml.Unmarshal([]byte("!proto.Deps {File: "+yq(rel(f))+", Includes: "+yqs(ys)+"}"), &n))
			got, err = fab.NewController(base).YAMLStringList(n.Content[0], ydir)
		} else {
			g := f
			if r.Intn(3) == 0 {
				g = relPath(must1(os.Getwd()), f)
			}
			var is []string
			for _, i := range incs {
				is = append(is, spell(i))
			}
			got, err = proto.Deps(g, is)
		}
		w["got"] = got
		if err != nil {
			c.Fail(w, "proto.Deps fails: %v", err)
			return
		}
		if !sort.StringsAreSorted(got) {
			c.Fail(w, "the list is not sorted: %q", got)
			return
		}
		if len(dedup(append([]string(nil), got...))) != len(got) {
			c.Fail(w, "a file is listed twice: %q", got)
			return
		}
		var abs []string
		for _, g := range got {
			abs = append(abs, must1(filepath.Abs(g)))
		}
		abs = uniqSorted(abs)
		if fmt.Sprint(abs) != fmt.Sprint(want) {
			c.Fail(w, "proto.Deps lists %q, protoc would read %q", abs, want)
			return
		}
		c.Count("lists_compared", 1)
		c.Count("files_listed", int64(len(got)))
		if len(got) > 1 {
			c.Nontrivial(fmt.Sprint(texts))
		}
		c.Sample(w)
		pw.add(r)
	}
	if _, err := proto.Deps(filepath.Join(base, "missing.proto"), pw.Includes); err == nil {
		c.Fail(nil, "proto.Deps of a missing file reports no error")
	}
}

type protoReq struct {
	Inputs, Outputs, Includes, Opts []string
	DB                              string
	Auto                            bool
	Top, Target                     string // for YAML
}

func helperProto(file string) {
	var q protoReq
	must(json.Unmarshal(must1(os.ReadFile(file)), &q))
	ctx := context.Background()
	db := must1(sqlite.Open(q.DB))
	defer db.Close()
	ctx = fab.WithHashDB(ctx, db)
	con := fab.NewController(q.Top)
	var (
		t   fab.Target
		err error
	)
	if q.Top != "" {
		if err = con.ReadYAMLFile(""); err == nil {
			t, _ = con.RegistryTarget(q.Target)
		}
	} else {
		t, err = proto.Proto(q.Inputs, q.Outputs, q.Includes, q.Opts, fab.Autoclean(q.Auto))
	}
	if err == nil {
		err = con.Run(ctx, t)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(1)
	}
}

func protoHistory(c *Case) {
	r := c.R
	base := c.Dir()
	pw := genProtos(r, base)
	real := must1(exec.LookPath("protoc"))
	log := filepath.Join(base, "protolog")
	wrap := filepath.Join(base, "wrap")
	must(os.MkdirAll(wrap, 0755))
	must(os.WriteFile(filepath.Join(wrap, "protoc"), []byte(fmt.Sprintf("#!/bin/sh\nprintf '%%s\\n' \"$@\" RUN >>%s\nexec %s \"$@\"\n", shq(log), shq(real))), 0755))
	cli := r.Intn(2) == 0
	// Inputs that protoc accepts.
	var inputs []string
	pick := func() bool {
		inputs = nil
		for _, f := range sortedKeys(pw.Files) {
			if _, _, err := pw.protocDeps(f); err == nil && r.Intn(2) == 0 {
				inputs = append(inputs, f)
			}
		}
		r.Shuffle(len(inputs), func(i, j int) { inputs[i], inputs[j] = inputs[j], inputs[i] })
		if k := 2 + r.Intn(4); len(inputs) > k {
			inputs = inputs[:k]
		}
		return len(inputs) > 0
	}
	for n := 0; !pick(); n++ {
		if n > 100 {
			return
		}
		pw.add(r)
	}
	out := filepath.Join(base, "out.ds")
	opts := func(out string) []string {
		return []string{"--include_imports", "--descriptor_set_out=" + out}
	}
	extra := []string{}
	cwd := base
	ydir := ""
	if cli && r.Intn(2) == 0 {
		ydir = "sub"
		must(os.MkdirAll(filepath.Join(base, "sub"), 0755))
	}
	from := filepath.Join(base, ydir)
	var hist []string
	w := func() map[string]any {
		texts := map[string]string{}
		for f := range pw.Files {
			texts[f] = string(must1(os.ReadFile(f)))
		}
		return map[string]any{"history": hist, "inputs": inputs, "includes": pw.Includes, "texts": texts, "cli": cli}
	}
	rel := r.Intn(2) == 0
	sp := func(fs []string) (res []string) {
		for _, f := range fs {
			if rel {
				f = relPath(from, f)
			}
			res = append(res, f)
		}
		return
	}
	last, lastOut := "", ""
	recorded := map[string]bool{}
	for step := 0; step < 6; step++ {
		if step > 0 {
			for k := r.Intn(3); k > 0; k-- {
				fs := sortedKeys(pw.Files)
				f := pw.Files[fs[r.Intn(len(fs))]]
				switch r.Intn(8) {
				case 0:
					b := must1(os.ReadFile(f.Path))
					os.Remove(f.Path)
					must(os.WriteFile(f.Path, b, 0644))
					hist = append(hist, "rewrite "+f.Path)
				case 1:
					g := pw.add(r)
					hist = append(hist, "add "+g.Path)
				case 2:
					os.Remove(out)
					hist = append(hist, "remove the output")
				case 3:
					must(os.WriteFile(out, []byte("tampered"), 0644))
					hist = append(hist, "tamper with the output")
				case 4:
					f.Imports = append(f.Imports, protoNames[r.Intn(len(protoNames))])
					f.Imports = dedup(f.Imports)
					pw.write(r, f)
					hist = append(hist, "add an import to "+f.Path)
				case 5:
					extra = []string{[]string{"--include_source_info", "--experimental_allow_proto3_optional"}[r.Intn(2)]}
					hist = append(hist, "change the options")
				default:
					pw.write(r, f)
					hist = append(hist, "write "+f.Path)
				}
			}
			if r.Intn(6) == 0 {
				pick()
			}
			if len(inputs) == 0 {
				break
			}
		}
		// What protoc makes of it.
		var args []string
		for _, i := range pw.Includes {
			args = append(args, "-I"+i)
		}
		ref := filepath.Join(base, "ref.ds")
		os.Remove(ref)
		refMsg, refErr := exec.Command(real, append(append(append(args, opts(ref)...), extra...), inputs...)...).CombinedOutput()
		state := fmt.Sprintf("%q %q %q\n", inputs, pw.Includes, extra)
		deps := map[string]bool{}
		for _, i := range inputs {
			for _, d := range pw.deps(i) {
				deps[d] = true
			}
		}
		for _, d := range sortedKeys(deps) {
			state += fmt.Sprintf("%s %q\n", d, must1(os.ReadFile(d)))
		}
		outNow, _ := os.ReadFile(out)
		os.Remove(log)
		popts := append(opts(out), extra...)
		q := protoReq{Inputs: sp(inputs), Outputs: sp([]string{out}), Includes: sp(pw.Includes), Opts: popts, DB: filepath.Join(base, "fabdir", "hash.db")}
		must(os.MkdirAll(filepath.Join(base, "fabdir"), 0755))
		if cli {
			text := ""
			if ydir != "" {
				text = "_dir: " + ydir + "\n"
				must(os.WriteFile(filepath.Join(base, "fab.yaml"), []byte("Top: !All [sub/P]\n"), 0644))
			}
			text += fmt.Sprintf("P: !proto.Proto\n  Inputs: %s\n  Outputs: %s\n  Includes: %s\n  Opts: %s\n", yqs(q.Inputs), yqs(q.Outputs), yqs(q.Includes), yqs(popts))
			must(os.WriteFile(filepath.Join(from, "fab.yaml"), []byte(text), 0644))
			q.Top, q.Target = base, "P"
			if ydir != "" {
				q.Target = []string{"Top", "sub/P"}[r.Intn(2)]
			}
		}
		spec := filepath.Join(base, "spec.json")
		must(os.WriteFile(spec, must1(json.Marshal(q)), 0644))
		cmd := exec.Command(must1(os.Executable()), "helper", "proto", spec)
		cmd.Dir = cwd
		cmd.Env = append(os.Environ(), "PATH="+wrap+":"+os.Getenv("PATH"))
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		err := cmd.Run()
		c.Event()
		if strings.Contains(buf.String(), "panic: harness: ") {
			panic("harness: " + buf.String())
		}
		lb, _ := os.ReadFile(log)
		runs := strings.Count(string(lb), "RUN\n")
		hist = append(hist, fmt.Sprintf("run %q: %v, protoc ran %d times", inputs, err, runs))
		if refErr != nil {
			if err == nil && runs == 0 && recorded[state+string(outNow)] {
				// None of the files it was made from has changed; another one is in the way now.
				c.Count("shadowed_inputs", 1)
				last = ""
				continue
			}
			if err == nil {
				c.Fail(w(), "protoc fails (%s), but the run of the Proto target succeeds", clip(string(refMsg), 500))
				return
			}
			c.Count("runs_that_fail", 1)
			last = ""
			continue
		}
		if err != nil {
			c.Fail(w(), "the Proto target fails: %v: %s", err, clip(buf.String(), 1500))
			return
		}
		got, _ := os.ReadFile(out)
		want := must1(os.ReadFile(ref))
		if !bytes.Equal(got, want) {
			c.Fail(w(), "the output is not what protoc makes of the present files (protoc ran %d times)", runs)
			return
		}
		same := state == last && string(outNow) == lastOut
		if same && runs > 0 {
			c.Fail(w(), "nothing has changed, but protoc runs again")
			return
		}
		if same {
			c.Count("runs_skipped", 1)
		}
		if runs > 1 {
			c.Fail(w(), "protoc runs %d times", runs)
			return
		}
		if last != "" && state != last && runs == 0 {
			// It may have been like this before; the output is right in any case.
			c.Count("returned_to_an_earlier_state", 1)
		}
		if runs == 1 {
			// Includes in order, options and inputs, each once.
			var incs, rest []string
			argv := strings.Split(strings.TrimSuffix(string(lb), "RUN\n"), "\n")
			for _, a := range argv[:len(argv)-1] {
				if p, ok := strings.CutPrefix(a, "-I"); ok {
					incs = append(incs, absFrom(cwd, p))
				} else if p, ok := strings.CutPrefix(a, "--proto_path="); ok {
					incs = append(incs, absFrom(cwd, p))
				} else if strings.HasPrefix(a, "-") {
					rest = append(rest, a)
				} else {
					rest = append(rest, absFrom(cwd, a))
				}
			}
			if fmt.Sprintf("%q", incs) != fmt.Sprintf("%q", pw.Includes) {
				c.Fail(w(), "protoc gets the include directories %q, want %q", incs, pw.Includes)
				return
			}
			wantRest := append(append([]string(nil), popts...), inputs...)
			sort.Strings(wantRest)
			sort.Strings(rest)
			if fmt.Sprintf("%q", rest) != fmt.Sprintf("%q", wantRest) {
				c.Fail(w(), "protoc gets the options and inputs %q, want %q", rest, wantRest)
				return
			}
			c.Count("protoc_runs", 1)
		}
		last, lastOut = state, string(got)
		recorded[state+lastOut] = true
		c.Nontrivial(state)
	}
}

func absFrom(dir, f string) string {
	if filepath.IsAbs(f) {
		return filepath.Clean(f)
	}
	return filepath.Join(dir, f)
}

func init() {
	checks["C28"] = func(m *Mon) {
		m.Parallel("deps", m.N(1000, 20000), 8, protoDepsCase)
		m.Parallel("history", m.N(200, 4000), 8, protoHistory)
		m.Rule("random sets of .proto files in several include directories, with shadowed names, cycles, all forms of imports and things that look like imports; " +
			"the lists are compared with a model which is itself compared with protoc --dependency_out where protoc accepts the file; histories of edits and runs of Proto targets (Go and YAML) with a wrapped protoc; " +
			"distinct = file sets with several dependencies, states")
		m.Assume("protoc 3.21 as installed; files that protoc rejects (cycles) are judged by the model alone")
	}
}
