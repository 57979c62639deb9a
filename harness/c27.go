package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/sqlite"
)

// C27: go.Binary over histories of edits. After every run the program is run beside one made by a go build of the harness.

type binReq struct {
	Dir, Out string
	Flags    []string
	DB       string
	Clean    bool
	Must     bool
}

func helperGoBin(file string) {
	var q binReq
	must(json.Unmarshal(must1(os.ReadFile(file)), &q))
	ctx := context.Background()
	db := must1(sqlite.Open(q.DB))
	defer db.Close()
	ctx = fab.WithHashDB(ctx, db)
	con := fab.NewController("")
	var (
		t   fab.Target
		err error
	)
	if q.Must {
		t = golang.MustBinary(q.Dir, q.Out, q.Flags...)
	} else {
		t, err = golang.Binary(q.Dir, q.Out, q.Flags...)
	}
	if err == nil {
		if q.Clean {
			err = con.Run(ctx, &fab.Clean{Autoclean: true})
		} else {
			err = con.Run(ctx, t)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(1)
	}
}

func goBinCase(cgo bool) func(c *Case) {
	return func(c *Case) {
		r := c.R
		base := c.Dir()
		o := goOpts{asm: 0.2}
		if cgo {
			o.cgo = 0.6
		}
		g := genGomod(r, base, o)
		p := g.Pkgs[len(g.Pkgs)-1]
		mainFile := filepath.Join(p.Dir, "base.go")
		g.put(mainFile, strings.Replace(g.Files[mainFile], "println(V())", "println(V(), label)", 1)+"\nvar label = \"none\"\n")
		if r.Intn(4) > 0 {
			g.put(filepath.Join(p.Dir, "xtag.go"), g.part(p, "sometag", "xtag.go", g.word(r), nil))
		}
		dir := filepath.Join(g.Dir, p.Dir)
		// wrapped go
		log := filepath.Join(base, "golog")
		wrap := filepath.Join(base, "wrap")
		must(os.MkdirAll(wrap, 0755))
		must(os.WriteFile(filepath.Join(wrap, "go"), []byte(fmt.Sprintf("#!/bin/sh\nprintf '%%s ' \"$@\" >>%s\necho >>%s\nexec %s \"$@\"\n", shq(log), shq(log), shq(must1(exec.LookPath("go"))))), 0755))
		env := []string{"PATH=" + wrap + ":" + os.Getenv("PATH")}

		cli := r.Intn(2) == 0
		// Where the process is, and how directory and output are written.
		cwd := []string{base, g.Dir, dir}[r.Intn(3)]
		ydir := ""
		top := base
		if cli {
			if r.Intn(3) == 0 {
				ydir = "y/z"
			}
			must(os.MkdirAll(filepath.Join(base, ydir), 0755))
			cwd = []string{base, filepath.Join(base, ydir), dir}[r.Intn(3)]
		}
		from := cwd // what relative names are relative to
		if cli {
			from = filepath.Join(base, ydir)
		}
		wdir := dir
		if r.Intn(5) == 0 {
			os.Symlink(base, filepath.Join(base, "lk"))
			wdir = filepath.Join(base, "lk", relPath(base, dir))
		}
		if r.Intn(3) > 0 {
			wdir = relPath(from, wdir)
		}
		if r.Intn(6) == 0 {
			wdir += "/"
		}
		must(os.MkdirAll(filepath.Join(base, "bin"), 0755))
		out, wout := "", ""
		setOut := func() {
			wout = []string{filepath.Join(base, "bin", "prog"), filepath.Join(base, "out put"), filepath.Join(base, "x.bin")}[r.Intn(3)]
			out = wout
			if r.Intn(2) == 0 {
				wout = relPath(from, wout)
			}
			if r.Intn(4) == 0 {
				def := filepath.Join(from, filepath.Base(dir))
				if _, err := os.Stat(def); err != nil {
					out, wout = def, ""
				}
			}
		}
		setOut()
		var flags []string
		label := "none"
		setFlags := func() {
			flags = nil
			if r.Intn(3) > 0 {
				flags = append(flags, [][]string{{"-tags", "sometag"}, {"-tags=sometag"}, {"--tags=other,sometag"}, {"--tags", "sometag"}, {"-tags", "other"}}[r.Intn(5)]...)
			}
			if r.Intn(3) == 0 {
				g.next++
				label = fmt.Sprintf("label%d", g.next)
				flags = append(flags, "-ldflags", "-X main.label="+label)
			}
			if r.Intn(4) == 0 {
				flags = append(flags, []string{"-trimpath", "-v", "-p=2"}[r.Intn(3)])
			}
		}
		setFlags()
		var hist []string
		w := func() map[string]any {
			return map[string]any{"history": hist, "module": g.Files, "package": p.Dir, "dir": wdir, "out": wout, "flags": flags, "cwd": cwd, "cli": cli, "ydir": ydir}
		}
		run := func(clean bool) (string, error) {
			os.Remove(log)
			var cmd *exec.Cmd
			if cli {
				text := ""
				if ydir != "" {
					text = "_dir: " + ydir + "\n"
				}
				text += "Prog: !go.Binary\n  Dir: " + yq(wdir) + "\n"
				if wout != "" {
					text += "  Out: " + yq(wout) + "\n"
				}
				if len(flags) > 0 {
					text += "  Flags: " + yqs(flags) + "\n"
				}
				text += "Sweep: !Clean\n  Autoclean: true\n"
				must(os.WriteFile(filepath.Join(base, ydir, "fab.yaml"), []byte(text), 0644))
				t := "Prog"
				if clean {
					t = "Sweep"
				}
				if ydir != "" {
					t = ydir + "/" + t
					must(os.WriteFile(filepath.Join(base, "fab.yaml"), []byte("All: !All [ "+ydir+"/Prog, "+ydir+"/Sweep ]\n"), 0644))
				}
				cmd = exec.Command(os.Getenv("FABV_FAB"), "-fab", filepath.Join(base, "fabdir"), t)
			} else {
				must(os.MkdirAll(filepath.Join(base, "fabdir"), 0755))
				spec := filepath.Join(base, "spec.json")
				must(os.WriteFile(spec, must1(json.Marshal(binReq{Dir: wdir, Out: wout, Flags: flags, DB: filepath.Join(base, "fabdir", "hash.db"), Clean: clean, Must: r.Intn(3) == 0})), 0644))
				cmd = exec.Command(must1(os.Executable()), "helper", "gobin", spec)
			}
			cmd.Dir = cwd
			if cli && ydir == "" && cwd == dir && dir != base {
				cmd.Dir = base
			}
			cmd.Env = append(os.Environ(), env...)
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			err := cmd.Run()
			c.Event()
			if strings.Contains(buf.String(), "panic: harness: ") {
				panic("harness: gobin: " + buf.String())
			}
			return buf.String(), err
		}
		_ = top
		builds := func() (n int) {
			b, _ := os.ReadFile(log)
			for _, l := range strings.Split(string(b), "\n") {
				for _, f := range strings.Fields(l) {
					if f == "build" || f == "install" {
						n++
						break
					}
				}
			}
			return
		}
		// state is all that the output depends on, as the go command tells.
		state := func() (string, bool) {
			var e []string
			if s := fmt.Sprint(flags); strings.Contains(s, "sometag") {
				e = append(e, "GOFLAGS=-buildvcs=false -tags=sometag")
			}
			files, _, err := goList(dir, e, false, false)
			if err != nil {
				return "", false
			}
			var sb strings.Builder
			for _, f := range uniqSorted(files) {
				b, _ := os.ReadFile(f)
				fmt.Fprintf(&sb, "%s %q\n", f, b)
			}
			fmt.Fprintf(&sb, "%q %s %s %s\n", flags, wdir, wout, out)
			return sb.String(), true
		}
		type seen struct{ out, built string }
		refs := map[string]seen{}
		runProg := func(exe string) string {
			cmd := exec.Command(exe)
			b, err := cmd.CombinedOutput()
			return fmt.Sprintf("%s %v", b, err)
		}
		// settings are what a program says about how it was built.
		settings := func(exe string) string {
			b, err := exec.Command("go", "version", "-m", exe).Output()
			if err != nil {
				return err.Error()
			}
			_, rest, _ := strings.Cut(string(b), "\n")
			return rest
		}
		last, lastOut := "", ""
		broken := ""
		steps := 3 + r.Intn(4)
		for i := 0; i < steps; i++ {
			// edits
			if i > 0 {
				for k := r.Intn(3); k > 0; k-- {
					hist = append(hist, g.edit(r, p, out))
				}
				if r.Intn(5) == 0 {
					setFlags()
				}
				if r.Intn(8) == 0 {
					setOut()
				}
				if r.Intn(10) == 0 {
					broken = filepath.Join(p.Dir, "broken.go")
					g.put(broken, "package "+p.Name+"\n\nfunc f() int { return \"not an int\" }\n")
					if r.Intn(2) == 0 {
						g.put(broken, "package "+p.Name+"\n\nfunc {\n")
					}
					hist = append(hist, "break it")
				}
			}
			st, ok := state()
			before, errStat := os.ReadFile(out)
			msg, err := run(false)
			hist = append(hist, fmt.Sprintf("run %v -> %s: %v, %d builds", flags, wout, err, builds()))
			if broken != "" || !ok {
				if err == nil {
					c.Fail(w(), "the package does not compile, but the run of go.Binary succeeds: %s", clip(msg, 1000))
					return
				}
				c.Count("builds_that_fail", 1)
				if broken != "" {
					os.Remove(filepath.Join(g.Dir, broken))
					delete(g.Files, broken)
					hist = append(hist, "mend it")
					broken = ""
				}
				continue
			}
			if err != nil {
				c.Fail(w(), "go.Binary fails: %v: %s", err, clip(msg, 2000))
				return
			}
			if info, err := os.Stat(out); err != nil || !info.Mode().IsRegular() || info.Mode()&0100 == 0 {
				c.Fail(w(), "after a successful run there is no program at %s: %v", out, err)
				return
			}
			if last == st && errStat == nil && string(before) == lastOut {
				if builds() > 0 {
					c.Fail(w(), "nothing has changed, but the program is built again")
					return
				}
				c.Count("rebuilds_avoided", 1)
			}
			ref, ok := refs[st]
			if !ok {
				exe := filepath.Join(base, "ref")
				cmd := exec.Command("go", append(append([]string{"build", "-C", dir, "-o", exe}, flags...), ".")...)
				if b, err := cmd.CombinedOutput(); err != nil {
					panic("harness: " + string(b))
				}
				ref = seen{runProg(exe), settings(exe)}
				refs[st] = ref
			}
			if got := runProg(out); got != ref.out {
				c.Fail(w(), "the program prints %q, one built from the present sources with flags %q prints %q", got, flags, ref.out)
				return
			}
			if got := settings(out); got != ref.built {
				c.Fail(w(), "the program is built with %q, one built with flags %q is built with %q", got, flags, ref.built)
				return
			}
			c.Count("programs_compared", 1)
			if builds() > 0 {
				c.Count("builds", 1)
			}
			last, lastOut = st, string(must1(os.ReadFile(out)))
			c.Nontrivial(st)
		}
		if r.Intn(3) == 0 && exists(out) {
			if _, ok := state(); ok {
				if msg, err := run(true); err != nil {
					c.Fail(w(), "cleaning fails: %v: %s", err, clip(msg, 1000))
				} else if exists(out) {
					c.Fail(w(), "the output %s is not autocleaned", out)
				}
				c.Count("autocleaned", 1)
			}
		}
		c.Sample(w())
	}
}

// edit changes a file of the module, or the output.
func (g *gomod) edit(r *rand.Rand, p *gopkg, out string) string {
	var files []string
	for f := range g.Files {
		if f != "go.mod" && !strings.HasSuffix(f, "/broken.go") && f != "broken.go" {
			files = append(files, f)
		}
	}
	sort.Strings(files)
	// Some are of particular interest.
	var some []string
	kind := r.Intn(4)
	for _, f := range files {
		if kind%2 == 0 && strings.Contains(g.Files[f], "sometag") || kind == 1 && strings.HasSuffix(f, ".txt") {
			some = append(some, f)
		}
	}
	if len(some) > 0 {
		files = some
	}
	f := files[r.Intn(len(files))]
	switch r.Intn(12) {
	case 0:
		g.put(f, g.Files[f]) // another file with the same contents
		return "rewrite " + f
	case 1:
		return "add " + g.addPart(r, r.Intn(len(g.Pkgs)))
	case 2:
		g.addEmbed(r, g.Pkgs[r.Intn(len(g.Pkgs))], "")
		return "add embedded files"
	case 3:
		if len(out) > 0 && r.Intn(2) == 0 {
			os.Remove(out)
			return "remove the output"
		}
		if exists(out) {
			os.Remove(out)
			must(os.WriteFile(out, []byte("#!/bin/sh\necho tampered\n"), 0755))
		}
		return "replace the output"
	case 4:
		g.next++
		n := filepath.Join(filepath.Dir(f), fmt.Sprintf("u%d_test.go", g.next))
		name := ""
		for _, q := range g.Pkgs {
			if filepath.Clean(filepath.Dir(f)) == filepath.Clean("./"+q.Dir) {
				name = q.Name
			}
		}
		if name == "" {
			return "nothing"
		}
		g.put(n, "package "+name+"\n")
		return "add " + n
	case 5: // a part or an embedded file goes away
		b := filepath.Base(f)
		if strings.HasPrefix(b, "x") || b == "two.txt" || b == ".hidden" || b == "three.txt" {
			if b == "two.txt" && strings.Contains(fmt.Sprint(g.Files), "???") {
				return "nothing"
			}
			os.Remove(filepath.Join(g.Dir, f))
			delete(g.Files, f)
			return "remove " + f
		}
		fallthrough
	default:
		s := g.Files[f]
		// change a word, or a number of the C and assembly files
		switch {
		case strings.Contains(s, "\"w"), strings.HasPrefix(s, "w"):
			i := strings.Index(s, "\"w") + 1
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			s = s[:i] + g.word(r) + s[j:]
		case strings.Contains(s, "ANSWER $"):
			s = fmt.Sprintf("#define ANSWER $%d\n", r.Intn(1000))
		case strings.Contains(s, "define EXTRA"):
			s = s[:strings.Index(s, "EXTRA")] + fmt.Sprintf("EXTRA %d\n", r.Intn(20))
		default:
			s = g.Files[f]
			if strings.HasSuffix(f, ".go") || strings.HasSuffix(f, ".c") {
				g.next++
				s += fmt.Sprintf("\n// %d\n", g.next)
			}
		}
		g.put(f, s)
		return "change " + f
	}
}

func init() {
	checks["C27"] = func(m *Mon) {
		m.Parallel("bin", m.N(56, 1200), 8, goBinCase(false))
		m.Parallel("cgo", m.N(3, 60), 3, goBinCase(true))
		m.Rule("histories of edits and runs of go.Binary targets (Go in fresh processes, and YAML with the fab command) on random modules; after each run the program is run and compared " +
			"with one made by 'go build' of the harness; runs without changes must not call 'go build' (which is wrapped); distinct = states of the sources")
		m.Assume("only files that the go command lists for the package matter to its output")
	}
}
