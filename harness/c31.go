package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// C31: the fab command itself, with random command lines, from all directories of random projects with and without a driver.
// What it runs, prints and creates, and its exit status, are compared with what the project and the command line ask for.

type cliTarget struct {
	name  string
	kind  string // leaf, files, seq, all, deps, go
	kids  []*cliTarget
	fail  int // exit status of a leaf
	inSub bool
}

type cliProj struct {
	top, log string
	driver   bool
	targets  []*cliTarget
	vers     map[string]int // of the sources of Files targets
	built    map[string]int // the version each output was built from
	done     map[string]bool
	dirs     []string
}

const cliGo = `package f

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/bobg/fab"
)

func note(con *fab.Controller, s string) error {
	f, err := os.OpenFile(con.JoinPath("go.log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = fmt.Fprintln(f, s)
	return err
}

// GoArgs notes its arguments.
var GoArgs = fab.F(func(ctx context.Context, con *fab.Controller) error {
	return note(con, "GoArgs"+strings.Join(append([]string{""}, fab.GetArgs(ctx)...), "|"))
})

// GoFail fails.
var GoFail = fab.F(func(ctx context.Context, con *fab.Controller) error {
	if err := note(con, "GoFail"); err != nil {
		return err
	}
	return errors.New("GoFail fails")
})

// GoKill is killed.
var GoKill = fab.F(func(ctx context.Context, con *fab.Controller) error {
	if err := note(con, "GoKill"); err != nil {
		return err
	}
	if err := syscall.Kill(os.Getpid(), syscall.SIGKILL); err != nil {
		return err
	}
	select {}
})

// GoMode notes the modes it runs in, and whether it runs in the top directory.
var GoMode = fab.F(func(ctx context.Context, con *fab.Controller) error {
	_, err := os.Stat("_fab/f.go")
	return note(con, fmt.Sprintf("GoMode %t %t %t", fab.GetVerbose(ctx), fab.GetForce(ctx), err == nil))
})
`

func genCLI(r *rand.Rand, top, log string, driver bool) *cliProj {
	p := &cliProj{top: top, log: log, driver: driver, vers: map[string]int{}, built: map[string]int{}, done: map[string]bool{}}
	n := 2 + r.Intn(7)
	for i := 0; i < n; i++ {
		t := &cliTarget{name: fmt.Sprintf("T%d", i), kind: []string{"leaf", "leaf", "leaf", "files", "files", "seq", "all", "deps"}[r.Intn(8)]}
		if i == 0 && t.kind != "files" {
			t.kind = "leaf"
		}
		if r.Intn(12) == 0 {
			t.name = []string{"-dash", "-v", "with space", "été", "x.y", "-n"}[r.Intn(6)] + fmt.Sprint(i)
			if r.Intn(2) == 0 && strings.HasPrefix(t.name, "-v") {
				t.name = "-v"
			}
		}
		switch t.kind {
		case "leaf", "files":
			if r.Intn(3) == 0 {
				t.fail = 1 + r.Intn(125)
			}
			t.inSub = t.kind == "leaf" && r.Intn(5) == 0 && !strings.HasPrefix(t.name, "-")
			if t.inSub {
				t.name = "sub/" + t.name
			}
		default:
			for k := 1 + r.Intn(3); k > 0; k-- {
				t.kids = append(t.kids, p.targets[r.Intn(i)])
			}
			if t.kind == "deps" {
				for len(t.kids) < 2 {
					t.kids = append(t.kids, p.targets[r.Intn(i)])
				}
			}
		}
		p.targets = append(p.targets, t)
	}
	for i, t := range p.targets {
		for _, u := range p.targets[:i] {
			if u.name == t.name {
				t.name = fmt.Sprintf("Dup%d", i)
				t.inSub = false
			}
		}
	}
	p.targets = append(p.targets, &cliTarget{name: "Streams", kind: "leaf"}, &cliTarget{name: "Input", kind: "leaf"})
	// The targets of the subdirectory are known only if something refers to them.
	var subs []*cliTarget
	for _, t := range p.targets {
		if t.inSub {
			subs = append(subs, t)
		}
	}
	if len(subs) > 0 {
		p.targets = append(p.targets, &cliTarget{name: "Subs", kind: "all", kids: subs})
	}
	p.dirs = []string{"", "sub", "sub/deep/er", "plain", "plain/with space"}
	for _, d := range p.dirs {
		must(os.MkdirAll(filepath.Join(top, d), 0755))
	}
	if driver {
		p.dirs = append(p.dirs, "_fab")
	}
	return p
}

// write creates the project's files.
func (p *cliProj) write() {
	var topy, suby strings.Builder
	suby.WriteString("_dir: sub\n\n")
	for _, t := range p.targets {
		shell := fmt.Sprintf("echo %s >>%s; echo out %s; ", shq(t.name), shq(p.log), shq(t.name))
		var s string
		ref := func(u *cliTarget) string { return yq(u.name) }
		var kids []string
		for _, k := range t.kids {
			kids = append(kids, ref(k))
		}
		switch t.kind {
		case "leaf":
			s = fmt.Sprintf("!Command {Shell: %s}", yq(fmt.Sprintf("%sexit %d", shell, t.fail)))
			if t.name == "Input" {
				s = fmt.Sprintf("!Command {Shell: %s, Stdin: $stdin}", yq(shell+"cat >"+shq(p.log+".input")))
			}
			if t.name == "Streams" {
				s = fmt.Sprintf("!Command {Shell: %s, Stdout: $stdout, Stderr: $stderr}", yq(shell+"echo for standard output; echo for standard error >&2"))
			}
		case "files":
			id := p.fileID(t)
			if _, ok := p.vers[t.name]; !ok {
				p.vers[t.name] = 1
			}
			must(os.WriteFile(filepath.Join(p.top, "src"+id), []byte(fmt.Sprintf("version %d\n", p.vers[t.name])), 0644))
			s = fmt.Sprintf("!Files {Target: !Command {Shell: %s}, In: [%s], Out: [%s]}", yq(fmt.Sprintf("%scat %s >%s; exit %d", shell, "src"+id, "out"+id, t.fail)), "src"+id, "out"+id)
		case "seq":
			s = "!Seq [" + strings.Join(kids, ", ") + "]"
		case "all":
			s = "!All [" + strings.Join(kids, ", ") + "]"
		case "deps":
			s = "!Deps {Pre: [" + strings.Join(kids[1:], ", ") + "], Post: " + kids[0] + "}"
		}
		sb, name := &topy, t.name
		if t.inSub {
			sb, name = &suby, strings.TrimPrefix(t.name, "sub/")
		}
		fmt.Fprintf(sb, "# doc of %s\n%s: %s\n\n", t.name, yq(name), s)
	}
	must(os.WriteFile(filepath.Join(p.top, "fab.yaml"), []byte(topy.String()), 0644))
	must(os.WriteFile(filepath.Join(p.top, "sub", "fab.yaml"), []byte(suby.String()), 0644))
}

func (p *cliProj) fileID(t *cliTarget) string {
	for i, u := range p.targets {
		if t == u {
			return fmt.Sprint(i)
		}
	}
	panic("harness: no such target")
}

func (p *cliProj) find(name string) *cliTarget {
	for _, t := range p.targets {
		if t.name == name {
			return t
		}
	}
	return nil
}

// run tells what running a target does: which leaves run, and whether it succeeds.
func (p *cliProj) run(t *cliTarget, fabdir string, force bool, ran map[string]bool) bool {
	switch t.kind {
	case "leaf":
		ran[t.name] = true
		return t.fail == 0
	case "files":
		key := fmt.Sprintf("%s\x00%s\x00%d", fabdir, t.name, p.vers[t.name])
		if !force && p.done[key] && p.built[t.name] == p.vers[t.name] {
			return true
		}
		ran[t.name] = true
		return t.fail == 0
	case "seq":
		for _, k := range t.kids {
			if !p.run(k, fabdir, force, ran) {
				return false
			}
		}
		return true
	case "deps":
		ok := true
		for _, k := range t.kids[1:] {
			ok = p.run(k, fabdir, force, ran) && ok
		}
		return ok && p.run(t.kids[0], fabdir, force, ran)
	default:
		ok := true
		for _, k := range t.kids {
			ok = p.run(k, fabdir, force, ran) && ok
		}
		return ok
	}
}

var driverCacheMu sync.Mutex

// linkDrivers fills a cache directory with the drivers that other cases have compiled.
// (Merely to save time: a driver that is missing is compiled.)
func linkDrivers(from, to string) {
	driverCacheMu.Lock()
	defer driverCacheMu.Unlock()
	filepath.Walk(from, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, path)
		dst := filepath.Join(to, rel)
		if info.IsDir() {
			os.MkdirAll(dst, 0755)
		} else if info.Size() > 1<<20 {
			os.Link(path, dst)
		}
		return nil
	})
}

var goodOutput = regexp.MustCompile(`\S`)

func cliCase(driver bool) func(c *Case) {
	return func(c *Case) {
		r := c.R
		base := c.Dir()
		top := filepath.Join(base, []string{"top", "a top"}[r.Intn(2)])
		if driver {
			top = filepath.Join(base, "top")
		}
		must(os.MkdirAll(top, 0755))
		outside := filepath.Join(base, "outside")
		must(os.MkdirAll(outside, 0755))
		p := genCLI(r, top, filepath.Join(base, "log"), driver)
		p.write()
		shared := filepath.Join(c.Scratch, "drivers")
		fabdirs := []string{filepath.Join(base, "cache1"), filepath.Join(top, "plain", "cache2"), filepath.Join(base, "xdg", "fab"), filepath.Join(base, "home", ".cache", "fab")}
		if driver {
			fabModule(top, "clitest")
			must(os.MkdirAll(filepath.Join(top, "_fab"), 0755))
			must(os.WriteFile(filepath.Join(top, "_fab", "f.go"), []byte(cliGo), 0644))
			for _, d := range fabdirs {
				must(os.MkdirAll(d, 0755))
				linkDrivers(shared, d)
			}
		}
		var hist []string
		readLog := func() (res []string) {
			for _, f := range []string{p.log, filepath.Join(top, "go.log")} {
				b, _ := os.ReadFile(f)
				for _, l := range strings.Split(string(b), "\n") {
					if l != "" {
						res = append(res, l)
					}
				}
				os.Remove(f)
			}
			sort.Strings(res)
			return
		}
		for step := 3 + r.Intn(8); step > 0; step-- {
			if r.Intn(4) == 0 {
				for _, t := range p.targets {
					if t.kind == "files" && r.Intn(2) == 0 {
						p.vers[t.name]++
						hist = append(hist, "new source of "+t.name)
					}
				}
				p.write()
			}
			// The command line.
			cwd := filepath.Join(top, p.dirs[r.Intn(len(p.dirs))])
			var args, env []string
			fi := r.Intn(len(fabdirs))
			fabdir := fabdirs[fi]
			env = append(env, "XDG_CACHE_HOME="+filepath.Join(base, "xdg"), "HOME="+filepath.Join(base, "home"))
			if fi == 3 {
				env[0] = "XDG_CACHE_HOME="
			}
			if fi < 2 {
				spelled := fabdir
				if r.Intn(3) > 0 {
					spelled = must1(filepath.Rel(cwd, fabdir))
					if r.Intn(2) == 0 && !strings.HasPrefix(spelled, ".") {
						spelled = "./" + spelled
					}
				}
				args = append(args, []string{"-fab", "--fab"}[r.Intn(2)], spelled)
			}
			var verbose, force, dry, list bool
			flag := func(name string, chance int, v *bool) {
				if r.Intn(chance) == 0 {
					*v = true
					args = append(args, []string{"-" + name, "--" + name, "-" + name + "=true"}[r.Intn(3)])
				} else if r.Intn(12) == 0 {
					args = append(args, "-"+name+"=false")
				}
			}
			flag("v", 3, &verbose)
			chance := 4
			if driver {
				chance = 12
			}
			flag("f", chance, &force)
			flag("n", 6, &dry)
			flag("list", 8, &list)
			var names, unknown []string
			var req []*cliTarget
			goTargets := map[string]bool{}
			for k := r.Intn(4); k > 0; k-- {
				t := p.targets[r.Intn(len(p.targets))]
				names, req = append(names, t.name), append(req, t)
			}
			if driver && r.Intn(3) == 0 {
				n := []string{"GoArgs", "GoFail", "GoMode"}[r.Intn(3)]
				names, goTargets[n] = append(names, n), true
			}
			kill := driver && r.Intn(12) == 0
			if kill { // alone, for it may interrupt others
				names, req, goTargets = []string{"GoKill"}, nil, map[string]bool{"GoKill": true}
			}
			if !kill && r.Intn(5) == 0 {
				u := []string{"Unknown", "t0", "-dashed", "", "sub", "sub/Unknown", "T", "../top", "-x", "fab.yaml"}[r.Intn(10)]
				if driver && r.Intn(3) == 0 {
					u = []string{"goArgs", "note", "cliGo", "f.GoArgs"}[r.Intn(4)]
				}
				if p.find(u) == nil {
					names, unknown = append(names, u), append(unknown, u)
				}
			}
			r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			var goArgs string
			if !kill && len(names) > 0 && len(unknown) == 0 && r.Intn(6) == 0 { // one target with arguments
				if driver && r.Intn(2) == 0 {
					names[0] = "GoArgs"
				}
				extra := [][]string{{"-x"}, {"-v", "T0"}, {"--", "-n"}, {"-list"}, {"-f", "", "a b"}, {"-fab", "elsewhere"}}[r.Intn(6)]
				names = append(names[:1:1], extra...)
				req, goTargets = nil, map[string]bool{}
				if t := p.find(names[0]); t != nil {
					req = append(req, t)
				} else {
					goTargets[names[0]] = true
					goArgs = strings.Join(append([]string{""}, extra...), "|")
				}
			} else if len(names) > 1 && strings.HasPrefix(names[1], "-") {
				// This means arguments for the first one, too.
				req, unknown = nil, nil
				for k := range goTargets {
					delete(goTargets, k)
				}
				if t := p.find(names[0]); t != nil {
					req = append(req, t)
				} else if driver && strings.HasPrefix(names[0], "Go") {
					goTargets[names[0]] = true
					goArgs = strings.Join(append([]string{""}, names[1:]...), "|")
				} else {
					unknown = append(unknown, names[0])
				}
			}
			if len(names) > 0 && (strings.HasPrefix(names[0], "-") || r.Intn(6) == 0) {
				args = append(args, "--")
			}

			// What is wrong with the project.
			bad, undo := "", func() {}
			restore := func(f string) {
				old, err := os.ReadFile(f)
				prev := undo
				undo = func() {
					os.RemoveAll(f)
					if err == nil {
						must(os.WriteFile(f, old, 0644))
					}
					prev()
				}
			}
			subUsed := p.find("Subs") != nil
			switch r.Intn(20) {
			case 0:
				bad = "fab.yaml is no YAML"
				f := filepath.Join(top, "fab.yaml")
				restore(f)
				old := string(must1(os.ReadFile(f)))
				must(os.WriteFile(f, []byte([]string{"A: [", "\tA: b", old + "B: {", "- list\n- of things\n", "just text", "A: !Unknown {}\n", old + "Zed: !NoSuchTag {}\n", old + "Zed: !Seq {a: b}\n", old + "Zed: !Command [x]\n", "\x00\x01\x02", old + "&x *y: z"}[r.Intn(11)]), 0644))
			case 1:
				bad = "fab.yaml is a directory"
				f := filepath.Join(top, "fab.yaml")
				restore(f)
				must(os.Remove(f))
				must(os.Mkdir(f, 0755))
			case 2:
				if subUsed {
					bad = "sub/fab.yaml is broken"
					f := filepath.Join(top, "sub", "fab.yaml")
					restore(f)
					must(os.WriteFile(f, []byte([]string{"_dir: elsewhere\n", "A: {{", "_dir: sub\nA: !NoSuchTag x\n", "- x\n"}[r.Intn(4)]), 0644))
				}
			case 3:
				if driver {
					bad = "the driver does not compile"
					f := filepath.Join(top, "_fab", "broken.go")
					restore(f)
					must(os.WriteFile(f, []byte([]string{"package f\n\nvar X = undefined\n", "package", "package g\n", "package f\n\nimport \"x.example.com/none\"\nvar _ = none.X\n"}[r.Intn(4)]), 0644))
				}
			case 4:
				bad = "unknown flag"
				args = append([]string{[]string{"-nosuchflag", "-fab", "-top=x", "-v=maybe", "---"}[r.Intn(5)]}, args...)
				if args[0] == "-fab" {
					args = args[:1]
					names = nil
				}
			case 5:
				bad = "no project"
				cwd = []string{outside, base}[r.Intn(2)]
				if fi < 2 {
					for i := range args {
						if args[i] == "-fab" || args[i] == "--fab" {
							args[i+1] = fabdir
						}
					}
				}
			case 6:
				if fi < 2 && !list {
					bad = "the cache is a file"
					f := filepath.Join(base, "notadir")
					restore(f)
					must(os.WriteFile(f, []byte("file"), 0644))
					for i := range args {
						if args[i] == "-fab" || args[i] == "--fab" {
							args[i+1] = f
							break
						}
					}
				}
			}
			args = append(args, names...)
			os.RemoveAll(p.log)
			stdin := fmt.Sprintf("input %d\n", r.Int63())
			stdout, stderr, err := c.runFab2(os.Getenv("FABV_FAB"), cwd, env, stdin, args...)
			out := stdout + stderr
			undo()
			if driver && bad == "" {
				linkDrivers(fabdir, shared)
			}
			got := readLog()
			line := fmt.Sprintf("(cd %s; fab %q): %v", cwd, args, err)
			if bad != "" {
				line = bad + ": " + line
			}
			hist = append(hist, line)
			fail := func(format string, a ...any) {
				c.Fail(map[string]any{"fab.yaml": string(must1(os.ReadFile(filepath.Join(top, "fab.yaml")))), "history": hist, "environment": env, "output": out, "ran": got, "driver": driver}, format+" ["+line+"]", a...)
			}
			if ee, ok := err.(*exec.ExitError); err != nil && (!ok || !ee.Exited() || strings.Contains(out, "\ngoroutine ")) {
				fail("fab crashes: %v", err)
				return
			}

			// What was to be expected.
			wantOK := true
			var want []string
			ran := map[string]bool{}
			var failed []string
			nothing := "" // why nothing runs
			switch {
			case bad != "":
				wantOK, nothing = false, bad
			case list:
				nothing = "-list"
			case len(names) == 0:
				nothing = "no targets"
			case len(unknown) > 0:
				wantOK, nothing = false, "unknown targets"
			}
			if nothing == "" {
				if dry {
					// Go functions run in dry-run mode, and do what they like.
				} else {
					for _, t := range req {
						if !p.run(t, fabdir, force, ran) {
							wantOK = false
							failed = append(failed, t.name)
						}
					}
				}
				for n := range ran {
					want = append(want, n)
				}
				for n := range goTargets {
					switch n {
					case "GoArgs":
						want = append(want, "GoArgs"+goArgs)
					case "GoFail":
						want = append(want, "GoFail")
						wantOK = false
						failed = append(failed, "GoFail")
					case "GoKill":
						want = append(want, "GoKill")
						wantOK = false
					case "GoMode":
						want = append(want, fmt.Sprintf("GoMode %t %t true", verbose, force))
					}
				}
				sort.Strings(want)
			}
			if (err == nil) != wantOK {
				if wantOK {
					fail("fab fails, though everything it was asked for succeeds: %s", clip(out, 500))
				} else {
					fail("fab reports success in spite of: %s %v %q", nothing, failed, unknown)
				}
				return
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fail("fab ran %q, it should have run %q %s", got, want, nothing)
				return
			}
			if err != nil && !goodOutput.MatchString(out) {
				fail("fab fails without saying anything")
				return
			}
			for _, f := range failed {
				if !strings.Contains(out, f) {
					fail("fab does not say that %s failed", f)
					return
				}
			}
			if nothing == "unknown targets" {
				for _, u := range unknown {
					if !strings.Contains(out, u) {
						fail("fab does not say that %s is unknown", u)
						return
					}
				}
			}
			if list && bad == "" {
				names, _ := parseList(out)
				listed := map[string]bool{}
				for _, n := range names {
					listed[n] = true
				}
				for _, t := range p.targets {
					if !listed[t.name] {
						fail("-list does not show target %s", t.name)
						return
					}
				}
				if driver && !(listed["GoArgs"] && listed["GoFail"] && listed["GoMode"] && listed["GoKill"]) {
					fail("-list does not show the targets of the driver")
					return
				}
			}
			lines := map[string]bool{}
			for _, l := range strings.Split(out, "\n") {
				lines[strings.TrimSpace(l)] = true
			}
			for n := range ran {
				t := p.find(n)
				if n == "Input" {
					if b, _ := os.ReadFile(p.log + ".input"); string(b) != stdin {
						fail("a Command which reads fab's standard input gets %q, want %q", clip(string(b), 300), stdin)
						return
					}
				}
				if n == "Streams" {
					if !strings.Contains(stdout, "for standard output\n") || !strings.Contains(stderr, "for standard error\n") {
						fail("the output of a Command for fab's own standard output and standard error went elsewhere: %q, %q", clip(stdout, 300), clip(stderr, 300))
						return
					}
					continue
				}
				if t.fail == 0 && lines["out "+n] != verbose {
					fail("output of %s shown: %t, verbose: %t", n, !verbose, verbose)
					return
				}
			}
			if nothing != "" || dry {
				for _, t := range p.targets {
					if t.kind == "files" {
						b, _ := os.ReadFile(filepath.Join(top, "out"+p.fileID(t)))
						w := ""
						if v := p.built[t.name]; v > 0 {
							w = fmt.Sprintf("version %d\n", v)
						}
						if string(b) != w {
							fail("fab changed the output of %s, it should have run nothing: %s", t.name, nothing)
							return
						}
					}
				}
			}
			for n := range ran {
				t := p.find(n)
				if t.kind != "files" {
					continue
				}
				p.built[n] = p.vers[n]
				if b, _ := os.ReadFile(filepath.Join(top, "out"+p.fileID(t))); string(b) != fmt.Sprintf("version %d\n", p.vers[n]) {
					fail("%s ran, but its output is %q", n, b)
					return
				}
				if t.fail == 0 {
					p.done[fmt.Sprintf("%s\x00%s\x00%d", fabdir, n, p.vers[n])] = true
					if _, err := os.Stat(filepath.Join(fabdir, "hash.db")); err != nil {
						fail("the hash database is not in the directory told by -fab or the environment: %v", err)
						return
					}
				}
			}
			kind := nothing
			if kind == "" {
				kind = fmt.Sprintf("%d failed", len(failed))
			}
			c.Count("command_lines", 1)
			c.Count("outcome: "+kind, 1)
			if nothing == "" && dry {
				c.Count("dry_runs", 1)
			}
			c.Nontrivial(fmt.Sprint(driver, line[strings.Index(line, "fab ["):], got))
			c.Sample(map[string]any{"command": line, "ran": got, "expected_success": wantOK})
		}
	}
}

func init() {
	checks["C31"] = func(m *Mon) {
		m.silenceStdout()
		m.Parallel("driverless", m.N(900, 30000), 8, cliCase(false))
		m.Parallel("driver", m.N(1, 1), 1, cliCase(true)) // its driver serves the others, too
		m.Parallel("withdriver", m.N(80, 6000), 8, cliCase(true))
		m.Rule("Random projects (Commands, Files, Seq, All and Deps targets of which some fail, a subdirectory with its own file; Go targets in those with a driver) and histories of random command lines: all flags in all spellings, cache directories by relative and absolute names and by the environment, from all directories of the project, targets known and unknown, with arguments, none; some with broken build files, broken drivers, unknown flags, outside of any project or with an unusable cache. Exit status, commands run, output and files must be those the project and the command line ask for. Non-trivial: a distinct command line and set of commands run.")
		m.Assume("with -list, or without targets, fab may list the targets or print nothing; unresolvable references in a target are not judged")
	}
}
