package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// C10, crashes: the fab command is killed at random statements, or by its own recipes, or meets a broken database;
// a later run that succeeds must leave what an uninterrupted build would have.

type crRule struct {
	Name  string
	In    []string // sources and outputs of earlier rules
	Parts []crPart
	Shape string // one, seq, all, shelllist
	Auto  bool
}

// crPart is a command: it logs its start, writes half of its output, then the rest, and logs its end.
type crPart struct {
	ID  string
	Out string // may be empty
}

type crProj struct {
	Dir, Log string
	Sources  []string
	Rules    []*crRule
}

func genCrash(r *rand.Rand, dir, log string) *crProj {
	p := &crProj{Dir: dir, Log: log}
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
	for k := 1 + r.Intn(3); k > 0; k-- {
		p.Sources = append(p.Sources, []string{"s1", "s2", "sub/s3"}[k-1])
	}
	var outs []string
	n, id := 1+r.Intn(4), 0
	for i := 0; i < n; i++ {
		ru := &crRule{Name: fmt.Sprintf("R%d", i), Shape: []string{"one", "one", "seq", "all", "shelllist"}[r.Intn(5)]}
		ru.In = append(ru.In, p.Sources[r.Intn(len(p.Sources))])
		for len(outs) > 0 && len(ru.In) < 4 && r.Intn(3) > 0 {
			ru.In = append(ru.In, outs[r.Intn(len(outs))])
		}
		ru.In = dedup(ru.In)
		parts := 1
		if ru.Shape != "one" {
			parts = 2
		}
		bare := r.Intn(5) == 0 // without any output
		for ; parts > 0; parts-- {
			id++
			pt := crPart{ID: fmt.Sprintf("c%d", id), Out: fmt.Sprintf("o%d", id)}
			if r.Intn(3) == 0 {
				pt.Out = "sub/" + pt.Out
			}
			if bare || r.Intn(9) == 0 {
				pt.Out = ""
			}
			ru.Parts = append(ru.Parts, pt)
		}
		for _, pt := range ru.Parts {
			if pt.Out != "" {
				outs = append(outs, pt.Out)
			}
		}
		p.Rules = append(p.Rules, ru)
	}
	return p
}

func (p *crProj) shell(ru *crRule, pt crPart) string {
	q := func(s string) string { return "'" + s + "'" }
	trap := func(where string) string {
		f := q(p.Log + ".kill." + pt.ID + "." + where)
		// The recipe kills fab (its parent), and then stops or goes on, alone.
		return fmt.Sprintf("if test -e %s; then read how <%s; rm -f %s; kill -9 $PPID; test $how = stop && exit 1; fi; ", f, f, f)
	}
	ins := ""
	for _, in := range ru.In {
		ins += " " + q(filepath.Join(p.Dir, in))
	}
	s := fmt.Sprintf("echo start %s >>%s; ", pt.ID, q(p.Log)) + trap("start")
	if pt.Out != "" {
		o := q(filepath.Join(p.Dir, pt.Out))
		s += fmt.Sprintf("printf '%s half ' >%s; ", pt.ID, o) + trap("half") + fmt.Sprintf("cat%s >>%s || exit 1; ", ins, o)
	} else {
		s += trap("half") + fmt.Sprintf("cat%s >/dev/null || exit 1; ", ins)
	}
	return s + trap("end") + fmt.Sprintf("echo end %s >>%s", pt.ID, q(p.Log))
}

func (p *crProj) yaml() string {
	var sb strings.Builder
	for _, ru := range p.Rules {
		var outs, shells []string
		for _, pt := range ru.Parts {
			if pt.Out != "" {
				outs = append(outs, pt.Out)
			}
			shells = append(shells, p.shell(ru, pt))
		}
		var t string
		cmds := func() (res []string) {
			for _, s := range shells {
				res = append(res, "!Command {Shell: "+yq(s)+"}")
			}
			return
		}
		switch ru.Shape {
		case "one":
			t = cmds()[0]
		case "seq":
			t = "!Seq [" + strings.Join(cmds(), ", ") + "]"
		case "all":
			t = "!All [" + strings.Join(cmds(), ", ") + "]"
		case "shelllist":
			t = "!Command {Shell: " + yqs(shells) + "}"
		}
		fmt.Fprintf(&sb, "%s: !Files {Target: %s, In: %s, Out: %s}\n", ru.Name, t, yqs(ru.In), yqs(outs))
	}
	return sb.String()
}

// expected is what the rules needed for the targets make of the sources.
func (p *crProj) expected(targets []string, src map[string]string) (map[string]string, map[string]bool) {
	need := map[string]bool{}
	for _, t := range targets {
		need[t] = true
	}
	producer := map[string]*crRule{}
	for _, ru := range p.Rules {
		for _, pt := range ru.Parts {
			if pt.Out != "" {
				producer[pt.Out] = ru
			}
		}
	}
	for i := len(p.Rules) - 1; i >= 0; i-- {
		if need[p.Rules[i].Name] {
			for _, in := range p.Rules[i].In {
				if pr := producer[in]; pr != nil {
					need[pr.Name] = true
				}
			}
		}
	}
	val, want := map[string]string{}, map[string]string{}
	for k, v := range src {
		val[k] = v
	}
	for _, ru := range p.Rules {
		for _, pt := range ru.Parts {
			if pt.Out == "" {
				continue
			}
			s := pt.ID + " half "
			for _, in := range ru.In {
				s += val[in]
			}
			val[pt.Out] = s
		}
	}
	for _, ru := range p.Rules {
		if need[ru.Name] {
			for _, pt := range ru.Parts {
				if pt.Out != "" {
					want[pt.Out] = val[pt.Out]
				}
			}
		}
	}
	return want, need
}

// runGroup runs a command in its own process group and returns when no process of the group is left.
func (c *Case) runGroup(exe, dir string, env []string, args ...string) (string, error) {
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	out := must1(os.CreateTemp(c.Dir(), "out")) // not a pipe: orphans may keep it open
	defer os.Remove(out.Name())
	defer out.Close()
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(cmd.Start())
	pid := cmd.Process.Pid
	err := cmd.Wait()
	for n := 0; syscall.Kill(-pid, 0) == nil; n++ {
		if n > 200000 {
			panic("harness: processes do not end")
		}
		time.Sleep(500 * time.Microsecond)
	}
	c.Event()
	return string(must1(os.ReadFile(out.Name()))), err
}

func crashCase(driver bool, counts map[string]int) func(c *Case) {
	return func(c *Case) {
		r := c.R
		base := c.Dir()
		dir := filepath.Join(base, "p")
		must(os.MkdirAll(dir, 0755))
		p := genCrash(r, dir, filepath.Join(base, "log"))
		must(os.WriteFile(filepath.Join(dir, "fab.yaml"), []byte(p.yaml()), 0644))
		fabdir := filepath.Join(base, "cache")
		if driver {
			must(os.MkdirAll(filepath.Join(dir, "_fab"), 0755))
			must(os.WriteFile(filepath.Join(dir, "_fab", "f.go"), []byte("package f\n"), 0644))
			fabModule(dir, "crash")
			fabdir = filepath.Join(c.Scratch, "crashcache") // shared: the driver is built once
		}
		src := map[string]string{}
		var hist []string
		set := func(f string) {
			src[f] = fmt.Sprintf("<%s %d>\n", f, r.Intn(3))
			must(os.WriteFile(filepath.Join(dir, f), []byte(src[f]), 0644))
			hist = append(hist, "write "+f)
		}
		for _, f := range p.Sources {
			set(f)
		}
		// Rules without outputs leave a trace only in the log: those which did not end must be started again.
		unfinished := map[string]string{}
		readLog := func() (started, ended map[string]bool) {
			started, ended = map[string]bool{}, map[string]bool{}
			b, _ := os.ReadFile(p.Log)
			for _, l := range strings.Split(string(b), "\n") {
				if id, ok := strings.CutPrefix(l, "start "); ok {
					started[id] = true
				}
				if id, ok := strings.CutPrefix(l, "end "); ok {
					ended[id] = true
				}
			}
			os.Remove(p.Log)
			return
		}
		var targets []string
		pickTargets := func() {
			targets = nil
			for _, ru := range p.Rules {
				if r.Intn(2) == 0 {
					targets = append(targets, ru.Name)
				}
			}
			if len(targets) == 0 {
				targets = []string{p.Rules[len(p.Rules)-1].Name}
			}
			r.Shuffle(len(targets), func(i, j int) { targets[i], targets[j] = targets[j], targets[i] })
		}
		fail := func(out string, format string, args ...any) {
			c.Fail(map[string]any{"yaml": p.yaml(), "history": hist, "output": out}, format, args...)
		}
		good := func() bool {
			out, err := c.runGroup(os.Getenv("FABV_FAB"), dir, nil, append([]string{"-fab", fabdir}, targets...)...)
			hist = append(hist, fmt.Sprintf("fab %v: %v", targets, err))
			if err != nil {
				fail(out, "after the crashes a run without any fault fails: %v", err)
				return false
			}
			started, _ := readLog()
			want, need := p.expected(targets, src)
			for _, f := range sortedKeys(want) {
				if b, _ := os.ReadFile(filepath.Join(dir, f)); string(b) != want[f] {
					fail(out, "after the crashes and a successful run %s is %q, an uninterrupted build makes it %q", f, b, want[f])
					return false
				}
			}
			for _, ru := range p.Rules {
				if st, ok := unfinished[ru.Name]; ok && need[ru.Name] && st == p.inputs(ru) {
					for _, pt := range ru.Parts {
						if !started[pt.ID] {
							fail(out, "%s (of rule %s, without outputs) did not finish before the crash, and is taken for up to date", pt.ID, ru.Name)
							return false
						}
					}
					c.Count("unfinished_rules_run_again", 1)
				}
				if need[ru.Name] {
					delete(unfinished, ru.Name)
				}
			}
			return true
		}
		pickTargets()
		if r.Intn(2) == 0 && !good() {
			return
		}
		crashes := 0
		for round := 1 + r.Intn(3); round > 0; round-- {
			for k := r.Intn(3); k > 0; k-- {
				switch r.Intn(3) {
				case 0, 1:
					set(p.Sources[r.Intn(len(p.Sources))])
				default:
					ru := p.Rules[r.Intn(len(p.Rules))]
					if o := ru.Parts[0].Out; o != "" {
						os.Remove(filepath.Join(dir, o))
						hist = append(hist, "remove "+o)
					}
				}
			}
			for again := 1 + r.Intn(2); again > 0; again-- {
				if r.Intn(3) == 0 {
					pickTargets()
				}
				args := []string{"-fab", fabdir}
				force := r.Intn(5) == 0
				if force {
					args = append(args, "-f")
				}
				args = append(args, targets...)
				exe := os.Getenv("FABV_FAB")
				var env []string
				kind, what := r.Intn(10), ""
				if driver {
					kind = 9
				}
				var traps []string
				switch {
				case kind < 5: // a statement
					exe = os.Getenv("FABV_FABI")
					pkg := []string{".", ".", ".", ".", "sqlite", "cmd/fab"}[r.Intn(6)]
					n := 1 + r.Intn(counts[pkg]*5/4)
					if pkg == "." && r.Intn(2) == 0 { // the last ones are those around the end of a build
						n = counts[pkg] - r.Intn(counts[pkg]/3)
					}
					env = []string{fmt.Sprintf("FABV_CRASH=fabi:%s:%d", pkg, n)}
					what = env[0]
				case kind < 6: // a broken database
					f := filepath.Join(fabdir, "hash.db")
					old, err := os.ReadFile(f)
					had := err == nil
					os.Remove(f)
					must(os.MkdirAll(fabdir, 0755))
					switch r.Intn(3) {
					case 0:
						must(os.Mkdir(f, 0755))
						what = "the database is a directory"
					case 1:
						must(os.WriteFile(f, []byte("this is not a database at all, but a text of some length\n"+strings.Repeat("x", 5000)), 0644))
						what = "the database is garbage"
					case 2:
						if had && len(old) > 200 {
							must(os.WriteFile(f, append(append([]byte(nil), old[:100]...), bytes.Repeat([]byte{0xa5}, len(old)-100)...), 0644))
						}
						what = "the database is damaged"
					}
					out, err := c.runGroup(exe, dir, nil, args...)
					hist = append(hist, fmt.Sprintf("%s: fab %v: %v", what, args[2:], err))
					os.Remove(p.Log)
					if err == nil {
						want, _ := p.expected(targets, src)
						for _, o := range sortedKeys(want) {
							if b, _ := os.ReadFile(filepath.Join(dir, o)); string(b) != want[o] {
								fail(out, "with a broken database fab reports success, but %s is %q, want %q", o, b, want[o])
								return
							}
						}
					} else if strings.TrimSpace(out) == "" {
						fail(out, "fab fails with a broken database without saying anything")
						return
					} else if ee, ok := err.(*exec.ExitError); !ok || !ee.Exited() || fabFrame(out) {
						fail(out, "fab crashes with a broken database: %v", err)
						return
					}
					removeScratch(c.Scratch, f)
					if had {
						must(os.WriteFile(f, old, 0644))
					}
					c.Count("runs_with_broken_database", 1)
					continue
				default: // a recipe kills fab
					for _, ru := range p.Rules {
						for _, pt := range ru.Parts {
							if r.Intn(2) == 0 {
								f := p.Log + ".kill." + pt.ID + "." + []string{"start", "half", "half", "end"}[r.Intn(4)]
								must(os.WriteFile(f, []byte([]string{"stop\n", "go\n"}[r.Intn(2)]), 0644))
								traps = append(traps, f)
								what += " " + filepath.Base(f)
							}
						}
					}
				}
				out, err := c.runGroup(exe, dir, env, args...)
				killed := false
				if ee, ok := err.(*exec.ExitError); ok && !ee.Exited() {
					killed = true
				}
				for _, f := range traps {
					if _, err := os.Stat(f); err != nil {
						killed = true
					}
					os.Remove(f)
				}
				hist = append(hist, fmt.Sprintf("%s: fab %v: %v", what, args[2:], err))
				if driver && killed && err == nil {
					fail(out, "the driver was killed, but fab reports success")
					return
				}
				if err != nil && !killed {
					fail(out, "fab fails, though it was not killed: %v", err)
					return
				}
				if killed {
					crashes++
				}
				started, ended := readLog()
				if !force {
					p.note(started, ended, unfinished)
				} else { // a forced run may start what is up to date, and complete what was unfinished
					for _, ru := range p.Rules {
						for _, pt := range ru.Parts {
							if started[pt.ID] {
								delete(unfinished, ru.Name)
							}
						}
					}
				}
			}
			if r.Intn(3) == 0 {
				pickTargets()
			}
			if !good() {
				return
			}
		}
		c.Count("crashes", int64(crashes))
		if crashes > 0 {
			c.Nontrivial(strings.Join(hist, "|") + p.yaml())
		}
		c.Sample(map[string]any{"yaml": p.yaml(), "history": hist})
	}
}

// note remembers which rules without outputs were started but did not come to their end, and with what inputs.
func (p *crProj) note(started, ended map[string]bool, unfinished map[string]string) {
	for _, ru := range p.Rules {
		all, any, outs := true, false, false
		for _, pt := range ru.Parts {
			all = all && ended[pt.ID]
			any = any || started[pt.ID]
			outs = outs || pt.Out != ""
		}
		if any && !all && !outs {
			unfinished[ru.Name] = p.inputs(ru)
		} else if any {
			delete(unfinished, ru.Name)
		}
	}
}

func (p *crProj) inputs(ru *crRule) string {
	var res []string
	for _, in := range ru.In {
		b, err := os.ReadFile(filepath.Join(p.Dir, in))
		res = append(res, fmt.Sprintf("%s %q %t", in, b, err == nil))
	}
	return strings.Join(res, "\n")
}

// statementCounts runs a typical build to see how many statements of each package it executes.
func (m *Mon) statementCounts() map[string]int {
	counts := map[string]int{}
	dir := filepath.Join(m.Scratch, "count")
	must(os.MkdirAll(dir, 0755))
	r := rand.New(rand.NewSource(4))
	var p *crProj
	for p == nil || len(p.Rules) < 3 {
		p = genCrash(r, dir, filepath.Join(dir, "log"))
	}
	for _, f := range p.Sources {
		must(os.WriteFile(filepath.Join(dir, f), []byte("x"), 0644))
	}
	must(os.WriteFile(filepath.Join(dir, "fab.yaml"), []byte(p.yaml()), 0644))
	cmd := exec.Command(os.Getenv("FABV_FABI"), "-fab", filepath.Join(dir, "cache"), p.Rules[len(p.Rules)-1].Name, p.Rules[0].Name)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "FABV_CRASH=fabi:1000000000", "FABV_COUNT="+filepath.Join(dir, "cnt"))
	if out, err := cmd.CombinedOutput(); err != nil {
		panic("harness: " + err.Error() + string(out))
	}
	for _, pkg := range []string{".", "sqlite", "cmd/fab"} {
		b := must1(os.ReadFile(filepath.Join(dir, "cnt."+strings.ReplaceAll(pkg, "/", "_"))))
		counts[pkg] = max(10, bytes.Count(b, []byte("\n")))
	}
	return counts
}

func init() {
	checks["C10"] = func(m *Mon) {
		m.silenceStdout()
		o := filesOpts{rules: 5, chain: 0.6, edit: 6, touch: 1, param: 2, tamper: 3, restore: 3, snapshot: 2, yaml: 0.4, noop: 0.3, process: 0.01, steps: 14, cmds: 0.15, fail: 0.4, dbfail: 0.2, force: 0.1, nodb: 0.05, dry: 0.02}
		filesCheck(m, "C10", o, 700, 15000)
		counts := m.statementCounts()
		var ks []string
		for k, v := range counts {
			ks = append(ks, fmt.Sprintf("%s %d", k, v))
			m.Count("statements_of_"+k, int64(v))
		}
		sort.Strings(ks)
		m.Parallel("crash", m.N(200, 10000), 8, crashCase(false, counts))
		m.Parallel("crashdriver", m.N(12, 800), 4, crashCase(true, counts))
		m.Rule("history cases: random projects and histories with failing recipes (before, half way, after) and a database that fails on lookups or insertions, compared with a model; " +
			"crash cases: the fab command (instrumented) is killed with SIGKILL before a random statement of one of its packages, or it (or a compiled driver) is killed by one of its recipes at the start, half way or at the end, " +
			"or the hash database is damaged; then a normal run must succeed and leave exactly what the rules make of the sources; non-trivial = a crash happened; distinct = projects with histories")
		m.Assume("a process kill is modelled by SIGKILL; loss of power, with loss of unsynced data, is not modelled")
	}
}
