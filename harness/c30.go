package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// C30: histories of edits of _fab, runs by different versions of fab, crashes, failures and concurrent runs.
// The target that is run prints what its driver was compiled from.

const drvMain = `package f

import (
	"context"
	"fmt"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/bobg/fab"
)

var parts []string

func add(s string) int {
	_, file, _, _ := runtime.Caller(1)
	parts = append(parts, filepath.Base(file)+"="+s)
	return 0
}

var M = fab.F(func(context.Context, *fab.Controller) error {
	sort.Strings(parts)
	fmt.Println("MARK " + strings.Join(parts, " ") + " .")
	return nil
})
`

// drvWorld is what the histories share: the versions of fab, and a go command that counts, fails, edits and kills on demand.
type drvWorld struct {
	exes        map[string]string // version -> fab
	marked      bool              // the versions can be told from what their drivers print
	path        string            // directory with the go wrapper
	counts      map[string]int    // statements of the instrumented version
	post, fresh int               // how many before it has built, and how many when there is nothing to build
	lo, hi      int               // how many of them come before the go command lists the packages and before it makes a module
}

// goWrapper logs the invocations of the go command.
// If the trap file of this subcommand exists, its contents are run: "before" or "after", then a shell command.
const goWrapper = `#!/bin/sh
sub=$1
test "$1" = mod && sub="mod$2"
test -n "$VGO_LOG" && echo "$sub" >>"$VGO_LOG"
trap="$VGO_TRAP.$sub"
if test -n "$VGO_TRAP" && test -e "$trap.before" && mv "$trap.before" "$trap.run.$$" 2>/dev/null; then
	. "$trap.run.$$"
fi
if test -n "$VGO_TRAP" && test -e "$trap.after" && mv "$trap.after" "$trap.run.$$" 2>/dev/null; then
	REALGO "$@"
	rc=$?
	. "$trap.run.$$"
	exit $rc
fi
exec REALGO "$@"
`

func (m *Mon) drvSetup() *drvWorld {
	w := &drvWorld{exes: map[string]string{}}
	dir := filepath.Join(m.Scratch, "versions")
	must(os.MkdirAll(filepath.Join(dir, "path"), 0755))
	real := must1(exec.LookPath("go"))
	w.path = filepath.Join(dir, "path")
	must(os.WriteFile(filepath.Join(w.path, "go"), []byte(strings.ReplaceAll(goWrapper, "REALGO", real)), 0755))
	var wg sync.WaitGroup
	for _, v := range []string{"A", "B", "I"} {
		// Each version's driver says which version it is of.
		tmpl, err := os.ReadFile("/repo/driver.go.tmpl")
		over := map[string]string{}
		if err == nil {
			t := filepath.Join(dir, "driver."+v)
			must(os.WriteFile(t, []byte(string(tmpl)+"\nfunc init() { println(\"FABVERSION "+v+"\") }\n"), 0644))
			over["/repo/driver.go.tmpl"] = t
		}
		if v == "I" {
			for k, f := range readOverlay(os.Getenv("FABV_OVERLAY")) {
				over[k] = f
			}
		}
		of := filepath.Join(dir, "overlay."+v)
		must(os.WriteFile(of, overlayJSON(over), 0644))
		exe := filepath.Join(dir, v, "fab")
		if v == "I" {
			exe = filepath.Join(dir, v, "fabi")
		}
		w.exes[v] = exe
		wg.Add(1)
		go func(v string) {
			defer wg.Done()
			cmd := exec.Command(real, "build", "-overlay", of, "-ldflags", "-X=main.verifversion="+v, "-o", exe, "./cmd/fab")
			cmd.Dir = "/repo"
			if out, err := cmd.CombinedOutput(); err != nil {
				panic(fmt.Sprintf("harness: building version %s: %s\n%s", v, err, out))
			}
		}(v)
	}
	wg.Wait()
	m.Event()
	return w
}

type drvProj struct {
	dir   string
	files map[string]string // Go files in _fab -> value
	large map[string]int    // size of the comment before the value
	links map[string]bool   // symbolic links
	notes int

	targets bool   // each file declares a target of its own
	keep    string // and one more
}

// target is the one that the file declares.
func (p *drvProj) target(name string) string {
	return "T" + strings.ToUpper(name[:1]) + p.files[name]
}

func (p *drvProj) src(name, val string) string {
	head := ""
	switch name {
	case "t.go":
		head = "//go:build tagged\n\n"
	case "u.go":
		head = "//go:build !tagged\n\n"
	}
	if n := p.large[name]; n > 0 {
		head += strings.Repeat("// A long comment, as in generated files: the value comes after it.\n", n/65) + "\n"
	}
	imp, tail := "", ""
	if p.targets {
		imp = "import (\n\t\"context\"\n\n\t\"github.com/bobg/fab\"\n)\n\n"
		t := "T" + strings.ToUpper(name[:1]) + val
		if p.keep != "" && p.keep != val {
			tail = "\nvar T" + strings.ToUpper(name[:1]) + p.keep + " = M\n"
		}
		tail += "\n// " + t + " is of " + name + ".\nvar " + t + " = fab.F(func(context.Context, *fab.Controller) error { println(\"TGT " + t + ".\"); return nil })\n"
	}
	return head + "package f\n\n" + imp + "var _ = add(\"" + val + "\")\n" + tail
}

func (p *drvProj) put(name, val string) {
	if _, had := p.files[name]; !had && p.links[name] {
		must(os.MkdirAll(filepath.Join(p.dir, "shared"), 0755))
		must(os.Symlink("../shared/"+name, filepath.Join(p.dir, "_fab", name)))
	}
	p.files[name] = val
	must(os.WriteFile(filepath.Join(p.dir, "_fab", name), []byte(p.src(name, val)), 0644))
}

func (p *drvProj) want(tagged bool) string {
	var res []string
	for _, n := range sortedKeys(p.files) {
		if (n == "t.go" && !tagged) || (n == "u.go" && tagged) {
			continue
		}
		res = append(res, n+"="+p.files[n])
	}
	sort.Strings(res)
	return "MARK " + strings.Join(append(res, "."), " ")
}

var (
	markRegex    = regexp.MustCompile(`(?m)^MARK .*$`)
	versionRegex = regexp.MustCompile(`(?m)^FABVERSION (.*)$`)
)

func (w *drvWorld) history(c *Case) {
	r := c.R
	base := c.Dir()
	var projs []*drvProj
	for i := 0; i < 1+r.Intn(5)/3; i++ { // projects of the same name in different places
		p := &drvProj{dir: filepath.Join(base, fmt.Sprintf("p%d", i)), files: map[string]string{}, large: map[string]int{}, links: map[string]bool{}}
		for _, f := range []string{"a.go", "b.go", "c.go"} {
			if r.Intn(4) == 0 {
				p.links[f] = r.Intn(3) == 0
				p.large[f] = []int{5_000, 40_000, 80_000, 300_000, 1_200_000}[r.Intn(5)]
			}
		}
		must(os.MkdirAll(filepath.Join(p.dir, "_fab"), 0755))
		must(os.MkdirAll(filepath.Join(p.dir, "sub"), 0755))
		fabModule(p.dir, "fresh")
		must(os.WriteFile(filepath.Join(p.dir, "_fab", "main.go"), []byte(drvMain), 0644))
		projs = append(projs, p)
		for _, f := range []string{"a.go", "t.go", "u.go"} {
			if f == "a.go" || r.Intn(3) == 0 {
				p.put(f, fmt.Sprintf("%d", r.Intn(3)))
			}
		}
	}
	cache := filepath.Join(base, "cache")
	golog, gotrap := filepath.Join(base, "golog"), filepath.Join(base, "gotrap")
	wrapEnv := []string{"PATH=" + w.path + ":" + os.Getenv("PATH"), "VGO_LOG=" + golog, "VGO_TRAP=" + gotrap}
	var hist []string
	say := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	dirty := "" // the last run that succeeded, if nothing that matters has happened since: project, version and tags
	fail := func(out string, format string, a ...any) {
		c.Fail(map[string]any{"history": hist, "output": out, "cache": sortedKeys(driverFiles(cache))}, format, a...)
	}
	pickVersion := func() string { return []string{"A", "A", "A", "B", "I"}[r.Intn(5)] }
	version := pickVersion()
	tagged := false
	args := func(p *drvProj, force bool) (cwd string, a []string) {
		cwd = []string{p.dir, p.dir, filepath.Join(p.dir, "sub"), filepath.Join(p.dir, "_fab")}[r.Intn(4)]
		dir := cache
		if r.Intn(2) == 0 {
			dir = must1(filepath.Rel(cwd, cache))
		}
		a = []string{"-fab", dir}
		if force {
			a = append(a, "-f")
		}
		if r.Intn(6) == 0 {
			a = append(a, "-v")
		}
		return cwd, append(a, "M")
	}
	tagEnv := func(extra ...string) []string {
		e := append([]string(nil), wrapEnv...)
		flags := "GOFLAGS=-buildvcs=false -trimpath"
		if tagged {
			flags += " -tags=tagged"
		}
		return append(append(e, flags), extra...)
	}
	built := func() int { b, _ := os.ReadFile(golog); return strings.Count(string(b), "build\n") }
	// judge checks the output of a run that reported success.
	judge := func(out, v string, wants ...string) bool {
		mark := markRegex.FindAllString(out, -1)
		if len(mark) != 1 || !contains(wants, mark[0]) {
			fail(out, "fab ran a driver that is not built from what is in _fab: it says %q, want %q", mark, wants)
			return false
		}
		if ver := versionRegex.FindStringSubmatch(out); w.marked && (ver == nil || ver[1] != v) {
			fail(out, "version %s of fab ran a driver built by another version: %q", v, ver)
			return false
		}
		c.Count("runs_judged", 1)
		return true
	}
	good := func(p *drvProj, force bool) bool {
		cwd, a := args(p, force)
		os.Remove(golog)
		before := driverFiles(cache)
		out, err := c.runGroup(w.exes[version], cwd, tagEnv(), a...)
		say("%s: version %s, tagged %t, fab %v: %v", filepath.Base(p.dir), version, tagged, a, err)
		if err != nil {
			fail(out, "a run without any fault fails: %v", err)
			return false
		}
		if !judge(out, version, p.want(tagged)) {
			return false
		}
		state := fmt.Sprint(p.dir, version, tagged)
		n := built()
		if force && n == 0 {
			fail(out, "a forced run does not rebuild the driver")
			return false
		}
		if !force && dirty == state {
			if n > 0 {
				fail(out, "nothing has changed since the last successful run, but the driver is built again")
				return false
			}
			if after := driverFiles(cache); !sameFiles(before, after) {
				fail(out, "nothing has changed since the last successful run, but the drivers are not the same: before %v, after %v", before, after)
				return false
			}
			c.Count("fresh_drivers_used", 1)
		}
		if n > 0 {
			c.Count("drivers_built", 1)
		}
		dirty = state
		return true
	}
	var sig []string
	edit := func(p *drvProj) {
		names := []string{"a.go", "b.go", "c.go", "t.go", "u.go"}
		name := names[r.Intn(len(names))]
		val := fmt.Sprint(r.Intn(3)) // earlier values come back
		old, had := p.files[name]
		f := filepath.Join(p.dir, "_fab", name)
		if had && old == val {
			val = fmt.Sprint((r.Intn(2) + 1 + int(val[0]-'0')) % 3)
		}
		dirty = ""
		var st os.FileInfo
		if had {
			st = must1(os.Stat(f))
		}
		switch k := r.Intn(6); {
		case k == 0 && had && name != "a.go":
			delete(p.files, name)
			must(os.Remove(f))
			say("%s: remove %s", filepath.Base(p.dir), name)
		case k == 1 && had:
			// The contents of two files change places, or a file gets another name.
			other := []string{"a.go", "b.go", "c.go"}[r.Intn(3)]
			if name == "t.go" || name == "u.go" || other == name {
				p.put(name, val)
				break
			}
			o, okO := p.files[other]
			p.put(other, old)
			if okO {
				p.put(name, o)
			} else if name != "a.go" {
				delete(p.files, name)
				must(os.Remove(f))
			}
			say("%s: exchange %s and %s", filepath.Base(p.dir), name, other)
		default:
			p.put(name, val)
			if had && r.Intn(2) == 0 { // same size, same times
				must(os.Chtimes(f, st.ModTime(), st.ModTime()))
			}
			say("%s: %s = %s", filepath.Base(p.dir), name, val)
		}
	}
	killed := func(err error) bool {
		ee, ok := err.(*exec.ExitError)
		return ok && !ee.Exited()
	}
	steps := 4 + r.Intn(6)
	for ; steps > 0; steps-- {
		p := projs[r.Intn(len(projs))]
		if r.Intn(4) == 0 {
			version = pickVersion()
		}
		if r.Intn(10) == 0 {
			tagged = !tagged
		}
		op := r.Intn(15)
		sig = append(sig, fmt.Sprint(op))
		switch op {
		case 0, 1, 2, 3:
			edit(p)
			if !good(p, r.Intn(10) == 0) {
				return
			}
		case 4, 5: // nothing that matters changes
			switch r.Intn(6) {
			case 5: // the drivers get old: fab removes those that have not been used for long
				past := time.Now().Add(-time.Duration(24*(20+r.Intn(60))) * time.Hour)
				filepath.Walk(cache, func(path string, info os.FileInfo, err error) error {
					if err == nil && filepath.Base(path) != "hash.db" {
						os.Chtimes(path, past, past)
					}
					return nil
				})
				say("everything in the cache is of %s", past.Format(time.DateOnly))
			case 0:
				now := time.Now()
				must(os.Chtimes(filepath.Join(p.dir, "_fab", "a.go"), now, now))
				say("touch a.go")
			case 1:
				p.notes++
				must(os.WriteFile(filepath.Join(p.dir, "_fab", "notes.txt"), []byte(fmt.Sprint(p.notes)), 0644))
				say("notes.txt")
			case 2:
				p.put("a.go", p.files["a.go"])
				say("rewrite a.go")
			case 3:
				must(os.WriteFile(filepath.Join(p.dir, "fab.yaml"), []byte(fmt.Sprintf("Y%d: !Command {Shell: \"true\"}\n", r.Intn(100))), 0644))
				say("fab.yaml")
			case 4:
				lock := filepath.Join(p.dir, "_fab", ".#a.go")
				if os.Remove(lock) != nil {
					must(os.Symlink("user@host.1234:5678", lock))
				}
				say("an editor's lock file, or not")
			}
			if !good(p, false) {
				return
			}
		case 6: // a test file
			must(os.WriteFile(filepath.Join(p.dir, "_fab", "x_test.go"), []byte(fmt.Sprintf("package f\n\nvar _ = %d\n", r.Intn(100))), 0644))
			dirty = ""
			if !good(p, false) {
				return
			}
		case 7: // it does not compile
			f := filepath.Join(p.dir, "_fab", "broken.go")
			edit(p)
			must(os.WriteFile(f, []byte([]string{"package f\n\nvar X int = \"\"\n", "package f {", "package g\n", "package f\n\nfunc add() {}\n"}[r.Intn(4)]), 0644))
			cwd, a := args(p, r.Intn(4) == 0)
			out, err := c.runGroup(w.exes[version], cwd, tagEnv(), a...)
			say("broken.go: fab %v: %v", a, err)
			if err == nil || markRegex.MatchString(out) {
				fail(out, "fab runs a driver, though _fab does not compile: %v", err)
				return
			}
			must(os.Remove(f))
			if r.Intn(2) == 0 {
				edit(p)
			}
			c.Count("compile_errors", 1)
			if !good(p, false) {
				return
			}
		case 8, 9: // killed at a statement of fab
			edit(p)
			n := 1 + r.Intn(w.counts["."]*11/10)
			if r.Intn(2) == 0 { // towards the end
				n = w.counts["."] - r.Intn(w.counts["."]/4)
			}
			cwd, a := args(p, r.Intn(3) == 0)
			cr := fmt.Sprintf("FABV_CRASH=fabi:.:%d", n)
			out, err := c.runGroup(w.exes["I"], cwd, tagEnv(cr), a...)
			say("%s: %s fab %v: %v", filepath.Base(p.dir), cr, a, err)
			if killed(err) {
				c.Count("crashes_at_a_statement", 1)
			} else if err != nil {
				fail(out, "fab fails, though it was not killed: %v", err)
				return
			} else if !judge(out, "I", p.want(tagged)) {
				return
			}
			if r.Intn(3) > 0 {
				version = "I"
			}
			if r.Intn(2) == 0 {
				edit(p)
			}
			dirty = ""
			if !good(p, false) {
				return
			}
		case 10, 11: // something happens around an invocation of the go command
			if r.Intn(3) > 0 {
				edit(p)
			}
			when := []string{"before", "after"}[r.Intn(2)]
			sub := []string{"list", "modinit", "modtidy", "build", "build"}[r.Intn(5)]
			oldWant := p.want(tagged)
			var what string
			wants := []string{oldWant}
			var newFile, newVal string
			switch r.Intn(4) {
			case 0:
				what = "kill -9 $PPID; sleep 0.05; exit 1"
			case 1:
				what = "exit 1"
			case 2, 3: // an edit in the middle of the run
				newFile, newVal = []string{"a.go", "b.go"}[r.Intn(2)], fmt.Sprint(3+r.Intn(2))
				tmp := filepath.Join(base, "new.go")
				must(os.WriteFile(tmp, []byte(p.src(newFile, newVal)), 0644))
				what = "mv " + tmp + " " + filepath.Join(p.dir, "_fab", newFile)
			}
			tf := gotrap + "." + sub + "." + when
			must(os.WriteFile(tf, []byte(what+"\n"), 0644))
			cwd, a := args(p, r.Intn(3) == 0)
			os.Remove(golog)
			out, err := c.runGroup(w.exes[version], cwd, tagEnv(), a...)
			_, e := os.Stat(tf)
			sprung := e != nil
			os.Remove(tf)
			say("%s: version %s, %s go %s: %s (%t): fab %v: %v", filepath.Base(p.dir), version, when, sub, what, sprung, a, err)
			dirty = ""
			if sprung && newFile != "" {
				p.files[newFile] = newVal
				wants = append(wants, p.want(tagged))
			}
			if err == nil {
				if sprung && newFile == "" && what == "exit 1" && when == "before" && sub != "list" {
					fail(out, "the go command failed, but fab reports success")
					return
				}
				if sprung && strings.HasPrefix(what, "kill") {
					fail(out, "fab was killed, but reports success")
					return
				}
				if !judge(out, version, wants...) {
					return
				}
			} else if !sprung {
				fail(out, "fab fails, though nothing happened: %v", err)
				return
			} else if m := markRegex.FindString(out); m != "" && !contains(wants, m) {
				fail(out, "fab ran a driver that is not built from what is in _fab: %s, want %q", m, wants)
				return
			}
			if sprung {
				c.Count("faults_at_the_go_command", 1)
				if newFile != "" && r.Intn(2) == 0 { // take the edit back
					if old := strings.Fields(oldWant); contains(old, newFile+"="+"0") || contains(old, newFile+"=1") || contains(old, newFile+"=2") {
						for _, v := range []string{"0", "1", "2"} {
							if contains(old, newFile+"="+v) {
								p.put(newFile, v)
							}
						}
					} else if newFile != "a.go" {
						delete(p.files, newFile)
						must(os.Remove(filepath.Join(p.dir, "_fab", newFile)))
					}
					say("%s: take back %s", filepath.Base(p.dir), newFile)
				}
			}
			if !good(p, false) {
				return
			}
		case 12: // several at once
			if r.Intn(3) > 0 {
				edit(p)
			}
			k := 2 + r.Intn(3)
			type res struct {
				out, v string
				err    error
				want   string
			}
			results := make([]res, k)
			var wg sync.WaitGroup
			say("%d runs at once", k)
			for i := range results {
				q, v := p, version
				if r.Intn(4) == 0 {
					q = projs[r.Intn(len(projs))]
				}
				if r.Intn(3) == 0 {
					v = pickVersion()
				}
				cwd, a := args(q, r.Intn(5) == 0)
				env := tagEnv()
				results[i].v, results[i].want = v, q.want(tagged)
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					results[i].out, results[i].err = c.runGroup(w.exes[v], cwd, env, a...)
				}(i)
			}
			wg.Wait()
			dirty = ""
			for _, rs := range results {
				if rs.err != nil {
					fail(rs.out, "one of several concurrent runs fails: %v", rs.err)
					return
				}
				if !judge(rs.out, rs.v, rs.want) {
					return
				}
			}
			c.Count("concurrent_runs", int64(k))
			if !good(p, false) {
				return
			}
		case 13: // killed at some time, with all its children
			edit(p)
			cwd, a := args(p, r.Intn(3) == 0)
			cmd := exec.Command(w.exes[version], a...)
			cmd.Dir, cmd.Env = cwd, append(os.Environ(), tagEnv()...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			must(cmd.Start())
			ms := r.Intn(4000)
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case <-done:
			case <-time.After(time.Duration(ms) * time.Millisecond):
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				c.Count("kills_at_some_time", 1)
			}
			say("%s: killed after %d ms: fab %v", filepath.Base(p.dir), ms, a)
			if r.Intn(2) == 0 {
				edit(p)
			}
			dirty = ""
			if !good(p, false) {
				return
			}
		case 14: // damage to the cache
			var files []string
			filepath.Walk(cache, func(path string, info os.FileInfo, err error) error {
				if err == nil && path != cache && filepath.Base(path) != "hash.db" {
					files = append(files, path)
				}
				return nil
			})
			if len(files) == 0 {
				continue
			}
			f := files[r.Intn(len(files))]
			var what string
			info := must1(os.Stat(f))
			switch k := r.Intn(4); {
			case k <= 1:
				what = "remove"
				removeScratch(c.Scratch, f)
			case info.IsDir():
				what = "add junk to"
				must(os.WriteFile(filepath.Join(f, "fab.bin.tmp"), []byte("junk"), 0644))
				os.Mkdir(filepath.Join(f, "tmp123"), 0755)
			case k == 2:
				what = "truncate"
				if os.Truncate(f, info.Size()/2) != nil { // an orphaned driver is still running
					continue
				}
			default:
				what = "overwrite"
				if os.Truncate(f, 0) != nil {
					continue
				}
				must(os.WriteFile(f, []byte("garbage"), info.Mode()))
			}
			say("%s %s", what, f)
			dirty = ""
			if r.Intn(2) == 0 {
				edit(p)
			}
			cwd, a := args(p, false)
			out, err := c.runGroup(w.exes[version], cwd, tagEnv(), a...)
			say("%s: version %s fab %v: %v", filepath.Base(p.dir), version, a, err)
			c.Count("damaged_caches", 1)
			if err != nil {
				// A driver that cannot be run is no stale driver. Forced, fab makes a new one.
				if what == "remove" || what == "add junk to" {
					fail(out, "fab does not recover from %s of %s: %v", what, f, err)
					return
				}
				if !good(p, true) {
					return
				}
			} else if !judge(out, version, p.want(tagged)) {
				return
			}
			if now, err := os.Stat(f); err == nil && os.SameFile(now, info) && !info.IsDir() {
				// It would be met again when earlier contents come back.
				removeScratch(c.Scratch, f)
				dirty = ""
			}
		}
	}
	c.Nontrivial(strings.Join(hist, "\n"))
	c.Sample(hist)
}

var goPoints = []string{"list.after", "modinit.before", "modtidy.before", "build.before", "build.after"}

// midEdit edits a file while fab is at work, and then takes the edit back.
func (w *drvWorld) midEdit(c *Case) {
	var n int
	fmt.Sscanf(c.ID, "midedit/%d", &n)
	base := c.Dir()
	p := &drvProj{dir: filepath.Join(base, "p"), files: map[string]string{}, large: map[string]int{}}
	must(os.MkdirAll(filepath.Join(p.dir, "_fab"), 0755))
	fabModule(p.dir, "fresh")
	must(os.WriteFile(filepath.Join(p.dir, "_fab", "main.go"), []byte(drvMain), 0644))
	old, young := fmt.Sprint(c.R.Intn(3)), fmt.Sprint(3+c.R.Intn(3))
	name := []string{"a.go", "b.go"}[c.R.Intn(2)]
	p.targets = true
	p.put("a.go", "9")
	added := name == "b.go" && c.R.Intn(2) == 0 // the edit adds the file
	if !added {
		p.put(name, old)
	}
	if c.R.Intn(2) == 0 { // the edit only adds a target
		p.keep = old
	}
	point := goPoints[n%len(goPoints)]
	force := n >= len(goPoints) && n < 2*len(goPoints)
	version := "A"
	stmt := n >= 2*len(goPoints)
	if stmt { // at a statement of fab itself, before it has its own copy of the sources
		version = "I"
		lo, hi := w.lo, w.hi
		if lo >= hi {
			lo, hi = 0, w.counts["."]
		}
		k := c.R.Intn(hi - lo + 1)
		if n -= 2 * len(goPoints); n%2 == 0 { // just after the packages are loaded
			k = 1 + n/2%20
		}
		point = fmt.Sprint(lo + k)
	}
	tmp := filepath.Join(base, "new.go")
	must(os.WriteFile(tmp, []byte(p.src(name, young)), 0644))
	trap := filepath.Join(base, "gotrap")
	env := []string{"PATH=" + w.path + ":" + os.Getenv("PATH"), "VGO_TRAP=" + trap, "GOFLAGS=-buildvcs=false -trimpath"}
	if stmt {
		env = append(env, "FABV_CRASH=fabi:.:"+point, "FABV_MOVE="+tmp+":"+filepath.Join(p.dir, "_fab", name))
	} else {
		must(os.WriteFile(trap+"."+point, []byte("mv "+tmp+" "+filepath.Join(p.dir, "_fab", name)+"\n"), 0644))
	}
	args := []string{"-fab", filepath.Join(base, "cache")}
	var hist []string
	run := func(what string, mayFail bool, wants ...string) bool {
		a := append([]string(nil), args...)
		if force && what == "edited meanwhile" {
			a = append(a, "-f")
		}
		a = append(a, "M")
		t := p.target(name)
		if _, ok := p.files[name]; mayFail || !ok {
			t = ""
		} else {
			a = append(a, t)
		}
		out, err := c.runGroup(w.exes[version], p.dir, env, a...)
		hist = append(hist, fmt.Sprintf("%s: fab %v: %v", what, a, err))
		mark := markRegex.FindString(out)
		if mark == "" && err != nil && mayFail {
			return true
		}
		if err != nil || !contains(wants, mark) {
			c.Fail(map[string]any{"history": hist, "output": out, "point": point}, "%s was edited (%s) and the edit taken back: at %q, fab ran a driver that says %q (%v), want one of %q", name, point, what, mark, err, wants)
			return false
		}
		if t != "" && !strings.Contains(out, "TGT "+t+".\n") {
			c.Fail(map[string]any{"history": hist, "output": out, "point": point}, "%s was edited (%s) and the edit taken back: at %q, the driver does not run the target %s which the file declares", name, point, what, t)
			return false
		}
		c.Count("runs_judged", 1)
		return true
	}
	w0 := p.want(false)
	p.files[name] = young
	w1 := p.want(false)
	if !run("edited meanwhile", true, w0, w1) {
		return
	}
	if _, err := os.Stat(tmp); err == nil { // fab did without this command
		p.put(name, young)
	} else {
		c.Count("edits_in_the_middle_of_a_run", 1)
	}
	if n%2 == 0 && !run("after", false, w1) {
		return
	}
	if added {
		delete(p.files, name)
		must(os.Remove(filepath.Join(p.dir, "_fab", name)))
	} else {
		p.put(name, old)
	}
	if !run("taken back", false, w0) {
		return
	}
	p.put(name, young)
	if !run("edited again", false, w1) {
		return
	}
	c.Nontrivial(point + name + old + young)
}

// paused starts fab and has it pause at its n-th statement. It returns when it pauses, or has ended.
func (c *Case) paused(exe, dir string, env []string, n int, args ...string) (resume func() (string, error), pauses bool) {
	file := must1(os.CreateTemp(c.Dir(), "pause")).Name()
	must(os.Remove(file))
	type res struct {
		out string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		out, err := c.runGroup(exe, dir, append(append([]string(nil), env...), fmt.Sprintf("FABV_CRASH=fabi:.:%d", n), "FABV_PAUSE="+file), args...)
		ch <- res{out, err}
	}()
	resume = func() (string, error) {
		os.Remove(file)
		r := <-ch
		return r.out, r.err
	}
	for {
		select {
		case r := <-ch:
			ch <- r
			return resume, false
		case <-time.After(time.Millisecond):
			if exists(file) {
				return resume, true
			}
		}
	}
}

// pair is two runs of the same project which take turns: one pauses, the other starts and pauses too, the first one ends, the second one ends.
func (w *drvWorld) pair(c *Case) {
	r := c.R
	base := c.Dir()
	p := &drvProj{dir: filepath.Join(base, "p"), files: map[string]string{}, large: map[string]int{}}
	must(os.MkdirAll(filepath.Join(p.dir, "_fab"), 0755))
	fabModule(p.dir, "fresh")
	must(os.WriteFile(filepath.Join(p.dir, "_fab", "main.go"), []byte(drvMain), 0644))
	p.put("a.go", "0")
	env := []string{"GOFLAGS=-buildvcs=false -trimpath"}
	args := []string{"-fab", filepath.Join(base, "cache")}
	out, err := c.runGroup(w.exes["I"], p.dir, env, append(args, "M")...)
	if err != nil || !strings.Contains(out, p.want(false)) {
		c.Fail(out, "the first run of a project fails: %v", err)
		return
	}
	total, post, fresh := w.counts["."], w.post, w.fresh
	if post <= 0 || post >= total {
		post = total / 2
	}
	if fresh <= 0 {
		fresh = total
	}
	var hist []string
	for i := 0; i < 4; i++ {
		aForced, bForced := r.Intn(3) == 0, r.Intn(4) > 0
		if r.Intn(3) == 0 {
			p.put("a.go", fmt.Sprint(i+1))
			aForced = true // it has to build
			hist = append(hist, "edit")
		}
		point := func(forced bool) int {
			switch {
			case r.Intn(4) == 0:
				return 1 + r.Intn(total)
			case forced:
				return post + r.Intn(total-post+1)
			}
			return max(1, fresh-r.Intn(25))
		}
		run := func(forced bool) (func() (string, error), string) {
			a := append([]string(nil), args...)
			if forced && r.Intn(3) > 0 {
				a = append(a, "-f")
			}
			n := point(forced)
			resume, pauses := c.paused(w.exes["I"], p.dir, env, n, append(a, "M")...)
			if pauses {
				c.Count("pauses", 1)
			}
			return resume, fmt.Sprintf("%v pauses at %d (%t)", a, n, pauses)
		}
		resumeA, whatA := run(aForced)
		resumeB, whatB := run(bForced)
		hist = append(hist, whatA, whatB)
		outs := map[string]string{}
		errs := map[string]error{}
		outs["the first run"], errs["the first run"] = resumeA()
		outs["the second run"], errs["the second run"] = resumeB()
		outs["a run afterwards"], errs["a run afterwards"] = c.runGroup(w.exes["I"], p.dir, env, append(append([]string(nil), args...), "M")...)
		for _, who := range sortedKeys(outs) {
			mark := markRegex.FindString(outs[who])
			if errs[who] != nil || mark != p.want(false) {
				c.Fail(map[string]any{"history": hist, "output": outs}, "two concurrent runs, the first of which goes on while the second one pauses: %s says %q (%v), want %q", who, mark, errs[who], p.want(false))
				return
			}
			c.Count("runs_judged", 1)
		}
		c.Nontrivial(strings.Join(hist, "\n"))
	}
	c.Count("pairs_of_runs", 4)
}

func init() {
	checks["C30"] = func(m *Mon) {
		m.silenceStdout()
		w := m.drvSetup()
		calibrate := func(c *Case) {
			// How many statements fab executes, and whether drivers tell their version.
			dir := filepath.Join(c.Dir(), "p")
			p := &drvProj{dir: dir, files: map[string]string{}}
			must(os.MkdirAll(filepath.Join(dir, "_fab"), 0755))
			fabModule(dir, "fresh")
			must(os.WriteFile(filepath.Join(dir, "_fab", "main.go"), []byte(drvMain), 0644))
			p.put("a.go", "0")
			prefix := filepath.Join(c.Dir(), "count")
			trap := filepath.Join(c.Dir(), "gotrap")
			for _, point := range []string{"list.after", "modinit.before", "build.after"} {
				must(os.WriteFile(trap+"."+point, []byte("wc -l <"+prefix+".. >"+filepath.Join(c.Dir(), point)+"\n"), 0644))
			}
			env := []string{"GOFLAGS=-buildvcs=false -trimpath", "PATH=" + w.path + ":" + os.Getenv("PATH"), "VGO_TRAP=" + trap}
			out, err := c.runGroup(w.exes["I"], dir, append(env, "FABV_CRASH=fabi:1000000000", "FABV_COUNT="+prefix), "-fab", filepath.Join(c.Dir(), "cache"), "M")
			if err != nil || !strings.Contains(out, p.want(false)) {
				c.Fail(out, "the first run of a project fails: %v: %s", err, clip(out, 500))
				return
			}
			w.counts = readCounts(prefix)
			if w.counts["."] < 20 {
				panic(fmt.Sprintf("harness: no statement counts: %v", w.counts))
			}
			for point, n := range map[string]*int{"list.after": &w.lo, "modinit.before": &w.hi, "build.after": &w.post} {
				b, _ := os.ReadFile(filepath.Join(c.Dir(), point))
				fmt.Sscan(string(b), n)
			}
			out, err = c.runGroup(w.exes["I"], dir, append(env, "FABV_CRASH=fabi:1000000000", "FABV_COUNT="+prefix), "-fab", filepath.Join(c.Dir(), "cache"), "M")
			if err != nil || !strings.Contains(out, p.want(false)) {
				c.Fail(out, "the second run of a project fails: %v: %s", err, clip(out, 500))
				return
			}
			w.fresh = readCounts(prefix)["."]
			c.Count("statements_of_a_run_that_does_not_compile", int64(w.fresh))
			c.Count("statements_before_the_go_command_lists_packages", int64(w.lo))
			c.Count("statements_before_the_go_command_makes_a_module", int64(w.hi))
			w.marked = versionRegex.MatchString(out)
			c.Count("statements_of_a_run_that_compiles", int64(w.counts["."]))
		}
		m.Case("calibrate", calibrate)
		if w.counts == nil && m.Replay != "" {
			replay := m.Replay
			m.Replay = "calibrate"
			m.Case("calibrate", calibrate)
			m.Replay = replay
		}
		if w.counts == nil {
			return
		}
		m.Parallel("midedit", 2*len(goPoints)+m.N(14, 300), 8, w.midEdit)
		m.Parallel("pair", m.N(24, 2000), 8, w.pair)
		m.Parallel("history", m.N(44, 4000), 8, w.history)
		m.Rule("Random histories of one or two projects of the same name sharing a cache: edits of the Go files in _fab (also back to earlier contents, of the same size and times, exchanged, added, removed, under build constraints), changes that do not matter, compile errors, three versions of fab (one of them instrumented to crash at any statement), forced and concurrent runs, kills and edits and failures around each invocation of the go command, kills at random times, damaged caches. The target that is run prints what its driver was built from and by which version; a wrapper of the go command and the identity of the files tell whether it was built again. Non-trivial: a distinct history.")
		m.Assume("versions of fab differ in their build information (as released versions do); an edit in the middle of a run may make that run fail or use either contents, the next one must use the new ones")
	}
}

func readCounts(prefix string) map[string]int {
	counts := map[string]int{}
	for _, pkg := range []string{".", "sqlite", "cmd/fab"} {
		b, _ := os.ReadFile(prefix + "." + strings.ReplaceAll(pkg, "/", "_"))
		counts[pkg] = strings.Count(string(b), "\n")
	}
	return counts
}

type goOverlay struct{ Replace map[string]string }

func readOverlay(file string) map[string]string {
	var o goOverlay
	must(json.Unmarshal(must1(os.ReadFile(file)), &o))
	return o.Replace
}

func overlayJSON(m map[string]string) []byte { return must1(json.Marshal(goOverlay{m})) }

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}
