package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/bobg/fab"
)

// C17: builds of Commands that are cancelled while some of them run.
// The running Commands' children would only end by themselves when a file appears,
// which is made long after the cancellation if Run has not returned by then: a child that lives to see it was not killed.

type cnode struct {
	ID     int
	Kind   string // cmd, fn, all, seq, deps, files, list
	Kids   []int
	Block  bool // cmd: wait for the release
	Shell  bool
	Out    string // none, writer, fn, file, discard
	Ignore bool   // ignore SIGTERM
	In     []int  // files: other Files nodes whose output is an input
}

type cancelRun struct {
	Dir     string
	Nodes   []*cnode
	Root    []int
	YAML    bool
	Mode    string // cancel, cause, deadline, before
	Verbose bool
	Result  string
	Wait    []int // children that must have started before the cancellation
	Quick   []int // children that must have ended before it
	Release string
	Log     string
}

type cancelResult struct {
	Err1, Err2 string
	Alive      []int
	Released   bool
	Stuck      string
	ReadErr    string
}

// logTarget is a target that notes that it ran.
type logTarget struct {
	ID  int
	Log string
}

func appendLog(file string, r childReport) {
	f := must1(os.OpenFile(file, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644))
	j, _ := json.Marshal(r)
	must1(f.Write(append(j, '\n')))
	f.Close()
}

func (t *logTarget) Run(context.Context, *fab.Controller) error {
	appendLog(t.Log, childReport{Index: t.ID, Phase: "start"})
	return nil
}
func (t *logTarget) Desc() string { return "logTarget" }

func readLog(file string) (res []childReport) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var x childReport
		if l != "" && json.Unmarshal([]byte(l), &x) == nil {
			res = append(res, x)
		}
	}
	return
}

func (s *cancelRun) specFile(id int) string {
	return filepath.Join(s.Dir, fmt.Sprintf("child%d.json", id))
}
func (s *cancelRun) out(id int) string { return filepath.Join(s.Dir, fmt.Sprintf("made%d", id)) }
func (s *cancelRun) shell(id int) string {
	return "exec " + shq(selfExe) + " helper child " + shq(s.specFile(id))
}

func (s *cancelRun) define(con *fab.Controller) ([]fab.Target, error) {
	if s.YAML {
		if err := con.ReadYAMLFile(""); err != nil {
			return nil, err
		}
		var ts []fab.Target
		for _, r := range s.Root {
			t, _ := con.RegistryTarget(fmt.Sprintf("N%d", r))
			ts = append(ts, t)
		}
		return ts, nil
	}
	var ts []fab.Target
	for _, n := range s.Nodes {
		var kids []fab.Target
		for _, k := range n.Kids {
			kids = append(kids, ts[k])
		}
		var t fab.Target
		switch n.Kind {
		case "cmd":
			c := &fab.Command{Cmd: selfExe, Args: []string{"helper", "child", s.specFile(n.ID)}}
			if n.Shell {
				c = &fab.Command{Shell: s.shell(n.ID)}
			}
			switch n.Out {
			case "writer":
				c.Stdout = &recWriter{res: &writerRes{}}
			case "fn":
				c.StdoutFn = func(context.Context, *fab.Controller) io.Writer {
					return &recCloser{recWriter: recWriter{res: &writerRes{}}}
				}
			case "file":
				c.StdoutFile = filepath.Join(s.Dir, fmt.Sprintf("stdout%d", n.ID))
			case "discard":
				c.Stdout, c.Stderr = io.Discard, io.Discard
			}
			t = c
		case "fn":
			t = &logTarget{n.ID, s.Log}
		case "all":
			t = fab.All(kids...)
		case "seq", "list":
			t = fab.Seq(kids...)
		case "deps":
			t = fab.Deps(kids[0], kids[1:]...)
		case "files":
			in := []string{filepath.Join(s.Dir, "input")}
			for _, i := range n.In {
				in = append(in, s.out(i))
			}
			t = fab.Files(kids[0], in, []string{s.out(n.ID)})
		}
		ts = append(ts, t)
	}
	var res []fab.Target
	for _, r := range s.Root {
		res = append(res, ts[r])
	}
	return res, nil
}

func (s *cancelRun) yaml() string {
	var sb strings.Builder
	for _, n := range s.Nodes {
		var kids []string
		for _, k := range n.Kids {
			kids = append(kids, fmt.Sprintf("N%d", k))
		}
		list := "[" + strings.Join(kids, ", ") + "]"
		fmt.Fprintf(&sb, "N%d: ", n.ID)
		switch n.Kind {
		case "cmd":
			if n.Shell {
				fmt.Fprintf(&sb, "!Command\n  Shell: %s\n", yq(s.shell(n.ID)))
			} else {
				fmt.Fprintf(&sb, "!Command\n  Cmd: %s\n  Args: %s\n", yq(selfExe), yqs([]string{"helper", "child", s.specFile(n.ID)}))
			}
			switch n.Out {
			case "writer":
				fmt.Fprintf(&sb, "  Stdout: $stdout\n")
			case "fn":
				fmt.Fprintf(&sb, "  Stdout: $indent\n")
			case "file":
				fmt.Fprintf(&sb, "  Stdout: stdout%d\n", n.ID)
			case "discard":
				fmt.Fprintf(&sb, "  Stdout: $discard\n  Stderr: $discard\n")
			}
		case "all":
			fmt.Fprintf(&sb, "!All %s\n", list)
		case "seq":
			fmt.Fprintf(&sb, "!Seq %s\n", list)
		case "list": // a list of shell strings
			sb.WriteString("!Command\n  Shell:\n")
			for _, k := range n.Kids {
				fmt.Fprintf(&sb, "    - %s\n", yq(s.shell(k)))
			}
		case "deps":
			fmt.Fprintf(&sb, "!Deps %s\n", list)
		case "files":
			in := []string{"input"}
			for _, i := range n.In {
				in = append(in, filepath.Base(s.out(i)))
			}
			fmt.Fprintf(&sb, "!Files\n  Target: %s\n  In: %s\n  Out: [%s]\n", kids[0], yqs(in), filepath.Base(s.out(n.ID)))
		}
	}
	return sb.String()
}

// expiring is a context whose deadline passes when told so.
type expiring struct {
	context.Context
	done    chan struct{}
	expired atomic.Bool
}

func (e *expiring) Done() <-chan struct{} { return e.done }
func (e *expiring) Err() error {
	if e.expired.Load() {
		return context.DeadlineExceeded
	}
	return nil
}

func helperCancel(file string) {
	var s cancelRun
	must(json.Unmarshal(must1(os.ReadFile(file)), &s))
	res := &cancelResult{}
	finish := func() {
		j, _ := json.Marshal(res)
		must(os.WriteFile(s.Result, j, 0644))
		os.Exit(0)
	}
	db := newMemDB()
	con := fab.NewController(s.Dir)
	targets, err := s.define(con)
	if err != nil {
		res.ReadErr = err.Error()
		finish()
	}
	base := fab.WithVerbose(fab.WithHashDB(context.Background(), db), s.Verbose)
	var ctx context.Context
	var cancel func()
	switch s.Mode {
	case "cause":
		c, f := context.WithCancelCause(base)
		ctx, cancel = c, func() { f(fmt.Errorf("enough")) }
	case "deadline":
		c := &expiring{Context: base, done: make(chan struct{})}
		ctx, cancel = c, func() { c.expired.Store(true); close(c.done) }
	default:
		ctx, cancel = context.WithCancel(base)
	}
	if s.Mode == "before" {
		appendLog(s.Log, childReport{Index: -1, Phase: "cancel"})
		cancel()
	}
	done := make(chan error, 1)
	go func() { done <- con.Run(ctx, targets...) }()
	if s.Mode != "before" {
		// Wait until everything that will run before the cancellation does.
		for start := time.Now(); ; time.Sleep(time.Millisecond) {
			st, en := map[int]bool{}, map[int]bool{}
			for _, x := range readLog(s.Log) {
				if x.Phase == "start" {
					st[x.Index] = true
				} else {
					en[x.Index] = true
				}
			}
			ok := true
			for _, i := range s.Wait {
				ok = ok && st[i]
			}
			for _, i := range s.Quick {
				ok = ok && en[i]
			}
			if ok {
				break
			}
			select {
			case err := <-done:
				res.Stuck = fmt.Sprintf("Run returned (%v) while Commands it has to wait for still run or have not been started", err)
				finish()
			default:
			}
			if time.Since(start) > 100*time.Second {
				fmt.Fprintln(os.Stderr, "HARNESS-ERROR: the Commands were not started")
				os.Exit(2)
			}
		}
		appendLog(s.Log, childReport{Index: -1, Phase: "cancel"})
		cancel()
	}
	select {
	case err = <-done:
	case <-time.After(20 * time.Second):
		res.Released = true
		must(os.WriteFile(s.Release, nil, 0644))
		for i := 0; ; i++ {
			select {
			case err = <-done:
			case <-time.After(time.Second):
				if i > 10 {
					if stuck, dump := allBlocked(); stuck {
						res.Stuck = "Run does not return: " + clip(dump, 5000)
						finish()
					}
				}
				if i > 60 {
					fmt.Fprintln(os.Stderr, "HARNESS-ERROR: Run does not return", dumpAll())
					os.Exit(2)
				}
				continue
			}
			break
		}
	}
	if err != nil {
		res.Err1 = "ERR " + err.Error()
	}
	blocked := map[int]bool{}
	for _, i := range s.Wait {
		blocked[i] = true
	}
	for _, x := range readLog(s.Log) {
		if blocked[x.Index] && x.Phase == "start" && x.Pid != 0 && syscall.Kill(x.Pid, 0) == nil {
			res.Alive = append(res.Alive, x.Index)
		}
	}
	appendLog(s.Log, childReport{Index: -1, Phase: "second"})
	// Now everything may finish.
	must(os.WriteFile(s.Release, nil, 0644))
	con = fab.NewController(s.Dir)
	targets, err = s.define(con)
	must(err)
	if err := con.Run(base, targets...); err != nil {
		res.Err2 = "ERR " + err.Error()
	}
	finish()
}

// reach finds what runs before the cancellation: it returns whether node id blocks.
func (s *cancelRun) reach(id int, seen map[int]bool, blocks map[int]bool) bool {
	if seen[id] {
		return blocks[id]
	}
	seen[id] = true
	n := s.Nodes[id]
	b := false
	switch n.Kind {
	case "cmd":
		b = n.Block || s.Mode == "before"
	case "all":
		for _, k := range n.Kids {
			if s.reach(k, seen, blocks) {
				b = true
			}
		}
	case "seq", "list":
		for _, k := range n.Kids {
			if s.reach(k, seen, blocks) {
				b = true
				break
			}
		}
	case "deps":
		for _, k := range n.Kids[1:] {
			if s.reach(k, seen, blocks) {
				b = true
			}
		}
		if !b {
			b = s.reach(n.Kids[0], seen, blocks)
		}
	case "files":
		for _, k := range n.In {
			if s.reach(k, seen, blocks) {
				b = true
			}
		}
		if !b {
			b = s.reach(n.Kids[0], seen, blocks)
		}
	}
	blocks[id] = b
	return b
}

func genCancel(r *rand.Rand, dir string) *cancelRun {
	s := &cancelRun{Dir: dir, Result: filepath.Join(dir, "result.json"), Release: filepath.Join(dir, "release"), Log: filepath.Join(dir, "log"), YAML: r.Intn(3) == 0, Verbose: r.Intn(4) == 0}
	s.Mode = []string{"cancel", "cancel", "cancel", "cause", "deadline", "before"}[r.Intn(6)]
	var files []int
	used := map[int]bool{}
	nc := 1 + r.Intn(6)
	for i := 0; i < nc; i++ {
		n := &cnode{ID: i, Kind: "cmd", Block: r.Intn(3) == 0, Shell: r.Intn(2) == 0, Out: []string{"none", "none", "writer", "fn", "file", "discard"}[r.Intn(6)], Ignore: r.Intn(2) == 0}
		if !s.YAML && r.Intn(5) == 0 {
			n.Kind, n.Block = "fn", false
		}
		s.Nodes = append(s.Nodes, n)
	}
	// A target that is shared would make it hard to say what runs; every node has one parent at most.
	free := func() []int {
		var f []int
		for i := range s.Nodes {
			if !used[i] {
				f = append(f, i)
			}
		}
		return f
	}
	for k := 1 + r.Intn(6); k > 0; k-- {
		f := free()
		r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
		n := &cnode{ID: len(s.Nodes)}
		n.Kind = []string{"all", "seq", "seq", "seq", "deps", "files", "files", "list"}[r.Intn(8)]
		m := 1 + r.Intn(len(f))
		switch n.Kind {
		case "files":
			m = 1
			if s.Nodes[f[0]].Kind == "fn" {
				continue
			}
			for _, x := range files {
				if !used[x] && x != f[0] && r.Intn(2) == 0 {
					n.In = append(n.In, x)
					used[x] = true
				}
			}
		case "list":
			if !s.YAML {
				n.Kind = "seq"
				break
			}
			ok := true
			for _, x := range f[:m] {
				ok = ok && s.Nodes[x].Kind == "cmd"
			}
			if !ok {
				n.Kind = "seq"
			}
		}
		n.Kids = append([]int{}, f[:m]...)
		for _, x := range n.Kids {
			used[x] = true
		}
		if n.Kind == "files" {
			files = append(files, n.ID)
		}
		s.Nodes = append(s.Nodes, n)
	}
	s.Root = free()
	seen, blocks := map[int]bool{}, map[int]bool{}
	any := false
	for _, x := range s.Root {
		if s.reach(x, seen, blocks) {
			any = true
		}
	}
	if !any && s.Mode != "before" {
		// Let something block.
		for i := 0; i < nc; i++ {
			if s.Nodes[i].Kind == "cmd" {
				s.Nodes[i].Block = true
				any = true
				break
			}
		}
		if !any {
			s.Nodes[0].Kind, s.Nodes[0].Block, s.Nodes[0].Out = "cmd", true, "none"
		}
	}
	return s
}

func cancelCase(c *Case) {
	r := c.R
	dir := c.Dir()
	s := genCancel(r, dir)
	seen, blocks := map[int]bool{}, map[int]bool{}
	for _, x := range s.Root {
		s.reach(x, seen, blocks)
	}
	for _, n := range s.Nodes {
		if n.Kind != "cmd" {
			if n.Kind == "fn" && seen[n.ID] && s.Mode != "before" {
				s.Wait = append(s.Wait, n.ID)
			}
			continue
		}
		ch := &childSpec{Index: n.ID, Log: s.Log, IgnoreTerm: n.Ignore, End: true, Chunks: []chunk{{FD: 1, Data: []byte("some output\n")}}}
		if n.Block {
			ch.WaitFor = s.Release
		}
		if seen[n.ID] && s.Mode != "before" {
			if n.Block {
				s.Wait = append(s.Wait, n.ID)
			} else {
				s.Quick = append(s.Quick, n.ID)
			}
		}
		j, _ := json.Marshal(ch)
		must(os.WriteFile(s.specFile(n.ID), j, 0644))
	}
	must(os.WriteFile(filepath.Join(dir, "input"), []byte("x"), 0644))
	if s.YAML {
		must(os.WriteFile(filepath.Join(dir, "fab.yaml"), []byte(s.yaml()), 0644))
	}
	spec := filepath.Join(dir, "spec.json")
	j, _ := json.Marshal(s)
	must(os.WriteFile(spec, j, 0644))
	cmd := exec.Command(selfExe, "helper", "cancel", spec)
	cmd.Dir = dir
	fe := must1(os.Create(filepath.Join(dir, "stderr")))
	cmd.Stderr = fe
	err := cmd.Run()
	fe.Close()
	c.Event()
	log := readLog(s.Log)
	wit := map[string]any{"run": s, "log": log}
	if s.YAML {
		wit["yaml"] = s.yaml()
	}
	b, rerr := os.ReadFile(s.Result)
	if rerr != nil {
		e := string(must1(os.ReadFile(fe.Name())))
		if strings.Contains(e, "HARNESS-ERROR") || !fabFrame(e) {
			panic("harness: " + clip(e, 5000) + fmt.Sprint(err))
		}
		c.Fail(wit, "the building process died (%v): %s", err, clip(e, 3000))
		return
	}
	var res cancelResult
	must(json.Unmarshal(b, &res))
	wit["result"] = res
	fail := func(format string, args ...any) { c.Fail(wit, format, args...) }
	if res.ReadErr != "" {
		fail("reading the definitions: %s", res.ReadErr)
		return
	}
	if res.Stuck != "" {
		fail("%s", res.Stuck)
		return
	}
	phase := 0
	again := map[int]bool{}
	killed := 0
	ended := map[int]bool{}
	for _, x := range log {
		switch {
		case x.Phase == "cancel":
			phase = 1
		case x.Phase == "second":
			phase = 2
		case phase == 0 && x.Phase == "start" && !seen[x.Index]:
			fail("target %d was run before what must precede it had finished", x.Index)
			return
		case phase == 1 && x.Phase == "start" && s.Nodes[x.Index].Kind == "fn" && s.Mode == "before" && seen[x.Index]:
			// targets of other kinds may choose not to look at the context
		case phase == 1 && x.Phase == "start":
			fail("target %d was started after the cancellation", x.Index)
			return
		case phase == 1 && x.Phase == "end" && s.Nodes[x.Index].Block:
			ended[x.Index] = true
		case phase == 2 && x.Phase == "start":
			again[x.Index] = true
		}
	}
	for _, i := range s.Wait {
		if s.Nodes[i].Kind != "cmd" {
			continue
		}
		if ended[i] {
			fail("the process of command %d was not killed, it ended by itself long after the cancellation", i)
			return
		}
		killed++
	}
	if len(res.Alive) > 0 {
		fail("the processes of the commands %v still live after Run has returned", res.Alive)
		return
	}
	hasCmd := false
	for _, n := range s.Nodes {
		hasCmd = hasCmd || n.Kind == "cmd"
	}
	if (killed > 0 || s.Mode == "before" && hasCmd) && res.Err1 == "" {
		if s.Mode != "before" || onlyCommands(s) {
			fail("Run returned no error after a cancellation that killed %d commands", killed)
			return
		}
	}
	if res.Err2 != "" {
		fail("building again without a cancellation failed: %s", res.Err2)
		return
	}
	// Everything that was being built must be built now.
	for _, n := range s.Nodes {
		if n.Kind != "files" || !(seen[n.ID] && blocks[n.ID] || s.Mode == "before" || !seen[n.ID]) {
			continue
		}
		for _, l := range s.leaves(n.Kids[0]) {
			if !again[l] {
				fail("Files target %d, which was being built (or had not been started) when the build was cancelled, counts as up to date: command %d did not run again", n.ID, l)
				return
			}
		}
		c.Count("interrupted_files_targets_rebuilt", 1)
	}
	c.Count("killed_commands", int64(killed))
	c.Count("mode_"+s.Mode, 1)
	if killed > 0 || s.Mode == "before" {
		jn, _ := json.Marshal(s.Nodes)
		c.Nontrivial(string(jn) + s.Mode)
		if len(s.Nodes) < 5 {
			c.Sample(map[string]any{"nodes": s.Nodes, "mode": s.Mode, "yaml": s.YAML, "killed": killed})
		}
	}
}

// onlyCommands tells whether a build that was cancelled before it began must fail: something in it runs a Command first of all.
func onlyCommands(s *cancelRun) bool {
	for _, n := range s.Nodes {
		if n.Kind == "fn" {
			return false
		}
	}
	return true
}

// leaves are the commands that a successful run of a node's own rule must run, other than within nested Files targets.
func (s *cancelRun) leaves(id int) []int {
	n := s.Nodes[id]
	if n.Kind == "cmd" {
		return []int{id}
	}
	if n.Kind == "files" || n.Kind == "fn" {
		return nil
	}
	var res []int
	for _, k := range n.Kids {
		res = append(res, s.leaves(k)...)
	}
	return res
}

func init() {
	checks["C17"] = func(m *Mon) {
		m.Parallel("cancel", m.N(900, 20000), 8, cancelCase)
		m.Rule("a case is a random tree of Commands (some of which run until released), All, Seq, Deps, Files and shell lists, Go or YAML, cancelled when all Commands it can reach are known to run (or before it begins; by cancel, cause or deadline); " +
			"a log shared by all processes shows what started and ended before and after the cancellation; then the build is run again to see what counts as up to date; " +
			"non-trivial = Commands were killed or the context was cancelled from the start; distinct = tree and way of cancelling")
		m.Assume("the process of a Command is the one it starts: processes which that one leaves behind are not fab's to kill")
	}
}
