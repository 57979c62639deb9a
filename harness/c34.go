package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/bobg/fab"
)

// C34: what runs report in verbose mode, and that they report nothing otherwise.

// progLeaf is a target that notes its execution in the output itself.
type progLeaf struct {
	ID   int
	out  string // a file to write
	fail error
	ran  func(*progLeaf)
}

func (l *progLeaf) Desc() string { return fmt.Sprintf("leaf 100%% no. %d", l.ID) }

func (l *progLeaf) Run(ctx context.Context, con *fab.Controller) error {
	fmt.Fprintf(os.Stdout, "@leaf %d\n", l.ID)
	l.ran(l)
	if l.out != "" && l.fail == nil {
		must(os.WriteFile(l.out, []byte("made"), 0644))
	}
	return l.fail
}

type progNode struct {
	kind   string // leaf, all, seq, deps, arg, files, command, clean
	target fab.Target
	leaf   *progLeaf
	kids   []int
	pre    []int // Files: producers of inputs
	in     []string
	files  []string // Clean
	fails  bool     // Command
	name   string
	desc   string
	id     int
}

type progWorld struct {
	c     *Case
	nodes []*progNode
	mu    sync.Mutex
	ran   map[int]int // leaf id to number of executions
}

var progNames = []string{"Build", "a b", "100%d", "%s%v", "%!", "é", "-v", "sub/Dir", "x\ty", "Running", "is up to date", "%", "unnamed", "@x"}

// outcome of a run according to the model.
type progModel struct {
	w       *progWorld
	dry     bool
	done    map[int]bool // reached, and failed or not
	skipped map[int]bool
	order   []int
}

func (pm *progModel) eval(id int) (failed bool) {
	if f, ok := pm.done[id]; ok {
		return f
	}
	n := pm.w.nodes[id]
	pm.order = append(pm.order, id)
	defer func() { pm.done[id] = failed }()
	switch n.kind {
	case "leaf":
		return n.leaf.fail != nil
	case "command":
		return n.fails && !pm.dry
	case "clean":
		return false
	case "all":
		for _, k := range n.kids {
			failed = pm.eval(k) || failed
		}
		return failed
	case "seq", "arg":
		for _, k := range n.kids {
			if pm.eval(k) {
				return true
			}
		}
		return false
	case "deps": // the first one is the target itself
		for _, k := range n.kids[1:] {
			failed = pm.eval(k) || failed
		}
		return failed || pm.eval(n.kids[0])
	case "files":
		for _, k := range n.pre {
			failed = pm.eval(k) || failed
		}
		if failed {
			return true
		}
		// Its recipe belongs to it alone: whether it was skipped can be seen.
		k := n.kids[0]
		if pm.w.ran[pm.w.nodes[k].id] == 0 {
			pm.skipped[id] = true
			return false
		}
		return pm.eval(k)
	}
	panic(n.kind)
}

func progCase(c *Case) {
	r := c.R
	dir := c.Dir()
	w := &progWorld{c: c}
	con := fab.NewController(dir)
	producers := map[string]int{}
	clean := 0
	newLeaf := func(fail bool) *progLeaf {
		l := &progLeaf{ID: len(w.nodes), ran: func(l *progLeaf) {
			w.mu.Lock()
			w.ran[l.ID]++
			w.mu.Unlock()
			c.Event()
		}}
		if fail {
			l.fail = fmt.Errorf("failure %d%%", l.ID)
		}
		return l
	}
	add := func(n *progNode) int {
		n.id = len(w.nodes)
		w.nodes = append(w.nodes, n)
		return n.id
	}
	failRate := []int{0, 0, 8, 25}[r.Intn(4)]
	total := 2 + r.Intn(14)
	var usable []int // the nodes that others can refer to
	pick := func() int { return usable[r.Intn(len(usable))] }
	ts := func(ids []int) []fab.Target {
		var res []fab.Target
		for _, id := range ids {
			t := w.nodes[id].target
			if name := w.nodes[id].name; name != "" && !strings.ContainsAny(name, "/\t%!@") && r.Intn(4) == 0 {
				// by way of a name
				al := fmt.Sprintf("Alias%d", len(w.nodes)*1000+r.Intn(1000))
				if err := con.ReadYAML(strings.NewReader(fmt.Sprintf("%s: %q\n", al, name)), ""); err != nil {
					c.Fail(name, "reading an alias: %v", err)
					continue
				}
				t, _ = con.RegistryTarget(al)
				c.Count("names_of_names", 1)
			}
			res = append(res, t)
		}
		return res
	}
	for len(usable) < total {
		n := &progNode{kind: "leaf"}
		if len(usable) > 0 {
			n.kind = []string{"leaf", "leaf", "all", "all", "seq", "deps", "arg", "files", "files", "command", "clean"}[r.Intn(11)]
		}
		switch n.kind {
		case "leaf":
			n.leaf = newLeaf(r.Intn(100) < failRate)
			n.target, n.desc = n.leaf, "unnamed "+n.leaf.Desc()
		case "command":
			n.fails = r.Intn(100) < failRate
			s := fmt.Sprintf("echo @cmd %d 100%%d", len(w.nodes))
			if n.fails {
				s += "; exit 3"
			}
			if r.Intn(2) == 0 {
				n.target = &fab.Command{Cmd: "sh", Args: []string{"-c", s}}
			} else {
				n.target = &fab.Command{Shell: s}
			}
			n.desc = "unnamed Command"
		case "clean":
			if clean > 0 { // two of them could name the same things
				continue
			}
			clean++
			for i := r.Intn(4); i > 0; i-- {
				n.files = append(n.files, filepath.Join(dir, fmt.Sprintf("junk%d%%s", i)))
			}
			n.target, n.desc = &fab.Clean{Files: append([]string(nil), n.files...)}, "unnamed Clean"
		case "all", "seq", "deps":
			for i := 1 + r.Intn(4); i > 0; i-- {
				n.kids = append(n.kids, pick())
			}
			switch n.kind {
			case "all":
				n.target, n.desc = fab.All(ts(n.kids)...), "unnamed All"
			case "seq":
				n.target, n.desc = fab.Seq(ts(n.kids)...), "unnamed Seq"
			default:
				k := ts(n.kids)
				if len(k) != len(n.kids) {
					return
				}
				n.target = fab.Deps(k[0], k[1:]...)
				n.desc = "unnamed " + n.target.Desc()
			}
		case "arg":
			n.kids = []int{pick()}
			k := ts(n.kids)
			if len(k) != 1 {
				return
			}
			n.target = fab.ArgTarget(k[0], "x", "%d")
			n.desc = "unnamed " + n.target.Desc()
		case "files":
			l := newLeaf(r.Intn(100) < failRate)
			l.out = filepath.Join(dir, fmt.Sprintf("out%d", l.ID))
			rec := &progNode{kind: "leaf", leaf: l, target: l, desc: "unnamed " + l.Desc()}
			n.kids = []int{add(rec)}
			in := filepath.Join(dir, fmt.Sprintf("in%d", l.ID))
			must(os.WriteFile(in, []byte("0"), 0644))
			n.in = []string{in}
			for f, p := range producers {
				if len(n.in) < 3 && r.Intn(3) == 0 {
					n.in = append(n.in, f)
					n.pre = append(n.pre, p)
				}
			}
			n.target = fab.Files(l, append([]string(nil), n.in...), []string{l.out})
			n.desc = "unnamed Files"
			id := add(n)
			producers[l.out] = id
			usable = append(usable, id)
		}
		if n.kind != "files" {
			usable = append(usable, add(n))
		}
		if r.Intn(2) == 0 {
			n.name = fmt.Sprintf("%s%d", progNames[r.Intn(len(progNames))], n.id)
			n.desc = n.name
		}
	}
	register := func() bool {
		for _, n := range w.nodes {
			if n.name != "" {
				if _, err := con.RegisterTarget(n.name, "", n.target); err != nil {
					c.Fail(n.name, "registering: %v", err)
					return false
				}
			}
		}
		return true
	}
	db := newMemDB()
	var what []string
	for round := 0; round < 3; round++ {
		if round > 0 { // the names in the targets remember what they were resolved to: the same targets
			con = fab.NewController(dir)
			for _, n := range w.nodes {
				if n.kind == "files" && r.Intn(3) == 0 {
					must(os.WriteFile(n.in[0], []byte(fmt.Sprint(r.Intn(3))), 0644))
				}
			}
		}
		if !register() {
			return
		}
		for _, n := range w.nodes {
			for _, f := range n.files {
				if r.Intn(2) == 0 {
					must(os.WriteFile(f, nil, 0644))
				}
			}
		}
		ctx := context.Background()
		verbose, dry, force, noDB := r.Intn(4) > 0, r.Intn(4) == 0, r.Intn(5) == 0, r.Intn(6) == 0
		if verbose || r.Intn(2) == 0 {
			ctx = fab.WithVerbose(ctx, verbose)
		}
		if dry {
			ctx = fab.WithDryRun(ctx, true)
		}
		if force {
			ctx = fab.WithForce(ctx, true)
		}
		if !noDB {
			ctx = fab.WithHashDB(ctx, db)
		}
		var roots []int
		var targets []fab.Target
		for i := 1 + r.Intn(3); i > 0; i-- {
			id := pick()
			if r.Intn(2) == 0 {
				id = usable[len(usable)-1]
			}
			roots = append(roots, id)
			targets = append(targets, w.nodes[id].target)
		}
		what = append(what, fmt.Sprintf("verbose=%v dry=%v force=%v db=%v roots=%v", verbose, dry, force, !noDB, roots))
		w.ran = map[int]int{}
		out, errOut, runErr := captured(dir, func() error { return con.Run(ctx, targets...) })

		pm := &progModel{w: w, dry: dry, done: map[int]bool{}, skipped: map[int]bool{}}
		failed := false
		for _, id := range roots {
			failed = pm.eval(id) || failed
		}
		witness := map[string]any{"targets": w.describe(), "rounds": what, "stdout": out, "stderr": errOut, "error": fmt.Sprint(runErr)}
		if failed != (runErr != nil) {
			c.Fail(witness, "by the definitions of the targets, failed=%v; the result is %v", failed, runErr)
			return
		}
		if msg := pm.judge(verbose, out, errOut); msg != "" {
			c.Fail(witness, "%s", msg)
			return
		}
		for id, f := range pm.done {
			n := w.nodes[id]
			if !f {
				continue
			}
			c.Count("failing_targets_in_errors", 1)
			if !strings.Contains(runErr.Error(), n.desc) {
				c.Fail(witness, "%q failed, but the error does not name it", n.desc)
				return
			}
			if n.leaf != nil && (!errors.Is(runErr, n.leaf.fail) || !strings.Contains(runErr.Error(), n.leaf.fail.Error())) {
				c.Fail(witness, "%q failed with %q, which is not in the error", n.desc, n.leaf.fail)
				return
			}
		}
		c.Count("runs", 1)
		c.Count("targets_run", int64(len(pm.done)))
		c.Count("files_up_to_date", int64(len(pm.skipped)))
		if verbose {
			c.Count("verbose_runs", 1)
		}
		c.Nontrivial(fmt.Sprint(verbose, dry, force, noDB, failed, len(pm.skipped), pm.shape()))
	}
}

func (pm *progModel) shape() string {
	var ss []string
	for _, id := range pm.order {
		ss = append(ss, fmt.Sprint(pm.w.nodes[id].kind, pm.w.nodes[id].kids, pm.done[id]))
	}
	return strings.Join(ss, ";")
}

func (w *progWorld) describe() []string {
	var res []string
	for _, n := range w.nodes {
		res = append(res, fmt.Sprintf("%d: %s %q children %v producers %v", n.id, n.kind, n.desc, n.kids, n.pre))
	}
	return res
}

// judge compares what was reported with what happened.
func (pm *progModel) judge(verbose bool, out, errOut string) string {
	want := map[string]int{} // lines that announce targets, and the like
	first := map[string]int{}
	cmds := map[string]int{} // lines of commands
	var cleans [][]string
	deps := false
	leaves := map[string]int{}
	for _, id := range pm.order {
		n := pm.w.nodes[id]
		want["Running "+n.desc]++
		deps = deps || n.kind == "deps"
		switch n.kind {
		case "leaf":
			leaves[fmt.Sprintf("@leaf %d", id)]++
		case "files":
			if pm.skipped[id] {
				want[n.desc+" is up to date"]++
			}
		case "command":
			cmds[fmt.Sprintf("@cmd %d 100%%d", id)]++
		case "clean":
			if len(n.files) > 0 {
				cleans = append(cleans, n.files)
			}
		}
	}
	if errOut != "" {
		return fmt.Sprintf("written to standard error: %q", errOut)
	}
	got := map[string]int{}
	gotLeaves, ranCmds, saidCmds := map[string]int{}, map[string]int{}, map[string]int{}
	saidCleans := 0
	if out != "" && !strings.HasSuffix(out, "\n") {
		return "the output does not end with a line"
	}
	for i, line := range strings.SplitAfter(out, "\n") {
		if line == "" {
			continue
		}
		line = strings.TrimSuffix(strings.TrimLeft(line, " "), "\n")
		if _, ok := first[line]; !ok {
			first[line] = i
		}
		switch {
		case strings.HasPrefix(line, "@leaf "):
			gotLeaves[line]++
		case line == "":
			// the indentation of a line whose text other output got in front of
		case !verbose:
			return fmt.Sprintf("not in verbose mode, but %q was written", line)
		case strings.HasPrefix(line, "@cmd "):
			ranCmds[line]++
		case strings.HasPrefix(line, "Running command ") && strings.Contains(line, "@cmd "), strings.HasPrefix(line, "Would run command "):
			if strings.HasPrefix(line, "Would") != pm.dry {
				return fmt.Sprintf("dry run %v, but %q was written", pm.dry, line)
			}
			cmd := strings.TrimSuffix(line[strings.Index(line, "@cmd"):], "; exit 3")
			saidCmds[cmd]++
		case strings.HasPrefix(line, "removing [") || strings.HasPrefix(line, "would remove ["):
			if strings.HasPrefix(line, "would") != pm.dry {
				return fmt.Sprintf("dry run %v, but %q was written", pm.dry, line)
			}
			saidCleans++
			if saidCleans > len(cleans) {
				return fmt.Sprintf("unexpected: %q", line)
			}
			files := strings.Fields(line[strings.Index(line, "[")+1 : len(line)-1])
			wantFiles := append([]string(nil), cleans[0]...)
			sort.Strings(files)
			sort.Strings(wantFiles)
			if strings.Join(files, "\n") != strings.Join(wantFiles, "\n") {
				return fmt.Sprintf("%q is for %q", line, wantFiles)
			}
		default:
			got[line]++
		}
	}
	if d := diffCounts(leaves, gotLeaves); d != "" {
		return "executions: " + d
	}
	if !verbose {
		return ""
	}
	if deps {
		// What Deps is made of is up to it.
		for k := range got {
			if strings.HasPrefix(k, "Running unnamed ") && !strings.HasPrefix(k, "Running unnamed leaf") && got[k] > want[k] && k != "Running unnamed Files" && k != "Running unnamed Command" && k != "Running unnamed Clean" {
				want[k] = got[k]
			}
		}
	}
	if d := diffCounts(want, got); d != "" {
		return "reports: " + d
	}
	if d := diffCounts(cmds, saidCmds); d != "" {
		return "reports of commands: " + d
	}
	if pm.dry {
		cmds = nil
	}
	if d := diffCounts(cmds, ranCmds); d != "" {
		return "outputs of commands: " + d
	}
	if saidCleans != len(cleans) {
		return fmt.Sprintf("reports of %d removals, expected %d", saidCleans, len(cleans))
	}
	for _, id := range pm.order {
		n := pm.w.nodes[id]
		before := func(a, b string) string {
			if first[a] > first[b] {
				return fmt.Sprintf("%q is reported after %q", a, b)
			}
			return ""
		}
		msg := ""
		switch n.kind {
		case "leaf":
			msg = before("Running "+n.desc, fmt.Sprintf("@leaf %d", id))
		case "files":
			if n.name != "" && pm.skipped[id] {
				msg = before("Running "+n.desc, n.desc+" is up to date")
			} else if _, ok := pm.done[n.kids[0]]; n.name != "" && ok {
				msg = before("Running "+n.desc, "Running "+pm.w.nodes[n.kids[0]].desc)
			}
		}
		if msg != "" {
			return msg
		}
	}
	return ""
}

func diffCounts(want, got map[string]int) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if want[k] == 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if want[k] != got[k] {
			return fmt.Sprintf("%q %d times, expected %d", k, got[k], want[k])
		}
	}
	return ""
}

// captured runs fn and returns what was meanwhile written to the standard output and error of the process.
func captured(dir string, fn func() error) (string, string, error) {
	oldOut, oldErr := os.Stdout, os.Stderr
	defer func() { os.Stdout, os.Stderr = oldOut, oldErr }()
	var fs [2]*os.File
	for i := range fs {
		f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("captured%d", i)), os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND, 0644)
		must(err)
		defer f.Close()
		fs[i] = f
	}
	os.Stdout, os.Stderr = fs[0], fs[1]
	err := fn()
	os.Stdout, os.Stderr = oldOut, oldErr
	a, e := os.ReadFile(fs[0].Name())
	must(e)
	b, e := os.ReadFile(fs[1].Name())
	must(e)
	return string(a), string(b), err
}

func init() {
	checks["C34"] = func(m *Mon) {
		m.silenceStdout()
		m.Parallel("reports", m.N(4000, 100000), 1, progCase)
		m.Rule("histories of three runs of random graphs of all kinds of targets (named, with names of names, unnamed), in verbose or quiet, dry, forced, database-less mode. Standard output and error are captured and compared with the executions: " +
			"one announcement per target that runs, before anything it does, with its registered name; one line per Files target found up to date; one per command and removal, as done or as would be done; nothing else, and nothing at all when not verbose. Errors name every failing target. Non-trivial: a distinct mode and graph with its outcome.")
		m.Assume("indentation is not judged (see C18): Indentf writes it apart from the text")
	}
}
