package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
)

// C20: projects with several fab.yaml files which refer to each other,
// and with relative file names of all kinds; decoys lie where a wrong interpretation would look.
// A helper process with its own current directory reads and runs them; a model of the file system predicts what happens.

type ynode struct {
	ID     int
	Dir    string // "" is the top
	Name   string
	Kind   string // log, all, seq, deps, alias, files, cmd, clean
	Kids   []int
	Refs   []string // how the kids are spelled
	In     []string // spelled, relative to Dir or absolute
	Globs  []string
	Out    []string
	Files  []string
	CDir   string
	Stdin  string
	Stdout string
	Stderr string
	Append bool
}

type yproj struct {
	Top   string
	Dirs  []string
	Names map[string]string // dir -> fab.yaml or fab.yml
	Decl  map[string]string // dir -> line declaring _dir, if not the right one
	Order map[string][]int
	Nodes []*ynode
}

type ystep struct {
	Read    []string          // directories to read
	Run     []string          // names
	Edit    map[string]string // absolute name -> contents, before the step
	Remove  []string
	Execute []int // predicted: log nodes
}

type yspec struct {
	Proj    *yproj
	TopArg  string // how the top directory is given
	Cwd     string
	Steps   []ystep
	Results string
}

type yresult struct {
	ReadErrs []string
	RunErr   string
	Names    []string
	Ran      []int
	Dirs     map[int]string // dir given to the decoder of a log node
	State    map[string]string
}

func (p *yproj) abs(dir, name string) string {
	if filepath.IsAbs(name) {
		return filepath.Clean(name)
	}
	return filepath.Join(p.Top, dir, name)
}

// yLogTarget notes its runs in a global list: its process runs one project only.
type yLogTarget struct{ ID int }

var (
	yLogMu   sync.Mutex
	yLogRan  []int
	yLogDirs = map[int]string{}
)

func (t *yLogTarget) Run(context.Context, *fab.Controller) error {
	yLogMu.Lock()
	yLogRan = append(yLogRan, t.ID)
	yLogMu.Unlock()
	return nil
}
func (*yLogTarget) Desc() string { return "log" }

func init() {
	fab.RegisterYAMLTarget("vlog", func(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
		var id int
		if err := n.Content[0].Decode(&id); err != nil {
			return nil, err
		}
		yLogMu.Lock()
		yLogDirs[id] = dir
		yLogMu.Unlock()
		return &yLogTarget{id}, nil
	})
}

func helperYAML(file string) {
	var s yspec
	must(json.Unmarshal(must1(os.ReadFile(file)), &s))
	db := newMemDB()
	ctx := fab.WithHashDB(context.Background(), db)
	var res []yresult
	for _, st := range s.Steps {
		applyEdits(st)
		var x yresult
		con := fab.NewController(s.TopArg)
		yLogMu.Lock()
		yLogRan, yLogDirs = nil, map[int]string{}
		yLogMu.Unlock()
		for _, d := range st.Read {
			e := ""
			if err := con.ReadYAMLFile(d); err != nil {
				e = "ERR " + err.Error()
			}
			x.ReadErrs = append(x.ReadErrs, e)
		}
		x.Names = con.RegistryNames()
		if len(st.Run) > 0 {
			ts, err := con.ParseArgs(st.Run)
			if err == nil {
				err = con.Run(ctx, ts...)
			}
			if err != nil {
				x.RunErr = "ERR " + err.Error()
			}
		}
		yLogMu.Lock()
		x.Ran, x.Dirs = yLogRan, yLogDirs
		yLogMu.Unlock()
		x.State = fileState(s.Proj.Top)
		res = append(res, x)
	}
	j, _ := json.Marshal(res)
	must(os.WriteFile(s.Results, j, 0644))
}

func applyEdits(st ystep) {
	for f, content := range st.Edit {
		must(os.WriteFile(f, []byte(content), 0644))
	}
	for _, f := range st.Remove {
		must(os.Remove(f))
	}
}

// fileState maps the absolute names of the regular files below a directory to their contents.
func fileState(top string) map[string]string {
	res := map[string]string{}
	for rel, s := range snapshot(top) {
		if strings.HasPrefix(s, "file ") {
			_, body, _ := strings.Cut(strings.TrimPrefix(s, "file "), " ")
			res[filepath.Join(top, rel)] = body
		}
	}
	return res
}

// spell gives one of the spellings of a file as seen from a directory.
func (p *yproj) spell(r *rand.Rand, dir, abs string) string {
	rel, err := filepath.Rel(filepath.Join(p.Top, dir), abs)
	must(err)
	switch r.Intn(6) {
	case 0:
		return abs
	case 1:
		return "./" + rel
	case 2:
		if dir != "" {
			return "../" + filepath.Base(dir) + "/" + rel
		}
	}
	return rel
}

func genYProj(r *rand.Rand, top string) *yproj {
	p := &yproj{Top: top, Names: map[string]string{}, Decl: map[string]string{}, Order: map[string][]int{}}
	p.Dirs = []string{""}
	elems := []string{"a", "b", "a b", "x.y", "ü", "2024", "true", "-d", "~", "null", "c", ".h", "#d", "[e]", "f*", filepath.Base(top), filepath.Base(top)}
	for k := r.Intn(6); k > 0; k-- {
		d := filepath.Join(p.Dirs[r.Intn(len(p.Dirs))], elems[r.Intn(len(elems))])
		if r.Intn(5) == 0 {
			d = filepath.Join(d, elems[r.Intn(len(elems))])
		}
		if !slices.Contains(p.Dirs, d) {
			p.Dirs = append(p.Dirs, d)
		}
	}
	for _, d := range p.Dirs {
		must(os.MkdirAll(filepath.Join(top, d), 0755))
		p.Names[d] = []string{"fab.yaml", "fab.yaml", "fab.yml"}[r.Intn(3)]
		// The same file names exist everywhere, so that a wrong directory is not noticed by accident.
		for _, f := range []string{"in1", "in2", "g1.src", "g2.src", ".g4.src", "x.txt"} {
			must(os.WriteFile(filepath.Join(top, d, f), []byte(d+"/"+f), 0644))
		}
	}
	n := 3 + r.Intn(12)
	for i := 0; i < n; i++ {
		y := &ynode{ID: i, Dir: p.Dirs[r.Intn(len(p.Dirs))]}
		y.Name = fmt.Sprintf("T%d", i)
		if r.Intn(4) == 0 {
			y.Name = []string{"Same", "fab", "a b", "123", "b"}[r.Intn(5)]
			for _, o := range p.Nodes {
				if o.Dir == y.Dir && o.Name == y.Name {
					y.Name = fmt.Sprintf("T%d", i)
				}
			}
		}
		kinds := []string{"log", "log", "files", "files", "cmd", "clean", "all", "seq", "deps", "alias"}
		y.Kind = kinds[r.Intn(len(kinds))]
		logs := []int{}
		for _, o := range p.Nodes {
			if o.Kind == "log" {
				logs = append(logs, o.ID)
			}
		}
		if i == 0 || y.Kind == "files" && len(logs) == 0 {
			y.Kind = "log"
		}
		file := func(f string) string { // an existing file somewhere
			return filepath.Join(top, p.Dirs[r.Intn(len(p.Dirs))], f)
		}
		switch y.Kind {
		case "all", "seq", "deps":
			for k := 1 + r.Intn(4); k > 0; k-- {
				y.Kids = append(y.Kids, r.Intn(i))
			}
		case "alias":
			y.Kids = []int{r.Intn(i)}
		case "files":
			y.Kids = []int{logs[r.Intn(len(logs))]}
			for k := r.Intn(3); k > 0; k-- {
				y.In = append(y.In, p.spell(r, y.Dir, file([]string{"in1", "in2"}[r.Intn(2)])))
			}
			for k := r.Intn(3); k > 0; k-- {
				g := []string{"*.src", "g?.src", "g1.src", "./*.src", "[gx]*.src", "x.txt", "?g[0-9].src"}[r.Intn(7)]
				switch r.Intn(6) {
				case 0:
					if !strings.ContainsAny(y.Dir, "[*") {
						g = filepath.Join(top, y.Dir, g)
					}
				case 1:
					if y.Dir != "" {
						g = "../" + g
					}
				case 2:
					for _, d := range p.Dirs {
						if sub, ok := strings.CutPrefix(d, y.Dir+"/"); ok && !strings.ContainsAny(sub, "[*") {
							g = path.Join(sub, g)
							break
						}
					}
				}
				y.Globs = append(y.Globs, g)
			}
			// Another target's output, too.
			for _, o := range p.Nodes {
				if o.Kind == "files" && len(o.Out) > 0 && r.Intn(3) == 0 {
					y.In = append(y.In, p.spell(r, y.Dir, p.abs(o.Dir, o.Out[r.Intn(len(o.Out))])))
				}
			}
			for k := r.Intn(3); k >= 0; k-- {
				y.Out = append(y.Out, p.spell(r, y.Dir, file(fmt.Sprintf("out%d_%d", i, k))))
			}
		case "cmd":
			if r.Intn(2) == 0 {
				y.CDir = p.spell(r, y.Dir, filepath.Join(top, p.Dirs[r.Intn(len(p.Dirs))]))
			}
			y.Stdin = p.spell(r, y.Dir, file([]string{"in1", "x.txt"}[r.Intn(2)]))
			y.Stdout = p.spell(r, y.Dir, file(fmt.Sprintf("cmdout%d", i)))
			if r.Intn(2) == 0 {
				y.Stderr = p.spell(r, y.Dir, file(fmt.Sprintf("cmderr%d", i)))
			}
			y.Append = r.Intn(3) == 0
		case "clean":
			for k := 1 + r.Intn(3); k > 0; k-- {
				f := file(fmt.Sprintf("junk%d_%d", i, r.Intn(2)))
				y.Files = append(y.Files, p.spell(r, y.Dir, f))
			}
		}
		for _, k := range y.Kids {
			o := p.Nodes[k]
			rel, _ := filepath.Rel(filepath.Join("/", y.Dir), filepath.Join("/", o.Dir, o.Name))
			switch {
			case y.Dir == "" && o.Dir == "":
				rel = o.Name
			case o.Dir == "" && r.Intn(3) == 0:
				rel = o.Name // a name without a path is that of the registry, so of the top directory
			case !strings.Contains(rel, "/"):
				rel = "./" + rel
			case r.Intn(5) == 0:
				rel = "./" + rel
			case r.Intn(5) == 0 && y.Dir != "":
				rel = "../" + filepath.Base(y.Dir) + "/" + rel
			}
			y.Refs = append(y.Refs, rel)
		}
		p.Nodes = append(p.Nodes, y)
		p.Order[y.Dir] = append(p.Order[y.Dir], i)
	}
	// Junk for the Clean targets, everywhere.
	for _, y := range p.Nodes {
		if y.Kind == "clean" {
			for _, d := range p.Dirs {
				for k := 0; k < 2; k++ {
					must(os.WriteFile(filepath.Join(top, d, fmt.Sprintf("junk%d_%d", y.ID, k)), []byte("junk"), 0644))
				}
			}
		}
	}
	for _, o := range p.Order {
		r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	}
	return p
}

func (p *yproj) text(r *rand.Rand, dir string) string {
	var sb strings.Builder
	decl := fmt.Sprintf("_dir: %s\n", yq(dir))
	if r.Intn(3) == 0 && !strings.ContainsAny(dir, " #[*~:&") && dir != "null" {
		decl = fmt.Sprintf("_dir: %s\n", dir)
	}
	if dir == "" && r.Intn(3) > 0 {
		decl = ""
	}
	if d, ok := p.Decl[dir]; ok {
		decl = d
	}
	at := r.Intn(len(p.Order[dir]) + 1)
	for i, id := range p.Order[dir] {
		if i == at {
			sb.WriteString(decl)
		}
		y := p.Nodes[id]
		fmt.Fprintf(&sb, "%s: ", yq(y.Name))
		switch y.Kind {
		case "log":
			fmt.Fprintf(&sb, "!vlog [%d]\n", y.ID)
		case "all":
			fmt.Fprintf(&sb, "!All %s\n", yqs(y.Refs))
		case "seq":
			fmt.Fprintf(&sb, "!Seq %s\n", yqs(y.Refs))
		case "deps":
			fmt.Fprintf(&sb, "!Deps %s\n", yqs(y.Refs))
		case "alias":
			fmt.Fprintf(&sb, "%s\n", yq(y.Refs[0]))
		case "files":
			fmt.Fprintf(&sb, "!Files\n  Target: %s\n  In:\n", yq(y.Refs[0]))
			for _, f := range y.In {
				fmt.Fprintf(&sb, "    - %s\n", yq(f))
			}
			if len(y.Globs) > 0 {
				fmt.Fprintf(&sb, "    - !Glob %s\n", yqs(y.Globs))
			}
			if len(y.In)+len(y.Globs) == 0 {
				sb.WriteString("    []\n")
			}
			fmt.Fprintf(&sb, "  Out: %s\n", yqs(y.Out))
		case "cmd":
			fmt.Fprintf(&sb, "!Command\n  Shell: %s\n", yq("pwd -P; cat; echo err >&2"))
			if y.CDir != "" {
				fmt.Fprintf(&sb, "  Dir: %s\n", yq(y.CDir))
			}
			fmt.Fprintf(&sb, "  Stdin: %s\n", yq(y.Stdin))
			pre := ""
			if y.Append {
				pre = ">> "
			}
			fmt.Fprintf(&sb, "  Stdout: %s\n", yq(pre+y.Stdout))
			if y.Stderr != "" {
				fmt.Fprintf(&sb, "  Stderr: %s\n", yq(y.Stderr))
			}
		case "clean":
			if r.Intn(2) == 0 {
				fmt.Fprintf(&sb, "!Clean %s\n", yqs(y.Files))
			} else {
				fmt.Fprintf(&sb, "!Clean\n  Files: %s\n", yqs(y.Files))
			}
		}
	}
	if at == len(p.Order[dir]) {
		sb.WriteString(decl)
	}
	if sb.Len() == 0 {
		sb.WriteString("{}\n")
	}
	return sb.String()
}

// reads predicts which YAML files get read: those asked for and those that they refer to.
func (p *yproj) reads(dirs []string) map[string]bool {
	seen := map[string]bool{}
	var visit func(d string)
	visit = func(d string) {
		if seen[d] {
			return
		}
		seen[d] = true
		for _, id := range p.Order[d] {
			for _, k := range p.Nodes[id].Kids {
				if o := p.Nodes[k].Dir; o != "" {
					visit(o)
				}
			}
		}
	}
	for _, d := range dirs {
		visit(d)
	}
	return seen
}

func (p *yproj) qname(id int) string { return filepath.Join(p.Nodes[id].Dir, p.Nodes[id].Name) }

type ymodel struct {
	p        *yproj
	fs       map[string]string
	recorded map[string]bool
}

func (m *ymodel) inputs(y *ynode) []string {
	var in []string
	for _, f := range y.In {
		in = append(in, m.p.abs(y.Dir, f))
	}
	for _, g := range y.Globs {
		// Each element of the pattern is matched on its own, which leaves the directory's own name alone.
		base := filepath.Join(m.p.Top, y.Dir)
		pat := path.Clean(g)
		if path.IsAbs(pat) {
			base, pat = filepath.Dir(pat), filepath.Base(pat)
		} else {
			for strings.HasPrefix(pat, "../") {
				base, pat = filepath.Dir(base), pat[3:]
			}
			if d := path.Dir(pat); d != "." {
				base, pat = filepath.Join(base, d), path.Base(pat)
			}
		}
		for f := range m.fs {
			if filepath.Dir(f) == base {
				if ok, _ := path.Match(pat, filepath.Base(f)); ok {
					in = append(in, f)
				}
			}
		}
	}
	sort.Strings(in)
	return slices.Compact(in)
}

func (m *ymodel) run(id int, read map[string]bool, ran map[int]bool, done map[int]bool) {
	if done[id] {
		return
	}
	done[id] = true
	y := m.p.Nodes[id]
	kids := y.Kids
	switch y.Kind {
	case "log":
		ran[id] = true
	case "all", "seq", "alias":
	case "deps":
		kids = append(slices.Clone(kids[1:]), kids[0])
	case "files":
		in := m.inputs(y)
		for _, o := range m.p.Nodes {
			if o.Kind != "files" || !read[o.Dir] {
				continue
			}
			for _, f := range o.Out {
				if slices.Contains(in, m.p.abs(o.Dir, f)) {
					m.run(o.ID, read, ran, done)
				}
			}
		}
		st := m.filesState(y)
		if m.recorded[st] {
			return
		}
		m.run(y.Kids[0], read, ran, done)
		m.recorded[st] = true
		return
	case "cmd":
		wd := filepath.Join(m.p.Top, y.Dir)
		if y.CDir != "" {
			wd = m.p.abs(y.Dir, y.CDir)
		}
		out := m.p.abs(y.Dir, y.Stdout)
		if !y.Append {
			m.fs[out] = ""
		}
		m.fs[out] += wd + "\n" + m.fs[m.p.abs(y.Dir, y.Stdin)]
		if y.Stderr != "" {
			m.fs[m.p.abs(y.Dir, y.Stderr)] = "err\n"
		}
	case "clean":
		for _, f := range y.Files {
			delete(m.fs, m.p.abs(y.Dir, f))
		}
	}
	for _, k := range kids {
		m.run(k, read, ran, done)
	}
}

func (m *ymodel) filesState(y *ynode) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", y.Kids[0])
	part := func(fs []string) {
		sb.WriteString("|")
		sort.Strings(fs)
		for _, f := range slices.Compact(fs) {
			c, ok := m.fs[f]
			fmt.Fprintf(&sb, "%q=%q,%v;", f, c, ok)
		}
	}
	part(m.inputs(y))
	var out []string
	for _, f := range y.Out {
		out = append(out, m.p.abs(y.Dir, f))
	}
	part(out)
	return sb.String()
}

func yamlPathCase(c *Case) {
	r := c.R
	base := must1(filepath.EvalSymlinks(c.Dir()))
	top := filepath.Join(base, "top")
	must(os.MkdirAll(top, 0755))
	p := genYProj(r, top)
	broken := ""
	if len(p.Dirs) > 1 && r.Intn(8) == 0 {
		broken = p.Dirs[1+r.Intn(len(p.Dirs)-1)]
		p.Decl[broken] = []string{"", "_dir: elsewhere\n", "_dir: " + yq("../"+broken) + "\n", "_dir: " + yq(filepath.Join(top, broken)) + "\n", "_dir: ''\n", "_dir: " + yq("x/"+broken) + "\n", "_dir: " + yq(filepath.Base(broken)+"x") + "\n"}[r.Intn(7)]
	}
	texts := map[string]string{}
	for _, d := range p.Dirs {
		t := p.text(r, d)
		f := filepath.Join(top, d, p.Names[d])
		must(os.WriteFile(f, []byte(t), 0644))
		texts[f] = t
		if p.Names[d] == "fab.yaml" && r.Intn(5) == 0 {
			must(os.WriteFile(filepath.Join(top, d, "fab.yml"), []byte("This: is not read\n"), 0644))
		}
	}
	cwd := filepath.Join(base, p.Dirs[0])
	switch r.Intn(4) {
	case 0:
		cwd = filepath.Join(top, p.Dirs[r.Intn(len(p.Dirs))])
	case 1:
		cwd = top
	case 2:
		cwd = filepath.Join(base, "elsewhere")
		must(os.MkdirAll(cwd, 0755))
		for _, f := range []string{"in1", "in2", "g1.src", "g9.src", ".g4.src", "x.txt"} {
			must(os.WriteFile(filepath.Join(cwd, f), []byte("decoy"), 0644))
		}
	}
	toparg := top
	if r.Intn(2) == 0 {
		toparg, _ = filepath.Rel(cwd, top)
	}
	m := &ymodel{p, fileState(top), map[string]bool{}}
	spec := yspec{Proj: p, TopArg: toparg, Cwd: cwd, Results: filepath.Join(base, "results.json")}
	type want struct {
		names []string
		ran   map[int]bool
		fs    map[string]string
		bad   bool
	}
	var wants []want
	ever := map[string]bool{}
	for k := 2 + r.Intn(5); k > 0; k-- {
		var st ystep
		if r.Intn(4) > 0 {
			st.Read = []string{""}
		} else {
			for i := 1 + r.Intn(3); i > 0; i-- {
				d := p.Dirs[r.Intn(len(p.Dirs))]
				if !p.reads(st.Read)[d] {
					st.Read = append(st.Read, d)
				}
			}
		}
		read := p.reads(st.Read)
		// References to names of the top directory do not make it read.
		if !read[""] {
			st.Read = append(st.Read, "")
			read = p.reads(st.Read)
		}
		// What was read before in this process is known as a producer of files, so it must be read again to be known by name.
		for _, d := range p.Dirs {
			if ever[d] && !read[d] {
				st.Read = append(st.Read, d)
				read = p.reads(st.Read)
			}
		}
		for d := range read {
			ever[d] = true
		}
		w := want{ran: map[int]bool{}}
		if k := r.Intn(3); k > 0 && len(wants) > 0 {
			st.Edit = map[string]string{}
			for ; k > 0; k-- {
				f := filepath.Join(top, p.Dirs[r.Intn(len(p.Dirs))], []string{"in1", "in2", "g1.src", "g2.src", "x.txt", "g3.src", ".g4.src", ".g5.src", "unrelated"}[r.Intn(9)])
				if r.Intn(5) == 0 {
					for _, y := range p.Nodes {
						if len(y.Out) > 0 && r.Intn(2) == 0 {
							f = p.abs(y.Dir, y.Out[0])
						}
					}
				}
				st.Edit[f] = fmt.Sprintf("edit %d", r.Intn(1000))
				m.fs[f] = st.Edit[f]
			}
		}
		w.bad = broken != "" && read[broken]
		if !w.bad {
			for _, y := range p.Nodes {
				if read[y.Dir] {
					w.names = append(w.names, p.qname(y.ID))
				}
			}
			sort.Strings(w.names)
			done := map[int]bool{}
			// One at a time: what the Commands and Clean targets of different names do to the same files must not race.
			cand := []int{}
			for _, y := range p.Nodes {
				if read[y.Dir] {
					cand = append(cand, y.ID)
				}
			}
			id := -1
			if len(cand) > 0 {
				id = cand[r.Intn(len(cand))]
			}
			if id >= 0 && p.touches(id, map[int]bool{}) > 1 {
				for _, x := range cand {
					if p.touches(x, map[int]bool{}) <= 1 {
						id = x
					}
				}
			}
			if id >= 0 && p.touches(id, map[int]bool{}) <= 1 {
				st.Run = []string{p.qname(id)}
				m.run(id, read, w.ran, done)
			}
		}
		w.fs = map[string]string{}
		for f, s := range m.fs {
			w.fs[f] = s
		}
		spec.Steps = append(spec.Steps, st)
		wants = append(wants, w)
	}
	sf := filepath.Join(base, "spec.json")
	j, _ := json.Marshal(spec)
	must(os.WriteFile(sf, j, 0644))
	cmd := exec.Command(selfExe, "helper", "yaml", sf)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), "PWD="+cwd)
	out, err := cmd.CombinedOutput()
	wit := map[string]any{"spec": spec, "yaml": texts}
	if err != nil {
		var ee *exec.ExitError
		if strings.Contains(string(out), "panic: harness") || !errors.As(err, &ee) || !fabFrame(string(out)) {
			panic("harness: " + string(out) + err.Error())
		}
		c.Fail(wit, "the process reading the YAML files died: %s", clip(string(out), 3000))
		return
	}
	var res []yresult
	must(json.Unmarshal(must1(os.ReadFile(spec.Results)), &res))
	wit["results"] = res
	for i, x := range res {
		st, w := spec.Steps[i], wants[i]
		c.Event()
		anyErr := ""
		for _, e := range x.ReadErrs {
			anyErr += e
		}
		if w.bad {
			if anyErr == "" {
				c.Fail(wit, "step %d: the YAML file of %s was accepted with the _dir declaration %q", i, broken, p.Decl[broken])
				return
			}
			c.Count("rejected_dir_declarations", 1)
			continue
		}
		if anyErr != "" {
			c.Fail(wit, "step %d: reading the YAML files failed: %s", i, anyErr)
			return
		}
		if !slices.Equal(x.Names, w.names) {
			c.Fail(wit, "step %d: registered names are %q, want %q", i, x.Names, w.names)
			return
		}
		for id, d := range x.Dirs {
			if d != p.Nodes[id].Dir {
				c.Fail(wit, "step %d: the definition of %s was decoded with directory %q", i, p.qname(id), d)
				return
			}
		}
		if x.RunErr != "" {
			c.Fail(wit, "step %d: running %q failed: %s", i, st.Run, x.RunErr)
			return
		}
		for _, id := range x.Ran {
			if !w.ran[id] {
				c.Fail(wit, "step %d: running %q executed %s, which was not to run (it is not part of it, or up to date)", i, st.Run, p.qname(id))
				return
			}
		}
		for id := range w.ran {
			if !slices.Contains(x.Ran, id) {
				c.Fail(wit, "step %d: running %q did not execute %s", i, st.Run, p.qname(id))
				return
			}
		}
		if gone, added, changed := diffSnapshots(w.fs, x.State); len(gone)+len(added)+len(changed) > 0 {
			c.Fail(wit, "step %d: after running %q, files differ from what was to be: missing %q, unexpected %q, with other contents %q", i, st.Run, gone, added, changed)
			return
		}
		c.Count("steps", 1)
		c.Count("leaf_runs", int64(len(x.Ran)))
	}
	if len(p.Dirs) > 1 {
		c.Count("directories", int64(len(p.Dirs)))
		c.Nontrivial(fmt.Sprint(texts))
		if len(p.Nodes) < 6 {
			c.Sample(map[string]any{"yaml": texts, "cwd": cwd, "top": toparg})
		}
	}
}

// touches counts the Commands and Clean targets that a target may run.
func (p *yproj) touches(id int, seen map[int]bool) int {
	if seen[id] {
		return 0
	}
	seen[id] = true
	y := p.Nodes[id]
	n := 0
	if y.Kind == "cmd" || y.Kind == "clean" {
		n = 1
	}
	for _, k := range y.Kids {
		n += p.touches(k, seen)
	}
	return n
}

func init() {
	checks["C20"] = func(m *Mon) {
		m.Parallel("yaml", m.N(2500, 60000), 8, yamlPathCase)
		m.Rule("a case is a project of up to seven directories with a YAML file each, referring to each other (also mutually) and to files by relative, absolute and roundabout names, " +
			"read and run in several steps with edits in between by a process whose current directory is anywhere; names, executed leaves and all files are compared with a model after each step; " +
			"non-trivial = more than one directory; distinct = YAML texts")
	}
}
