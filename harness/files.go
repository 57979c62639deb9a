package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
)

// Files histories: a random project of Files rules is edited and built again and again,
// next to an executable model with a virtual file system and the set of recorded states.

// recipe is the nested rule of a Files target. Its output is a function of its parameters, its arguments and its inputs.
type recipe struct {
	ID    string
	Param string
	In    []string
	Out   []string

	fw *fworld
}

func (rc *recipe) Desc() string { return rc.ID }

func (rc *recipe) Run(ctx context.Context, con *fab.Controller) error {
	fw := rc.fw
	fw.mu.Lock()
	fw.executed = append(fw.executed, rc.ID)
	mode := fw.failing[rc.ID]
	fw.mu.Unlock()
	fw.event()
	if fw.onRun != nil {
		fw.onRun(rc)
	}
	if fab.GetDryRun(ctx) {
		return nil
	}
	if mode == "before" {
		return fmt.Errorf("recipe %s fails before writing", rc.ID)
	}
	content := recipeContent(rc.ID, rc.Param, fab.GetArgs(ctx), rc.In, readTree)
	for i, o := range rc.Out {
		must(os.MkdirAll(filepath.Dir(o), 0755))
		must(os.WriteFile(o, []byte(fmt.Sprintf("%d %s", i, content)), 0644))
		if mode == "middle" {
			return fmt.Errorf("recipe %s fails half way", rc.ID)
		}
	}
	if mode == "after" {
		return fmt.Errorf("recipe %s fails after writing", rc.ID)
	}
	return nil
}

// readTree reads the files at and below a path from the real file system.
func readTree(path string) map[string]string {
	res := map[string]string{}
	info, err := os.Stat(path)
	if err != nil {
		return res
	}
	if !info.IsDir() {
		b, err := os.ReadFile(path)
		if err == nil {
			res[path] = string(b)
		}
		return res
	}
	ents, _ := os.ReadDir(path)
	for _, e := range ents {
		for k, v := range readTree(filepath.Join(path, e.Name())) {
			res[k] = v
		}
	}
	return res
}

func recipeContent(id, param string, args, in []string, read func(string) map[string]string) string {
	h := sha256.New()
	fmt.Fprintf(h, "%q %q %q\n", id, param, args)
	all := map[string]string{}
	for _, p := range in {
		for k, v := range read(p) {
			all[k] = v
		}
	}
	keys := make([]string, 0, len(all))
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(h, "%q %q\n", filepath.Base(k), all[k])
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

// tree is the structure of a nested rule.
type tree struct {
	Kind  string   `json:"kind"` // recipe, cmd, all, seq, deps, arg
	ID    string   `json:"id,omitempty"`
	Param string   `json:"param,omitempty"`
	Out   []string `json:"out,omitempty"` // of a recipe, relative to the project
	Named bool     `json:"named,omitempty"`
	Kids  []*tree  `json:"kids,omitempty"`
	Args  []string `json:"args,omitempty"`
	Via   string   `json:"via,omitempty"` // of a cmd: the field of the command that Param is in
}

type rule struct {
	Name   string   `json:"name"`
	In     []string `json:"in"`
	Out    []string `json:"out"`
	Tree   *tree    `json:"tree"`
	SelfIn bool     `json:"self_in,omitempty"`
}

// proj is a project: everything needed to make its targets, in this or another process.
type proj struct {
	Dir   string   `json:"dir"`
	Log   string   `json:"log"` // where commands note that they ran
	Rules []*rule  `json:"rules"`
	YAML  bool     `json:"yaml"`
	Links []string `json:"links,omitempty"` // sources that are symbolic links
	Spell int      `json:"spell,omitempty"` // how the lists of rules spell file names: 0 plainly, otherwise a seed
}

type buildReq struct {
	Targets []string          `json:"targets"`
	Force   bool              `json:"force,omitempty"`
	NoDB    bool              `json:"nodb,omitempty"`
	DryRun  bool              `json:"dryrun,omitempty"`
	Failing map[string]string `json:"failing,omitempty"`
	Reread  bool              `json:"reread,omitempty"`
	Process bool              `json:"process,omitempty"` // in another process
	Shuffle int64             `json:"shuffle,omitempty"` // order and repetition of the list entries
	Verbose bool              `json:"verbose,omitempty"`
	DBFail  string            `json:"dbfail,omitempty"` // operation of the database that fails: has, add
}

type buildRes struct {
	Executed []string `json:"executed"`
	Err      string   `json:"err"`
}

type fworld struct {
	m     *Mon
	p     *proj
	id    int
	con   *fab.Controller
	tgts  map[string]fab.Target
	onRun func(*recipe)

	mu       sync.Mutex
	executed []string
	failing  map[string]string
}

func (fw *fworld) event() {
	if fw.m != nil {
		fw.m.Event()
	}
}

var fworlds sync.Map

func (p *proj) abs(rel string) string { return filepath.Join(p.Dir, rel) }
func (p *proj) absAll(rels []string) []string {
	var res []string
	for _, r := range rels {
		res = append(res, p.abs(r))
	}
	return res
}

func (p *proj) rule(name string) *rule {
	for _, r := range p.Rules {
		if r.Name == name {
			return r
		}
	}
	return nil
}

func leaves(t *tree, fn func(*tree)) {
	if t.Kind == "recipe" || t.Kind == "cmd" {
		fn(t)
	}
	for _, k := range t.Kids {
		leaves(k, fn)
	}
}

func trees(t *tree, fn func(*tree)) {
	fn(t)
	for _, k := range t.Kids {
		trees(k, fn)
	}
}

// vary permutes and repeats list entries, which must make no difference.
func vary(r *rand.Rand, in []string, read func(string) map[string]string) []string {
	res := append([]string(nil), in...)
	for i := 0; i < len(in); i++ {
		switch r.Intn(6) {
		case 0:
			res = append(res, in[i]) // repeated
		case 1:
			if read == nil {
				// Not with outputs: the list of outputs of a rule stays the same in one process,
				// since fab has no way to forget which rule an output once belonged to.
				continue
			}
			for f := range read(in[i]) { // overlapping
				if f != in[i] {
					res = append(res, f)
				}
			}
		}
	}
	sort.Strings(res) // map iteration above
	r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

// spell writes a file name in another way, always the same for a file in a rule.
func (p *proj) spell(r *rule, abs string) string {
	h := fnv.New32()
	fmt.Fprintf(h, "%d %s %s", p.Spell, r.Name, abs)
	dir, base := filepath.Split(abs)
	switch h.Sum32() >> 8 % 6 {
	case 0:
		return dir + "./" + base
	case 1:
		return dir + "/" + base
	case 2:
		return p.Dir + "/../" + filepath.Base(p.Dir) + "/" + strings.TrimPrefix(abs, p.Dir+"/")
	case 3, 4:
		if rel, err := filepath.Rel(must1(os.Getwd()), abs); err == nil {
			return rel
		}
	}
	return abs
}

func (p *proj) lists(r *rule, shuffle int64) (in, out []string) {
	in, out = p.absAll(r.In), p.absAll(r.Out)
	if r.SelfIn {
		in = append(in, out[0])
	}
	if p.Spell != 0 && !p.YAML {
		for _, l := range [][]string{in, out} {
			for i := range l {
				l[i] = p.spell(r, l[i])
			}
		}
	}
	if shuffle != 0 {
		rr := rand.New(rand.NewSource(shuffle + int64(len(r.Name)) + int64(r.Name[len(r.Name)-1])))
		in, out = vary(rr, in, readTree), vary(rr, out, nil)
	}
	return in, out
}

// command makes the command of a cmd leaf.
func (p *proj) command(r *rule, t *tree) *fab.Command {
	q := func(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }
	aux := filepath.Join(filepath.Dir(p.Dir), "aux", fmt.Sprint(paramIndex(t.Param)))
	c := &fab.Command{}
	param, pre := q(t.Param), ""
	switch t.Via {
	case "args":
		c.Args, param = []string{t.Param}, `"$1"`
	case "args2":
		c.Args, param = []string{"x", t.Param, "y"}, `"$2"`
	case "env":
		c.Env, param = []string{"VPARAM=" + t.Param}, `"$VPARAM"`
	case "env2":
		c.Env, param = []string{"V_Z=1", "VPARAM=" + t.Param, "V_A=" + t.ID}, `"$VPARAM"`
	case "dir":
		c.Dir, param = aux, `"$(cat param)"`
	case "stdin":
		c.StdinFile, pre, param = filepath.Join(aux, "param"), "P=$(cat); ", `"$P"`
	case "stdout":
		c.StdoutFile, param = filepath.Join(aux, "out"), "''"
	case "stderr":
		c.StderrFile, param = ">>"+filepath.Join(aux, "out"), "''"
	}
	var sb strings.Builder
	sb.WriteString(pre)
	fmt.Fprintf(&sb, "echo %s >> %s; if test -e %s; then exit 3; fi; ", t.ID, q(p.Log), q(p.Log+".fail."+t.ID))
	fmt.Fprintf(&sb, ": %s; ", param)
	for _, o := range t.Out {
		o := p.abs(o)
		fmt.Fprintf(&sb, "mkdir -p %s; { printf %%s %s; cat /dev/null", q(filepath.Dir(o)), param)
		for _, i := range r.In {
			fmt.Fprintf(&sb, " %s", q(p.abs(i)))
		}
		fmt.Fprintf(&sb, " 2>/dev/null; true; } > %s; ", q(o))
	}
	shell := strings.TrimSuffix(sb.String(), "; ")
	if c.Args != nil {
		c.Cmd, c.Args = "/bin/sh", append([]string{"-c", shell, "sh"}, c.Args...)
	} else {
		c.Shell = shell
	}
	return c
}

// commandYAML is the same for YAML files.
func (p *proj) commandYAML(r *rule, t *tree) string {
	c := p.command(r, t)
	var f []string
	add := func(name, val string) {
		if val != "" {
			f = append(f, name+": "+val)
		}
	}
	str := func(s string) string {
		if s == "" {
			return ""
		}
		return yq(s)
	}
	add("Shell", str(c.Shell))
	add("Cmd", str(c.Cmd))
	if c.Args != nil {
		add("Args", yqs(c.Args))
	}
	if c.Env != nil {
		add("Env", yqs(c.Env))
	}
	add("Dir", str(c.Dir))
	add("Stdin", str(c.StdinFile))
	add("Stdout", str(c.StdoutFile))
	add("Stderr", str(c.StderrFile))
	return "!Command {" + strings.Join(f, ", ") + "}"
}

// define makes the targets of the project.
func (fw *fworld) define(con *fab.Controller, shuffle int64) error {
	fw.con = con
	fw.tgts = map[string]fab.Target{}
	if !fw.p.YAML {
		for _, r := range fw.p.Rules {
			in, out := fw.p.lists(r, shuffle)
			fw.tgts[r.Name] = fab.Files(fw.goTree(r, r.Tree), in, out)
		}
		return nil
	}
	text := fw.yamlText(shuffle)
	if err := os.WriteFile(filepath.Join(fw.p.Dir, "fab.yaml"), []byte(text), 0644); err != nil {
		return err
	}
	if err := con.ReadYAMLFile(""); err != nil {
		return fmt.Errorf("reading %s: %w", text, err)
	}
	for _, r := range fw.p.Rules {
		fw.tgts[r.Name], _ = con.RegistryTarget(r.Name)
		if fw.tgts[r.Name] == nil {
			return fmt.Errorf("target %s is not registered", r.Name)
		}
	}
	return nil
}

func (fw *fworld) goTree(r *rule, t *tree) fab.Target {
	var kids []fab.Target
	for _, k := range t.Kids {
		kids = append(kids, fw.goTree(r, k))
	}
	switch t.Kind {
	case "recipe":
		in := fw.p.absAll(r.In)
		if r.SelfIn {
			in = append(in, fw.p.abs(r.Out[0]))
		}
		return &recipe{ID: t.ID, Param: t.Param, In: in, Out: fw.p.absAll(t.Out), fw: fw}
	case "cmd":
		return fw.p.command(r, t)
	case "all":
		return fab.All(kids...)
	case "seq":
		return fab.Seq(kids...)
	case "deps":
		return fab.Deps(kids[0], kids[1:]...)
	case "arg":
		return fab.ArgTarget(kids[0], t.Args...)
	}
	panic("harness: tree kind " + t.Kind)
}

func yq(s string) string { j, _ := json.Marshal(s); return string(j) }
func yqs(ss []string) string {
	if ss == nil {
		ss = []string{}
	}
	j, _ := json.Marshal(ss)
	return string(j)
}

func (fw *fworld) yamlText(shuffle int64) string {
	var defs []string
	var node func(r *rule, t *tree, top bool) string
	node = func(r *rule, t *tree, top bool) string {
		var kids []string
		for _, k := range t.Kids {
			kids = append(kids, node(r, k, true))
		}
		var text string
		switch t.Kind {
		case "recipe":
			in := fw.p.absAll(r.In)
			if r.SelfIn {
				in = append(in, fw.p.abs(r.Out[0]))
			}
			text = fmt.Sprintf("!vrecipe {w: %d, id: %s, param: %s, in: %s, out: %s}", fw.id, yq(t.ID), yq(t.Param), yqs(in), yqs(fw.p.absAll(t.Out)))
		case "cmd":
			text = fw.p.commandYAML(r, t)
		case "all":
			text = "!All [" + strings.Join(kids, ", ") + "]"
		case "seq":
			text = "!Seq [" + strings.Join(kids, ", ") + "]"
		case "deps":
			text = "!Deps [" + strings.Join(kids, ", ") + "]"
		case "arg":
			text = "!ArgTarget [" + kids[0]
			for _, a := range t.Args {
				text += ", " + yq(a)
			}
			text += "]"
		}
		if t.Named {
			name := fmt.Sprintf("X%d", len(defs))
			defs = append(defs, name+": "+text)
			return name
		}
		return text
	}
	for _, r := range fw.p.Rules {
		in, out := fw.p.lists(r, shuffle)
		if shuffle%2 == 0 { // relative names, too
			rel := func(ss []string) []string {
				var res []string
				for _, s := range ss {
					x, err := filepath.Rel(fw.p.Dir, s)
					must(err)
					res = append(res, x)
				}
				return res
			}
			in, out = rel(in), rel(out)
		}
		defs = append(defs, fmt.Sprintf("%s: !Files {Target: %s, In: %s, Out: %s}", r.Name, node(r, r.Tree, false), yqs(in), yqs(out)))
	}
	rand.New(rand.NewSource(shuffle)).Shuffle(len(defs), func(i, j int) { defs[i], defs[j] = defs[j], defs[i] })
	return strings.Join(defs, "\n") + "\n"
}

func vrecipeDecoder(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
	var y struct {
		W         int
		ID, Param string
		In, Out   []string
	}
	if err := n.Decode(&y); err != nil {
		return nil, err
	}
	w, ok := fworlds.Load(y.W)
	if !ok {
		return nil, fmt.Errorf("no world %d", y.W)
	}
	return &recipe{ID: y.ID, Param: y.Param, In: y.In, Out: y.Out, fw: w.(*fworld)}, nil
}

func init() { fab.RegisterYAMLTarget("vrecipe", vrecipeDecoder) }

// build runs one build in this process.
func (fw *fworld) build(q buildReq, db fab.HashDB) buildRes {
	fw.mu.Lock()
	fw.executed = nil
	fw.failing = q.Failing
	fw.mu.Unlock()
	if q.DBFail != "" {
		mdb := db.(*memDB)
		mdb.setFail(func(op string) error {
			if op == q.DBFail {
				return errFaultyDB
			}
			return nil
		})
		defer mdb.setFail(nil)
	}
	os.Remove(fw.p.Log)
	for id := range q.Failing {
		must(os.WriteFile(fw.p.Log+".fail."+id, nil, 0644))
	}
	con := fab.NewController(fw.p.Dir)
	if q.Reread || fw.tgts == nil || fw.p.YAML {
		if err := fw.define(con, q.Shuffle); err != nil {
			return buildRes{Err: "define: " + err.Error()}
		}
	}
	ctx := context.Background()
	ctx = fab.WithForce(ctx, q.Force)
	ctx = fab.WithDryRun(ctx, q.DryRun)
	ctx = fab.WithVerbose(ctx, q.Verbose)
	if !q.NoDB {
		ctx = fab.WithHashDB(ctx, db)
	}
	var ts []fab.Target
	for _, name := range q.Targets {
		ts = append(ts, fw.tgts[name])
	}
	err := con.Run(ctx, ts...)
	for id := range q.Failing {
		os.Remove(fw.p.Log + ".fail." + id)
	}
	fw.mu.Lock()
	res := buildRes{Executed: append([]string(nil), fw.executed...)}
	fw.mu.Unlock()
	if b, e := os.ReadFile(fw.p.Log); e == nil {
		res.Executed = append(res.Executed, strings.Fields(string(b))...)
	}
	if err != nil {
		res.Err = err.Error()
	}
	return res
}

// memDB is a HashDB in memory which can be made to fail.
type memDB struct {
	mu       sync.Mutex
	m        map[string]bool
	has, add int
	fail     func(op string) error
}

var errFaultyDB = errors.New("the database is faulty")

func (db *memDB) setFail(f func(string) error) {
	db.mu.Lock()
	db.fail = f
	db.mu.Unlock()
}

func newMemDB() *memDB { return &memDB{m: map[string]bool{}} }

func (db *memDB) Has(_ context.Context, h []byte) (bool, error) {
	db.mu.Lock()
	defer db.mu.Unlock()
	db.has++
	if db.fail != nil {
		if err := db.fail("has"); err != nil {
			return false, err
		}
	}
	return db.m[string(h)], nil
}

func (db *memDB) Add(_ context.Context, h []byte) error {
	db.mu.Lock()
	defer db.mu.Unlock()
	db.add++
	if db.fail != nil {
		if err := db.fail("add"); err != nil {
			return err
		}
	}
	db.m[string(h)] = true
	return nil
}

// ---- another process

type helperBuild struct {
	Proj  *proj    `json:"proj"`
	Req   buildReq `json:"req"`
	World int      `json:"world"`
	DBDir string   `json:"dbdir"`
}

func helperFilesBuild(file string) {
	var hb helperBuild
	must(json.Unmarshal(must1(os.ReadFile(file)), &hb))
	fw := &fworld{p: hb.Proj, id: hb.World}
	fworlds.Store(fw.id, fw)
	db, err := fab.OpenHashDB(hb.DBDir)
	must(err)
	out := os.Stdout
	os.Stdout = os.Stderr
	res := fw.build(hb.Req, db)
	must(db.Close())
	must(json.NewEncoder(out).Encode(res))
}

func (fw *fworld) buildInProcess(q buildReq, dbdir string) buildRes {
	file := filepath.Join(fw.p.Dir, "..", fmt.Sprintf("spec%d.json", fw.id))
	j := must1(json.Marshal(helperBuild{fw.p, q, fw.id, dbdir}))
	must(os.WriteFile(file, j, 0644))
	cmd := exec.Command(must1(os.Executable()), "helper", "files-build", file)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		if fabFrame(stderr.String()) {
			return buildRes{Err: "crash: " + stderr.String()}
		}
		panic("harness: helper: " + err.Error() + "\n" + stderr.String())
	}
	var res buildRes
	must(json.Unmarshal(out, &res))
	return res
}

// ---- model

type vfs map[string]string

func (v vfs) read(path string) map[string]string {
	res := map[string]string{}
	if s, ok := v[path]; ok {
		res[path] = s
	}
	for k, s := range v {
		if strings.HasPrefix(k, path+"/") {
			res[k] = s
		}
	}
	return res
}

// fmodel predicts what builds do.
type fmodel struct {
	p        *proj
	fs       vfs
	recorded map[string]map[string]bool // state -> how it was recorded
	failedBy map[string]bool            // states left behind by failed runs
	dryBy    map[string]bool
}

func (m *fmodel) state(r *rule) string {
	var sb strings.Builder
	j, _ := json.Marshal(r.Tree)
	// The lists of recipes inside the tree are derived from the rule's.
	fmt.Fprintf(&sb, "%s|%s|", r.Name, j)
	in := m.p.absAll(r.In)
	if r.SelfIn {
		in = append(in, m.p.abs(r.Out[0]))
	}
	for li, list := range [][]string{in, m.p.absAll(r.Out)} {
		all := map[string]string{}
		for _, p := range list {
			t := m.fs.read(p)
			if len(t) == 0 {
				all[p] = "ABSENT"
			}
			for k, v := range t {
				all[k] = "=" + v
			}
		}
		keys := make([]string, 0, len(all))
		for k := range all {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&sb, "%d %q %q\n", li, k, all[k])
		}
	}
	h := sha256.Sum256([]byte(sb.String()))
	return string(h[:])
}

// producers lists the rules which must run before r.
func (m *fmodel) producers(r *rule) []*rule {
	var res []*rule
	seen := map[string]bool{r.Name: true}
	for _, in := range r.In {
		for dir := in; dir != "." && dir != "/"; dir = filepath.Dir(dir) {
			found := false
			for _, o := range m.p.Rules {
				for _, out := range o.Out {
					if out == dir {
						found = true
						if !seen[o.Name] {
							seen[o.Name] = true
							res = append(res, o)
						}
					}
				}
			}
			if found {
				break
			}
		}
	}
	return res
}

type expectation struct {
	executed map[string]bool   // leaf ids
	skipped  map[string]string // rule -> how the state it was in had been recorded
	ran      map[string]string // rule -> why
	failed   map[string]bool   // rules that fail
	blocked  map[string]bool   // rules not tried since a producer failed
	order    []string
}

func (m *fmodel) predict(q buildReq) *expectation {
	e := &expectation{map[string]bool{}, map[string]string{}, map[string]string{}, map[string]bool{}, map[string]bool{}, nil}
	done := map[string]bool{}
	var visit func(r *rule)
	visit = func(r *rule) {
		if done[r.Name] {
			return
		}
		done[r.Name] = true
		for _, p := range m.producers(r) {
			visit(p)
			if e.failed[p.Name] {
				e.failed[r.Name] = true
				e.blocked[r.Name] = true
			}
		}
		if e.failed[r.Name] {
			return
		}
		e.order = append(e.order, r.Name)
		if q.DryRun {
			m.runTree(r, r.Tree, q, nil, e, true)
			m.dryBy[m.state(r)] = true
			return
		}
		if !q.Force && !q.NoDB {
			if q.DBFail == "has" {
				e.failed[r.Name] = true
				return
			}
			if how := m.recorded[m.state(r)]; how != nil {
				var hs []string
				for h := range how {
					hs = append(hs, h)
				}
				sort.Strings(hs)
				e.skipped[r.Name] = strings.Join(hs, "+")
				return
			}
		}
		why := "changed"
		if st := m.state(r); m.failedBy[st] {
			why = "failed"
		} else if m.dryBy[st] {
			why = "dryrun"
		}
		if q.Force {
			why = "force"
		} else if q.NoDB {
			why = "nodb"
		}
		e.ran[r.Name] = why
		if !m.runTree(r, r.Tree, q, nil, e, false) {
			e.failed[r.Name] = true
			m.failedBy[m.state(r)] = true
			return
		}
		if !q.NoDB && q.DBFail == "add" {
			e.failed[r.Name] = true
			m.failedBy[m.state(r)] = true
			return
		}
		if !q.NoDB {
			st := m.state(r)
			if m.recorded[st] == nil {
				m.recorded[st] = map[string]bool{}
			}
			how := "normal"
			if q.Force {
				how = "force"
			}
			m.recorded[st][how] = true
		}
	}
	for _, name := range q.Targets {
		visit(m.p.rule(name))
	}
	return e
}

func (m *fmodel) runTree(r *rule, t *tree, q buildReq, args []string, e *expectation, dry bool) bool {
	switch t.Kind {
	case "recipe":
		e.executed[t.ID] = true
		mode := q.Failing[t.ID]
		if dry {
			return true
		}
		if mode == "before" {
			return false
		}
		in := m.p.absAll(r.In)
		if r.SelfIn {
			in = append(in, m.p.abs(r.Out[0]))
		}
		content := recipeContent(t.ID, t.Param, args, in, m.fs.read)
		for i, o := range t.Out {
			m.fs[m.p.abs(o)] = fmt.Sprintf("%d %s", i, content)
			if mode == "middle" {
				return false
			}
		}
		return mode != "after"
	case "cmd":
		if dry {
			return true
		}
		e.executed[t.ID] = true
		if q.Failing[t.ID] != "" {
			return false
		}
		content := t.Param
		if t.Via == "stdout" || t.Via == "stderr" {
			content = ""
		}
		for _, i := range r.In {
			content += m.fs[m.p.abs(i)]
		}
		for _, o := range t.Out {
			m.fs[m.p.abs(o)] = content
		}
		return true
	case "all":
		ok := true
		for _, k := range t.Kids {
			ok = m.runTree(r, k, q, args, e, dry) && ok
		}
		return ok
	case "seq":
		for _, k := range t.Kids {
			if !m.runTree(r, k, q, args, e, dry) {
				return false
			}
		}
		return true
	case "deps":
		ok := true
		for _, k := range t.Kids[1:] {
			ok = m.runTree(r, k, q, args, e, dry) && ok
		}
		return ok && m.runTree(r, t.Kids[0], q, args, e, dry)
	case "arg":
		return m.runTree(r, t.Kids[0], q, t.Args, e, dry)
	}
	panic("harness: tree kind " + t.Kind)
}

// ---- generation

type filesOpts struct {
	rules                                         int
	chain                                         float64
	edit, touch, param, tamper, restore, snapshot int
	force, nodb, dry, fail                        float64
	yaml                                          float64
	noop                                          float64 // chance of building again without any change
	process                                       float64
	dbfail                                        float64
	steps                                         int
	cmds                                          float64
}

func genProj(r *rand.Rand, o filesOpts, dir string) (*proj, vfs) {
	p := &proj{Dir: filepath.Join(dir, "p"), Log: filepath.Join(dir, "cmdlog"), YAML: r.Float64() < o.yaml}
	fs := vfs{}
	must(os.MkdirAll(p.Dir, 0755))
	useCmd := r.Float64() < o.cmds
	if r.Intn(3) == 0 {
		p.Spell = 1 + r.Intn(1000)
	}
	if useCmd {
		for i, s := range someParams {
			d := filepath.Join(dir, "aux", fmt.Sprint(i))
			must(os.MkdirAll(d, 0755))
			must(os.WriteFile(filepath.Join(d, "param"), []byte(s), 0644))
		}
	}
	// Sources: files and directories.
	var srcFiles, srcDirs []string
	for i := 1 + r.Intn(4); i > 0; i-- {
		f := fmt.Sprintf("s%d.txt", i)
		if r.Intn(3) == 0 {
			f = fmt.Sprintf("sub%d/s.txt", i)
		}
		srcFiles = append(srcFiles, f)
		fs[p.abs(f)] = someContent(r)
	}
	if !useCmd {
		for i := r.Intn(3); i > 0; i-- {
			d := fmt.Sprintf("d%d", i)
			srcDirs = append(srcDirs, d)
			for k := 1 + r.Intn(3); k > 0; k-- {
				f := fmt.Sprintf("%s/%s", d, []string{"a", "b/c", "b/d/e", "f.go", oddFiles[r.Intn(len(oddFiles))]}[r.Intn(5)])
				fs[p.abs(f)] = someContent(r)
			}
			if r.Intn(6) == 0 { // many files
				for k := 10 + r.Intn(60); k > 0; k-- {
					fs[p.abs(fmt.Sprintf("%s/%s%d", d, []string{"m", "many/", "b/n"}[r.Intn(3)], k))] = fmt.Sprint(k / 3)
				}
			}
			if r.Intn(3) == 0 { // a symbolic link to a file
				f := fmt.Sprintf("%s/%s", d, []string{"link", "b/link"}[r.Intn(2)])
				fs[p.abs(f)] = someContent(r)
				p.Links = append(p.Links, f)
			}
			if r.Intn(4) == 0 { // and to a directory
				f := fmt.Sprintf("%s/ldir", d)
				fs[p.abs(f)+"/q"] = someContent(r)
				p.Links = append(p.Links, f)
			}
		}
	}
	var outs []string // outputs so far, for chaining; directories' members too
	nr := 1 + r.Intn(o.rules)
	leafNo := 0
	for i := 0; i < nr; i++ {
		ru := &rule{Name: fmt.Sprintf("R%d", i)}
		for k := r.Intn(3); k > 0; k-- {
			ru.In = append(ru.In, srcFiles[r.Intn(len(srcFiles))])
		}
		if len(srcDirs) > 0 && r.Intn(2) == 0 {
			ru.In = append(ru.In, srcDirs[r.Intn(len(srcDirs))])
		}
		if r.Intn(6) == 0 {
			ru.In = append(ru.In, fmt.Sprintf("absent%d", i))
		}
		for len(outs) > 0 && r.Float64() < o.chain && len(ru.In) < 8 {
			x := outs[len(outs)-1-r.Intn((len(outs)+1)/2)]
			ru.In = append(ru.In, x)
		}
		ru.In = dedup(ru.In)
		// The nested rule, one output (file or directory) per leaf.
		leaf := func() *tree {
			leafNo++
			t := &tree{Kind: "recipe", ID: fmt.Sprintf("leaf%d", leafNo), Param: someParam(r), Named: p.YAML && r.Intn(3) == 0}
			if useCmd && r.Intn(2) == 0 {
				t.Kind = "cmd"
				t.Via = []string{"", "", "args", "args2", "env", "env2", "dir", "stdin", "stdout", "stderr"}[r.Intn(10)]
				t.ID = fmt.Sprintf("cmd%d", leafNo)
			}
			if r.Intn(8) == 0 {
				return t // no output
			}
			if t.Kind == "recipe" && r.Intn(4) == 0 && !useCmd {
				d := fmt.Sprintf("od%d", leafNo)
				for k := 1 + r.Intn(3); k > 0; k-- {
					t.Out = append(t.Out, fmt.Sprintf("%s/%s%d", d, []string{"x", "y/z", "a/b/c/d/e/f"}[r.Intn(3)], k))
				}
				ru.Out = append(ru.Out, d)
				if r.Intn(4) == 0 { // overlapping
					ru.Out = append(ru.Out, t.Out[0])
				}
			} else {
				f := fmt.Sprintf("o%d", leafNo)
				if r.Intn(3) == 0 {
					f = fmt.Sprintf("out/o%d", leafNo)
				}
				t.Out = []string{f}
				ru.Out = append(ru.Out, f)
			}
			return t
		}
		var build func(depth int) *tree
		build = func(depth int) *tree {
			k := r.Intn(8)
			if depth == 0 || k < 3 {
				return leaf()
			}
			t := &tree{Kind: []string{"all", "seq", "deps", "arg", "seq"}[k-3], Named: p.YAML && r.Intn(4) == 0}
			n := 1 + r.Intn(2)
			if t.Kind == "deps" {
				n++
			}
			if t.Kind == "arg" {
				n = 1
				for a := r.Intn(3); a > 0; a-- {
					t.Args = append(t.Args, someParam(r))
				}
			}
			for ; n > 0; n-- {
				t.Kids = append(t.Kids, build(depth-1))
			}
			return t
		}
		ru.Tree = build(3)
		nl := 0
		leaves(ru.Tree, func(t *tree) { nl++ })
		if nl == 1 && ru.Tree.Kind == "recipe" && len(ru.Tree.Out) == 1 && r.Intn(6) == 0 {
			ru.SelfIn = true
		}
		p.Rules = append(p.Rules, ru)
		leaves(ru.Tree, func(t *tree) {
			if len(t.Out) == 0 {
				return
			}
			outs = append(outs, t.Out[r.Intn(len(t.Out))])
			if strings.HasPrefix(t.Out[0], "od") {
				outs = append(outs, strings.SplitN(t.Out[0], "/", 2)[0])
			}
		})
		if useCmd {
			outs = filterDirs(outs)
		}
	}
	return p, fs
}

func filterDirs(ss []string) []string {
	var res []string
	for _, s := range ss {
		if !strings.HasPrefix(s, "od") {
			res = append(res, s)
		}
	}
	return res
}

func dedup(ss []string) []string {
	seen := map[string]bool{}
	var res []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	return res
}

var someParams = []string{"a", "b", "ab", "", "x y", "é"}

func someParam(r *rand.Rand) string { return someParams[r.Intn(len(someParams))] }

func paramIndex(s string) int {
	for i, x := range someParams {
		if x == s {
			return i
		}
	}
	panic("harness: unknown parameter " + s)
}

// oddFiles are files in directories which somebody might think do not count.
var oddFiles = []string{".hidden", ".git/config", "x~", "#x#", "_x", "testdata/t", "vendor/v", "node_modules/n", "a b", "é", ".fab", "x.tmp", "x.o", "fab.yaml", "hash.db", "b/.x/.y", "-n", "a*", "CVS/x", "x_test.go", "\n", "a\\b", "\"q\""}

// someContent comes from a small pool, so that states recur, with pairs of equal size.
func someContent(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1: // larger than any buffer, differing in one byte somewhere
		b := []byte(strings.Repeat("0123456789abcdef", 6000+r.Intn(2)*14000))
		pos := []int{0, 1, len(b) / 2, len(b) - 1, 32768, 65536, 4096}[r.Intn(7)]
		b[pos] = 'X'
		return string(b)
	default:
		return fmt.Sprintf("content %c%c", 'a'+rune(r.Intn(2)), 'a'+rune(r.Intn(3)))
	}
}

// writeKeeping writes a file without changing its modification time, if it existed.
func writeFile(r *rand.Rand, path, content string, keepTime bool) {
	info, err := os.Lstat(path)
	must(os.MkdirAll(filepath.Dir(path), 0755))
	if r.Intn(3) == 0 && err == nil && info.Mode().IsRegular() { // replace by rename
		tmp := path + ".tmp"
		must(os.WriteFile(tmp, []byte(content), 0644))
		must(os.Rename(tmp, path))
	} else {
		must(os.WriteFile(path, []byte(content), 0644))
	}
	if keepTime && err == nil {
		must(os.Chtimes(path, info.ModTime(), info.ModTime()))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type histStep struct {
	Op   string    `json:"op"`
	What string    `json:"what,omitempty"`
	Req  *buildReq `json:"build,omitempty"`
	Res  *buildRes `json:"result,omitempty"`
}

// runHistory runs one random history and returns what contradicts the model.
func (c *Case) runHistory(o filesOpts) (discs []disc, hist []histStep, p *proj) {
	r := c.R
	dir := c.Dir()
	p, fs := genProj(r, o, dir)
	fw := &fworld{m: c.Mon, p: p, id: int(worldSeq.Add(1))}
	fworlds.Store(fw.id, fw)
	defer fworlds.Delete(fw.id)
	for i, l := range p.Links {
		l = p.abs(l)
		real := filepath.Join(dir, fmt.Sprintf("real%d", i))
		must(os.MkdirAll(filepath.Dir(l), 0755))
		if _, ok := fs[l]; ok {
			must(os.WriteFile(real, nil, 0644))
		} else {
			must(os.Mkdir(real, 0755))
		}
		must(os.Symlink(real, l))
	}
	for _, f := range sortedKeys(fs) {
		writeFile(r, f, fs[f], false)
	}
	m := &fmodel{p: p, fs: fs, recorded: map[string]map[string]bool{}, failedBy: map[string]bool{}, dryBy: map[string]bool{}}
	// One source may be a symbolic link to a file elsewhere.
	linkTo := ""
	if r.Intn(4) == 0 {
		for _, f := range sortedKeys(fs) {
			if strings.HasSuffix(f, ".txt") {
				linkTo = filepath.Join(dir, "elsewhere")
				must(os.WriteFile(linkTo, []byte(fs[f]), 0644))
				must(os.Remove(f))
				must(os.Symlink(linkTo, f))
				break
			}
		}
	}
	useProcess := r.Float64() < o.process
	var db fab.HashDB = newMemDB()
	dbdir := filepath.Join(dir, "db")
	if useProcess {
		s, err := fab.OpenHashDB(dbdir)
		must(err)
		defer s.Close()
		db = s
	}
	sources := sortedKeys(fs)
	var snaps []vfs
	anyRecorded, anySkip, anyRun := false, 0, 0
	steps := 4 + r.Intn(o.steps)
	redefined, shuffled := true, false
	for step := 0; step < steps; step++ {
		// Edit.
		if r.Float64() >= o.noop {
			for k := 1 + r.Intn(2); k > 0; k-- {
				total := o.edit + o.touch + o.param + o.tamper + o.restore + o.snapshot
				x := r.Intn(total)
				switch {
				case x < o.edit:
					f := sources[r.Intn(len(sources))]
					switch {
					case r.Intn(6) == 0 && strings.HasSuffix(f, ".txt") && !strings.HasPrefix(filepath.Base(f), "s.") && linkTo == "":
						// Remove a plain source file, or bring it back.
						if _, ok := fs[f]; ok {
							must(os.Remove(f))
							delete(fs, f)
							hist = append(hist, histStep{Op: "remove", What: f})
							continue
						}
						fallthrough
					default:
						if strings.Contains(f, "/d") && r.Intn(3) == 0 {
							// Another file in the same directory tree.
							f = filepath.Join(filepath.Dir(f), fmt.Sprintf("n%d", r.Intn(3)))
							if _, ok := fs[f]; ok && r.Intn(2) == 0 {
								must(os.Remove(f))
								delete(fs, f)
								hist = append(hist, histStep{Op: "remove", What: f})
								continue
							}
						}
						fs[f] = someContent(r)
						writeFile(r, f, fs[f], r.Intn(2) == 0)
						hist = append(hist, histStep{Op: "write", What: f})
					}
				case x < o.edit+o.touch:
					for _, f := range sortedKeys(fs) {
						if r.Intn(2) == 0 {
							t := time.Unix(1600000000+int64(r.Intn(100000000)), 0)
							must(os.Chtimes(f, t, t))
							if r.Intn(2) == 0 {
								must(os.Chmod(f, []os.FileMode{0644, 0755, 0600, 0711, 0444}[r.Intn(5)]))
							}
							hist = append(hist, histStep{Op: "touch", What: f})
						}
					}
				case x < o.edit+o.touch+o.param:
					ru := p.Rules[r.Intn(len(p.Rules))]
					var ts []*tree
					trees(ru.Tree, func(t *tree) {
						if t.Kind == "recipe" || t.Kind == "cmd" || t.Kind == "arg" || t.Kind == "all" || t.Kind == "seq" {
							ts = append(ts, t)
						}
					})
					t := ts[r.Intn(len(ts))]
					switch t.Kind {
					case "arg":
						t.Args = nil
						for a := r.Intn(3); a > 0; a-- {
							t.Args = append(t.Args, someParam(r))
						}
					case "all":
						if r.Intn(2) == 0 && !t.Named {
							t.Kind = "seq"
						}
					case "seq":
						if r.Intn(2) == 0 && !t.Named {
							t.Kind = "all"
						} else if len(t.Kids) > 1 {
							t.Kids[0], t.Kids[1] = t.Kids[1], t.Kids[0]
						}
					default:
						t.Param = someParam(r)
					}
					redefined = true
					hist = append(hist, histStep{Op: "rule", What: ru.Name + " " + t.Kind + " " + t.ID})
				case x < o.edit+o.touch+o.param+o.tamper:
					var all []string
					for _, ru := range p.Rules {
						for _, out := range ru.Out {
							all = append(all, sortedKeys(fs.read(p.abs(out)))...)
						}
					}
					if len(all) == 0 {
						continue
					}
					f := all[r.Intn(len(all))]
					if r.Intn(2) == 0 {
						must(os.Remove(f))
						delete(fs, f)
						pruneEmpty(p.Dir, filepath.Dir(f))
						hist = append(hist, histStep{Op: "remove", What: f})
					} else {
						s := fs[f]
						if len(s) > 0 && r.Intn(2) == 0 {
							b := []byte(s)
							b[r.Intn(len(b))] ^= 1
							s = string(b)
						} else {
							s += "x"
						}
						fs[f] = s
						writeFile(r, f, s, r.Intn(2) == 0)
						hist = append(hist, histStep{Op: "tamper", What: f})
					}
				case x < o.edit+o.touch+o.param+o.tamper+o.restore:
					if len(snaps) == 0 {
						continue
					}
					s := snaps[r.Intn(len(snaps))]
					for f := range fs {
						if _, ok := s[f]; !ok {
							must(os.Remove(f))
							delete(fs, f)
							pruneEmpty(p.Dir, filepath.Dir(f))
						}
					}
					for f, v := range s {
						if fs[f] != v || !exists(f) {
							fs[f] = v
							writeFile(r, f, v, false)
						}
					}
					hist = append(hist, histStep{Op: "restore"})
				default:
					s := vfs{}
					for k, v := range fs {
						s[k] = v
					}
					snaps = append(snaps, s)
					hist = append(hist, histStep{Op: "snapshot"})
				}
			}
		}
		// Build.
		// Lists with overlapping entries name files that existed when they were made, so they serve for one build.
		q := buildReq{Reread: redefined || shuffled || r.Intn(2) == 0, Verbose: r.Intn(8) == 0}
		if p.YAML || (q.Reread && r.Intn(3) > 0) {
			q.Shuffle = r.Int63()
		}
		if r.Intn(2) == 0 {
			q.Targets = []string{p.Rules[len(p.Rules)-1].Name}
		} else {
			for _, ru := range p.Rules {
				if r.Intn(2) == 0 {
					q.Targets = append(q.Targets, ru.Name)
				}
			}
			r.Shuffle(len(q.Targets), func(i, j int) { q.Targets[i], q.Targets[j] = q.Targets[j], q.Targets[i] })
		}
		if len(q.Targets) == 0 {
			q.Targets = []string{p.Rules[0].Name}
		}
		q.Force = r.Float64() < o.force
		q.NoDB = r.Float64() < o.nodb
		q.DryRun = r.Float64() < o.dry
		if r.Float64() < o.fail {
			q.Failing = map[string]string{}
			for _, ru := range p.Rules {
				leaves(ru.Tree, func(t *tree) {
					if r.Intn(4) == 0 {
						q.Failing[t.ID] = []string{"before", "middle", "after"}[r.Intn(3)]
					}
				})
			}
		}
		q.Process = useProcess && r.Intn(2) == 0
		if o.dbfail > 0 && !useProcess && !q.DryRun && r.Float64() < o.dbfail {
			q.DBFail = []string{"has", "add"}[r.Intn(2)]
		}
		e := m.predict(q)
		hist = append(hist, histStep{Op: "build", Req: &q})
		c.noteHist(p, hist)
		var res buildRes
		if q.Process {
			res = fw.buildInProcess(q, dbdir)
		} else {
			res = fw.build(q, db)
			if q.Reread {
				redefined, shuffled = false, q.Shuffle != 0
			}
		}
		hist[len(hist)-1].Res = &res
		ds := m.judge(q, e, res)
		if p.YAML { // the definitions are a file of the project, too
			os.Remove(filepath.Join(p.Dir, "fab.yaml"))
		}
		ds = append(ds, m.compareFS(q, e)...)
		if len(ds) > 0 {
			return ds, hist, p
		}
		anyRecorded = anyRecorded || len(e.ran) > 0
		anySkip += len(e.skipped)
		anyRun += len(e.ran)
		c.Count("builds", 1)
		c.Count("rules_skipped_as_up_to_date", int64(len(e.skipped)))
		c.Count("rules_executed", int64(len(e.ran)))
		c.Count("rules_failed_or_blocked", int64(len(e.failed)))
	}
	if anySkip > 0 && anyRun > 1 {
		j, _ := json.Marshal(hist)
		c.Nontrivial(string(j))
	}
	return nil, hist, p
}

func (c *Case) noteHist(p *proj, hist []histStep) {
	j, _ := json.Marshal(map[string]any{"project": p, "history": hist})
	c.Note(string(j))
}

func exists(f string) bool { _, err := os.Stat(f); return err == nil }

// pruneEmpty removes directories left empty: whether an empty directory differs from none is not specified.
func pruneEmpty(root, dir string) {
	for strings.HasPrefix(dir, root+"/") {
		if syscall.Rmdir(dir) != nil {
			return
		}
		dir = filepath.Dir(dir)
	}
}

func (m *fmodel) judge(q buildReq, e *expectation, res buildRes) (discs []disc) {
	say := func(props []string, format string, args ...any) {
		discs = append(discs, disc{props, fmt.Sprintf(format, args...)})
	}
	if strings.HasPrefix(res.Err, "define: ") {
		say([]string{"C07", "C08", "C09", "C10", "C12", "C19"}, "defining the targets failed: %s", res.Err)
		return
	}
	if strings.HasPrefix(res.Err, "crash: ") {
		say([]string{"C07", "C08", "C09", "C10", "C12"}, "the process running the build crashed: %s", clip(res.Err, 2000))
		return
	}
	got := map[string]int{}
	for _, id := range res.Executed {
		got[id]++
	}
	direct := map[string]bool{}
	for _, t := range q.Targets {
		direct[t] = true
	}
	for _, r := range m.p.Rules {
		leaves(r.Tree, func(t *tree) {
			n := got[t.ID]
			want := e.executed[t.ID]
			if q.DryRun {
				return
			}
			switch {
			case n > 1:
				say([]string{"C01"}, "%s of rule %s was executed %d times in one build", t.ID, r.Name, n)
			case n == 1 && !want:
				how, skipped := e.skipped[r.Name]
				switch {
				case skipped:
					props := []string{"C08"}
					if how == "force" {
						props = append(props, "C12")
					}
					say(props, "%s of rule %s was executed although its state is one that an earlier successful run (%s) had recorded", t.ID, r.Name, how)
				case e.blocked[r.Name]:
					say([]string{"C09", "C10"}, "%s of rule %s was executed although a producer of its inputs failed", t.ID, r.Name)
				default:
					say([]string{"C04", "C10"}, "%s of rule %s was executed unexpectedly", t.ID, r.Name)
				}
			case n == 0 && want:
				var props []string
				why := e.ran[r.Name]
				switch {
				case why == "force" || why == "nodb":
					props = []string{"C12"}
				case why == "failed":
					props = []string{"C10", "C07"}
				case why == "dryrun":
					props = []string{"C11", "C07"}
				default:
					props = []string{"C07"}
				}
				if !direct[r.Name] {
					props = append(props, "C09")
				}
				say(props, "%s of rule %s was not executed (%s), no successful run has recorded its present state", t.ID, r.Name, why)
			}
		})
	}
	if (res.Err != "") != (len(e.failed) > 0) {
		props := []string{"C09", "C10"}
		if len(e.failed) == 0 {
			props = []string{"C07", "C08", "C09", "C10", "C12"}
		}
		say(props, "the build returned error %q, rules expected to fail: %v", clip(res.Err, 500), sortedKeys(e.failed))
	}
	return
}

// compareFS compares the real files with the model's.
func (m *fmodel) compareFS(q buildReq, e *expectation) (discs []disc) {
	real := readTree(m.p.Dir)
	var diff []string
	for _, k := range sortedKeys(m.fs) {
		if v, ok := real[k]; !ok {
			diff = append(diff, "missing "+k)
		} else if v != m.fs[k] {
			diff = append(diff, fmt.Sprintf("%s is %q, want %q", k, clip(v, 80), clip(m.fs[k], 80)))
		}
	}
	for k := range real {
		if _, ok := m.fs[k]; !ok {
			diff = append(diff, "unexpected "+k)
		}
	}
	if len(diff) > 0 {
		props := []string{"C09"}
		if q.DryRun {
			props = []string{"C11"}
		}
		discs = append(discs, disc{props, "after the build the files are not what the rules produce: " + strings.Join(diff, "; ")})
	}
	return
}

func filesCheck(m *Mon, prop string, o filesOpts, quick, thorough int) {
	m.silenceStdout()
	perturbOn.Store(true)
	m.Parallel("history", m.N(quick, thorough), 7, func(c *Case) {
		perturbEpoch.Store(uint64(c.R.Int63()))
		discs, hist, p := c.runHistory(o)
		for _, x := range discs {
			for _, pr := range x.props {
				if pr == prop {
					c.Fail(map[string]any{"project": p, "history": hist}, "%s", x.msg)
					return
				}
			}
		}
		if len(discs) == 0 {
			c.Sample(map[string]any{"project": p, "history": hist})
		}
	})
	m.Rule("a case is a random project of Files rules (Go or YAML, nested All/Seq/Deps/ArgTarget/named rules, chained outputs, directories, symbolic links) and a random history of " +
		"edits, touches, rule changes, tampering with outputs, restored snapshots and builds (normal, forced, without database, dry run, failing, in another process), " +
		"compared with a model of file contents and recorded states; distinct = the history with results; non-trivial = at least one rule skipped as up to date and two executed")
}

func init() {
	base := filesOpts{rules: 4, chain: 0.5, edit: 6, touch: 1, param: 3, tamper: 3, restore: 2, snapshot: 1, yaml: 0.4, noop: 0.2, process: 0.02, steps: 14, cmds: 0.1, fail: 0.1, force: 0.05, nodb: 0.05, dry: 0.05}
	checks["C07"] = func(m *Mon) {
		o := base
		o.param, o.noop, o.edit, o.cmds = 6, 0.1, 8, 0.3
		filesCheck(m, "C07", o, 2500, 30000)
		m.Parallel("bulk", m.N(24, 400), 6, bulkCase)
	}
	checks["C08"] = func(m *Mon) {
		o := base
		o.noop, o.touch, o.restore, o.snapshot, o.yaml, o.process = 0.45, 3, 4, 3, 0.5, 0.04
		filesCheck(m, "C08", o, 2500, 30000)
		m.Parallel("bulk", m.N(8, 400), 6, bulkCase)
	}
	checks["C09"] = func(m *Mon) {
		o := base
		o.rules, o.chain, o.fail = 8, 0.75, 0.2
		filesCheck(m, "C09", o, 1600, 25000)
	}
	checks["C12"] = func(m *Mon) {
		o := base
		o.force, o.nodb, o.noop, o.restore, o.snapshot = 0.35, 0.2, 0.4, 3, 2
		filesCheck(m, "C12", o, 2500, 30000)
	}
}
