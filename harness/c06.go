package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/proto"
	"gopkg.in/yaml.v3"
)

// API storms, run with the race detector.
// While a storm is on, the harness itself does not synchronize its goroutines:
// a counter or a lock of its own would order calls that fab leaves unordered, and so hide races from the detector.

// stormTarget is a target that uses its controller while it runs.
type stormTarget struct {
	N    int
	Ops  []string
	Kids []fab.Target
}

func (t *stormTarget) Desc() string { return fmt.Sprintf("storm %d", t.N) }

var errStorm = errors.New("this target fails")

func (t *stormTarget) Run(ctx context.Context, con *fab.Controller) error {
	for _, op := range t.Ops {
		switch op {
		case "indentf":
			con.Indentf("target %d with %d arguments", t.N, len(fab.GetArgs(ctx)))
		case "describe":
			con.Describe(t)
		case "register":
			if _, err := con.RegisterTarget(fmt.Sprintf("self%d", t.N), fmt.Sprintf("doc self%d", t.N), t); err != nil {
				return err
			}
		case "copier":
			fmt.Fprintf(con.IndentingCopier(io.Discard, "  "), "line %d\n", t.N)
		case "run":
			if err := con.Run(ctx, t.Kids...); err != nil {
				return err
			}
		case "names":
			con.RegistryNames()
		case "fail":
			return errStorm
		}
	}
	return nil
}

// touchTarget makes a file.
type touchTarget struct{ Path string }

func (*touchTarget) Desc() string { return "touch" }
func (t *touchTarget) Run(ctx context.Context, con *fab.Controller) error {
	if fab.GetDryRun(ctx) {
		return nil
	}
	return os.WriteFile(t.Path, []byte("touched"), 0644)
}

type poolTarget struct {
	target fab.Target
	desc   string
	mayErr bool
}

// roomy makes a slice with spare capacity, which is the user's.
func roomy[T any](r *rand.Rand, elems []T, spare T) []T {
	res := make([]T, len(elems), len(elems)+r.Intn(5))
	copy(res, elems)
	for i := len(res); i < cap(res); i++ {
		res[:i+1][i] = spare
	}
	return res
}

// configOf renders what the user configured: exported fields, slices up to their capacity, nested targets.
func configOf(v reflect.Value, seen map[uintptr]bool, sb *strings.Builder) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		configOf(v.Elem(), seen, sb)
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "%s@%x", v.Type(), v.Pointer())
		if !v.Type().Implements(reflect.TypeOf((*fab.Target)(nil)).Elem()) || seen[v.Pointer()] || v.Elem().Kind() != reflect.Struct {
			return
		}
		seen[v.Pointer()] = true
		if v.CanInterface() {
			if m, ok := v.Interface().(json.Marshaler); ok { // a name: what it resolves to is not configuration
				j, _ := m.MarshalJSON()
				sb.Write(j)
				return
			}
		}
		sb.WriteString("{")
		for i := 0; i < v.Elem().NumField(); i++ {
			if f := v.Elem().Type().Field(i); f.IsExported() {
				sb.WriteString(f.Name + ":")
				configOf(v.Elem().Field(i), seen, sb)
				sb.WriteString(" ")
			}
		}
		sb.WriteString("}")
	case reflect.Slice:
		fmt.Fprintf(sb, "[%d/%d:", v.Len(), v.Cap())
		for i, full := 0, v.Slice(0, v.Cap()); i < full.Len(); i++ {
			sb.WriteString(" ")
			configOf(full.Index(i), seen, sb)
		}
		sb.WriteString("]")
	case reflect.Func:
		fmt.Fprintf(sb, "func %x", v.Pointer())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(sb, "%t", v.Bool())
	case reflect.Int:
		fmt.Fprintf(sb, "%d", v.Int())
	default:
		sb.WriteString(v.Type().String())
	}
}

func (c *Case) stormPool(dir string) ([]poolTarget, []string) {
	r := c.R
	var pool []poolTarget
	var desc []string
	pick := func() poolTarget { return pool[r.Intn(len(pool))] }
	spareT := &stormTarget{N: -1}
	strs := func(ss ...string) []string { return roomy(r, ss, "spare") }
	n := 4 + r.Intn(10)
	for i := 0; i < n; i++ {
		k := r.Intn(13)
		if len(pool) == 0 {
			k = r.Intn(4)
		}
		var p poolTarget
		kids := func() ([]fab.Target, bool, string) {
			var ts []fab.Target
			may := false
			d := ""
			for m := r.Intn(4); m > 0; m-- {
				x := pick()
				ts, may, d = append(ts, x.target), may || x.mayErr, d+" "+x.desc[:min(2, len(x.desc))]
			}
			return roomy(r, ts, fab.Target(spareT)), may, d
		}
		switch k {
		case 0, 1, 2:
			t := &stormTarget{N: i}
			for m := r.Intn(6); m > 0; m-- {
				op := []string{"indentf", "describe", "register", "copier", "run", "names", "indentf", "register"}[r.Intn(8)]
				if r.Intn(40) == 0 {
					op, p.mayErr = "fail", true
				}
				t.Ops = append(t.Ops, op)
			}
			if len(pool) > 0 {
				ks, may, _ := kids()
				t.Kids = ks
				p.mayErr = p.mayErr || may
			}
			p.target, p.desc = t, fmt.Sprintf("t%d%v", i, t.Ops)
		case 3:
			cmd := &fab.Command{Cmd: "/bin/true", Args: strs("a", "b"), Env: strs("A=1", "B=2")}
			switch r.Intn(6) {
			case 0:
				cmd = &fab.Command{Shell: "echo hello", Env: strs("A=1")}
			case 1:
				cmd.Stdout = io.Discard
			case 2:
				cmd.StdoutFile = filepath.Join(dir, "stdout")
				cmd.StderrFile = cmd.StdoutFile
			case 3:
				cmd.StdoutFn = func(ctx context.Context, con *fab.Controller) io.Writer { return con.IndentingCopier(io.Discard, "") }
			case 4:
				cmd.StdinFile, cmd.Dir = "/dev/null", dir
			}
			p.target, p.desc = cmd, "cmd"
		case 4:
			ts, may, d := kids()
			p = poolTarget{fab.All(ts...), "all" + d, may}
		case 5:
			ts, may, d := kids()
			p = poolTarget{fab.Seq(ts...), "seq" + d, may}
		case 6:
			ts, may, d := kids()
			x := pick()
			p = poolTarget{fab.Deps(x.target, ts...), "deps" + d, may || x.mayErr}
		case 7, 8:
			x := pick()
			p = poolTarget{fab.ArgTarget(x.target, strs("x", "-y")...), "arg " + x.desc, x.mayErr}
		case 9:
			cl := &fab.Clean{Files: strs(filepath.Join(dir, "gone"), filepath.Join(dir, "b"), filepath.Join(dir, "a/c")), Autoclean: r.Intn(2) == 0}
			p = poolTarget{cl, "clean", true}
		case 10, 11:
			out := filepath.Join(dir, fmt.Sprintf("pool%d.out", i))
			in := []string{filepath.Join(dir, "src1")}
			for _, q := range pool {
				if f, ok := strings.CutPrefix(q.desc, "files "); ok && r.Intn(2) == 0 {
					in = append(in, f)
				}
			}
			t := fab.Files(&touchTarget{out}, strs(in...), strs(out), fab.Autoclean(r.Intn(2) == 0))
			p = poolTarget{t, "files " + out, true}
		case 12:
			x := pick()
			p = poolTarget{fab.F(func(ctx context.Context, con *fab.Controller) error { return con.Run(ctx, x.target) }), "f " + x.desc, x.mayErr}
		}
		pool = append(pool, p)
		desc = append(desc, p.desc)
	}
	return pool, desc
}

const stormYAML = `
# doc Y1
Y1: !All [Y2, sub/S1, !Command {Cmd: /bin/true, Args: [a, b]}]
# doc Y2
Y2: !Seq
  - !ArgTarget [Y3, a, -b]
  - !Command {Shell: "true"}
# doc Y3
Y3: !vstorm {}
# doc Y4
Y4: !Clean {Files: !vlist [], Autoclean: false}
# doc Y5
Y5: !Deps {Pre: [Y3, Y2], Post: Y3}
# doc Y6
Y6: !Files {Target: !Command {Shell: "true"}, In: [src1], Out: [yout], Autoclean: true}
`

const stormSubYAML = `
_dir: sub
# doc S1
S1: !Seq [./S2, "../sub/S2"]
# doc S2
S2: !vstorm {}
`

func stormDecoder(k int) fab.YAMLTargetFunc {
	return func(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
		return &stormTarget{N: 1000 + k, Ops: []string{"indentf", "describe"}}, nil
	}
}

func (c *Case) storm(i int) {
	r := c.R
	dir := c.Dir()
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
	must(os.WriteFile(filepath.Join(dir, "fab.yaml"), []byte(stormYAML), 0644))
	must(os.WriteFile(filepath.Join(dir, "sub", "fab.yaml"), []byte(stormSubYAML), 0644))
	must(os.WriteFile(filepath.Join(dir, "src1"), []byte("x"), 0644))
	for k := 0; k < 6; k++ { // read only when they are referred to
		must(os.MkdirAll(filepath.Join(dir, fmt.Sprintf("lazy%d", k)), 0755))
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("lazy%d/fab.yaml", k)), []byte(fmt.Sprintf("_dir: lazy%d\n# doc L\nL: !All [ ../lazy%d/L2, ../lazy%d/L ]\nL2: !vstorm {}\n", k, k, (k+1)%6)), 0644))
	}
	withProto, withGo := i%8 == 3, i%40 == 7
	if withProto {
		must(os.WriteFile(filepath.Join(dir, "a.proto"), []byte("syntax = \"proto3\";\nimport \"b.proto\";\nmessage A { B b = 1; }\n"), 0644))
		must(os.WriteFile(filepath.Join(dir, "b.proto"), []byte("syntax = \"proto3\";\nmessage B {}\n"), 0644))
	}
	if withGo {
		must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module x\n\ngo 1.20\n"), 0644))
		must(os.WriteFile(filepath.Join(dir, "x.go"), []byte("package x\n"), 0644))
	}
	fab.RegisterYAMLTarget("vstorm", stormDecoder(0))
	fab.RegisterYAMLStringList("vlist", func(*fab.Controller, *yaml.Node, string) ([]string, error) { return []string{"none"}, nil })

	pool, poolDesc := c.stormPool(dir)
	byTarget := map[fab.Target]int{}
	for k, p := range pool {
		byTarget[p.target] = k
	}
	var cons []*fab.Controller
	for k := 1 + r.Intn(3); k > 0; k-- {
		con := fab.NewController(dir)
		must(con.ReadYAMLFile(""))
		must(con.ReadYAMLFile("sub"))
		cons = append(cons, con)
	}
	var roots []fab.Target
	for _, p := range pool {
		roots = append(roots, p.target)
	}
	for _, con := range cons {
		for _, name := range con.RegistryNames() {
			t, _ := con.RegistryTarget(name)
			roots = append(roots, t)
		}
	}
	config := func() []string {
		var res []string
		for _, t := range roots {
			var sb strings.Builder
			configOf(reflect.ValueOf(t), map[uintptr]bool{}, &sb)
			res = append(res, sb.String())
		}
		return res
	}
	before := config()

	var db fab.HashDB
	switch r.Intn(4) {
	case 0:
		s, err := fab.OpenHashDB(filepath.Join(dir, "db"))
		must(err)
		defer s.Close()
		db = s
	case 1, 2:
		db = newMemDB()
	}
	yamlNames := []string{"Y1", "Y2", "Y3", "Y4", "Y5", "Y6", "sub/S1", "sub/S2"}
	ng := 2 + r.Intn(7)
	type result struct {
		ops      []string
		problems []string
		regs     [][]string // per controller, names registered
		outs     []string
	}
	results := make([]*result, ng)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < ng; g++ {
		g, gr := g, rand.New(rand.NewSource(r.Int63()))
		res := &result{regs: make([][]string, len(cons))}
		results[g] = res
		nops := 3 + gr.Intn(12)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			say := func(format string, args ...any) { res.problems = append(res.problems, fmt.Sprintf(format, args...)) }
			own := map[int][]string{}
			for op := 0; op < nops; op++ {
				ci := gr.Intn(len(cons))
				con := cons[ci]
				ctx := context.Background()
				if gr.Intn(3) == 0 {
					ctx = fab.WithVerbose(ctx, true)
				}
				if gr.Intn(4) == 0 {
					ctx = fab.WithForce(ctx, true)
				}
				if gr.Intn(6) == 0 {
					ctx = fab.WithDryRun(ctx, true)
				}
				if db != nil && gr.Intn(3) > 0 {
					ctx = fab.WithHashDB(ctx, db)
				}
				k := gr.Intn(15)
				what := ""
				switch k {
				case 0, 1, 2, 3:
					var ts []fab.Target
					may := false
					for m := 1 + gr.Intn(3); m > 0; m-- {
						p := pool[gr.Intn(len(pool))]
						ts, may = append(ts, p.target), may || p.mayErr
					}
					runOn := con
					if gr.Intn(4) == 0 {
						runOn = fab.NewController(dir)
					}
					what = "run"
					if err := runOn.Run(ctx, ts...); err != nil && !may {
						say("running targets none of which can fail returned %s", err)
					}
				case 4:
					x := gr.Intn(len(pool))
					name := fmt.Sprintf("n%d", gr.Intn(6))
					if gr.Intn(2) == 0 {
						name = fmt.Sprintf("own%d.%d", g, op)
						own[ci] = append(own[ci], name)
					}
					t, err := con.RegisterTarget(name, fmt.Sprintf("doc %s %d", name, x), pool[x].target)
					if err != nil || t != pool[x].target {
						say("RegisterTarget returned %v, %v", t, err)
					}
					res.regs[ci] = append(res.regs[ci], name)
					what = "register"
				case 5:
					name := fmt.Sprintf("n%d", gr.Intn(6))
					if t, doc := con.RegistryTarget(name); t != nil {
						if x, ok := byTarget[t]; !ok || doc != fmt.Sprintf("doc %s %d", name, x) {
							say("looking up %s gives target %d with documentation %q", name, x, doc)
						}
					}
					what = "lookup"
				case 6:
					names := con.RegistryNames()
					if !sort.StringsAreSorted(names) {
						say("RegistryNames is not sorted: %q", names)
					}
					for _, n := range append(append([]string(nil), own[ci]...), yamlNames...) {
						if !slices.Contains(names, n) {
							say("RegistryNames does not have %s, registered before", n)
						}
					}
					what = "names"
				case 7:
					var buf bytes.Buffer
					con.ListTargets(&buf)
					for _, n := range own[ci] {
						if !strings.Contains(buf.String(), n+"\n    doc "+n) {
							say("the list of targets does not have %s with its documentation:\n%s", n, clip(buf.String(), 1000))
						}
					}
					what = "list"
				case 8:
					con.Describe(pool[gr.Intn(len(pool))].target)
					what = "describe"
				case 9:
					var err error
					switch gr.Intn(5) {
					case 3, 4:
						err = con.ReadYAML(strings.NewReader(fmt.Sprintf("# doc Z%d\nZ%d: lazy%d/L2\n", g, g, gr.Intn(6))), "")
					case 0:
						err = con.ReadYAMLFile("")
					case 1:
						err = con.ReadYAMLFile("sub")
					case 2:
						err = con.ReadYAML(strings.NewReader(stormYAML), "")
					}
					if err != nil {
						say("reading YAML: %s", err)
					}
					what = "yaml"
				case 10:
					name := yamlNames[gr.Intn(len(yamlNames))]
					t, doc := con.RegistryTarget(name)
					if t == nil || doc != "doc "+filepath.Base(name) {
						say("looking up %s gives %v with documentation %q", name, t, doc)
						break
					}
					err := con.Run(ctx, t)
					if err != nil && name != "Y4" && name != "Y6" {
						say("running %s: %s", name, err)
					}
					what = "run " + name
				case 11:
					fab.RegisterYAMLTarget("vstorm", stormDecoder(gr.Intn(5)))
					fab.RegisterYAMLTarget(fmt.Sprintf("vstorm%d", g), stormDecoder(g))
					fab.RegisterYAMLStringList("vlist", func(*fab.Controller, *yaml.Node, string) ([]string, error) {
						return []string{"none"}, nil
					})
					what = "register tag"
				case 12:
					out := filepath.Join(dir, fmt.Sprintf("made.%d.%d", g, op))
					fab.Files(&touchTarget{out}, []string{filepath.Join(dir, "src1")}, []string{out}, fab.Autoclean(true))
					res.outs = append(res.outs, out)
					what = "files"
				case 13:
					con.Indentf("hello %d", g)
					var buf bytes.Buffer
					w := con.IndentingCopier(&buf, fmt.Sprintf("[%d] ", g))
					fmt.Fprintf(w, "one %d\ntwo", g)
					fmt.Fprintf(w, " %d\n", g)
					lines := strings.Split(buf.String(), "\n")
					if len(lines) != 3 || strings.TrimLeft(lines[0], " ") != fmt.Sprintf("[%d] one %d", g, g) || strings.TrimLeft(lines[1], " ") != fmt.Sprintf("[%d] two %d", g, g) {
						say("an IndentingCopier wrote %q", buf.String())
					}
					what = "indent"
				case 14:
					what = "paths"
					con.JoinPath("a", "b")
					con.RelPath(filepath.Join(dir, "a"))
					if _, err := con.ParseArgs([]string{"Y1", "sub/S1"}); err != nil {
						say("ParseArgs: %s", err)
					}
					if withProto {
						t, err := proto.Proto([]string{filepath.Join(dir, "a.proto")}, []string{filepath.Join(dir, "pout")}, []string{dir}, []string{"--descriptor_set_out=" + filepath.Join(dir, "pout")})
						if err != nil {
							say("proto.Proto: %s", err)
							break
						}
						con.Run(ctx, t)
						what = "proto"
					}
					if withGo && gr.Intn(2) == 0 {
						if _, err := golang.Deps(dir, false, true); err != nil {
							say("golang.Deps: %s", err)
						}
						what = "golang"
					}
				}
				res.ops = append(res.ops, what)
			}
		}()
	}
	close(start)
	wg.Wait()

	witness := map[string]any{"pool": poolDesc, "controllers": len(cons)}
	var sig [][]string
	for g, res := range results {
		sig = append(sig, res.ops)
		c.Count("api_calls", int64(len(res.ops)))
		for _, p := range res.problems {
			witness["ops"] = sig
			c.Fail(witness, "goroutine %d: %s", g, p)
			return
		}
	}
	witness["ops"] = sig
	// What was registered is there, everything else is not.
	for ci, con := range cons {
		want := map[string]bool{}
		for _, n := range yamlNames {
			want[n] = true
		}
		for _, res := range results {
			for _, n := range res.regs[ci] {
				want[n] = true
			}
		}
		for _, n := range con.RegistryNames() {
			if strings.HasPrefix(n, "Z") || strings.HasPrefix(n, "lazy") {
				continue
			}
			if !want[n] && !strings.HasPrefix(n, "self") {
				c.Fail(witness, "%s is registered, which nobody did", n)
				return
			}
			delete(want, n)
			t, doc := con.RegistryTarget(n)
			if t == nil || !strings.HasPrefix(doc, "doc ") {
				c.Fail(witness, "after the storm looking up %s gives %v with documentation %q", n, t, doc)
				return
			}
			if d := con.Describe(t); strings.HasPrefix(d, "unnamed") {
				c.Fail(witness, "after the storm Describe of the target registered as %s says %s", n, d)
				return
			}
		}
		if len(want) > 0 {
			c.Fail(witness, "lost from the registry: %v", sortedKeys(want))
			return
		}
	}
	after := config()
	for k := range before {
		if before[k] != after[k] {
			c.Fail(witness, "running targets changed the configuration of one: before %s, after %s", clip(before[k], 1500), clip(after[k], 1500))
			return
		}
	}
	// Files targets made during the storm produce their outputs for a consumer, and are cleaned.
	var outs []string
	for _, res := range results {
		outs = append(outs, res.outs...)
	}
	if len(outs) > 0 {
		consumer := filepath.Join(dir, "consumer")
		con := fab.NewController(dir)
		err := con.Run(context.Background(), fab.Files(&touchTarget{consumer}, outs, []string{consumer}))
		for _, o := range outs {
			if !exists(o) {
				c.Fail(witness, "the producer of %s, a Files target made during the storm, was not run for its consumer (%v)", o, err)
				return
			}
		}
		if err := con.Run(context.Background(), &fab.Clean{Autoclean: true}); err != nil {
			c.Fail(witness, "Clean after the storm: %s", err)
			return
		}
		for _, o := range outs {
			if exists(o) {
				c.Fail(witness, "%s, the output of a Files target made during the storm, is not cleaned", o)
				return
			}
		}
		c.Count("files_targets_made", int64(len(outs)))
	}
	j, _ := json.Marshal(witness)
	c.Nontrivial(string(j))
	c.Count("goroutines", int64(ng))
	c.Count("targets_compared", int64(len(before)))
	c.Sample(witness)
}

func init() {
	checks["C06"] = func(m *Mon) {
		m.silenceStdout()
		// One storm at a time: the registries of outputs are global.
		n := 0
		m.Parallel("storm", m.N(800, 12000), 1, func(c *Case) {
			fmt.Sscanf(c.ID, "storm/%d", &n)
			c.storm(n)
		})
		m.Rule("a case is 2 to 8 goroutines calling the API on shared controllers and a shared random pool of targets (built with the race detector), without any synchronization of the harness's own while they do; " +
			"race reports of the detector, contents of the registries, values looked up and the configuration of all targets before and after (slices up to their capacity) are judged; distinct = pool and calls")
	}
}
