package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/bobg/fab"
)

// C24: the registry against a model; concurrent histories checked for linearizability.

type regTarget struct{ id int }

func (*regTarget) Run(context.Context, *fab.Controller) error { return nil }
func (t *regTarget) Desc() string                             { return fmt.Sprintf("desc%d", t.id) }

type (
	regStruct struct{ s []int }
	regFunc   func()
	regMap    map[string]int
	regInt    int
	regChan   chan int
)

func (regStruct) Run(context.Context, *fab.Controller) error { return nil }
func (regStruct) Desc() string                               { return "struct" }
func (regFunc) Run(context.Context, *fab.Controller) error   { return nil }
func (regFunc) Desc() string                                 { return "func" }
func (regMap) Run(context.Context, *fab.Controller) error    { return nil }
func (regMap) Desc() string                                  { return "map" }
func (regInt) Run(context.Context, *fab.Controller) error    { return nil }
func (regInt) Desc() string                                  { return "int" }
func (regChan) Run(context.Context, *fab.Controller) error   { return nil }
func (regChan) Desc() string                                 { return "chan" }

var nonPointers = []fab.Target{regStruct{}, regStruct{[]int{1}}, regFunc(nil), regFunc(func() {}), regMap{}, regMap(nil), regInt(3), regChan(nil), make(regChan), nil}

var regNames = []string{"A", "B", "a", "b/T", "b/U", "Zed", "A1", "A-1", "A 1", "Ünï", "long/path/to/Target", "0", "_x", "日本", "%d", "(", "b"}

func someDoc(r *rand.Rand) string {
	lines := []string{"one line", "  indented", "", "tab\there", "A", "x: y", "trailing ", "%s %d", "ünï\u2028x", "cr\rhere"}
	var out []string
	for k := r.Intn(5); k > 0; k-- {
		out = append(out, lines[r.Intn(len(lines))])
	}
	s := strings.Join(out, "\n")
	if r.Intn(4) == 0 && s != "" {
		s += "\n"
	}
	return s
}

// checkListing parses a target listing and compares it with the names and docs it must show.
func checkListing(out string, names []string, doc func(string) string) string {
	lines := strings.Split(out, "\n")
	if lines[len(lines)-1] != "" {
		return "the listing does not end with a newline"
	}
	lines = lines[:len(lines)-1]
	skipBlank := func() {
		for len(lines) > 0 && strings.TrimSpace(lines[0]) == "" {
			lines = lines[1:]
		}
	}
	for _, n := range names {
		skipBlank()
		if len(lines) == 0 || lines[0] != n {
			return fmt.Sprintf("the listing does not show %q at the start of a line where it belongs, but %q", n, lines)
		}
		lines = lines[1:]
		ws, first := "", true
		for _, dl := range strings.Split(doc(n), "\n") {
			if strings.TrimSpace(dl) == "" {
				if len(lines) > 0 && strings.TrimSpace(lines[0]) == "" {
					lines = lines[1:]
				}
				continue
			}
			if len(lines) == 0 || !strings.HasSuffix(lines[0], dl) {
				return fmt.Sprintf("the listing of %q lacks the line %q of its doc: %q", n, dl, lines)
			}
			w := strings.TrimSuffix(lines[0], dl)
			if w == "" || strings.Trim(w, " \t") != "" {
				return fmt.Sprintf("the line %q of the doc of %q is not indented: %q", dl, n, lines[0])
			}
			if !first && w != ws {
				return fmt.Sprintf("the doc of %q is indented unevenly: %q", n, out)
			}
			ws, first = w, false
			lines = lines[1:]
		}
	}
	skipBlank()
	if len(lines) > 0 {
		return fmt.Sprintf("the listing has more lines: %q", lines)
	}
	return ""
}

func regSeq(c *Case) {
	r := c.R
	con := fab.NewController(c.Dir())
	type ent struct {
		t   fab.Target
		doc string
	}
	reg := map[string]ent{}
	named := map[fab.Target]map[string]bool{}
	var pool []*regTarget
	for i := 0; i < 6; i++ {
		pool = append(pool, &regTarget{i})
	}
	var hist []string
	fail := func(format string, args ...any) { c.Fail(hist, format, args...) }
	for k := 3 + r.Intn(25); k > 0; k-- {
		switch r.Intn(8) {
		case 0: // refused
			t := nonPointers[r.Intn(len(nonPointers))]
			n := regNames[r.Intn(len(regNames))]
			hist = append(hist, fmt.Sprintf("register %q %T", n, t))
			if _, err := con.RegisterTarget(n, "doc", t); err == nil {
				fail("a %T was accepted as a target", t)
				return
			}
			c.Count("refused", 1)
		case 1, 2, 3, 4:
			var t fab.Target = pool[r.Intn(len(pool))]
			if r.Intn(4) == 0 {
				t = fab.All(pool[0])
			}
			n, doc := regNames[r.Intn(len(regNames))], someDoc(r)
			hist = append(hist, fmt.Sprintf("register %q %p %q", n, t, doc))
			got, err := con.RegisterTarget(n, doc, t)
			if err != nil || got != t {
				fail("registering %q: got %v, %v", n, got, err)
				return
			}
			reg[n] = ent{t, doc}
			if named[t] == nil {
				named[t] = map[string]bool{}
			}
			named[t][n] = true
		}
		for _, n := range regNames {
			t, doc := con.RegistryTarget(n)
			e, ok := reg[n]
			if !ok && t != nil || ok && (t != e.t || doc != e.doc) {
				fail("looking up %q gives %v with doc %q, want %v with doc %q", n, t, doc, e.t, e.doc)
				return
			}
		}
		names := con.RegistryNames()
		want := sortedKeys(reg)
		if fmt.Sprintf("%q", names) != fmt.Sprintf("%q", want) {
			fail("the names are %q, want %q", names, want)
			return
		}
		for t, ns := range named {
			d := con.Describe(t)
			if !ns[d] {
				fail("describing a target registered as %q gives %q", sortedKeys(ns), d)
				return
			}
		}
		for _, t := range append([]fab.Target{&regTarget{99}}, nonPointers[0], nonPointers[2], nonPointers[4]) {
			if d := con.Describe(t); !strings.Contains(d, t.Desc()) {
				fail("describing an unregistered target gives %q, want something with %q", d, t.Desc())
				return
			}
		}
		var buf bytes.Buffer
		con.ListTargets(&buf)
		if msg := checkListing(buf.String(), want, func(n string) string { return reg[n].doc }); msg != "" {
			hist = append(hist, buf.String())
			fail("%s", msg)
			return
		}
		c.Count("states_compared", 1)
	}
	c.Nontrivial(fmt.Sprint(sortedKeys(reg), len(hist), hist))
	if len(hist) < 8 {
		c.Sample(hist)
	}
}

type regIn struct {
	op   byte // r, l, n, d
	name string
	t    int
	doc  string
}
type regOut struct {
	names string
	t     int
	doc   string
}

// State: name=target:doc; sorted by name, then | and target@names of every target.
type regState struct {
	m     map[string]regOut
	named map[int]string // target -> ",name," of all the names it ever had
}

var regModel = porcupine.Model{
	Init: func() any { return regState{} },
	Step: func(st, in, out any) (bool, any) {
		s, i, o := st.(regState), in.(regIn), out.(regOut)
		switch i.op {
		case 'r':
			n := regState{map[string]regOut{}, map[int]string{}}
			for k, v := range s.m {
				n.m[k] = v
			}
			for k, v := range s.named {
				n.named[k] = v
			}
			n.m[i.name] = regOut{t: i.t, doc: i.doc}
			if !strings.Contains(n.named[i.t], ","+i.name+",") {
				n.named[i.t] += "," + i.name + ","
			}
			return true, n
		case 'l':
			e, ok := s.m[i.name]
			if !ok {
				return o.t == -1, s
			}
			return o.t == e.t && o.doc == e.doc, s
		case 'n':
			return o.names == strings.Join(sortedKeys(s.m), ","), s
		case 'd':
			if s.named[i.t] == "" {
				return o.names == fmt.Sprintf("unnamed desc%d", i.t), s
			}
			return strings.Contains(s.named[i.t], ","+o.names+","), s
		}
		return false, s
	},
	Equal: func(a, b any) bool {
		x, y := a.(regState), b.(regState)
		if len(x.m) != len(y.m) || len(x.named) != len(y.named) {
			return false
		}
		for k, v := range x.m {
			if y.m[k] != v {
				return false
			}
		}
		for k, v := range x.named {
			if y.named[k] != v {
				return false
			}
		}
		return true
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

func regConc(c *Case) {
	con := fab.NewController(c.Dir())
	var pool []*regTarget
	for i := 0; i < 4; i++ {
		pool = append(pool, &regTarget{i})
	}
	names := []string{"A", "B", "C"}
	var clock atomic.Int64
	var mu sync.Mutex
	var ops []porcupine.Operation
	var wg sync.WaitGroup
	nc := 2 + c.R.Intn(4)
	per := 3 + c.R.Intn(4)
	for k := 0; k < nc; k++ {
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				in := regIn{op: "rrrllnnd"[r.Intn(8)], name: names[r.Intn(len(names))], t: r.Intn(4), doc: fmt.Sprintf("doc%d.%d", k, i)}
				var out regOut
				call := clock.Add(1)
				switch in.op {
				case 'r':
					if _, err := con.RegisterTarget(in.name, in.doc, pool[in.t]); err != nil {
						c.Fail(in, "registering: %v", err)
					}
				case 'l':
					t, doc := con.RegistryTarget(in.name)
					out = regOut{t: -1, doc: doc}
					if t != nil {
						out.t = t.(*regTarget).id
					}
				case 'n':
					out.names = strings.Join(con.RegistryNames(), ",")
				case 'd':
					out.names = con.Describe(pool[in.t])
				}
				ret := clock.Add(1)
				if r.Intn(3) == 0 {
					var buf bytes.Buffer
					con.ListTargets(&buf)
					var shown []string
					for _, l := range strings.Split(buf.String(), "\n") {
						if l != "" && l[0] != ' ' && l[0] != '\t' {
							shown = append(shown, l)
						}
					}
					if !sort.StringsAreSorted(shown) {
						c.Fail(buf.String(), "a listing made during registrations is not sorted")
					}
					for i, s := range shown {
						if strings.Index("ABC", s) < 0 || i > 0 && shown[i-1] == s {
							c.Fail(buf.String(), "a listing made during registrations has a wrong name %q", s)
						}
					}
				}
				mu.Lock()
				ops = append(ops, porcupine.Operation{ClientId: k, Input: in, Call: call, Output: out, Return: ret})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if !porcupine.CheckOperations(regModel, ops) {
		var w []string
		sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		for _, o := range ops {
			w = append(w, fmt.Sprintf("client %d [%d,%d] %s", o.ClientId, o.Call, o.Return, regModel.DescribeOperation(o.Input, o.Output)))
		}
		c.Fail(w, "a concurrent history of registrations and lookups is not that of any sequential order")
		return
	}
	ov := 0
	for i := range ops {
		for j := range ops[:i] {
			if ops[i].ClientId != ops[j].ClientId && ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
				ov++
			}
		}
	}
	c.Count("concurrent_operations", int64(len(ops)))
	c.Count("overlapping_pairs", int64(ov))
	if ov > 0 {
		c.Nontrivial(fmt.Sprint(ops))
	}
}

func init() {
	checks["C24"] = func(m *Mon) {
		m.Parallel("seq", m.N(2500, 40000), 6, regSeq)
		perturbOn.Store(true)
		m.Parallel("conc", m.N(6000, 100000), 4, regConc)
		perturbOn.Store(false)
		m.Count("instrumented_statements_reached", sitesReached())
		m.Rule("sequential cases: random registrations (names, targets, docs, values that are not pointers), every lookup, the name list, descriptions and the listing compared with a model after each step; " +
			"concurrent cases: histories of 6 to 36 operations under perturbed schedules, checked for linearizability against the same model with porcupine; " +
			"distinct = the history; non-trivial concurrent = with overlapping operations")
	}
}
