package main

import (
	"context"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/bobg/fab"
)

// C23: ParseArgs against a model, and the arguments seen by every leaf of random target graphs.

type argLeaf struct {
	name string
	got  [][]string
}

func (l *argLeaf) Run(ctx context.Context, con *fab.Controller) error {
	args := fab.GetArgs(ctx)
	l.got = append(l.got, append([]string{}, args...))
	return nil
}
func (l *argLeaf) Desc() string { return "argLeaf" }

var argNames = []string{"A", "B", "build", "a/b", "sub/T", "-x", "--", "", " ", "A B", "ünïcode", "x\ny", "%s", "-", "A/", "../A", "\xff\xfe", "--flag=1", "c"}

func parseCase(c *Case) {
	r := c.R
	con := fab.NewController(c.Dir())
	reg := map[string]fab.Target{}
	leaf := map[string]*argLeaf{}
	names := append([]string{}, argNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names[:r.Intn(len(names)+1)] {
		l := &argLeaf{name: n}
		var t fab.Target = l
		switch r.Intn(6) {
		case 0:
			t = fab.All(l)
		case 1:
			t = fab.Seq(l)
		case 2:
			t = fab.Deps(l)
		case 3:
			t = fab.Files(l, nil, []string{filepath.Join(c.Dir(), "absent")})
		}
		must1(con.RegisterTarget(n, "", t))
		reg[n], leaf[n] = t, l
	}
	var args []string
	k := r.Intn(6)
	if r.Intn(8) == 0 {
		k = r.Intn(40)
	}
	for ; k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			args = append(args, oddString(r))
		default:
			args = append(args, argNames[r.Intn(len(argNames))])
		}
	}
	if r.Intn(20) == 0 {
		args = nil
	}
	given := append([]string{}, args...)
	wit := map[string]any{"registered": sortedKeys(reg), "args": fmt.Sprintf("%q", given)}
	targets, err := con.ParseArgs(args)
	if !reflect.DeepEqual(append([]string{}, args...), given) {
		c.Fail(wit, "ParseArgs modified its argument: %q", args)
		return
	}
	if len(given) > 1 && strings.HasPrefix(given[1], "-") {
		c.Count("name_with_options", 1)
		t, ok := reg[given[0]]
		if !ok {
			if err == nil || len(targets) > 0 {
				c.Fail(wit, "unknown target %q with options: got %d targets, error %v", given[0], len(targets), err)
			} else if !strings.Contains(err.Error(), given[0]) {
				c.Fail(wit, "the error does not name the unknown target %q: %v", given[0], err)
			}
			return
		}
		if err != nil || len(targets) != 1 {
			c.Fail(wit, "got %d targets, error %v, want the one target %q with its arguments", len(targets), err, given[0])
			return
		}
		_ = t
		if err := con.Run(context.Background(), targets...); err != nil {
			c.Fail(wit, "running %q with its arguments: %v", given[0], err)
			return
		}
		for n, l := range leaf {
			if n != given[0] {
				if len(l.got) > 0 {
					c.Fail(wit, "target %q ran", n)
				}
				continue
			}
			if len(l.got) != 1 || !reflect.DeepEqual(l.got[0], given[1:]) {
				c.Fail(wit, "target %q saw the arguments %q, want %q", n, l.got, given[1:])
			}
		}
		c.Nontrivial(fmt.Sprintf("opt %q", given))
		return
	}
	var unknown []string
	var want []fab.Target
	for _, a := range given {
		if t, ok := reg[a]; ok {
			want = append(want, t)
		} else {
			unknown = append(unknown, a)
		}
	}
	if len(unknown) > 0 {
		c.Count("unknown_names", 1)
		if err == nil || len(targets) > 0 {
			c.Fail(wit, "unknown targets %q: got %d targets, error %v", unknown, len(targets), err)
			return
		}
		for _, u := range unknown {
			if !strings.Contains(err.Error(), u) {
				c.Fail(wit, "the error does not name the unknown target %q: %v", u, err)
			}
		}
		if len(unknown) < len(given) {
			c.Nontrivial(fmt.Sprintf("unk %q %q", given, sortedKeys(reg)))
		}
		return
	}
	if err != nil || len(targets) != len(want) {
		c.Fail(wit, "got %d targets, error %v, want %d targets", len(targets), err, len(want))
		return
	}
	for i := range want {
		if targets[i] != want[i] {
			c.Fail(wit, "target %d is not the one registered as %q", i, given[i])
			return
		}
	}
	c.Count("name_lists", 1)
	if err := con.Run(fab.WithArgs(context.Background(), "outer"), targets...); err != nil {
		c.Fail(wit, "running: %v", err)
		return
	}
	sel := map[string]bool{}
	for _, a := range given {
		sel[a] = true
	}
	for n, l := range leaf {
		k := 0
		if sel[n] {
			k = 1
		}
		if len(l.got) != k || k == 1 && !reflect.DeepEqual(l.got[0], []string{"outer"}) {
			c.Fail(wit, "target %q ran with the arguments %q", n, l.got)
		}
	}
	if len(given) > 1 {
		c.Nontrivial(fmt.Sprintf("list %q", given))
	}
}

func init() {
	checks["C23"] = func(m *Mon) {
		m.Parallel("parse", m.N(8000, 200000), 6, parseCase)
		dagCheck(m, "C23", dagOpts{seq: true, args: true, files: true, yaml: true, multi: true, fail: 0.1, maxLeaf: 8, maxInner: 14, clients: 3, reqs: 2, dup: 0.2}, 3000, 60000)
		m.Rule("parse cases: random registries and argument lists (odd strings, hyphens, unknown and repeated names), the result compared with a model and run to see which leaves run with which arguments; " +
			"graph cases: random target graphs with nested ArgTargets (Go and YAML), the arguments seen by every leaf compared with those its requesters can pass on; " +
			"distinct = the argument list, or the graph with its observed event order")
	}
}
