package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
)

// C02: fresh targets are always executed and get their own outcome.

// counted is what every target of this monitor reports to.
type counted struct {
	n   atomic.Int32
	err error
}

func (c *counted) run() error { c.n.Add(1); return c.err }

type (
	ct8  struct{ c *counted }
	ct16 struct {
		c *counted
		x int
	}
	ct24 struct {
		c    *counted
		x, y int
	}
	ct32 struct {
		x, y, z int
		c       *counted
	}
	ct64 struct {
		c *counted
		x [7]int
	}
)

func (t *ct8) Run(context.Context, *fab.Controller) error  { return t.c.run() }
func (t *ct16) Run(context.Context, *fab.Controller) error { return t.c.run() }
func (t *ct24) Run(context.Context, *fab.Controller) error { return t.c.run() }
func (t *ct32) Run(context.Context, *fab.Controller) error { return t.c.run() }
func (t *ct64) Run(context.Context, *fab.Controller) error { return t.c.run() }
func (t *ct8) Desc() string                                { return "ct8" }
func (t *ct16) Desc() string                               { return "ct16" }
func (t *ct24) Desc() string                               { return "ct24" }
func (t *ct32) Desc() string                               { return "ct32" }
func (t *ct64) Desc() string                               { return "ct64" }

// The address of an outer is that of its first field, at every level.
type (
	inner0 struct{ c *counted }
	inner1 struct {
		inner0
		d *counted
	}
	inner2 struct {
		inner1
		e *counted
	}
	arr [2]inner2 // its address is that of its first element
)

func (t *inner0) Run(context.Context, *fab.Controller) error { return t.c.run() }
func (t *inner1) Run(context.Context, *fab.Controller) error { return t.d.run() }
func (t *inner2) Run(context.Context, *fab.Controller) error { return t.e.run() }
func (t *arr) Run(context.Context, *fab.Controller) error    { return arrErr(t) }
func (t *inner0) Desc() string                               { return "inner0" }
func (t *inner1) Desc() string                               { return "inner1" }
func (t *inner2) Desc() string                               { return "inner2" }
func (t *arr) Desc() string                                  { return "arr" }

func arrErr(t *arr) error { t[1].c.n.Add(1); return t[1].c.err }

// Types without any fields: all their values may have one address.
type (
	zs1 struct{}
	zs2 struct{}
	zs3 [0]int
)

var zsCount [3]counted

func (t *zs1) Run(context.Context, *fab.Controller) error { return zsCount[0].run() }
func (t *zs2) Run(context.Context, *fab.Controller) error { return zsCount[1].run() }
func (t *zs3) Run(context.Context, *fab.Controller) error { return zsCount[2].run() }
func (t *zs1) Desc() string                               { return "zs1" }
func (t *zs2) Desc() string                               { return "zs2" }
func (t *zs3) Desc() string                               { return "zs3" }

var c02decoded sync.Map // key -> *counted

func init() {
	fab.RegisterYAMLTarget("vcounted", func(_ *fab.Controller, n *yaml.Node, _ string) (fab.Target, error) {
		c, ok := c02decoded.LoadAndDelete(n.Value)
		if !ok {
			return nil, fmt.Errorf("no counted %s", n.Value)
		}
		return &ct8{c.(*counted)}, nil
	})
	checks["C02"] = checkC02
}

func checkC02(m *Mon) {
	m.silenceStdout()
	m.Rule("a case is one long-lived controller on which targets of many kinds are created, run once and dropped, with garbage collections in between, " +
		"or families of targets at one address (first fields, zero-size types); each fresh target must be executed and report its own error. " +
		"Distinct non-trivial = (kind, size class, order) combinations in which an address was seen for at least two different targets")
	m.Parallel("churn", m.N(24, 200), 4, func(c *Case) { c02churn(c) })
	m.Parallel("nested", m.N(400, 4000), 4, func(c *Case) { c02nested(c) })
	m.Parallel("yaml", m.N(20, 200), 4, func(c *Case) { c02yaml(c) })
	// Zero-size targets share counters: one at a time.
	for i := 0; i < m.N(50, 500); i++ {
		m.Case(fmt.Sprintf("zero/%d", i), c02zero)
	}
}

func c02churn(c *Case) {
	con := fab.NewController(c.Dir())
	ctx := context.Background()
	rounds := c.N(40, 80)
	seen := map[string]string{} // address -> what was there; strings, so that nothing is kept alive
	reused := 0
	for round := 0; round < rounds; round++ {
		n := 20 + c.R.Intn(60)
		for i := 0; i < n; i++ {
			k := &counted{}
			if c.R.Intn(3) == 0 {
				k.err = fmt.Errorf("own error of %d/%d", round, i)
			}
			var t fab.Target
			kind := c.R.Intn(11)
			switch kind {
			case 0:
				t = &ct8{k}
			case 1:
				t = &ct16{c: k}
			case 2:
				t = &ct24{c: k}
			case 3:
				t = &ct32{c: k}
			case 4:
				t = &ct64{c: k}
			case 5:
				t = fab.F(func(context.Context, *fab.Controller) error { return k.run() })
			case 6:
				t = fab.All(&ct8{k})
			case 7:
				t = fab.Seq(&ct16{c: k})
			case 8:
				t = fab.ArgTarget(&ct24{c: k}, "x")
			case 9:
				t = fab.Deps(&ct8{k}, fab.All())
			case 10:
				t = fab.Files(&ct8{k}, nil, nil)
			}
			addr := fmt.Sprintf("%p", t)
			what := fmt.Sprintf("%T", t)
			old, ok := seen[addr]
			if ok {
				reused++
				c.Nontrivial(old + ">" + what)
			}
			seen[addr] = what
			err := con.Run(ctx, t)
			if got := k.n.Load(); got < 1 {
				c.Fail(map[string]any{"round": round, "type": what, "address": addr, "earlier_target_at_this_address": old}, "a fresh target of type %s was not executed", what)
				return
			}
			if k.err == nil && err != nil || k.err != nil && !errors.Is(err, k.err) {
				c.Fail(map[string]any{"round": round, "type": what}, "a fresh target reported %v, its own error is %v", err, k.err)
				return
			}
			c.Event()
		}
		runtime.GC()
	}
	c.Count("targets_run_then_collected", int64(len(seen)+reused))
	c.Count("addresses_seen_again", int64(reused))
	c.Nontrivial(fmt.Sprintf("churn %d %d", len(seen), rounds))
	c.Sample(map[string]any{"rounds": rounds, "addresses": len(seen), "addresses_seen_again": reused})
}

func c02nested(c *Case) {
	con := fab.NewController(c.Dir())
	ctx := context.Background()
	var ks [7]*counted
	for i := range ks {
		ks[i] = &counted{}
		if c.R.Intn(2) == 0 {
			ks[i].err = fmt.Errorf("own error %d", i)
		}
	}
	a := &arr{}
	a[0] = inner2{inner1{inner0{ks[0]}, ks[1]}, ks[2]}
	a[1] = inner2{inner1{inner0{ks[3]}, ks[4]}, ks[5]}
	type pair struct {
		t fab.Target
		k *counted
	}
	ps := []pair{{&a[0].inner0, ks[0]}, {&a[0].inner1, ks[1]}, {&a[0], ks[2]}, {a, ks[3]}, {&a[1].inner1, ks[4]}, {&a[1], ks[5]}}
	c.R.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	mode := c.R.Intn(3)
	var ts []fab.Target
	order := ""
	for _, p := range ps {
		ts = append(ts, p.t)
		order += p.t.Desc()
	}
	var err error
	switch mode {
	case 0:
		for _, p := range ps {
			e := con.Run(ctx, p.t)
			if p.k.err == nil && e != nil || p.k.err != nil && !errors.Is(e, p.k.err) {
				c.Fail(order, "target %s (at the address of others of other types) reported %v, its own error is %v", p.t.Desc(), e, p.k.err)
				return
			}
			err = errors.Join(err, e)
		}
	case 1:
		err = con.Run(ctx, ts...)
	default:
		err = con.Run(ctx, fab.All(ts...))
	}
	for _, p := range ps {
		if n := p.k.n.Load(); n < 1 {
			c.Fail(order, "target %s was not executed; targets of other types at the same address had been run", p.t.Desc())
			return
		}
		if p.k.err != nil && !errors.Is(err, p.k.err) {
			c.Fail(order, "the error of target %s is not reported", p.t.Desc())
			return
		}
	}
	c.Nontrivial(fmt.Sprint("nested ", mode, order))
}

func c02zero(c *Case) {
	con := fab.NewController(c.Dir())
	ts := []fab.Target{&zs1{}, &zs2{}, &zs3{}}
	var before [3]int32
	for i := range zsCount {
		before[i] = zsCount[i].n.Load()
		zsCount[i].err = nil
		if c.R.Intn(2) == 0 {
			zsCount[i].err = fmt.Errorf("own error of type %d", i)
		}
	}
	order := c.R.Perm(3)
	for _, i := range order {
		err := con.Run(context.Background(), ts[i])
		if n := zsCount[i].n.Load() - before[i]; n < 1 {
			c.Fail(order, "zero-size target %s was not executed after zero-size targets of other types", ts[i].Desc())
			return
		}
		if (err != nil) != (zsCount[i].err != nil) || err != nil && !errors.Is(err, zsCount[i].err) {
			c.Fail(order, "zero-size target %s reported %v, its own error is %v", ts[i].Desc(), err, zsCount[i].err)
			return
		}
	}
	c.Nontrivial(fmt.Sprint("zero", order))
}

// c02yaml re-reads definitions into one controller: the new ones replace the old ones, which become garbage.
func c02yaml(c *Case) {
	con := fab.NewController(c.Dir())
	ctx := context.Background()
	for round := 0; round < c.N(60, 200); round++ {
		var sb strings.Builder
		n := 1 + c.R.Intn(8)
		ks := make([]*counted, n)
		for i := range ks {
			key := fmt.Sprintf("%s/%d/%d", c.ID, round, i)
			ks[i] = &counted{}
			if c.R.Intn(4) == 0 {
				ks[i].err = fmt.Errorf("own error %s", key)
			}
			c02decoded.Store(key, ks[i])
			fmt.Fprintf(&sb, "L%d: !vcounted %q\nA%d: L%d\nS%d: !All [A%d, L%d]\n", i, key, i, i, i, i, i)
		}
		must(con.ReadYAML(strings.NewReader(sb.String()), ""))
		for i := range ks {
			name := []string{"L", "A", "S"}[c.R.Intn(3)]
			t, _ := con.RegistryTarget(fmt.Sprintf("%s%d", name, i))
			err := con.Run(ctx, t)
			if got := ks[i].n.Load(); got < 1 {
				c.Fail(map[string]any{"round": round, "via": name}, "a target defined anew in YAML was not executed")
				return
			}
			if k := ks[i]; k.err == nil && err != nil || k.err != nil && !errors.Is(err, k.err) {
				c.Fail(map[string]any{"round": round, "via": name}, "a target defined anew in YAML reported %v, its own error is %v", err, k.err)
				return
			}
			c.Event()
		}
		runtime.GC()
	}
	c.Nontrivial("yaml" + c.ID)
}
