package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
)

// A random directed acyclic graph of targets, what running it should do, and a log of what it did.

type nodeKind string

const (
	kLeaf  nodeKind = "leaf"  // an observed action: a custom target type or F
	kAll   nodeKind = "all"   //
	kSeq   nodeKind = "seq"   //
	kDeps  nodeKind = "deps"  // kids[0] is the main target
	kArg   nodeKind = "arg"   // ArgTarget
	kGrp   nodeKind = "grp"   // custom target calling con.Run, observed
	kFiles nodeKind = "files" // Files target: kids[0] is the subtarget, pre are other Files targets it takes input from
	kBad   nodeKind = "bad"   // not a usable target
)

type node struct {
	ID    int      `json:"id"`
	Kind  nodeKind `json:"kind"`
	Kids  []int    `json:"kids,omitempty"`
	Pre   []int    `json:"pre,omitempty"`
	Fail  bool     `json:"fail,omitempty"`
	Args  []string `json:"args,omitempty"`
	Rdv   int      `json:"rendezvous,omitempty"` // >0: group whose members wait for one another
	Style int      `json:"style,omitempty"`
	Work  int      `json:"work,omitempty"`
	Err   int      `json:"err,omitempty"` // what else a failing leaf's error wraps
}

type request struct {
	Con     int   `json:"con"`
	Client  int   `json:"client"`
	Targets []int `json:"targets"`
}

type dag struct {
	Nodes    []*node      `json:"nodes"`
	Clients  [][]*request `json:"clients"` // each client makes its requests one after the other
	NCons    int          `json:"controllers"`
	YAML     bool         `json:"yaml,omitempty"`
	Verbose  bool         `json:"verbose,omitempty"`
	SelfIn   bool         `json:"self_input,omitempty"`
	Cancel   int          `json:"cancel,omitempty"`    // when the context is cancelled: 1 before, 2 at a deadline, 3+n when target n starts
	Cancels  []bool       `json:"cancelled,omitempty"` // for which clients
	DB       bool         `json:"db,omitempty"`        // there is a hash database, in which nothing is ever found
	YAMLText string       `json:"yaml_text,omitempty"`
	rdvSize  map[int]int
}

func (d *dag) String() string { j, _ := json.Marshal(d); return string(j) }

type dagOpts struct {
	seq, args, files, bad, yaml, multi bool
	yamlOnly                           bool
	rdv                                float64
	big                                float64 // how often there are very deep or very wide graphs
	fail                               float64
	maxLeaf, maxInner                  int
	clients, reqs                      int
	dup                                float64
}

func genDAG(r *rand.Rand, o dagOpts) *dag {
	d := &dag{NCons: 1, rdvSize: map[int]int{}}
	nl := 1 + r.Intn(o.maxLeaf)
	for i := 0; i < nl; i++ {
		n := &node{ID: i, Kind: kLeaf, Fail: r.Float64() < o.fail, Style: r.Intn(4), Work: r.Intn(6)}
		if r.Intn(2) == 0 {
			n.Err = r.Intn(len(wrappedErrs))
		}
		d.Nodes = append(d.Nodes, n)
	}
	kinds := []nodeKind{kAll, kAll, kGrp}
	if o.seq {
		kinds = append(kinds, kSeq, kSeq, kDeps)
	}
	if o.args {
		kinds = append(kinds, kArg)
	}
	if o.files {
		kinds = append(kinds, kFiles, kFiles)
	}
	if o.bad && r.Intn(4) == 0 {
		d.Nodes = append(d.Nodes, &node{ID: len(d.Nodes), Kind: kBad, Style: r.Intn(2)})
	}
	ni := r.Intn(o.maxInner + 1)
	for i := 0; i < ni; i++ {
		n := &node{ID: len(d.Nodes), Kind: kinds[r.Intn(len(kinds))], Style: r.Intn(3), Work: r.Intn(3)}
		pick := func() int {
			if r.Intn(3) == 0 { // prefer recent ones, for depth
				lo := len(d.Nodes) * 2 / 3
				return lo + r.Intn(len(d.Nodes)-lo)
			}
			return r.Intn(len(d.Nodes))
		}
		switch n.Kind {
		case kArg:
			n.Kids = []int{pick()}
			k := r.Intn(4)
			if r.Intn(4) == 0 {
				k = r.Intn(20)
			}
			for ; k > 0; k-- {
				n.Args = append(n.Args, oddString(r))
			}
		case kFiles:
			n.Kids = []int{pick()}
			for _, m := range d.Nodes {
				if m.Kind == kFiles && r.Intn(3) == 0 {
					n.Pre = append(n.Pre, m.ID)
				}
			}
		default:
			min := 0
			if n.Kind == kDeps {
				min = 1
			}
			for k := min + r.Intn(5); k > 0; k-- {
				n.Kids = append(n.Kids, pick())
			}
			if len(n.Kids) > 0 && r.Float64() < o.dup {
				n.Kids = append(n.Kids, n.Kids[r.Intn(len(n.Kids))])
			}
		}
		d.Nodes = append(d.Nodes, n)
	}
	if o.rdv > 0 && r.Float64() < o.rdv {
		// Some groups of leaves that only make progress together.
		for g := r.Intn(3) + 1; g > 0; g-- {
			gid := len(d.rdvSize) + 1
			var ids []int
			k := 2 + r.Intn(12)
			if r.Float64() < o.big {
				k += r.Intn(300)
			}
			for ; k > 0; k-- {
				n := &node{ID: len(d.Nodes), Kind: kLeaf, Rdv: gid, Style: r.Intn(3), Fail: r.Float64() < o.fail/2}
				d.Nodes = append(d.Nodes, n)
				ids = append(ids, n.ID)
			}
			d.rdvSize[gid] = len(ids)
			kind := kAll
			if r.Intn(3) == 0 {
				kind = kGrp
			}
			top := &node{ID: len(d.Nodes), Kind: kind, Kids: ids}
			d.Nodes = append(d.Nodes, top)
			// Put it below something, too.
			if r.Intn(2) == 0 {
				k := kinds[r.Intn(len(kinds))]
				if k != kFiles && k != kArg {
					d.Nodes = append(d.Nodes, &node{ID: len(d.Nodes), Kind: k, Kids: []int{top.ID, r.Intn(nl)}})
				}
			}
		}
	}
	if r.Float64() < o.big {
		// A long chain.
		chain := []nodeKind{kAll, kGrp, kAll, kGrp}
		if o.seq {
			chain = append(chain, kSeq, kDeps)
		}
		if o.args {
			chain = append(chain, kArg)
		}
		for k := 20 + r.Intn(150); k > 0; k-- {
			n := &node{ID: len(d.Nodes), Kind: chain[r.Intn(len(chain))], Kids: []int{len(d.Nodes) - 1}}
			if n.Kind == kDeps {
				n.Kids = append(n.Kids, r.Intn(nl))
			}
			d.Nodes = append(d.Nodes, n)
		}
	}
	if o.multi && r.Intn(3) == 0 {
		d.NCons = 2 + r.Intn(2)
	}
	d.YAML = o.yaml && r.Intn(2) == 0 || o.yamlOnly
	if d.YAML {
		for _, n := range d.Nodes {
			if n.Kind == kFiles {
				d.NCons = 1 // file names belong to the latest definition
			}
		}
	}
	d.Verbose = r.Intn(5) == 0
	d.SelfIn = r.Intn(4) == 0
	if r.Intn(5) == 0 {
		d.Cancel = []int{1, 2, 3 + r.Intn(nl), 3 + r.Intn(nl), 3 + r.Intn(nl)}[r.Intn(5)]
	}
	d.DB = o.files && r.Intn(2) == 0 && d.hashable()
	nc := 1 + r.Intn(o.clients)
	for c := 0; c < nc; c++ {
		var reqs []*request
		for q := 1 + r.Intn(o.reqs); q > 0; q-- {
			rq := &request{Con: r.Intn(d.NCons), Client: c}
			for k := 1 + r.Intn(4); k > 0; k-- {
				var id int
				for {
					id = r.Intn(len(d.Nodes))
					if r.Intn(2) == 0 {
						id = len(d.Nodes) - 1 - r.Intn((len(d.Nodes)+3)/4)
					}
					if d.Nodes[id].Rdv == 0 {
						break
					}
				}
				rq.Targets = append(rq.Targets, id)
			}
			if r.Float64() < o.dup {
				rq.Targets = append(rq.Targets, rq.Targets[0])
			}
			reqs = append(reqs, rq)
		}
		d.Clients = append(d.Clients, reqs)
		d.Cancels = append(d.Cancels, d.Cancel > 0 && r.Intn(4) > 0)
	}
	return d
}

// hashable tells whether the hashes of the Files targets can be computed with reasonable effort.
func (d *dag) hashable() bool {
	size := make([]int, len(d.Nodes)) // of the JSON encoding
	for i, n := range d.Nodes {
		if n.Kind == kBad {
			return false
		}
		size[i] = 1
		for _, k := range n.Kids {
			size[i] += size[k]
		}
		if size[i] > 1000000 {
			size[i] = 1000000
		}
		if n.Kind == kFiles && size[i] > 500 {
			return false
		}
	}
	return true
}

// forgetfulDB is a hash database which does not find anything.
type forgetfulDB struct{ w *world }

func (db forgetfulDB) Has(context.Context, []byte) (bool, error) {
	runtime.Gosched()
	db.w.m.Event()
	return false, nil
}

func (db forgetfulDB) Add(context.Context, []byte) error {
	runtime.Gosched()
	db.w.m.Event()
	return nil
}

var oddPool = []string{"", "-", "--", "-x", "a b", "$HOME", "é☃", "-flag=1", "#x", "'q'", "\"", "tab\there", "nl\nx", "end\n", "\n", " lead", "trail ", "1_000", "~", "null", "true", "0x10", "- y", "!All", "&a", "*b", "{}", "[]", ">>f", "\\"}

func oddString(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return oddPool[r.Intn(len(oddPool))]
	}
	n := 1 + r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return string(b)
}

// ---- model

// outc is the outcome of a target: which leaves' errors it reports.
type outc struct {
	bad  bool // fails for a reason which is not a leaf
	errs map[int]bool
}

func (o outc) ok() bool { return !o.bad && len(o.errs) == 0 }

func (o *outc) add(p outc) {
	o.bad = o.bad || p.bad
	for k := range p.errs {
		if o.errs == nil {
			o.errs = map[int]bool{}
		}
		o.errs[k] = true
	}
}

type edge struct{ from, pos int }

// edges lists the requests a node makes when it runs, by the model. pos counts pre first, then kids.
// The stages of a node are ordered: everything in a stage finishes before the next stage starts.
func (d *dag) stages(id int) [][]int {
	n := d.Nodes[id]
	switch n.Kind {
	case kAll, kGrp, kArg:
		return [][]int{n.Kids}
	case kSeq:
		var s [][]int
		for _, k := range n.Kids {
			s = append(s, []int{k})
		}
		return s
	case kDeps:
		return [][]int{n.Kids[1:], n.Kids[:1]}
	case kFiles:
		return [][]int{n.Pre, n.Kids}
	}
	return nil
}

type model struct {
	d    *dag
	memo map[int]outc
	// With first, only the first stage of each sequence is sure to run.
	// That is what one may rely on when the context is cancelled (and nothing more).
	first bool
}

func newModel(d *dag) *model { return &model{d: d, memo: map[int]outc{}} }

func (m *model) stages(id int) [][]int {
	st := m.d.stages(id)
	if m.first && len(st) > 1 {
		st = st[:1]
	}
	return st
}

func (m *model) outcome(id int) outc {
	if o, ok := m.memo[id]; ok {
		return o
	}
	var o outc
	n := m.d.Nodes[id]
	switch n.Kind {
	case kLeaf:
		if n.Fail {
			o.errs = map[int]bool{id: true}
		}
	case kBad:
		o.bad = true
	default:
		for _, st := range m.stages(id) {
			for _, k := range st {
				o.add(m.outcome(k))
			}
			if !o.ok() {
				break
			}
		}
	}
	m.memo[id] = o
	return o
}

// reach computes the nodes that run when the given ones are requested, not following the skipped edge.
func (m *model) reach(from []int, skip edge, seen map[int]bool) {
	for _, id := range from {
		if seen[id] {
			continue
		}
		seen[id] = true
		pos := 0
		for _, st := range m.stages(id) {
			var o outc
			for _, k := range st {
				if skip != (edge{id, pos}) {
					m.reach([]int{k}, skip, seen)
				}
				o.add(m.outcome(k))
				pos++
			}
			if !o.ok() {
				break
			}
		}
	}
}

func (m *model) closure(from ...int) map[int]bool {
	seen := map[int]bool{}
	m.reach(from, edge{-1, -1}, seen)
	return seen
}

// argSets computes which argument lists each node may see.
func (m *model) argSets(con int) map[int]map[string]bool {
	res := map[int]map[string]bool{}
	type key struct {
		id  int
		arg string
	}
	seen := map[key]bool{}
	var walk func(id int, arg string)
	walk = func(id int, arg string) {
		if seen[key{id, arg}] {
			return
		}
		seen[key{id, arg}] = true
		if res[id] == nil {
			res[id] = map[string]bool{}
		}
		res[id][arg] = true
		n := m.d.Nodes[id]
		if n.Kind == kArg {
			arg = argKey(n.Args)
		}
		for _, st := range m.stages(id) {
			var o outc
			for _, k := range st {
				walk(k, arg)
				o.add(m.outcome(k))
			}
			if !o.ok() {
				break
			}
		}
	}
	for _, reqs := range m.d.Clients {
		for _, rq := range reqs {
			if rq.Con == con {
				for _, id := range rq.Targets {
					walk(id, argKey(nil))
				}
			}
		}
	}
	return res
}

func argKey(args []string) string {
	if len(args) == 0 {
		return "[]"
	}
	j, _ := json.Marshal(args)
	return string(j)
}

// ---- world: one execution

type dagEvent struct {
	Seq  int    `json:"seq"`
	Con  int    `json:"con"`
	Node int    `json:"node"` // -1 for client requests
	What string `json:"what"` // start, end, call, ret
	Req  int    `json:"req,omitempty"`
	Args string `json:"args,omitempty"`
	err  error
	tgts []int
}

// Different leaves' errors may have the same text, and they may wrap errors that somebody might take for something special.
type leafErr struct{ id, kind int }

var wrappedErrs = []error{nil, nil, context.Canceled, context.DeadlineExceeded, io.EOF, fs.ErrNotExist, fs.ErrExist, os.ErrPermission, errors.ErrUnsupported}

func (e *leafErr) Error() string {
	if e.kind > 0 {
		return "leaf failed"
	}
	return fmt.Sprintf("leaf %d failed", e.id)
}

func (e *leafErr) Unwrap() error { return wrappedErrs[e.kind] }

type world struct {
	m    *Mon
	d    *dag
	id   int
	dir  string
	cons []*fab.Controller
	errs []*leafErr
	tgts [][]fab.Target // per controller, or the same for all

	mu      sync.Mutex
	events  []dagEvent
	reqs    int
	rdv     map[[2]int]*sync.WaitGroup
	cancel  context.CancelFunc
	docs    map[string]string // by names in the YAML file
	besides int               // how many comments are beside the names
}

var (
	worlds   sync.Map // id -> *world
	worldSeq atomic.Int64
)

func (w *world) log(e dagEvent) int {
	w.mu.Lock()
	e.Seq = len(w.events)
	w.events = append(w.events, e)
	w.mu.Unlock()
	w.m.Event()
	return e.Seq
}

func (w *world) newReq() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.reqs++
	return w.reqs
}

func (w *world) conIndex(con *fab.Controller) int {
	for i, c := range w.cons {
		if c == con {
			return i
		}
	}
	return -1
}

func (w *world) runLeaf(ctx context.Context, con *fab.Controller, id int) error {
	ci := w.conIndex(con)
	n := w.d.Nodes[id]
	w.log(dagEvent{Con: ci, Node: id, What: "start", Args: argKey(fab.GetArgs(ctx))})
	if w.d.Cancel == 3+id {
		w.cancel()
		time.Sleep(time.Duration(id%3) * 300 * time.Microsecond)
	}
	if n.Rdv > 0 {
		wg := w.rdv[[2]int{ci, n.Rdv}]
		if wg != nil {
			wg.Done()
			wg.Wait()
		}
	}
	switch n.Work {
	case 1, 2:
		for i := 0; i < n.Work*3; i++ {
			runtime.Gosched()
		}
	case 3, 4:
		time.Sleep(time.Duration(n.Work*40) * time.Microsecond)
	}
	w.log(dagEvent{Con: ci, Node: id, What: "end"})
	if n.Fail {
		if n.Style == 2 {
			return fmt.Errorf("wrapped: %w", w.errs[id])
		}
		return w.errs[id]
	}
	return nil
}

// request makes one observed call of con.Run.
func (w *world) request(ctx context.Context, con *fab.Controller, ids []int, targets []fab.Target) error {
	ci, q := w.conIndex(con), w.newReq()
	w.log(dagEvent{Con: ci, Node: -1, What: "call", Req: q, tgts: ids})
	err := con.Run(ctx, targets...)
	w.log(dagEvent{Con: ci, Node: -1, What: "ret", Req: q, tgts: ids, err: err})
	return err
}

func (w *world) runGrp(ctx context.Context, con *fab.Controller, id int, kids []fab.Target) error {
	ci := w.conIndex(con)
	n := w.d.Nodes[id]
	w.log(dagEvent{Con: ci, Node: id, What: "start", Args: argKey(fab.GetArgs(ctx))})
	var err error
	switch {
	case n.Style == 1 && len(kids) > 1: // one at a time, all of them, then all together again
		if w.hasRdv(n.Kids) {
			err = w.request(ctx, con, n.Kids, kids)
			break
		}
		for i, k := range kids {
			err = errors.Join(err, w.request(ctx, con, n.Kids[i:i+1], []fab.Target{k}))
		}
		err = errors.Join(err, w.request(ctx, con, n.Kids, kids))
	case n.Style == 2 && len(kids) > 0: // the same from two goroutines at once
		var wg sync.WaitGroup
		var e2 error
		wg.Add(1)
		go func() {
			defer wg.Done()
			e2 = w.request(ctx, con, n.Kids, kids)
		}()
		err = w.request(ctx, con, n.Kids, kids)
		wg.Wait()
		err = errors.Join(err, e2)
	default:
		err = w.request(ctx, con, n.Kids, kids)
	}
	w.log(dagEvent{Con: ci, Node: id, What: "end"})
	return err
}

func (w *world) hasRdv(ids []int) bool {
	for _, id := range ids {
		if w.d.Nodes[id].Rdv > 0 {
			return true
		}
	}
	return false
}

type vleaf struct {
	w  *world
	id int
}

func (l *vleaf) Run(ctx context.Context, con *fab.Controller) error {
	return l.w.runLeaf(ctx, con, l.id)
}
func (l *vleaf) Desc() string {
	if l.w.d.Nodes[l.id].Style == 3 {
		return "leaf"
	}
	return fmt.Sprintf("leaf%d", l.id)
}

type vgrp struct {
	w    *world
	id   int
	kids []fab.Target
}

func (g *vgrp) Run(ctx context.Context, con *fab.Controller) error {
	return g.w.runGrp(ctx, con, g.id, g.kids)
}
func (g *vgrp) Desc() string { return fmt.Sprintf("grp%d", g.id) }

// vbad implements Target but is not a pointer, so it is not usable as one.
type vbad struct{ n int }

func (vbad) Run(context.Context, *fab.Controller) error { return nil }
func (vbad) Desc() string                               { return "bad" }

type vbadMap map[string]int

func (vbadMap) Run(context.Context, *fab.Controller) error { return nil }
func (vbadMap) Desc() string                               { return "badmap" }

func (w *world) inFiles(n *node) (in, out []string) {
	for _, p := range n.Pre {
		q := w.outName(p)
		if (p+n.ID)%2 == 0 {
			q = filepath.Join(q, "sub", "x") // inside the other's output directory
		}
		in = append(in, q)
	}
	in = append(in, filepath.Join(w.dir, fmt.Sprintf("src%d", n.ID)))
	out = append(out, w.outName(n.ID))
	if w.d.SelfIn {
		in = append(in, out[0])
	}
	return in, out
}

func (w *world) outName(id int) string { return filepath.Join(w.dir, fmt.Sprintf("out%d", id)) }

// buildGo makes the targets with the Go API.
func (w *world) buildGo() []fab.Target {
	ts := make([]fab.Target, len(w.d.Nodes))
	for i, n := range w.d.Nodes {
		kids := make([]fab.Target, len(n.Kids))
		for j, k := range n.Kids {
			kids[j] = ts[k]
		}
		id := n.ID
		switch n.Kind {
		case kLeaf:
			if n.Style == 1 {
				ts[i] = fab.F(func(ctx context.Context, con *fab.Controller) error { return w.runLeaf(ctx, con, id) })
			} else {
				ts[i] = &vleaf{w, id}
			}
		case kAll:
			ts[i] = fab.All(kids...)
		case kSeq:
			ts[i] = fab.Seq(kids...)
		case kDeps:
			ts[i] = fab.Deps(kids[0], kids[1:]...)
		case kArg:
			ts[i] = fab.ArgTarget(kids[0], n.Args...)
		case kGrp:
			ts[i] = &vgrp{w, id, kids}
		case kFiles:
			in, out := w.inFiles(n)
			ts[i] = fab.Files(kids[0], in, out)
		case kBad:
			switch n.Style {
			case 0:
				ts[i] = vbad{id}
			default:
				ts[i] = vbadMap{"x": 1}
			}
		}
	}
	return ts
}

func nodeName(id int) string { return fmt.Sprintf("N%d", id) }

// buildYAML renders the graph as a fab.yaml.
func (w *world) renderYAML(r *rand.Rand) string {
	d := w.d
	indeg := map[int]int{}
	for _, n := range d.Nodes {
		for _, k := range n.Kids {
			indeg[k]++
		}
		for _, k := range n.Pre {
			indeg[k] += 2
		}
	}
	for _, reqs := range d.Clients {
		for _, rq := range reqs {
			for _, id := range rq.Targets {
				indeg[id] += 2
			}
		}
	}
	named := map[int]bool{}
	for _, n := range d.Nodes {
		named[n.ID] = indeg[n.ID] != 1 || r.Intn(2) == 0
		if n.Kind == kBad {
			named[n.ID] = false // a reference to a name that does not exist
		}
	}
	aliases := map[string]string{}
	style := func(n *yaml.Node) *yaml.Node {
		if r.Intn(3) == 0 {
			n.Style = yaml.FlowStyle
		}
		return n
	}
	str := func(s string) *yaml.Node {
		n := &yaml.Node{}
		n.SetString(s)
		if r.Intn(3) == 0 || needsQuote(s) {
			n.Style = yaml.DoubleQuotedStyle
		}
		return n
	}
	num := func(i int) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Value: fmt.Sprint(i)} }
	var ref func(id int) *yaml.Node
	var def func(id int) *yaml.Node
	ref = func(id int) *yaml.Node {
		if d.Nodes[id].Kind == kBad {
			return str(fmt.Sprintf("Undefined%d", id))
		}
		if !named[id] {
			return def(id)
		}
		name := nodeName(id)
		if r.Intn(4) == 0 {
			al := aliasName(r, id, aliases)
			aliases[al] = name
			name = al
			more := 0
			switch r.Intn(12) {
			case 0, 1, 2, 3:
				more = 1
			case 4:
				more = 2 + r.Intn(5)
			case 5:
				more = 2 + r.Intn(40)
				if r.Intn(3) > 0 {
					more = 2 + r.Intn(12)
				}
			}
			for ; more > 0; more-- {
				al2 := aliasName(r, id, aliases)
				aliases[al2] = name
				name = al2
			}
		}
		return str(name)
	}
	refs := func(ids []int) []*yaml.Node {
		var res []*yaml.Node
		for _, id := range ids {
			res = append(res, ref(id))
		}
		return res
	}
	seq := func(tag string, c []*yaml.Node) *yaml.Node {
		return style(&yaml.Node{Kind: yaml.SequenceNode, Tag: tag, Content: c})
	}
	mapn := func(tag string, c ...*yaml.Node) *yaml.Node {
		return style(&yaml.Node{Kind: yaml.MappingNode, Tag: tag, Content: c})
	}
	strs := func(ss []string) *yaml.Node {
		var c []*yaml.Node
		for _, s := range ss {
			c = append(c, str(s))
		}
		return seq("", c)
	}
	def = func(id int) *yaml.Node {
		n := d.Nodes[id]
		switch n.Kind {
		case kLeaf:
			return mapn("!vleaf", str("w"), num(w.id), str("id"), num(id))
		case kAll:
			return seq("!All", refs(n.Kids))
		case kSeq:
			return seq("!Seq", refs(n.Kids))
		case kDeps:
			if r.Intn(2) == 0 {
				return seq("!Deps", refs(n.Kids))
			}
			pre, post := seq("", refs(n.Kids[1:])), ref(n.Kids[0])
			if r.Intn(2) == 0 {
				return mapn("!Deps", str("Pre"), pre, str("Post"), post)
			}
			return mapn("!Deps", str("Post"), post, str("Pre"), pre)
		case kArg:
			c := []*yaml.Node{ref(n.Kids[0])}
			i := 0
			for i < len(n.Args) {
				if r.Intn(3) == 0 { // a custom string list
					j := i + 1 + r.Intn(len(n.Args)-i)
					l := strs(n.Args[i:j])
					l.Tag = "!vstrs"
					c = append(c, l)
					i = j
					continue
				}
				a := str(n.Args[i])
				switch r.Intn(4) {
				case 0:
					if n.Args[i] == "true" || n.Args[i] == "0x10" || n.Args[i] == "1_000" {
						a = &yaml.Node{Kind: yaml.ScalarNode, Value: n.Args[i]} // without quotes
					}
				case 1:
					if n.Args[i] == "end\n" || n.Args[i] == "nl\nx" {
						a.Style = yaml.LiteralStyle
					}
				}
				c = append(c, a)
				i++
			}
			return seq("!ArgTarget", c)
		case kGrp:
			return mapn("!vgrp", str("w"), num(w.id), str("id"), num(id), str("kids"), seq("", refs(n.Kids)))
		case kFiles:
			in, out := w.inFiles(n)
			return mapn("!Files", str("Target"), ref(n.Kids[0]), str("In"), strs(in), str("Out"), strs(out))
		}
		panic("harness: unexpected node kind " + n.Kind)
	}
	var entries [][2]*yaml.Node
	for _, n := range d.Nodes {
		if named[n.ID] {
			entries = append(entries, [2]*yaml.Node{str(nodeName(n.ID)), def(n.ID)})
		}
	}
	var als []string
	for al := range aliases {
		als = append(als, al)
	}
	sort.Strings(als)
	for _, al := range als {
		entries = append(entries, [2]*yaml.Node{str(al), str(aliases[al])})
	}
	r.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })
	w.docs = map[string]string{}
	var sb strings.Builder
	if r.Intn(4) == 0 {
		sb.WriteString("# This file is made by a machine.\n\n")
	}
	for _, e := range entries {
		text := string(must1(yaml.Marshal(&yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{e[0], e[1]}})))
		if r.Intn(4) == 0 {
			sb.WriteString("\n")
		}
		var doc []string
		if beside := docLines[r.Intn(len(docLines))]; r.Intn(4) == 0 { // NAME: # comment
			key := strings.TrimSuffix(string(must1(yaml.Marshal(e[0]))), "\n") + ":"
			with := strings.Replace(text, key, key+" # "+beside+"\n  ", 1)
			var back yaml.Node
			if yaml.Unmarshal([]byte(with), &back) == nil && back.Content[0].Content[0].LineComment == "# "+beside && sameYAML(back.Content[0], must1(parseYAML(text)).Content[0]) {
				sb.WriteString(with)
				w.docs[e[0].Value] = beside
				w.besides++
				continue
			}
		}
		if r.Intn(3) == 0 {
			for k := 1 + r.Intn(3); k > 0; k-- {
				doc = append(doc, docLines[r.Intn(len(docLines))])
			}
		}
		for _, l := range doc {
			sb.WriteString("# " + l + "\n")
		}
		w.docs[e[0].Value] = strings.Join(doc, "\n")
		sb.WriteString(text)
	}
	return sb.String()
}

var docLines = []string{"Builds it.", "runs: all of - the [tests]", "Überraschung!", "a 'b' \"c\" {d}", "x # y", "in C#", "N1: foo", "!All", "trailing: |"}

func parseYAML(s string) (*yaml.Node, error) {
	var n yaml.Node
	err := yaml.Unmarshal([]byte(s), &n)
	return &n, err
}

// sameYAML tells whether the nodes are the same, comments and places apart.
func sameYAML(a, b *yaml.Node) bool {
	if a.Kind != b.Kind || a.Tag != b.Tag || a.Value != b.Value || len(a.Content) != len(b.Content) {
		return false
	}
	for i := range a.Content {
		if !sameYAML(a.Content[i], b.Content[i]) {
			return false
		}
	}
	return true
}

// aliasName makes up a name for an alias.
func aliasName(r *rand.Rand, id int, used map[string]string) string {
	for {
		al := fmt.Sprintf("A%d_%d", id, len(used))
		switch r.Intn(4) {
		case 0:
			al = oddPool[r.Intn(len(oddPool))]
		case 1:
			al = oddPool[r.Intn(len(oddPool))] + fmt.Sprint(len(used))
		}
		if _, ok := used[al]; !ok && al != "" && !strings.ContainsAny(al, "\n/") {
			return al
		}
	}
}

// sameDoc compares a doc string with the lines of the comment it comes from. Comment signs may be left in later lines.
func sameDoc(got, want string) bool {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] != w[i] && (i == 0 || strings.TrimPrefix(strings.TrimPrefix(g[i], "#"), " ") != w[i]) {
			return false
		}
	}
	return true
}

// checkRegistry compares the registered names and docs with the YAML text.
func (w *world) checkRegistry(con *fab.Controller) string {
	names := con.RegistryNames()
	if want := sortedKeys(w.docs); !slices.Equal(names, want) {
		return fmt.Sprintf("the names registered for a YAML file are %q, want %q", names, want)
	}
	for _, n := range names {
		t, doc := con.RegistryTarget(n)
		if t == nil {
			return fmt.Sprintf("no target is registered under the listed name %q", n)
		}
		if !sameDoc(doc, w.docs[n]) {
			return fmt.Sprintf("target %q has documentation %q, but its comment is %q", n, doc, w.docs[n])
		}
	}
	return ""
}

func needsQuote(s string) bool { return strings.ContainsAny(s, "\t\n\\\"") || s == "" }

func vleafDecoder(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
	var y struct{ W, ID int }
	if err := n.Decode(&y); err != nil {
		return nil, err
	}
	w, ok := worlds.Load(y.W)
	if !ok {
		return nil, fmt.Errorf("no world %d", y.W)
	}
	return &vleaf{w.(*world), y.ID}, nil
}

func vgrpDecoder(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {
	var y struct {
		W, ID int
		Kids  []yaml.Node
	}
	if err := n.Decode(&y); err != nil {
		return nil, err
	}
	w, ok := worlds.Load(y.W)
	if !ok {
		return nil, fmt.Errorf("no world %d", y.W)
	}
	g := &vgrp{w: w.(*world), id: y.ID}
	for i := range y.Kids {
		t, err := con.YAMLTarget(&y.Kids[i], dir)
		if err != nil {
			return nil, err
		}
		g.kids = append(g.kids, t)
	}
	return g, nil
}

func init() {
	fab.RegisterYAMLTarget("vleaf", vleafDecoder)
	fab.RegisterYAMLTarget("vgrp", vgrpDecoder)
	fab.RegisterYAMLStringList("vstrs", func(con *fab.Controller, n *yaml.Node, dir string) ([]string, error) {
		return con.YAMLStringListFromNodes(n.Content, dir)
	})
}

// disc is a discrepancy between what happened and the model, with the properties it contradicts.
type disc struct {
	props []string
	msg   string
}

// runDAG executes a graph and compares what was observed with the model.
func (c *Case) runDAG(d *dag) (discs []disc, w *world) {
	w = &world{m: c.Mon, d: d, id: int(worldSeq.Add(1)), dir: c.Dir(), rdv: map[[2]int]*sync.WaitGroup{}}
	worlds.Store(w.id, w)
	defer worlds.Delete(w.id)
	for i := range d.Nodes {
		w.errs = append(w.errs, &leafErr{i, d.Nodes[i].Err})
	}
	for ci := 0; ci < d.NCons; ci++ {
		w.cons = append(w.cons, fab.NewController(w.dir))
		for g, n := range d.rdvSize {
			wg := &sync.WaitGroup{}
			wg.Add(n)
			w.rdv[[2]int{ci, g}] = wg
		}
	}
	if d.YAML {
		text := w.renderYAML(c.R)
		d.YAMLText = text
		c.Count("comments_beside_names", int64(w.besides))
		c.Note(d.String())
		for _, con := range w.cons {
			if err := con.ReadYAML(strings.NewReader(text), ""); err != nil {
				return []disc{{[]string{"C19"}, fmt.Sprintf("a well-formed YAML file is rejected: %s", err)}}, w
			}
			if msg := w.checkRegistry(con); msg != "" {
				discs = append(discs, disc{[]string{"C19"}, msg})
			}
		}
		for ci, con := range w.cons {
			ts := make([]fab.Target, len(d.Nodes))
			for _, reqs := range d.Clients {
				for _, rq := range reqs {
					for _, id := range rq.Targets {
						if d.Nodes[id].Kind == kBad {
							ts[id] = vbad{id}
							continue
						}
						ts[id], _ = con.RegistryTarget(nodeName(id))
						if ts[id] == nil && rq.Con == ci {
							return []disc{{[]string{"C19"}, fmt.Sprintf("target %s defined in YAML is not registered", nodeName(id))}}, w
						}
					}
				}
			}
			w.tgts = append(w.tgts, ts)
		}
	} else {
		c.Note(d.String())
		ts := w.buildGo()
		for range w.cons {
			w.tgts = append(w.tgts, ts)
		}
	}
	perturbEpoch.Store(uint64(c.R.Int63()))
	ctx := fab.WithVerbose(context.Background(), d.Verbose)
	if d.DB {
		ctx = fab.WithHashDB(ctx, forgetfulDB{w})
		c.Count("graphs_with_database", 1)
	}
	cctx := ctx
	switch d.Cancel {
	case 0:
	case 2:
		cctx, w.cancel = context.WithTimeout(ctx, time.Duration(c.R.Intn(1500))*time.Microsecond)
	default:
		cctx, w.cancel = context.WithCancel(ctx)
	}
	if w.cancel != nil {
		defer w.cancel()
		c.Count("cancelled_contexts", 1)
		if d.Cancel == 1 {
			w.cancel()
		}
	}
	var wg sync.WaitGroup
	for i, reqs := range d.Clients {
		ctx := ctx
		if d.Cancels[i] {
			ctx = cctx
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, rq := range reqs {
				var ts []fab.Target
				for _, id := range rq.Targets {
					ts = append(ts, w.tgts[rq.Con][id])
				}
				w.request(ctx, w.cons[rq.Con], rq.Targets, ts)
			}
		}()
	}
	wg.Wait()
	discs = append(discs, w.judge()...)
	if d.YAML {
		if msg := w.checkRegistry(w.cons[0]); msg != "" {
			discs = append(discs, disc{[]string{"C19"}, "after running: " + msg})
		}
		if _, err := w.cons[0].ParseArgs([]string{nodeName(0), "NeverDefined"}); err == nil {
			discs = append(discs, disc{[]string{"C19"}, "a name that was never defined is accepted"})
		}
	}
	return discs, w
}

func (w *world) judge() []disc {
	d := w.d
	m := newModel(d)
	sure := m
	if d.Cancel > 0 {
		sure = newModel(d)
		sure.first = true
	}
	var discs []disc
	say := func(props []string, format string, args ...any) {
		discs = append(discs, disc{props, fmt.Sprintf(format, args...)})
	}
	for ci := range w.cons {
		var roots []int
		direct := map[int]bool{} // requested directly in an observed Run call
		for _, reqs := range d.Clients {
			for _, rq := range reqs {
				if rq.Con == ci {
					roots = append(roots, rq.Targets...)
				}
			}
		}
		exec, must := m.closure(roots...), sure.closure(roots...)
		for _, id := range roots {
			direct[id] = true
		}
		viaPar, viaSeq := map[int]bool{}, map[int]bool{}
		for id := range exec {
			n := d.Nodes[id]
			for _, st := range d.stages(id) {
				var o outc
				for _, k := range st {
					if n.Kind == kGrp {
						direct[k] = true
					}
					if n.Kind == kSeq || n.Kind == kDeps || n.Kind == kFiles {
						viaSeq[k] = true
					} else {
						viaPar[k] = true
					}
					o.add(m.outcome(k))
				}
				if !o.ok() {
					break
				}
			}
		}
		starts, ends, count := map[int]int{}, map[int]int{}, map[int]int{}
		args := m.argSets(ci)
		for _, e := range w.events {
			if e.Con != ci || e.Node < 0 {
				continue
			}
			switch e.What {
			case "start":
				count[e.Node]++
				if count[e.Node] == 1 {
					starts[e.Node] = e.Seq
				}
				if as := args[e.Node]; as != nil && !as[e.Args] {
					say([]string{"C19", "C23"}, "target %d saw arguments %s, none of those it was given: %v", e.Node, e.Args, as)
				}
			case "end":
				ends[e.Node] = e.Seq
			}
		}
		observable := func(id int) bool { k := d.Nodes[id].Kind; return k == kLeaf || k == kGrp }
		for id, n := range d.Nodes {
			if !observable(id) {
				continue
			}
			want := 0
			if exec[id] {
				want = 1
			}
			got := count[id]
			switch {
			case got > 1:
				props := []string{"C01"}
				if d.YAML {
					props = append(props, "C19")
				}
				say(props, "target %d (%s) was executed %d times by controller %d", id, n.Kind, got, ci)
			case got == 0 && must[id]:
				var props []string
				if direct[id] {
					props = append(props, "C01", "C03")
				}
				if viaPar[id] {
					props = append(props, "C03")
				}
				if viaSeq[id] {
					props = append(props, "C04")
				}
				if d.YAML {
					props = append(props, "C19")
				}
				say(props, "target %d (%s) was never executed by controller %d, but it was requested", id, n.Kind, ci)
			case got == 1 && want == 0:
				props := []string{"C04"}
				if d.YAML {
					props = append(props, "C19")
				}
				say(props, "target %d (%s) was executed by controller %d, after a failure that should have prevented it", id, n.Kind, ci)
			}
		}
		// Requests: nothing returns early, errors are the right ones.
		for _, e := range w.events {
			if e.Con != ci || e.What != "ret" {
				continue
			}
			var o, so outc
			for _, id := range e.tgts {
				o.add(m.outcome(id))
				so.add(sure.outcome(id))
			}
			cl := m.closure(e.tgts...)
			seqs := false
			for id := range cl {
				switch d.Nodes[id].Kind {
				case kSeq, kDeps, kFiles:
					seqs = true
				}
				if observable(id) && count[id] > 0 {
					if end, ok := ends[id]; !ok || end > e.Seq {
						say([]string{"C01", "C03"}, "Run(%v) returned before target %d, which it includes, had finished", e.tgts, id)
					}
				}
			}
			props := []string{"C03"}
			if seqs {
				props = []string{"C04"}
				all := true
				for _, id := range e.tgts {
					all = all && observable(id)
				}
				if all {
					props = append(props, "C03")
				}
			}
			isDirect := true
			for _, id := range e.tgts {
				isDirect = isDirect && observable(id)
			}
			if isDirect {
				props = append(props, "C01")
			}
			if d.YAML {
				props = append(props, "C19")
			}
			if (e.err == nil) != o.ok() && (d.Cancel == 0 || e.err == nil && !so.ok() || e.err != nil && !seqs) {
				say(props, "Run(%v) returned error %v, want failure: %v", e.tgts, e.err, !o.ok())
			}
			for id, n := range d.Nodes {
				if n.Kind != kLeaf || !n.Fail {
					continue
				}
				if is := errors.Is(e.err, w.errs[id]); is && !o.errs[id] || !is && so.errs[id] {
					say(props, "error of Run(%v) contains the error of target %d: %v, want %v", e.tgts, id, is, o.errs[id])
				}
			}
		}
		// Order of the stages of sequential targets.
		for id := range exec {
			n := d.Nodes[id]
			if n.Kind != kSeq && n.Kind != kDeps && n.Kind != kFiles {
				continue
			}
			props := []string{"C04"}
			if n.Kind == kFiles {
				props = []string{"C09"}
			}
			if d.YAML {
				props = append(props, "C19")
			}
			st := d.stages(id)
			before := map[int]bool{}
			pos := 0
			for si, kids := range st {
				var o outc
				for _, k := range kids {
					if si > 0 && len(before) > 0 {
						without := map[int]bool{}
						m.reach(roots, edge{id, pos}, without)
						for x := range m.closure(k) {
							if without[x] || !observable(x) || count[x] == 0 {
								continue
							}
							for y := range before {
								if !observable(y) || count[y] == 0 || y == x {
									continue
								}
								if ends[y] > starts[x] {
									say(props, "%s %d: target %d started before its predecessor %d had finished", n.Kind, id, x, y)
								}
							}
						}
					}
					o.add(m.outcome(k))
					pos++
				}
				if !o.ok() {
					break
				}
				for y := range m.closure(kids...) {
					before[y] = true
				}
			}
		}
	}
	return discs
}

// signature identifies the graph and the order in which things happened.
func (w *world) signature() string {
	var sb strings.Builder
	for _, n := range w.d.Nodes {
		fmt.Fprintf(&sb, "%s%v%v%v;", n.Kind, n.Kids, n.Pre, n.Fail)
	}
	for _, e := range w.events {
		fmt.Fprintf(&sb, "%d%c%d,", e.Con, e.What[0], e.Node)
	}
	return sb.String()
}

// overlaps counts pairs of executions that overlapped in time.
func (w *world) overlaps() int {
	open, n := 0, 0
	for _, e := range w.events {
		switch {
		case e.Node >= 0 && e.What == "start":
			n += open
			open++
		case e.Node >= 0 && e.What == "end":
			open--
		}
	}
	return n
}

func dagCheck(m *Mon, prop string, o dagOpts, quick, thorough int) {
	m.silenceStdout()
	perturbOn.Store(true)
	m.Parallel("dag", m.N(quick, thorough), 6, func(c *Case) {
		d := genDAG(c.R, o)
		discs, w := c.runDAG(d)
		for _, x := range discs {
			for _, p := range x.props {
				if p == prop {
					c.Fail(map[string]any{"graph": d, "events": w.events}, "%s", x.msg)
					return
				}
			}
		}
		c.Count("events", int64(len(w.events)))
		ov := w.overlaps()
		c.Count("overlapping_executions", int64(ov))
		c.Count("run_calls", int64(w.reqs))
		if d.YAML {
			c.Count("yaml_graphs", 1)
		}
		if len(d.Nodes) > 2 && (ov > 0 || len(d.Nodes) > 6) {
			c.Nontrivial(w.signature())
			c.Sample(map[string]any{"graph": d, "events": len(w.events)})
		}
	})
	perturbOn.Store(false)
	m.Count("instrumented_statements_reached", sitesReached())
	m.Rule("a case is a random acyclic graph of targets (leaves, All, Seq, Deps, ArgTarget, Files, own targets calling Run; Go or YAML) " +
		"with concurrent clients on one or more controllers, under perturbed schedules; distinct = graph plus the observed order of start/end/call/return events; " +
		"non-trivial = more than two targets with overlapping executions or more than six targets")
}

func init() {
	checks["C01"] = func(m *Mon) {
		dagCheck(m, "C01", dagOpts{seq: true, args: true, files: true, yaml: true, multi: true, fail: 0.15, maxLeaf: 8, maxInner: 14, clients: 5, reqs: 4, dup: 0.5, rdv: 0.1, big: 0.005}, 12000, 150000)
		m.Parallel("many", m.N(3, 30), 2, manyTargets)
	}
	checks["C03"] = func(m *Mon) {
		dagCheck(m, "C03", dagOpts{args: true, bad: true, yaml: true, multi: true, fail: 0.3, maxLeaf: 12, maxInner: 8, clients: 4, reqs: 2, dup: 0.3, rdv: 0.2, big: 0.01}, 12000, 150000)
	}
	checks["C04"] = func(m *Mon) {
		dagCheck(m, "C04", dagOpts{seq: true, bad: true, yaml: true, multi: true, fail: 0.1, maxLeaf: 12, maxInner: 10, clients: 3, reqs: 2, dup: 0.2, big: 0.005}, 12000, 150000)
	}
	checks["C19"] = func(m *Mon) {
		dagCheck(m, "C19", dagOpts{seq: true, args: true, files: true, bad: true, yamlOnly: true, multi: true, fail: 0.15, maxLeaf: 8, maxInner: 14, clients: 2, reqs: 3, dup: 0.3}, 20000, 200000)
	}
	checks["C05"] = func(m *Mon) {
		dagCheck(m, "C05", dagOpts{seq: true, args: true, files: true, yaml: true, multi: true, fail: 0.1, maxLeaf: 8, maxInner: 20, clients: 8, reqs: 4, dup: 0.4, rdv: 0.7, big: 0.03}, 8000, 100000)
	}
}

// manyTargets requests a large number of targets, and then all of them again.
func manyTargets(c *Case) {
	r := c.R
	n := 30000 << r.Intn(4)
	con := fab.NewController(c.Dir())
	runs := make([]atomic.Int32, n)
	targets := make([]fab.Target, n)
	errOdd := errors.New("odd one")
	for i := range targets {
		targets[i] = fab.F(func(context.Context, *fab.Controller) error {
			runs[i].Add(1)
			if i%1000 == 7 {
				return errOdd
			}
			return nil
		})
	}
	ctx := context.Background()
	for round := 0; round < 2; round++ {
		for i := 0; i < n; {
			k := min(1+r.Intn(2000), n-i)
			want := false
			for j := i; j < i+k; j++ {
				want = want || j%1000 == 7
			}
			if err := con.Run(ctx, targets[i:i+k]...); (err != nil) != want || want && !errors.Is(err, errOdd) {
				c.Fail(map[string]any{"targets": n, "round": round, "from": i, "count": k}, "Run of %d of %d targets returned %v, want failure: %v", k, n, err, want)
				return
			}
			i += k
			c.Event()
		}
	}
	for i := range runs {
		if x := runs[i].Load(); x != 1 {
			c.Fail(map[string]any{"targets": n, "target": i}, "target %d of %d was executed %d times, want once", i, n, x)
			return
		}
	}
	c.Count("targets_in_large_controllers", int64(n))
	c.Nontrivial(fmt.Sprintf("many %d", n))
}
