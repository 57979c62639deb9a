package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Mon is the monitor's state for one run of one check:
// what was executed, what was observed, and what was wrong.
type Mon struct {
	Prop, Tier string
	Seed       int64
	Out        string // directory for report and witnesses
	Scratch    string
	Replay     string // if set, only the case with this id is run
	realStdout *os.File
	start      time.Time

	progress atomic.Int64 // bumped on every observed event
	cputime  atomic.Bool

	mu         sync.Mutex
	evals      int
	sigs       map[uint64]struct{}
	counters   map[string]int64
	samples    []any
	violations []violation
	firstBad   time.Time
	known      []string
	running    map[string]string // case id -> description, for witnesses of crashes
	rule       string
	curf       *os.File
	assume     []string
	knownList  map[string]bool
}

type violation struct {
	Case    string `json:"case"`
	Message string `json:"message"`
	Witness any    `json:"witness,omitempty"`
}

const maxViolations = 5

func newMon(prop, tier string, seed int64, out, replay string) *Mon {
	m := &Mon{
		Prop: prop, Tier: tier, Seed: seed, Out: out, Replay: replay,
		sigs: map[uint64]struct{}{}, counters: map[string]int64{}, running: map[string]string{},
		realStdout: os.Stdout,
		start:      time.Now(),
	}
	m.Scratch = filepath.Join(out, "scratch")
	must(os.MkdirAll(m.Scratch, 0755))
	f, err := os.Create(filepath.Join(out, "current.json"))
	must(err)
	m.curf = f
	m.knownList = map[string]bool{}
	for _, l := range strings.Split(os.Getenv("FABV_KNOWN"), "\n") {
		if l != "" {
			m.knownList[l] = true
		}
	}
	return m
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %s", err))
	}
}

func must1[T any](v T, err error) T {
	must(err)
	return v
}

// Thorough tells whether this is a thorough run.
func (m *Mon) Thorough() bool { return m.Tier == "thorough" }

// N picks the number of cases for the tier.
func (m *Mon) N(quick, thorough int) int {
	if m.Thorough() {
		return thorough
	}
	return quick
}

// Rule documents how cases are made and what makes one non-trivial.
func (m *Mon) Rule(s string) { m.rule = s }

// Assume records an assumption for the evidence file.
func (m *Mon) Assume(s string) { m.assume = append(m.assume, s) }

// Event notes that something was observed.
func (m *Mon) Event() { m.progress.Add(1) }

// Count adds to a named counter shown in the evidence.
func (m *Mon) Count(name string, n int64) {
	m.mu.Lock()
	m.counters[name] += n
	m.mu.Unlock()
	m.progress.Add(1)
}

// Sample keeps an actual case for the evidence (a few only).
func (m *Mon) Sample(v any) {
	m.mu.Lock()
	if len(m.samples) < 4 {
		m.samples = append(m.samples, v)
	}
	m.mu.Unlock()
}

// Nontrivial counts the signature of an execution that exercised the property.
func (m *Mon) Nontrivial(sig string) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	m.mu.Lock()
	m.sigs[h.Sum64()] = struct{}{}
	m.mu.Unlock()
}

// Violation records a violation with its witness. The run continues until a few have been collected.
func (m *Mon) Violation(caseID, msg string, witness any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.violations) == 0 {
		m.firstBad = time.Now()
	}
	if len(m.violations) < maxViolations {
		m.violations = append(m.violations, violation{caseID, msg, witness})
		m.writeReport() // in case the rest takes too long
	}
	if len(m.violations) >= maxViolations {
		m.finishLocked()
	}
}

// Finding reports a failing behaviour identified by key.
// If the known-findings file lists it, it is only mentioned; otherwise it is a violation.
func (m *Mon) Finding(key, caseID, msg string, witness any) {
	if m.knownList[key] {
		m.mu.Lock()
		m.known = append(m.known, key+": "+msg)
		m.mu.Unlock()
		return
	}
	m.Violation(caseID, msg, witness)
}

func (m *Mon) failed() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return len(m.violations) > 0
}

// Rand produces the PRNG of one case.
func (m *Mon) Rand(caseID string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", m.Seed, caseID)
	return rand.New(rand.NewSource(int64(h.Sum64() & 0x7fffffffffffffff)))
}

// Case runs one case with its own PRNG and scratch directory.
// A panic in this goroutine that comes out of the code under test is a violation.
func (m *Mon) Case(id string, fn func(c *Case)) {
	if m.Replay != "" && m.Replay != id {
		return
	}
	c := &Case{Mon: m, ID: id, R: m.Rand(id)}
	m.enter(id)
	defer m.leave(id)
	defer func() {
		if c.dir != "" {
			removeScratch(m.Scratch, c.dir)
		}
	}()
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, false)]
			m.mu.Lock() // not while another goroutine is writing the report
			m.mu.Unlock()
			if s, ok := e.(string); ok && strings.HasPrefix(s, "harness: ") {
				fmt.Fprintf(os.Stderr, "HARNESS-ERROR in case %s: %s\n%s\n", id, s, buf)
				os.Exit(2)
			}
			if !fabFrame(string(buf)) {
				fmt.Fprintf(os.Stderr, "HARNESS-ERROR in case %s: %v\n%s\n", id, e, buf)
				os.Exit(2)
			}
			m.Violation(id, fmt.Sprintf("panic in fab: %v", e), string(buf))
		}
	}()
	fn(c)
	m.mu.Lock()
	m.evals++
	m.mu.Unlock()
	m.Event()
}

// fabFrame tells whether a stack trace has a frame of the code under test.
func fabFrame(s string) bool {
	return strings.Contains(s, "github.com/bobg/fab.") || strings.Contains(s, "github.com/bobg/fab/")
}

func removeScratch(root, dir string) {
	if !strings.HasPrefix(dir, root+"/") {
		panic("harness: refusing to remove " + dir)
	}
	os.RemoveAll(dir)
}

// Parallel runs cases 0..n-1 on several workers.
func (m *Mon) Parallel(prefix string, n, workers int, fn func(c *Case)) {
	if m.Replay != "" {
		workers = 1
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if i >= workers && m.late() {
					m.Count("cases_left_out_for_lack_of_time", 1)
					continue
				}
				m.Case(fmt.Sprintf("%s/%d", prefix, i), fn)
			}
		}()
	}
	wg.Wait()
}

// late tells whether a quick run has no time left for further cases, or has found a violation a while ago.
func (m *Mon) late() bool {
	if m.Replay != "" {
		return false
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.violations) > 0 && time.Since(m.firstBad) > 15*time.Second {
		return true
	}
	return !m.Thorough() && time.Since(m.start) > quickBudget
}

// No case of a quick run is begun later than this.
const quickBudget = 400 * time.Second

// Case is one execution of a generated case.
type Case struct {
	*Mon
	ID  string
	R   *rand.Rand
	dir string
}

var scratchSeq atomic.Int64

// Dir is the case's own scratch directory, an absolute path never used by another case.
func (c *Case) Dir() string {
	if c.dir == "" {
		c.dir = filepath.Join(c.Scratch, fmt.Sprintf("c%d", scratchSeq.Add(1)))
		must(os.MkdirAll(c.dir, 0755))
	}
	return c.dir
}

func (c *Case) Fail(witness any, format string, args ...any) {
	c.Violation(c.ID, fmt.Sprintf(format, args...), witness)
}

func (m *Mon) enter(id string) {
	m.mu.Lock()
	m.running[id] = id
	m.writeCurrent()
	m.mu.Unlock()
}

// Note attaches a description to the running case, for crash witnesses.
func (c *Case) Note(desc string) {
	c.mu.Lock()
	c.running[c.ID] = desc
	c.writeCurrent()
	c.mu.Unlock()
}

func (m *Mon) leave(id string) {
	m.mu.Lock()
	delete(m.running, id)
	m.mu.Unlock()
}

func (m *Mon) writeCurrent() {
	j, _ := json.Marshal(m.running)
	m.curf.Truncate(0)
	m.curf.WriteAt(j, 0)
}

type report struct {
	Prop       string           `json:"property"`
	Evals      int              `json:"evaluations"`
	Distinct   int              `json:"distinct_nontrivial"`
	Rule       string           `json:"rule"`
	Samples    []any            `json:"samples"`
	Counters   map[string]int64 `json:"counters"`
	Violations []violation      `json:"violations"`
	Known      []string         `json:"known"`
	Assume     []string         `json:"assumptions"`
	Note       string           `json:"note,omitempty"`
}

func (m *Mon) finish() {
	m.mu.Lock()
	m.finishLocked()
}

// finishLocked writes the report and ends the process.
func (m *Mon) finishLocked() {
	m.writeReport()
	os.RemoveAll(m.Scratch)
	if len(m.violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func (m *Mon) writeReport() {
	sort.Strings(m.known)
	r := report{
		Prop: m.Prop, Evals: m.evals, Distinct: len(m.sigs), Rule: m.rule, Samples: m.samples,
		Counters: m.counters, Violations: m.violations, Known: m.known, Assume: m.assume,
	}
	j, err := json.MarshalIndent(r, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(m.Out, "report.json"), j, 0644))
}

// Watchdog. When nothing has been observed for a while, it looks at the states of all goroutines.
// If every goroutine is blocked on another one (and at least one of them is inside fab),
// nothing can ever happen again: a deadlock, which is a violation of every property that needs the run to return.
// If goroutines can still make progress it waits, and gives up as inconclusive after a long time.

func (m *Mon) startWatchdog() {
	go func() {
		last := m.progress.Load()
		lastChange := time.Now()
		same, prev := 0, ""
		for {
			time.Sleep(500 * time.Millisecond)
			if p := m.progress.Load(); p != last {
				last, lastChange, same, prev = p, time.Now(), 0, ""
				continue
			}
			idle := time.Since(lastChange)
			if idle > 8*time.Second {
				stuck, dump := allBlocked()
				sig := goroutineSig(dump)
				if stuck && sig == prev {
					same++
				} else {
					same = 0
				}
				prev = sig
				if same >= 4 {
					m.mu.Lock()
					id := "?"
					for k := range m.running {
						id = k
					}
					desc := m.running[id]
					m.violations = append(m.violations, violation{id, "deadlock: every goroutine of the build is blocked on another one", map[string]any{"case": desc, "goroutines": clip(dump, 20000)}})
					m.finishLocked()
				}
			}
			if idle > 400*time.Second {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: nothing observed for %s\n%s\n", idle, dumpAll())
				os.Exit(2)
			}
		}
	}()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func dumpAll() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func goroutineSig(dump string) string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		h, _, _ := strings.Cut(g, " ")
		id, _, _ := strings.Cut(strings.TrimPrefix(g, "goroutine "), " ")
		_ = h
		out = append(out, id)
	}
	return strings.Join(out, ",")
}

// allBlocked tells whether no goroutine can make progress.
func allBlocked() (bool, string) {
	dump := dumpAll()
	inFab := false
	for _, g := range strings.Split(dump, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		i, j := strings.Index(head, "["), strings.LastIndex(head, "]")
		if i < 0 || j < i {
			continue
		}
		state, _, _ := strings.Cut(head[i+1:j], ",")
		if strings.Contains(g, "main.(*Mon).startWatchdog") && strings.Contains(g, "main.allBlocked") {
			continue // this goroutine
		}
		switch state {
		case "sync.Cond.Wait", "semacquire", "sync.WaitGroup.Wait", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock",
			"chan receive", "chan send", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
			if fabFrame(g) {
				inFab = true
			}
		case "select":
			if strings.Contains(g, "database/sql.(*DB).connectionOpener") {
				continue
			}
			return false, dump
		case "finalizer wait", "GC worker (idle)", "force gc (idle)", "GC sweep wait", "GC scavenge wait", "debug call", "cleanup wait":
		default:
			return false, dump
		}
	}
	return inFab, dump
}

// Discard standard output of the code under test (verbose mode writes there).
func (m *Mon) silenceStdout() {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = f
}
