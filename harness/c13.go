package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/anishathalye/porcupine"
	"github.com/benbjohnson/clock"
	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
)

// C13: histories of Has and Add from many goroutines, handles and processes, some of them killed,
// checked for linearizability per key. C14: expiry against a model with a mock clock.

// monotonic is comparable between processes.
func monotonic() int64 {
	var ts syscall.Timespec
	_, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	if e != 0 {
		panic("harness: clock_gettime: " + e.Error())
	}
	return ts.Nano()
}

type dbSpec struct {
	File    string
	Seed    int64
	Proc    int
	Handles int
	Workers int
	Ops     int
	Keys    []string // hex
	Style   int      // 0 sqlite.Open, 1 with Keep, 2 UpdateOnAccess(false), 3 fab.OpenHashDB (directory of File)
	PAdd    float64
	Reopen  bool
}

// dbLine is a line of a worker's log: a call when Done is false, its return otherwise.
type dbLine struct {
	W, N    int
	Add     bool
	Key     int
	T       int64
	Done    bool
	Res     bool
	Err     string `json:",omitempty"`
	OpenErr string `json:",omitempty"`
}

func openStyle(file string, style int) (*sqlite.DB, error) {
	switch style {
	case 1:
		return sqlite.Open(file, sqlite.Keep(24*time.Hour))
	case 2:
		return sqlite.Open(file, sqlite.UpdateOnAccess(false))
	case 3:
		return fab.OpenHashDB(filepath.Dir(file))
	}
	return sqlite.Open(file)
}

func helperDB(arg string) {
	var s dbSpec
	must(json.Unmarshal([]byte(arg), &s))
	var mu sync.Mutex
	log := func(l dbLine) {
		j, _ := json.Marshal(l)
		mu.Lock()
		os.Stdout.Write(append(j, '\n')) // one write system call: survives being killed
		mu.Unlock()
	}
	var keys [][]byte
	for _, k := range s.Keys {
		keys = append(keys, must1(hex.DecodeString(k)))
	}
	// Wait for the word.
	bufio.NewReader(os.Stdin).ReadByte()
	dbs := make([]*sqlite.DB, s.Handles)
	var wg sync.WaitGroup
	for i := range dbs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			db, err := openStyle(s.File, s.Style)
			if err != nil {
				log(dbLine{OpenErr: err.Error()})
				return
			}
			dbs[i] = db
		}()
	}
	wg.Wait()
	for _, db := range dbs {
		if db == nil {
			os.Exit(0)
		}
	}
	for w := 0; w < s.Workers; w++ {
		r := rand.New(rand.NewSource(s.Seed + int64(w)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			db := dbs[w%len(dbs)]
			own := false
			for n := 0; n < s.Ops; n++ {
				if s.Reopen && r.Intn(12) == 0 {
					if own {
						if err := db.Close(); err != nil {
							log(dbLine{OpenErr: "closing: " + err.Error()})
						}
					}
					d, err := openStyle(s.File, s.Style)
					if err != nil {
						log(dbLine{OpenErr: err.Error()})
						return
					}
					db, own = d, true
				}
				l := dbLine{W: w, N: n, Add: r.Float64() < s.PAdd, Key: r.Intn(len(keys)), T: monotonic()}
				log(l)
				var err error
				if l.Add {
					l.T = monotonic()
					err = db.Add(context.Background(), keys[l.Key])
				} else {
					l.T = monotonic()
					l.Res, err = db.Has(context.Background(), keys[l.Key])
				}
				l.T, l.Done = monotonic(), true
				if err != nil {
					l.Err = err.Error()
				}
				log(l)
			}
		}()
	}
	wg.Wait()
	for _, db := range dbs {
		if err := db.Close(); err != nil {
			log(dbLine{OpenErr: "closing: " + err.Error()})
		}
	}
}

type setIn struct {
	Add bool
	Key int
}

var setModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(setIn).Key
			m[k] = append(m[k], o)
		}
		var res [][]porcupine.Operation
		for _, v := range m {
			res = append(res, v)
		}
		return res
	},
	Init: func() any { return false },
	Step: func(st, in, out any) (bool, any) {
		if in.(setIn).Add {
			return true, true
		}
		return out.(bool) == st.(bool), st
	},
}

func oddKeys(r *rand.Rand, n int) []string {
	pool := [][]byte{{0}, {0, 0}, []byte("a"), []byte("A"), []byte("a "), []byte("a\x00"), []byte("1"), []byte("01"), []byte("1.0"), {0xff, 0xfe}, []byte("'; DROP TABLE hashes; --"), bytes.Repeat([]byte{7}, 28), bytes.Repeat([]byte{7}, 29), bytes.Repeat([]byte("long"), 5000)}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	var res []string
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			b := make([]byte, 28)
			r.Read(b)
			if i > 0 { // like the one before, but for the last byte
				p, _ := hex.DecodeString(res[len(res)-1])
				if len(p) == 28 {
					copy(b, p[:27])
				}
			}
			res = append(res, hex.EncodeToString(b))
		} else {
			res = append(res, hex.EncodeToString(pool[i%len(pool)]))
		}
	}
	return dedup(res)
}

// shmDir makes a directory for databases in memory, where syncing costs nothing.
func (m *Mon) shmDir() (string, func()) {
	d, err := os.MkdirTemp("/dev/shm", "fabv-")
	if err != nil {
		d = must1(os.MkdirTemp(m.Scratch, "shm"))
	}
	return d, func() { os.RemoveAll(d) }
}

func dbCase(c *Case) {
	r := c.R
	dir, clean := c.shmDir()
	defer clean()
	file := filepath.Join(dir, "hash.db")
	nproc := 1 + r.Intn(4)
	kill := nproc > 1 && r.Intn(2) == 0
	keys := oddKeys(r, 1+r.Intn(6))
	fresh := r.Intn(3) > 0
	if !fresh {
		db := must1(sqlite.Open(file))
		must(db.Close())
	}
	var specs []dbSpec
	type wproc struct {
		cmd    *exec.Cmd
		out    bytes.Buffer
		killed bool
		in     func()
		done   chan error
		outf   string
	}
	var procs []*wproc
	for p := 0; p < nproc; p++ {
		s := dbSpec{File: file, Seed: r.Int63n(1 << 50), Proc: p, Handles: 1 + r.Intn(3), Workers: 1 + r.Intn(4), Ops: 4 + r.Intn(16), Keys: keys, Style: r.Intn(4), PAdd: []float64{0.1, 0.3, 0.6}[r.Intn(3)], Reopen: r.Intn(3) == 0}
		specs = append(specs, s)
		j, _ := json.Marshal(s)
		w := &wproc{cmd: exec.Command(must1(os.Executable()), "helper", "db", string(j)), outf: filepath.Join(c.Dir(), fmt.Sprintf("log%d", p)), done: make(chan error, 1)}
		f := must1(os.Create(w.outf))
		var errb bytes.Buffer
		w.cmd.Stdout, w.cmd.Stderr = f, &errb
		in := must1(w.cmd.StdinPipe())
		w.in = func() { in.Write([]byte("g")); in.Close() }
		must(w.cmd.Start())
		f.Close()
		procs = append(procs, w)
		go func() {
			err := w.cmd.Wait()
			if err != nil && errb.Len() > 0 {
				err = fmt.Errorf("%w: %s", err, clip(errb.String(), 3000))
			}
			w.done <- err
		}()
	}
	for _, w := range procs {
		w.in()
	}
	if kill {
		victim := procs[r.Intn(len(procs))]
		after := int64(r.Intn(2500))
		for {
			if fi, err := os.Stat(victim.outf); err == nil && fi.Size() >= after {
				break
			}
			select {
			case err := <-victim.done:
				victim.done <- err
				after = 0
			default:
				time.Sleep(200 * time.Microsecond)
			}
		}
		time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		victim.killed = true
		victim.cmd.Process.Kill()
	}
	var ops []porcupine.Operation
	var trace []string
	fail := func(format string, args ...any) {
		c.Fail(map[string]any{"specs": specs, "fresh": fresh, "kill": kill, "trace": trace}, format, args...)
	}
	client, pending := 0, 0
	for p, w := range procs {
		err := <-w.done
		b := must1(os.ReadFile(w.outf))
		open := map[[2]int]dbLine{}
		for _, l := range strings.Split(string(b), "\n") {
			if l == "" {
				continue
			}
			var x dbLine
			if json.Unmarshal([]byte(l), &x) != nil {
				continue // cut off by the kill
			}
			trace = append(trace, fmt.Sprintf("p%d %s", p, l))
			if x.OpenErr != "" {
				fail("opening or closing the database failed: %s", x.OpenErr)
				return
			}
			k := [2]int{x.W, x.N}
			if !x.Done {
				open[k] = x
				continue
			}
			call := open[k]
			delete(open, k)
			if x.Err != "" {
				fail("an operation failed: %s", x.Err)
				return
			}
			ops = append(ops, porcupine.Operation{ClientId: client + x.W, Input: setIn{x.Add, x.Key}, Call: call.T, Output: x.Res, Return: x.T})
		}
		for _, x := range open {
			if x.Add {
				pending++
				ops = append(ops, porcupine.Operation{ClientId: client + x.W, Input: setIn{true, x.Key}, Call: x.T, Output: false, Return: math.MaxInt64})
			}
		}
		if err != nil && !w.killed {
			fail("a process using the database died: %v", err)
			return
		}
		client += specs[p].Workers
		c.Event()
	}
	// Everything once more, in this process.
	now := monotonic()
	db, err := sqlite.Open(file)
	if err != nil {
		fail("reopening the database: %v", err)
		return
	}
	var final []bool
	for i, k := range keys {
		kb, _ := hex.DecodeString(k)
		has, err := db.Has(context.Background(), kb)
		if err != nil {
			fail("Has after reopening: %v", err)
			return
		}
		final = append(final, has)
		ops = append(ops, porcupine.Operation{ClientId: client, Input: setIn{false, i}, Call: now + int64(2*i), Output: has, Return: now + int64(2*i) + 1})
	}
	never := make([]byte, 28)
	r.Read(never)
	if has, err := db.Has(context.Background(), never); has || err != nil {
		fail("Has of an entry nobody added: %v, %v", has, err)
		return
	}
	if err := db.Close(); err != nil {
		fail("closing: %v", err)
		return
	}
	trace = append(trace, fmt.Sprintf("final: %v", final))
	res := porcupine.CheckOperationsTimeout(setModel, ops, 60*time.Second)
	if res == porcupine.Illegal {
		fail("the history of Has and Add calls is not that of any sequential order of set operations")
		return
	}
	if res == porcupine.Unknown {
		c.Count("undecided_histories", 1)
		return
	}
	ov := 0
	for i := range ops {
		for j := range ops[:i] {
			if ops[i].Input.(setIn).Key == ops[j].Input.(setIn).Key && ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
				ov++
			}
		}
	}
	c.Count("operations", int64(len(ops)))
	c.Count("overlapping_pairs_same_key", int64(ov))
	c.Count("processes", int64(nproc))
	if kill {
		c.Count("killed_processes", 1)
		c.Count("adds_pending_at_kill", int64(pending))
	}
	if ov > 0 || kill {
		c.Nontrivial(fmt.Sprint(trace))
		c.Sample(map[string]any{"specs": specs, "operations": len(ops), "overlapping": ov, "final": final})
	}
}

func expiryCase(c *Case) {
	r := c.R
	dir, clean := c.shmDir()
	defer clean()
	file := filepath.Join(dir, "hash.db")
	clk := clock.NewMock()
	starts := []int64{0, 1, 1000, 1700000000, 1 << 31, 1<<31 - 3, 1 << 33}
	now := starts[r.Intn(len(starts))]
	clk.Set(time.Unix(now, 0))
	type handle struct {
		db     *sqlite.DB
		keep   int64
		update bool
		desc   string
	}
	var trace []string
	fail := func(format string, args ...any) { c.Fail(trace, format, args...) }
	keeps := []int64{0, 0, 1, 2, 5, 60, 3600, 86400 * 30}
	base := keeps[r.Intn(len(keeps))]
	open := func() *handle {
		h := &handle{update: true}
		opts := []sqlite.Option{sqlite.WithClock(clk)}
		if base > 0 && r.Intn(5) > 0 {
			h.keep = base
			if r.Intn(4) == 0 {
				h.keep = keeps[2+r.Intn(len(keeps)-2)]
			}
			opts = append(opts, sqlite.Keep(time.Duration(h.keep)*time.Second))
		} else if r.Intn(3) == 0 {
			opts = append(opts, sqlite.Keep(0))
		}
		switch r.Intn(4) {
		case 0, 1:
			h.update = false
			opts = append(opts, sqlite.UpdateOnAccess(false))
		case 2:
			opts = append(opts, sqlite.UpdateOnAccess(true))
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		db, err := sqlite.Open(file, opts...)
		if err != nil {
			fail("opening: %v", err)
			return nil
		}
		h.db = db
		h.desc = fmt.Sprintf("keep %d update %v", h.keep, h.update)
		return h
	}
	var hs []*handle
	for k := 1 + r.Intn(3); k > 0; k-- {
		h := open()
		if h == nil {
			return
		}
		hs = append(hs, h)
	}
	defer func() {
		for _, h := range hs {
			h.db.Close()
		}
	}()
	var keys [][]byte
	for _, k := range oddKeys(r, 5) {
		keys = append(keys, must1(hex.DecodeString(k)))
	}
	last := map[int]int64{}  // present entries and when they were last used
	unsure := map[int]bool{} // over age and reported as gone already
	expired, boundary := 0, 0
	ctx := context.Background()
	for n := 5 + r.Intn(40); n > 0; n-- {
		i := r.Intn(len(hs))
		h := hs[i]
		k := r.Intn(len(keys))
		switch r.Intn(9) {
		case 0:
			if err := h.db.Close(); err != nil {
				fail("closing: %v", err)
				return
			}
			if h = open(); h == nil {
				return
			}
			hs[i] = h
			trace = append(trace, fmt.Sprintf("reopen %d %s", i, h.desc))
		case 1, 2, 3:
			d := int64(r.Intn(4))
			if h.keep > 0 {
				switch r.Intn(4) {
				case 0:
					d = h.keep
				case 1:
					d = h.keep + 1
				case 2:
					d = h.keep - 1
				case 3: // up to the limit of some entry
					if t, ok := last[r.Intn(len(keys))]; ok {
						if x := t + h.keep + int64(r.Intn(2)) - now; x > 0 {
							d = x
						}
					}
				}
			}
			now += d
			clk.Set(time.Unix(now, 0))
			trace = append(trace, fmt.Sprintf("%d seconds pass", d))
		case 4, 5:
			err := h.db.Add(ctx, keys[k])
			trace = append(trace, fmt.Sprintf("%d (%s): add %d", i, h.desc, k))
			if err != nil {
				fail("Add: %v", err)
				return
			}
			last[k] = now
			delete(unsure, k)
			if h.keep > 0 {
				for x, t := range last {
					if now-t > h.keep {
						delete(last, x)
						delete(unsure, x)
						expired++
					} else if now-t == h.keep {
						boundary++
					}
				}
			}
		default:
			has, err := h.db.Has(ctx, keys[k])
			trace = append(trace, fmt.Sprintf("%d (%s): has %d: %v", i, h.desc, k, has))
			if err != nil {
				fail("Has: %v", err)
				return
			}
			t, ok := last[k]
			switch {
			case !ok:
				if has {
					fail("at %d: Has of entry %d, expired or never added, says yes", now, k)
					return
				}
			case unsure[k]:
			case h.keep > 0 && now-t > h.keep:
				if !has {
					unsure[k] = true
				} else if h.update {
					last[k] = now
				}
			default:
				if !has {
					fail("at %d: Has of entry %d, last used at %d, says no (keep %d)", now, k, t, h.keep)
					return
				}
				if h.update {
					last[k] = now
				}
			}
		}
		c.Event()
	}
	c.Count("expired_entries", int64(expired))
	c.Count("entries_exactly_at_the_limit", int64(boundary))
	c.Count("operations", int64(len(trace)))
	if expired+boundary > 0 {
		c.Nontrivial(fmt.Sprint(trace))
		if len(trace) < 14 {
			c.Sample(trace)
		}
	}
}

func init() {
	checks["C13"] = func(m *Mon) {
		m.Parallel("db", m.N(1200, 20000), 2, dbCase)
		m.Rule("a case is a database file (fresh or existing) used by 1 to 4 processes with up to 3 handles and 4 goroutines each, opened with different options, one process possibly killed; " +
			"calls and returns are logged with a clock common to all processes and the history, with the calls pending at the kill and a final Has of every key after reopening, is checked with porcupine against an atomic set; " +
			"non-trivial = overlapping operations on one key or a killed process; distinct = the log")
		m.Assume("kill means SIGKILL of a process, not loss of power")
	}
	checks["C14"] = func(m *Mon) {
		m.Parallel("expiry", m.N(5000, 100000), 8, expiryCase)
		m.Rule("a case is a history of Add, Has, reopening and passing time on one database with several handles of different keep periods and update-on-access settings and a mock clock, every answer compared with a model; " +
			"non-trivial = some entry expired or stood exactly at the limit; distinct = the history")
		m.Assume("times and keep periods are whole seconds and do not go backwards; entries over age may or may not be found until the next Add")
	}
}
