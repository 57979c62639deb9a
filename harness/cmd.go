package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/bobg/fab"
)

// C15 and C16: Commands that start scripted children which report their arguments, environment, directory and input
// and write known bytes to their outputs. Every destination is compared with a model.
// The Commands are run in a process of their own, whose standard streams are files.

type sinkKind string

const (
	sNone    sinkKind = "none"
	sWriter  sinkKind = "writer"
	sSame    sinkKind = "same writer as stdout"
	sFn      sinkKind = "fn"
	sFnClose sinkKind = "fn closer"
	sFnSame  sinkKind = "fn same closer as stdout"
	sFnNil   sinkKind = "fn nil"
	sFnBad   sinkKind = "fn closer failing"
	sFile    sinkKind = "file"
	sOut     sinkKind = "$stdout"
	sErr     sinkKind = "$stderr"
	sIndent  sinkKind = "$indent"
	sVerbose sinkKind = "$verbose"
	sDiscard sinkKind = "$discard"
)

type sink struct {
	Kind   sinkKind
	File   string // as written in the definition
	Abs    string // where that is
	Append bool
}

type goCmd struct {
	Child     int
	Direct    bool // Cmd and Args instead of Shell
	Prog      string
	Args      []string
	Shell     string
	Out, Err  sink
	Stdin     string // "", reader, slow, file, fab, missing
	StdinData []byte
	StdinFile string
	Dir       string // as written
	Env       []string
	NoStart   string // why it cannot start
}

type cmdRun struct {
	Cwd     string
	Topdir  string
	YDir    string
	YAML    bool
	Form    string // single, list, seq, all
	Cmds    []*goCmd
	Verbose bool
	Nest    int
	Result  string
}

type writerRes struct {
	Data       []byte
	Closes     int
	AfterClose bool
	FnCalls    int
}

type cmdResult struct {
	Err     string
	Exits   []int
	Outputs [][]byte
	Writers map[string]*writerRes
	ReadErr string
}

type recWriter struct {
	mu  sync.Mutex
	res *writerRes
}

func (w *recWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.res.Closes > 0 {
		w.res.AfterClose = true
	}
	w.res.Data = append(w.res.Data, p...)
	return len(p), nil
}

type recCloser struct {
	recWriter
	bad bool
}

func (w *recCloser) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.res.Closes++
	if w.bad {
		return errors.New("close failed")
	}
	if w.res.Closes > 1 {
		return os.ErrClosed
	}
	return nil
}

type slowReader struct{ r io.Reader }

func (s slowReader) Read(p []byte) (int, error) {
	time.Sleep(300 * time.Microsecond)
	if len(p) > 7 {
		p = p[:7]
	}
	return s.r.Read(p)
}

// helperCommand runs the Commands of a case.
func helperCommand(file string) {
	var s cmdRun
	must(json.Unmarshal(must1(os.ReadFile(file)), &s))
	must(os.Chdir(s.Cwd))
	con := fab.NewController(s.Topdir)
	res := &cmdResult{Writers: map[string]*writerRes{}}
	finish := func() {
		j, _ := json.Marshal(res)
		must(os.WriteFile(s.Result, j, 0644))
		os.Exit(0)
	}
	var targets []fab.Target
	if s.YAML {
		if err := con.ReadYAMLFile(s.YDir); err != nil {
			res.ReadErr = err.Error()
			finish()
		}
		t, _ := con.RegistryTarget(filepath.Join(s.YDir, "T"))
		targets = append(targets, t)
	} else {
		for i, g := range s.Cmds {
			c := &fab.Command{Shell: g.Shell, Dir: g.Dir, Env: g.Env}
			if g.Direct {
				c.Shell, c.Cmd, c.Args = "", g.Prog, g.Args
			}
			switch g.Stdin {
			case "reader":
				c.Stdin = bytes.NewReader(g.StdinData)
			case "slow":
				c.Stdin = slowReader{bytes.NewReader(g.StdinData)}
			case "file", "missing":
				c.StdinFile = g.StdinFile
			case "fab":
				c.Stdin = os.Stdin
			}
			outRes := &writerRes{}
			outCloser := &recCloser{recWriter: recWriter{res: outRes}}
			set := func(name string, k sink, w *io.Writer, fn *func(context.Context, *fab.Controller) io.Writer, fl *string) {
				r := &writerRes{}
				if name[0] == 'o' {
					r = outRes
				}
				key := fmt.Sprintf("%s%d", name, i)
				cl := &recCloser{recWriter: recWriter{res: r}}
				if name[0] == 'o' {
					cl = outCloser
				}
				switch k.Kind {
				case sWriter:
					*w = &recWriter{res: r}
				case sSame:
					*w = c.Stdout
					return
				case sFn:
					*fn = func(context.Context, *fab.Controller) io.Writer { r.FnCalls++; return &recWriter{res: r} }
				case sFnBad:
					cl.bad = true
					fallthrough
				case sFnClose:
					*fn = func(context.Context, *fab.Controller) io.Writer { r.FnCalls++; return cl }
				case sFnSame:
					*fn = func(context.Context, *fab.Controller) io.Writer { return outCloser }
					return
				case sFnNil:
					*fn = func(context.Context, *fab.Controller) io.Writer { return nil }
				case sFile:
					*fl = k.File
				case sOut:
					*w = os.Stdout
				case sErr:
					*w = os.Stderr
				case sDiscard:
					*w = io.Discard
				}
				res.Writers[key] = r
			}
			set("o", g.Out, &c.Stdout, &c.StdoutFn, &c.StdoutFile)
			set("e", g.Err, &c.Stderr, &c.StderrFn, &c.StderrFile)
			targets = append(targets, c)
		}
		switch s.Form {
		case "seq":
			targets = []fab.Target{fab.Seq(targets...)}
		case "all":
			targets = []fab.Target{fab.All(targets...)}
		}
	}
	for i := 0; i < s.Nest; i++ {
		targets = []fab.Target{fab.Seq(targets...)}
	}
	ctx := fab.WithVerbose(context.Background(), s.Verbose)
	err := con.Run(ctx, targets...)
	if err != nil {
		res.Err = "ERR " + err.Error()
		walkErrs(err, func(e error) {
			if x, ok := e.(*exec.ExitError); ok {
				res.Exits = append(res.Exits, x.ExitCode())
			}
			if x, ok := e.(fab.CommandErr); ok {
				res.Outputs = append(res.Outputs, x.Output)
			}
		})
		var xe *exec.ExitError
		if len(res.Exits) > 0 && !errors.As(err, &xe) {
			res.Exits = nil
		}
	}
	finish()
}

func walkErrs(err error, fn func(error)) {
	if err == nil {
		return
	}
	fn(err)
	switch u := err.(type) {
	case interface{ Unwrap() []error }:
		for _, e := range u.Unwrap() {
			walkErrs(e, fn)
		}
	case interface{ Unwrap() error }:
		walkErrs(u.Unwrap(), fn)
	}
}

func shq(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

var selfExe = must1(os.Executable())

type cmdWorld struct {
	c        *Case
	r        *rand.Rand
	root     string
	s        *cmdRun
	children []*childSpec
	specFile []string
	extra    [][]string
	log      string
	shell    string // value of SHELL, "" if unset
	shellLog string
	fabStdin []byte
	env      []string
	initial  map[string]string // files that exist before
}

func genData(r *rand.Rand, idx, fd int, marked bool) []byte {
	n := r.Intn(40)
	switch r.Intn(12) {
	case 0:
		n = 60000 + r.Intn(140000)
	case 1:
		n = 4090 + r.Intn(10)
	}
	if marked {
		var b []byte
		for len(b) <= n {
			b = append(b, fmt.Sprintf("~%d.%d %x\n", idx, fd, r.Int63())...)
		}
		return b
	}
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(20) {
		case 0:
			b[i] = '\n'
		case 1:
			b[i] = byte(r.Intn(256))
		default:
			b[i] = byte('a' + r.Intn(26))
		}
	}
	return b
}

func (w *cmdWorld) newChild(marked, direct bool) int {
	r := w.r
	i := len(w.children)
	ch := &childSpec{Index: i, Log: w.log, ReadStdin: r.Intn(2) == 0}
	for k := r.Intn(6); k > 0; k-- {
		fd := 1 + r.Intn(2)
		c := chunk{FD: fd, Data: genData(r, i, fd, marked)}
		if r.Intn(8) == 0 {
			c.Sleep = r.Intn(3000)
		}
		ch.Chunks = append(ch.Chunks, c)
	}
	if r.Intn(4) == 0 {
		ch.Exit = []int{1, 2, 42, 126, 127, 128, 255}[r.Intn(7)]
	} else if direct && r.Intn(10) == 0 { // (a shell would have something to say about it)
		ch.Signal = []int{9, 15}[r.Intn(2)]
	}
	f := filepath.Join(w.root, fmt.Sprintf("child%d.json", i))
	j, _ := json.Marshal(ch)
	must(os.WriteFile(f, j, 0644))
	var extra []string
	for k := r.Intn(5); k > 0; k-- {
		extra = append(extra, oddArg(r))
	}
	w.children = append(w.children, ch)
	w.specFile = append(w.specFile, f)
	w.extra = append(w.extra, extra)
	return i
}

func oddArg(r *rand.Rand) string {
	pool := []string{"", " ", "a", "-x", "--", "a b", "$HOME", "$(echo no)", "`no`", "*", "'", "\"", "\\", "a\tb", "line\nbreak", "ünï", "!x", "#", "~", "{a,b}", "%s", "a=b", "\x01", ">out", "|", "&", ";", "!Foo", "- x", "a: b", "null", "123"}
	return pool[r.Intn(len(pool))]
}

func okYAML(ss []string) bool {
	for _, s := range ss {
		if strings.Contains(s, "\xff") {
			return false
		}
	}
	return true
}

var fileNames = []string{"o1", "o2", "./o1", "d/o3", "d/../o1", "o 4", "o>5", "-o6", "o7.txt", "$o8", "~o9"}

// genSink makes a destination; base is the directory its file names are relative to.
func (w *cmdWorld) genSink(yaml bool, base string, isErr bool, out *sink) sink {
	r := w.r
	var kinds []sinkKind
	if yaml {
		kinds = []sinkKind{sNone, sNone, sFile, sFile, sFile, sOut, sErr, sIndent, sVerbose, sDiscard}
	} else {
		kinds = []sinkKind{sNone, sNone, sWriter, sFn, sFnClose, sFnClose, sFnNil, sFile, sFile, sFile, sOut, sErr, sDiscard}
		if r.Intn(4) == 0 {
			kinds = append(kinds, sFnBad)
		}
		if isErr && (out.Kind == sWriter) {
			kinds = append(kinds, sSame, sSame, sSame)
		}
		if isErr && out.Kind == sFnClose {
			kinds = append(kinds, sFnSame, sFnSame, sFnSame)
		}
	}
	k := sink{Kind: kinds[r.Intn(len(kinds))]}
	if k.Kind == sFile {
		name := fileNames[r.Intn(len(fileNames))]
		if isErr && out.Kind == sFile && r.Intn(2) == 0 {
			name, _ = filepath.Rel(base, out.Abs)
			if r.Intn(3) == 0 {
				name = "./" + name
			}
		}
		if r.Intn(40) == 0 {
			name = "no dir/o1"
		}
		k.Abs = filepath.Join(base, name)
		if r.Intn(4) == 0 {
			name = k.Abs
		}
		if strings.HasPrefix(name, ">") {
			name = "./" + name
		}
		k.File = name
		k.Append = r.Intn(3) == 0
		if isErr && out.Kind == sFile && k.Abs == out.Abs && r.Intn(8) > 0 {
			k.Append = out.Append
		}
		if k.Append {
			k.File = []string{">>", ">> "}[r.Intn(2)] + name
		}
	}
	return k
}

// dest is where a sink leads: a key, whether its bytes are indented there, and the mechanism.
func (w *cmdWorld) dest(k sink, i int, name string) (key string, indent bool, mech string) {
	own := "fab:stdout"
	if name == "e" {
		own = "fab:stderr"
	}
	none := func() (string, bool, string) {
		if w.s.Verbose {
			return own, true, "indent" + name
		}
		return fmt.Sprintf("captured%d", i), false, "captured"
	}
	switch k.Kind {
	case sNone, sFnNil:
		return none()
	case sVerbose:
		if w.s.Verbose {
			return own, true, "indent" + name
		}
		return none()
	case sIndent:
		return own, true, "indent" + name
	case sOut:
		return "fab:stdout", false, "fd1"
	case sErr:
		return "fab:stderr", false, "fd2"
	case sDiscard:
		return "", false, "discard"
	case sFile:
		return k.Abs, false, "file"
	case sSame, sFnSame:
		return fmt.Sprintf("o%d", i), false, "same"
	}
	return fmt.Sprintf("%s%d", name, i), false, "writer" + name
}

func (w *cmdWorld) compatible(g *goCmd, i int) bool {
	k1, in1, m1 := w.dest(g.Out, i, "o")
	k2, in2, m2 := w.dest(g.Err, i, "e")
	if k1 == "" || k1 != k2 {
		return true
	}
	if m2 == "same" {
		return true
	}
	return m1 == m2 && in1 == in2
}

// seg is a piece of the expected content of a destination.
type seg struct {
	data   []byte
	indent bool
}

func genCommands(c *Case, streams bool) *cmdWorld {
	r := c.R
	w := &cmdWorld{c: c, r: r, root: c.Dir(), initial: map[string]string{}}
	proj := filepath.Join(w.root, "proj")
	s := &cmdRun{Result: filepath.Join(w.root, "result.json")}
	w.s = s
	w.log = filepath.Join(w.root, "children.log")
	for _, d := range []string{"proj", "proj/sub/d", "proj/a/b/d", "proj/d", "other/d", "proj/work dir", "proj/sub/work dir"} {
		must(os.MkdirAll(filepath.Join(w.root, d), 0755))
	}
	s.YAML = r.Intn(2) == 0
	s.YDir = []string{"", "sub", "a/b"}[r.Intn(3)]
	s.Cwd = filepath.Join(w.root, []string{"", "proj", "proj/sub", "other", "proj/a/b"}[r.Intn(5)])
	s.Topdir = proj
	if r.Intn(3) == 0 {
		s.Topdir = must1(filepath.Rel(s.Cwd, proj))
	}
	s.Form = []string{"single", "list", "seq", "seq", "all"}[r.Intn(5)]
	if s.Form == "list" {
		s.YAML = true
	}
	s.Verbose = s.Form != "all" && r.Intn(3) == 0
	s.Nest = r.Intn(3)
	n := 1
	if s.Form != "single" {
		n = 1 + r.Intn(4)
	}
	base := s.Cwd
	if s.YAML {
		base = filepath.Join(proj, s.YDir)
	}
	must(os.MkdirAll(filepath.Join(base, "d"), 0755))
	for _, f := range []string{"o1", "d/o3", "o2"} {
		if r.Intn(2) == 0 {
			p := filepath.Join(base, f)
			must(os.MkdirAll(filepath.Dir(p), 0755))
			must(os.WriteFile(p, []byte("old content of "+f+"\n"), 0644))
		}
	}
	must(os.WriteFile(filepath.Join(base, "in1"), []byte("input one\n"), 0644))
	must(os.WriteFile(filepath.Join(base, "in big"), bytes.Repeat([]byte("0123456789\n"), 20000), 0644))
	w.fabStdin = []byte("standard input of fab\n")

	// The shell.
	w.shellLog = filepath.Join(w.root, "shell.log")
	switch r.Intn(4) {
	case 0:
	case 1:
		w.shell = "/bin/bash"
	case 2, 3:
		w.shell = filepath.Join(w.root, "my shell")
		must(os.WriteFile(w.shell, []byte("#!/bin/sh\nprintf '%s\\0' \"$#\" \"$@\" >> "+shq(w.shellLog)+"\nexec /bin/sh \"$@\"\n"), 0755))
	}
	bin := filepath.Join(w.root, "bin")
	must(os.MkdirAll(bin, 0755))
	must(os.Symlink(selfExe, filepath.Join(bin, "vprog")))
	must(os.Symlink(selfExe, filepath.Join(base, "vlocal")))
	w.env = []string{"PATH=" + bin + ":/usr/bin:/bin", "HOME=/nonexistent", "VFOO=outer", "VBAR=outer bar", "VEMPTY=", "LANG=C"}
	if w.shell != "" {
		w.env = append(w.env, "SHELL="+w.shell)
	} else if r.Intn(2) == 0 {
		w.env = append(w.env, "SHELL=")
	}

	var proto *goCmd
	for i := 0; i < n; i++ {
		direct := r.Intn(2) == 0 && s.Form != "list"
		ch := w.newChild(s.Verbose, direct)
		g := &goCmd{Child: ch, Direct: direct}
		if s.YAML && !okYAML(w.extra[ch]) {
			w.extra[ch] = nil
		}
		for {
			g.Out = w.genSink(s.YAML, base, false, nil)
			g.Err = w.genSink(s.YAML, base, true, &g.Out)
			if w.compatible(g, i) || g.Out.Kind == sFile && g.Err.Kind == sFile {
				if s.Form == "all" { // destinations of their own
					k1, _, _ := w.dest(g.Out, i, "o")
					k2, _, _ := w.dest(g.Err, i, "e")
					if strings.HasPrefix(k1, "fab:") || strings.HasPrefix(k2, "fab:") || g.Out.Kind == sFile || g.Err.Kind == sFile {
						continue
					}
				}
				break
			}
		}
		stdin := []string{"", "", "reader", "slow", "file", "file", "fab", "big", "missing"}[r.Intn(9)]
		if stdin == "missing" && r.Intn(3) > 0 {
			stdin = ""
		}
		if s.YAML && (stdin == "reader" || stdin == "slow") || s.Form == "all" && stdin == "fab" {
			stdin = "file"
		}
		g.Stdin = stdin
		switch stdin {
		case "reader", "slow":
			g.StdinData = []byte(fmt.Sprintf("data for %d\n", i))
			if r.Intn(4) == 0 && stdin == "reader" {
				g.StdinData = bytes.Repeat(g.StdinData, []int{20000, 20000, 200000}[r.Intn(3)])
			}
		case "file":
			g.StdinFile = []string{"in1", "./in1", filepath.Join(base, "in1")}[r.Intn(3)]
			g.StdinData = []byte("input one\n")
		case "big":
			g.Stdin, g.StdinFile = "file", "in big"
			if r.Intn(4) == 0 {
				g.StdinFile = "in huge"
				must(os.WriteFile(filepath.Join(base, "in huge"), bytes.Repeat([]byte("0123456789\n"), 250000), 0644))
			}
			g.StdinData = must1(os.ReadFile(filepath.Join(base, g.StdinFile)))
		case "missing":
			g.StdinFile = "no such file"
			g.NoStart = "standard input does not exist"
		}
		switch r.Intn(8) {
		case 0, 1:
			g.Dir = "work dir"
			if r.Intn(2) == 0 {
				g.Dir = filepath.Join(proj, "work dir")
			}
			if !exists(filepath.Join(base, g.Dir)) && !filepath.IsAbs(g.Dir) {
				g.Dir = "d"
				must(os.MkdirAll(filepath.Join(base, "d"), 0755))
			}
		case 2:
			if r.Intn(3) == 0 {
				g.Dir = "no such dir"
				g.NoStart = "the directory does not exist"
			}
		}
		nenv := r.Intn(4)
		if r.Intn(5) == 0 {
			nenv = 6 + r.Intn(5)
		}
		for k := nenv; k > 0; k-- {
			e := []string{"VFOO=inner", "VFOO=", "VNEW=x=y z", "VBAR=1", "VBAR=2", "VEMPTY=now not", "VU=ü", "VSP= lead"}[r.Intn(8)]
			g.Env = append(g.Env, e)
		}
		for _, k := range []sink{g.Out, g.Err} {
			if k.Kind == sFile && strings.Contains(k.Abs, "/no dir/") {
				g.NoStart = "a file cannot be made"
			}
		}
		if s.Form == "list" && i > 0 {
			cp := *proto
			cp.Child = ch
			g = &cp
			if g.Out.Kind == sFile {
				g.Out.Append = true
			}
			if g.Err.Kind == sFile {
				g.Err.Append = true
			}
		}
		proto = g
		args := append([]string{"helper", "child", w.specFile[ch]}, w.extra[ch]...)
		if g.Direct {
			g.Args = args
			switch r.Intn(8) {
			case 0, 1:
				g.Prog = "vprog"
			case 2:
				if g.Dir == "" {
					g.Prog = "./vlocal"
				} else {
					g.Prog = selfExe
				}
			case 3:
				if r.Intn(2) == 0 {
					g.Prog = []string{"/no/such/program", "no-such-program"}[r.Intn(2)]
					g.NoStart = "the program does not exist"
				} else {
					g.Prog = selfExe
				}
			default:
				g.Prog = selfExe
			}
		} else {
			var q []string
			for _, a := range args {
				q = append(q, shq(a))
			}
			g.Shell = shq(selfExe) + " " + strings.Join(q, " ")
			switch r.Intn(4) {
			case 0:
				g.Shell = "VX=1; export VX; exec " + g.Shell
			case 1:
				g.Shell = "true && " + g.Shell + "; exit $?"
			}
		}
		s.Cmds = append(s.Cmds, g)
	}
	if s.YAML {
		must(os.WriteFile(filepath.Join(base, "fab.yaml"), []byte(w.yaml()), 0644))
	}
	return w
}

func (w *cmdWorld) yaml() string {
	var sb strings.Builder
	s := w.s
	if s.YDir != "" {
		fmt.Fprintf(&sb, "_dir: %s\n", s.YDir)
	}
	one := func(g *goCmd, ind string, shells []string) {
		sb.WriteString("!Command\n")
		switch {
		case shells != nil:
			fmt.Fprintf(&sb, "%sShell:\n", ind)
			for _, x := range shells {
				fmt.Fprintf(&sb, "%s  - %s\n", ind, yq(x))
			}
		case g.Direct:
			fmt.Fprintf(&sb, "%sCmd: %s\n%sArgs: %s\n", ind, yq(g.Prog), ind, yqs(g.Args))
		default:
			fmt.Fprintf(&sb, "%sShell: %s\n", ind, yq(g.Shell))
		}
		for _, x := range []struct {
			n string
			k sink
		}{{"Stdout", g.Out}, {"Stderr", g.Err}} {
			switch x.k.Kind {
			case sNone:
			case sFile:
				fmt.Fprintf(&sb, "%s%s: %s\n", ind, x.n, yq(x.k.File))
			default:
				fmt.Fprintf(&sb, "%s%s: %s\n", ind, x.n, yq(string(x.k.Kind)))
			}
		}
		switch g.Stdin {
		case "fab":
			fmt.Fprintf(&sb, "%sStdin: $stdin\n", ind)
		case "file", "missing":
			fmt.Fprintf(&sb, "%sStdin: %s\n", ind, yq(g.StdinFile))
		}
		if g.Dir != "" {
			fmt.Fprintf(&sb, "%sDir: %s\n", ind, yq(g.Dir))
		}
		if len(g.Env) > 0 {
			fmt.Fprintf(&sb, "%sEnv: %s\n", ind, yqs(g.Env))
		}
	}
	switch s.Form {
	case "single":
		sb.WriteString("T: ")
		one(s.Cmds[0], "  ", nil)
	case "list":
		sb.WriteString("T: ")
		var sh []string
		for _, g := range s.Cmds {
			sh = append(sh, g.Shell)
		}
		one(s.Cmds[0], "  ", sh)
	default:
		names := []string{}
		for i := range s.Cmds {
			names = append(names, fmt.Sprintf("./C%d", i)) // a bare name would mean one of the top directory
		}
		tag := "Seq"
		if s.Form == "all" {
			tag = "All"
		}
		fmt.Fprintf(&sb, "T: !%s [%s]\n", tag, strings.Join(names, ", "))
		for i, g := range s.Cmds {
			fmt.Fprintf(&sb, "C%d: ", i)
			one(g, "  ", nil)
		}
	}
	return sb.String()
}

func envMap(ss []string) map[string]string {
	m := map[string]string{}
	for _, s := range ss {
		k, v, _ := strings.Cut(s, "=")
		m[k] = v
	}
	return m
}

func (w *cmdWorld) run() (discs []disc, wit map[string]any) {
	c, s := w.c, w.s
	bad := func(prop, format string, args ...any) {
		discs = append(discs, disc{props: []string{prop}, msg: clip(fmt.Sprintf(format, args...), 3000)})
	}
	spec := filepath.Join(w.root, "run.json")
	j, _ := json.Marshal(s)
	must(os.WriteFile(spec, j, 0644))
	must(os.WriteFile(filepath.Join(w.root, "stdin"), w.fabStdin, 0644))
	before := snapshot(w.root)
	fo := must1(os.Create(filepath.Join(w.root, "stdout")))
	fe := must1(os.Create(filepath.Join(w.root, "stderr")))
	fi := must1(os.Open(filepath.Join(w.root, "stdin")))
	cmd := exec.Command(selfExe, "helper", "command", spec)
	cmd.Env, cmd.Stdin, cmd.Stdout, cmd.Stderr = w.env, fi, fo, fe
	err := cmd.Run()
	fo.Close()
	fe.Close()
	fi.Close()
	c.Event()
	var res cmdResult
	stdout, stderr := must1(os.ReadFile(fo.Name())), must1(os.ReadFile(fe.Name()))
	wit = map[string]any{"run": s, "children": w.children, "env": w.env, "stdout": clip(string(stdout), 3000), "stderr": clip(string(stderr), 3000)}
	if s.YAML {
		wit["yaml"] = w.yaml()
	}
	b, rerr := os.ReadFile(s.Result)
	if rerr != nil {
		for _, p := range []string{"C15", "C16"} {
			bad(p, "the process running the Commands died (%v): %s", err, clip(string(stderr), 2000))
		}
		return
	}
	must(json.Unmarshal(b, &res))
	wit["result"] = clip(res.Err, 2000)
	if res.ReadErr != "" {
		for _, p := range []string{"C15", "C16"} {
			bad(p, "reading the definition: %s", res.ReadErr)
		}
		return
	}

	// Model.
	base := s.Cwd
	if s.YAML {
		base = filepath.Join(s.Topdir, s.YDir)
		if !filepath.IsAbs(base) {
			base = filepath.Join(s.Cwd, base)
		}
	}
	content := map[string][]seg{}
	touched := map[string]bool{}
	maybe := map[string]bool{} // files that may or may not have been made before a failure
	var started []int
	fabin := w.fabStdin
	ok := true
	wantExit := 0
	hasExit := false
	var captured [][]byte
	stdinOf := map[int][]byte{}
	lastStarted := -1
	for i, g := range s.Cmds {
		if s.Form != "all" && !ok {
			break
		}
		ch := w.children[g.Child]
		failed := false
		if g.Out.Kind == sFile && g.Err.Kind == sFile && g.Out.Abs == g.Err.Abs && g.Out.Append != g.Err.Append {
			g.NoStart = "stdout and stderr disagree"
			maybe[g.Out.Abs] = true
		}
		if g.NoStart != "" {
			ok = false
			for _, k := range []sink{g.Out, g.Err} {
				if k.Kind == sFile {
					maybe[k.Abs] = true
				}
			}
			lastStarted = -1
			continue
		}
		started = append(started, g.Child)
		lastStarted = i
		switch g.Stdin {
		case "":
			stdinOf[g.Child] = nil
		case "fab":
			stdinOf[g.Child] = fabin
			if ch.ReadStdin {
				fabin = nil
			}
		default:
			stdinOf[g.Child] = g.StdinData
		}
		k1, in1, _ := w.dest(g.Out, i, "o")
		k2, in2, _ := w.dest(g.Err, i, "e")
		for _, k := range []sink{g.Out, g.Err} {
			if k.Kind == sFile {
				if !touched[k.Abs] || !k.Append {
					if _, ok := content[k.Abs]; !ok || !k.Append {
						content[k.Abs] = nil
						if k.Append {
							if old, ok := before[must1(filepath.Rel(w.root, k.Abs))]; ok {
								content[k.Abs] = []seg{{data: []byte(strings.SplitN(old, " ", 3)[2])}}
							}
						}
					}
				}
				touched[k.Abs] = true
			}
		}
		if k1 == k2 {
			var all []byte
			for _, x := range ch.Chunks {
				all = append(all, x.Data...)
			}
			content[k1] = append(content[k1], seg{all, in1})
		} else {
			var d [3][]byte
			for _, x := range ch.Chunks {
				d[x.FD] = append(d[x.FD], x.Data...)
			}
			content[k1] = append(content[k1], seg{d[1], in1})
			content[k2] = append(content[k2], seg{d[2], in2})
		}
		if ch.Exit != 0 || ch.Signal != 0 {
			failed = true
			hasExit = true
			wantExit = ch.Exit
			if ch.Signal != 0 {
				wantExit = -1
			}
			var cap []byte
			for _, sg := range content[fmt.Sprintf("captured%d", i)] {
				cap = append(cap, sg.data...)
			}
			if len(cap) > 0 {
				captured = append(captured, cap)
			}
		}
		if g.Out.Kind == sFnBad || g.Err.Kind == sFnBad {
			failed = true
		}
		if failed {
			ok = false
		}
	}
	_ = lastStarted

	// What the children saw.
	var reports []childReport
	if b, err := os.ReadFile(w.log); err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var x childReport
			must(json.Unmarshal([]byte(l), &x))
			reports = append(reports, x)
		}
	}
	var got []int
	for _, x := range reports {
		got = append(got, x.Index)
	}
	want := append([]int{}, started...)
	if s.Form == "all" {
		sort.Ints(got)
		sort.Ints(want)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		bad("C15", "the children %v ran, want %v", got, want)
		return
	}
	if (res.Err == "") != ok {
		bad("C15", "the result is %q, want success: %v", res.Err, ok)
	}
	if s.Form != "all" && hasExit && !ok && res.Err != "" {
		if len(res.Exits) != 1 || res.Exits[0] != wantExit {
			bad("C15", "the exit status %d cannot be recovered from the error: %v (%s)", wantExit, res.Exits, res.Err)
		}
	}
	shellCalls := [][]string{}
	for _, x := range reports {
		g := s.Cmds[0]
		for _, y := range s.Cmds {
			if y.Child == x.Index {
				g = y
			}
		}
		ch := w.children[x.Index]
		wantArgs := append([]string{"helper", "child", w.specFile[x.Index]}, w.extra[x.Index]...)
		if fmt.Sprintf("%q", x.Argv[1:]) != fmt.Sprintf("%q", wantArgs) {
			bad("C15", "the child got the arguments %q, want %q", x.Argv[1:], wantArgs)
		}
		if g.Direct && x.Argv[0] != g.Prog {
			bad("C15", "the child was started as %q, want %q", x.Argv[0], g.Prog)
		}
		wantCwd := g.Dir
		if !filepath.IsAbs(wantCwd) {
			wantCwd = filepath.Join(base, wantCwd)
		}
		if s.YAML && g.Dir == "" {
			wantCwd = base
		}
		if r, err := filepath.EvalSymlinks(wantCwd); err == nil {
			wantCwd = r
		}
		if x.Cwd != wantCwd {
			bad("C15", "the child ran in %q, want %q", x.Cwd, wantCwd)
		}
		if ch.ReadStdin && !bytes.Equal(x.Stdin, stdinOf[x.Index]) {
			bad("C15", "the child read %q from its standard input, want %q", clip(string(x.Stdin), 100), clip(string(stdinOf[x.Index]), 100))
		}
		we := envMap(append(append([]string{}, w.env...), g.Env...))
		ge := envMap(x.Env)
		if !g.Direct && strings.HasPrefix(g.Shell, "VX") {
			we["VX"] = "1"
		}
		for _, k := range []string{"PWD", "OLDPWD", "SHLVL", "_"} {
			delete(we, k)
			delete(ge, k)
		}
		if fmt.Sprintf("%q", we) != fmt.Sprintf("%q", ge) {
			bad("C15", "the child's environment is %q, want %q", ge, we)
		}
		if !g.Direct {
			shellCalls = append(shellCalls, []string{"2", "-c", g.Shell})
		}
	}
	if strings.HasSuffix(w.shell, "my shell") {
		var gotCalls [][]string
		b, _ := os.ReadFile(w.shellLog)
		fs := strings.Split(strings.TrimSuffix(string(b), "\x00"), "\x00")
		for i := 0; i+2 < len(fs); i += 3 {
			gotCalls = append(gotCalls, fs[i:i+3])
		}
		if s.Form == "all" {
			for _, x := range [][][]string{gotCalls, shellCalls} {
				sort.Slice(x, func(i, j int) bool { return fmt.Sprint(x[i]) < fmt.Sprint(x[j]) })
			}
		}
		if fmt.Sprintf("%q", gotCalls) != fmt.Sprintf("%q", shellCalls) {
			bad("C15", "the shell was called with %q, want %q", gotCalls, shellCalls)
		}
		c.Count("custom_shell_calls", int64(len(gotCalls)))
	}

	// Destinations.
	flat := func(key string) []byte {
		var b []byte
		for _, sg := range content[key] {
			b = append(b, sg.data...)
		}
		return b
	}
	for i, g := range s.Cmds {
		ran := false
		for _, x := range started {
			ran = ran || x == g.Child
		}
		for _, x := range []struct {
			n string
			k sink
		}{{"o", g.Out}, {"e", g.Err}} {
			key := fmt.Sprintf("%s%d", x.n, i)
			wr := res.Writers[key]
			if wr == nil || s.YAML {
				continue
			}
			switch x.k.Kind {
			case sWriter, sFn, sFnClose, sFnBad:
				if wantData := flat(key); ran && !bytes.Equal(wr.Data, wantData) {
					bad("C16", "%s of command %d: the writer got %d bytes, want %d: %q, want %q", x.n, i, len(wr.Data), len(wantData), clip(string(wr.Data), 300), clip(string(wantData), 300))
				}
				if !ran && len(wr.Data) > 0 {
					bad("C16", "the writer of a command that did not run got %q", wr.Data)
				}
			}
			if wr.AfterClose {
				bad("C16", "the deferred writer %s was written to after it was closed", key)
			}
			switch x.k.Kind {
			case sFn, sFnClose, sFnBad:
				if ran && wr.FnCalls != 1 || wr.FnCalls > 1 {
					bad("C16", "the function for the deferred writer %s was called %d times", key, wr.FnCalls)
				}
				wantCl := wr.FnCalls
				if x.k.Kind == sFn {
					wantCl = 0
				}
				if wr.Closes != wantCl {
					bad("C16", "the deferred writer %s was closed %d times before Run returned, want %d", key, wr.Closes, wantCl)
				}
				c.Count("deferred_writers", 1)
			}
		}
	}
	if s.Form != "all" {
		if len(captured) == 0 && len(res.Outputs) > 0 && len(res.Outputs[0]) > 0 {
			bad("C16", "output attached to the error which was not to be kept: %q", clip(string(res.Outputs[0]), 300))
		}
	}
	if len(captured) > 0 {
		var a, b []string
		for _, x := range captured {
			a = append(a, string(x))
		}
		for _, x := range res.Outputs {
			b = append(b, string(x))
		}
		sort.Strings(a)
		sort.Strings(b)
		if fmt.Sprintf("%q", a) != fmt.Sprintf("%q", b) {
			bad("C16", "the output attached to the error is %q, want %q", clip(fmt.Sprintf("%q", b), 500), clip(fmt.Sprintf("%q", a), 500))
		}
		c.Count("outputs_attached_to_errors", int64(len(captured)))
	}
	for _, x := range []struct {
		key string
		got []byte
	}{{"fab:stdout", stdout}, {"fab:stderr", stderr}} {
		if msg := w.checkStream(x.got, content[x.key]); msg != "" {
			bad("C16", "%s: %s", x.key, msg)
		}
	}
	after := snapshot(w.root)
	for p, v := range after {
		abs := filepath.Join(w.root, p)
		if p == "stdout" || p == "stderr" || p == "children.log" || p == "result.json" || p == "shell.log" {
			continue
		}
		if touched[abs] {
			f := strings.SplitN(v, " ", 3)
			if maybe[abs] {
				continue
			}
			if len(f) < 3 || f[2] != string(flat(abs)) {
				bad("C16", "the file %s has %q, want %q", p, clip(f[len(f)-1], 300), clip(string(flat(abs)), 300))
			}
			c.Count("files_compared", 1)
			continue
		}
		if before[p] != v && !maybe[abs] {
			bad("C16", "the file %s, which was no destination, became %q", p, clip(v, 300))
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			bad("C16", "the file %s is gone", p)
		}
	}
	for abs := range touched {
		if _, ok := after[must1(filepath.Rel(w.root, abs))]; !ok {
			bad("C16", "the file %s was not made", abs)
		}
	}
	c.Count("children", int64(len(reports)))
	return
}

// checkStream compares what appeared on one of fab's own streams with the segments expected there.
func (w *cmdWorld) checkStream(got []byte, segs []seg) string {
	if !w.s.Verbose {
		var wants []string
		for k := 0; k <= 24; k++ {
			var b []byte
			any := false
			for _, sg := range segs {
				if sg.indent {
					b = append(b, refIndent(sg.data, strings.Repeat(" ", k))...)
					any = true
				} else {
					b = append(b, sg.data...)
				}
			}
			if any && k == 0 {
				continue
			}
			if bytes.Equal(b, got) {
				return ""
			}
			wants = append(wants, string(b))
		}
		return fmt.Sprintf("%q, want %q (with some indentation)", clip(string(got), 500), clip(wants[0], 500))
	}
	// Lines of fab itself are not judged; those of the children begin with ~.
	var gotLines, wantLines []string
	for _, l := range strings.Split(string(got), "\n") {
		t := strings.TrimLeft(l, " ")
		if strings.HasPrefix(t, "~") {
			if len(t) != len(l) {
				t = "(indented)" + t
			}
			gotLines = append(gotLines, t)
		}
	}
	for _, sg := range segs {
		for _, l := range strings.Split(strings.TrimSuffix(string(sg.data), "\n"), "\n") {
			if l == "" {
				continue
			}
			if sg.indent {
				l = "(indented)" + l
			}
			wantLines = append(wantLines, l)
		}
	}
	if strings.Join(gotLines, "\n") != strings.Join(wantLines, "\n") {
		return fmt.Sprintf("the lines of the children are %q, want %q", clip(strings.Join(gotLines, "\n"), 500), clip(strings.Join(wantLines, "\n"), 500))
	}
	return ""
}

func commandCheck(m *Mon, prop string, quick, thorough int) {
	m.Parallel("cmd", m.N(quick, thorough), 8, func(c *Case) {
		w := genCommands(c, prop == "C16")
		discs, wit := w.run()
		for _, d := range discs {
			for _, p := range d.props {
				if p == prop {
					c.Fail(wit, "%s", d.msg)
					return
				}
			}
		}
		j, _ := json.Marshal(w.s.Cmds)
		c.Nontrivial(strings.ReplaceAll(string(j)+w.s.Form, w.root, ""))
		if len(w.s.Cmds) == 1 {
			c.Sample(map[string]any{"commands": w.s.Cmds, "yaml": w.s.YAML, "children": w.children[0].Exit})
		}
		if w.s.YAML {
			c.Count("yaml_cases", 1)
		}
		if w.s.Verbose {
			c.Count("verbose_cases", 1)
		}
	})
	m.Rule("a case is one to four Commands (Go or YAML; shell string, shell list or program with arguments; in a Seq, an All or alone; odd arguments, environments, directories, inputs and destinations; some that fail, are killed by a signal or cannot start), run in a process of its own; " +
		"the children report arguments, environment, directory and input and write known bytes in known order; reports, results and all destinations are compared with a model; distinct = the definitions")
	m.Assume("children do not leave processes of their own behind; two different pipes never lead to the same destination in one case")
}

// appendCheck lets several Commands append to one file at the same time, and to a file that their children also write to.
func appendCheck(m *Mon, quick, thorough int) {
	m.Parallel("append", m.N(quick, thorough), 4, func(c *Case) {
		r := c.R
		root := c.Dir()
		s := &cmdRun{Result: filepath.Join(root, "result.json"), Form: "all", Cwd: root, Topdir: root, YAML: r.Intn(2) == 0}
		n := 1 + r.Intn(5)
		if n == 1 {
			s.Form = "single"
		}
		if r.Intn(4) == 0 {
			s.Form = "seq"
		}
		w := &cmdWorld{c: c, r: r, root: root, s: s, log: filepath.Join(root, "children.log"), initial: map[string]string{}}
		w.env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
		files := []string{filepath.Join(root, "log1"), filepath.Join(root, "log2")}
		old := ""
		if r.Intn(2) == 0 {
			old = "~old 1\n~old 2\n"
			must(os.WriteFile(files[0], []byte(old), 0644))
		}
		wants := map[string][]string{} // file and source -> lines in order
		for i := 0; i < n; i++ {
			ch := &childSpec{Index: i, Log: w.log}
			g := &goCmd{Child: i, Direct: r.Intn(2) == 0}
			dests := [3]string{"", files[0], files[r.Intn(2)]}
			sinkFor := func(fd int) sink {
				name := []string{filepath.Base(dests[fd]), "./" + filepath.Base(dests[fd]), dests[fd]}[r.Intn(3)]
				return sink{Kind: sFile, File: ">>" + name, Abs: dests[fd], Append: true}
			}
			g.Out, g.Err = sinkFor(1), sink{Kind: sDiscard}
			if r.Intn(2) == 0 {
				g.Err = sinkFor(2)
			} else {
				dests[2] = ""
			}
			for k := 2 + r.Intn(8); k > 0; k-- {
				fd := 1 + r.Intn(3)
				x := chunk{FD: fd, Data: genData(r, i, fd, true)}
				if r.Intn(3) == 0 {
					x.Sleep = r.Intn(2000)
				}
				to := ""
				if fd == 3 {
					x.File = files[r.Intn(2)]
					to = x.File
				} else {
					to = dests[fd]
				}
				ch.Chunks = append(ch.Chunks, x)
				if to != "" {
					key := to // (one child's chunks follow each other)
					for _, l := range strings.Split(strings.TrimSuffix(string(x.Data), "\n"), "\n") {
						wants[fmt.Sprintf("%s %d", key, i)] = append(wants[fmt.Sprintf("%s %d", key, i)], l)
					}
				}
			}
			f := filepath.Join(root, fmt.Sprintf("child%d.json", i))
			j, _ := json.Marshal(ch)
			must(os.WriteFile(f, j, 0644))
			w.children = append(w.children, ch)
			args := []string{"helper", "child", f}
			if g.Direct {
				g.Prog, g.Args = selfExe, args
			} else {
				g.Shell = shq(selfExe) + " helper child " + shq(f)
			}
			s.Cmds = append(s.Cmds, g)
		}
		if s.YAML {
			must(os.WriteFile(filepath.Join(root, "fab.yaml"), []byte(w.yaml()), 0644))
		}
		spec := filepath.Join(root, "run.json")
		j, _ := json.Marshal(s)
		must(os.WriteFile(spec, j, 0644))
		cmd := exec.Command(selfExe, "helper", "command", spec)
		cmd.Env = w.env
		out, err := cmd.CombinedOutput()
		wit := map[string]any{"run": s, "children": w.children, "output": clip(string(out), 2000)}
		c.Event()
		var res cmdResult
		b, rerr := os.ReadFile(s.Result)
		if rerr != nil {
			c.Fail(wit, "the process running the Commands died (%v)", err)
			return
		}
		must(json.Unmarshal(b, &res))
		if res.Err != "" || res.ReadErr != "" {
			c.Fail(wit, "Commands that append to a file failed: %s%s", res.Err, res.ReadErr)
			return
		}
		switches := 0
		for k, f := range files {
			b, _ := os.ReadFile(f)
			text := string(b)
			if k == 0 {
				rest, ok := strings.CutPrefix(text, old)
				if !ok {
					c.Fail(wit, "what %s held before is gone from its beginning: %q", filepath.Base(f), clip(text, 300))
					return
				}
				text = rest
			}
			got := map[string][]string{}
			last := ""
			for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
				if l == "" && text == "" {
					continue
				}
				who, _, _ := strings.Cut(strings.TrimPrefix(l, "~"), ".")
				if last != "" && who != last {
					switches++
				}
				last = who
				got[f+" "+who] = append(got[f+" "+who], l)
			}
			keys := map[string]bool{}
			for x := range got {
				keys[x] = true
			}
			for x := range wants {
				if strings.HasPrefix(x, f+" ") {
					keys[x] = true
				}
			}
			for x := range keys {
				if g, h := strings.Join(got[x], "\n"), strings.Join(wants[x], "\n"); g != h {
					c.Fail(wit, "%s holds %d lines (%d bytes) of one source, want %d lines (%d bytes): %q, want %q", filepath.Base(f), len(got[x]), len(g), len(wants[x]), len(h), clip(g, 300), clip(h, 300))
					return
				}
			}
		}
		c.Count("shared_append_cases", 1)
		c.Count("switches_between_appenders", int64(switches))
		c.Nontrivial(fmt.Sprintf("append %d %v %s %d", n, s.YAML, s.Form, r.Int63()))
	})
}

func init() {
	checks["C15"] = func(m *Mon) { commandCheck(m, "C15", 2500, 60000) }
	checks["C16"] = func(m *Mon) {
		commandCheck(m, "C16", 2500, 60000)
		appendCheck(m, 150, 5000)
	}
}
