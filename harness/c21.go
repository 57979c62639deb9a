package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/bobg/fab"
	_ "github.com/bobg/fab/golang"
	_ "github.com/bobg/fab/proto"
	_ "github.com/bobg/fab/ts"
)

// C21: helper processes, with no rights but to a scratch directory, read generated build files and run what they define.
// What kills a helper, or keeps it from ever going on, is a violation.

type fuzzInput struct {
	ID    string
	Files map[string][]byte // fab.yaml files
	Odd   []string          // what else there is
	Modes int
}

type yamlGen struct {
	r       *rand.Rand
	anchors int
	odd     bool
}

var (
	fuzzNames = []string{"A", "B", "C", "D", "E", "sub/A", "sub/B", "./A", "../A", "./sub/A", "loop/A", "up/A", "self/A", "file/A", "missing/A", "sub/../A", "sub//A", "/A", "sub/", "/", "", ".", "..", "sub/deep/A",
		"fifodir/A", "../../../A", "a\\nb", "é", "noread/A", "\\0", "sub/sub/A", "updown/A", "$A", "*", "&x", "!x", "- x", "A B", "_dir", "dangling/A", "LONG/A"}
	fuzzPaths = []string{"file", "missing", "dir", "dir/f", "file/below", "file/below/further", "loop", "loopa", "loopa/x", "self", "self/self/file", "up", "up/file", "dangling", "dangling/x", "fifo", "noread", "noreaddir", "noreaddir/x", "sock",
		"", ".", "./", "..", "LONG", "dir/../file", "a\\tb", "\\0", "x\\0y", "\\xff", "out", "out/x", "sub", "sub/fab.yaml", "fab.yaml", "./file", "file/", "dir//f", "updown", "updown/updown", "*", "[", "{a,b}", "twice", "nulldev", "zerodev", "deep"}
	fuzzShells   = []string{"", "ok", "fail", "out", "x y", "\\0", "'", "$(", "echo a\\necho b"}
	fuzzScalars  = []string{"", "~", "null", "true", "no", "17", "-1", "0x1f", "1e400", ".nan", "2020-01-01", "<<", "=", "x", "[", "{", "\\u2028", "1_000", "!!", "%", "@", "0o8", "9223372036854775808"}
	fuzzPatterns = []string{"*", "[", "dir/*", "[a-", "\\\\", "*/*/*", "self/*/*", "**", "?", "file/*", "", "/nowhere/*", "../*", "noreaddir/*", "loop/*", "{", "[^]", "[]a]", "dir/[", "\\0*"}
	fuzzFlow     = []string{"$stdout", "$stderr", "$discard", "$indent", "$verbose", "$stdin", "$", ">>", ">> out", ">>out", ">", "out", "file", "dir", "missing/x", "file/x", "loop", "\\0", "", "LONG", "$unknown"}
	fuzzFlags    = []string{"-x", "--", "", "-o", "\\0", "é", "-tags=a"}
	fuzzTags     = []string{"!Command", "!Files", "!Seq", "!All", "!Deps", "!Clean", "!ArgTarget", "!go.Binary", "!go.Deps", "!proto.Proto", "!proto.Deps", "!ts.Decls", "!Glob", "!Unknown", "!", "!!str", "!!int", "!!binary", "!!set", "!!map", "!!seq", "!!null", "!!float", "!!timestamp", "!!merge", "!<tag:x,1:y>", "!command", "!Files!", "!%46iles"}
	fuzzFields   = []string{"Target", "In", "Out", "Autoclean", "Shell", "Cmd", "Args", "Env", "Stdin", "Stdout", "Stderr", "Dir", "Pre", "Post", "Files", "File", "Includes", "Inputs", "Outputs", "Opts", "Type", "Prefix", "Flags", "Recursive", "Tests", "target", "Unknown", "<<", "", "17", "~"}
)

func (g *yamlGen) pick(ss []string) string { return ss[g.r.Intn(len(ss))] }

func (g *yamlGen) scalar(pool []string) string {
	s := g.pick(pool)
	if strings.Contains(s, "LONG") {
		n := []int{300, 5000}[g.r.Intn(2)]
		s = strings.ReplaceAll(s, "LONG", strings.Repeat("l", n))
	}
	switch g.r.Intn(12) {
	case 0:
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	case 1:
		if ok, _ := regexp.MatchString(`^[A-Za-z0-9./_~-]+$`, s); ok {
			return s
		}
	}
	return `"` + strings.ReplaceAll(strings.ReplaceAll(s, `"`, `\"`), `\xff`, "\xff") + `"`
}

func (g *yamlGen) list(pool []string) string {
	if g.wrong() {
		return g.any(2)
	}
	if g.r.Intn(5) == 0 {
		return "!Glob [" + g.scalar(fuzzPatterns) + ", " + g.scalar(fuzzPatterns) + "]"
	}
	if g.r.Intn(14) == 0 {
		return "!proto.Deps {File: " + g.scalar(fuzzPaths) + ", Includes: [" + g.scalar(fuzzPaths) + "]}"
	}
	if g.r.Intn(20) == 0 {
		return "!go.Deps {Dir: " + g.scalar(fuzzPaths) + ", Recursive: " + g.pick([]string{"true", "false", "x"}) + "}"
	}
	var items []string
	for k := g.r.Intn(4); k > 0; k-- {
		if g.wrong() {
			items = append(items, g.any(1))
		} else if g.r.Intn(12) == 0 {
			items = append(items, "!Glob ["+g.scalar(fuzzPatterns)+"]")
		} else {
			items = append(items, g.scalar(pool))
		}
	}
	return "[" + strings.Join(items, ", ") + "]"
}

func (g *yamlGen) wrong() bool { return g.odd && g.r.Intn(25) == 0 }

// any is a node of any kind.
func (g *yamlGen) any(depth int) string {
	n := 10
	if depth <= 0 {
		n = 4
	}
	switch g.r.Intn(n) {
	case 0, 1:
		return g.scalar(fuzzScalars)
	case 2:
		if g.anchors > 0 {
			return fmt.Sprintf("*a%d", 1+g.r.Intn(g.anchors+1))
		}
		return "~"
	case 3:
		return []string{"[]", "{}", "", "~", "''", "!!null", "! x", "*a1"}[g.r.Intn(8)]
	case 4, 5:
		var items []string
		for k := g.r.Intn(4); k > 0; k-- {
			items = append(items, g.any(depth-1))
		}
		return "[" + strings.Join(items, ", ") + "]"
	case 6, 7:
		var items []string
		for k := g.r.Intn(4); k > 0; k-- {
			key := g.scalar(fuzzFields)
			if g.r.Intn(10) == 0 {
				key = "? " + g.any(depth-1) + " "
			}
			items = append(items, key+": "+g.any(depth-1))
		}
		return "{" + strings.Join(items, ", ") + "}"
	case 8:
		g.anchors++
		return fmt.Sprintf("&a%d %s", g.anchors, g.any(depth-1))
	default:
		return g.pick(fuzzTags) + " " + g.any(depth-1)
	}
}

func (g *yamlGen) target(depth int) string {
	if g.wrong() {
		return g.any(3)
	}
	if depth <= 0 || g.r.Intn(4) == 0 {
		return g.scalar(fuzzNames[:4+g.r.Intn(len(fuzzNames)-3)])
	}
	sub := func() string { return g.target(depth - 1) }
	subs := func() string {
		var items []string
		for k := g.r.Intn(4); k > 0; k-- {
			items = append(items, sub())
		}
		return "[" + strings.Join(items, ", ") + "]"
	}
	fields := func(kv ...string) string {
		var items []string
		for i := 0; i < len(kv); i += 2 {
			if g.odd && g.r.Intn(20) == 0 {
				continue
			}
			items = append(items, kv[i]+": "+kv[i+1])
		}
		if g.wrong() {
			items = append(items, g.scalar(fuzzFields)+": "+g.any(2))
		}
		g.r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
		return "{" + strings.Join(items, ", ") + "}"
	}
	boolean := func() string { return g.pick([]string{"true", "false", "true", "false", "x", "1"}) }
	switch k := g.r.Intn(16); k {
	case 0, 1, 2:
		switch g.r.Intn(5) {
		case 0:
			return "!Command [" + g.scalar(fuzzShells) + ", " + g.scalar(fuzzShells) + "]"
		case 1:
			return "!Command {Shell: [" + g.scalar(fuzzShells) + ", " + g.scalar(fuzzShells) + "], Stdout: " + g.scalar(fuzzFlow) + "}"
		}
		kv := []string{"Shell", g.scalar(fuzzShells)}
		if g.r.Intn(4) == 0 {
			kv = []string{"Cmd", g.scalar(append([]string{"nocmd"}, fuzzPaths...)), "Args", g.list(fuzzShells)}
		}
		for _, f := range []string{"Stdin", "Stdout", "Stderr"} {
			if g.r.Intn(3) == 0 {
				s := g.scalar(fuzzFlow)
				kv = append(kv, f, s)
			}
		}
		if g.r.Intn(4) == 0 {
			kv = append(kv, "Dir", g.scalar(fuzzPaths))
		}
		if g.r.Intn(4) == 0 {
			kv = append(kv, "Env", g.list([]string{"A=b", "A", "=", "", "\\0=\\0", "A=", "PATH=x"}))
		}
		return "!Command " + fields(kv...)
	case 3, 4, 5, 6:
		return "!Files " + fields("Target", sub(), "In", g.list(fuzzPaths), "Out", g.list(fuzzPaths), "Autoclean", boolean())
	case 7:
		return "!Seq " + subs()
	case 8:
		return "!All " + subs()
	case 9, 10:
		return "!Deps " + fields("Pre", subs(), "Post", sub())
	case 11:
		return "!Clean " + fields("Files", g.list(fuzzPaths), "Autoclean", boolean())
	case 12:
		return "!ArgTarget [" + sub() + ", " + g.scalar(fuzzFlags) + ", " + g.scalar(fuzzFlags) + "]"
	case 13:
		return "!go.Binary " + fields("Dir", g.scalar(fuzzPaths), "Out", g.scalar(fuzzPaths), "Flags", g.list(fuzzFlags))
	case 14:
		return "!proto.Proto " + fields("Inputs", g.list(fuzzPaths), "Outputs", g.list(fuzzPaths), "Includes", g.list(fuzzPaths), "Opts", g.list(fuzzFlags), "Autoclean", boolean())
	default:
		return "!ts.Decls " + fields("Dir", g.scalar(fuzzPaths), "Type", g.scalar(fuzzScalars), "Prefix", g.scalar(fuzzScalars), "Out", g.scalar(fuzzPaths))
	}
}

// file is a whole fab.yaml.
func (g *yamlGen) file(dir string) []byte {
	r := g.r
	var sb strings.Builder
	if g.odd && r.Intn(12) == 0 {
		sb.WriteString(g.pick([]string{"\ufeff", "%YAML 1.1\n---\n", "---\n", "# comment\n", "--- !Files\n", "--- |\n", "%TAG ! tag:x,1:\n---\n", "\xff\xfe", "\t", "...\n---\n", "- "}))
	}
	dirdecl := func() {
		d := dir
		if g.wrong() || (g.odd && r.Intn(10) == 0) {
			fmt.Fprintf(&sb, "_dir: %s\n", g.any(1))
			return
		}
		if dir != "" || r.Intn(10) == 0 {
			fmt.Fprintf(&sb, "_dir: %q\n", d)
		}
	}
	first := r.Intn(2) == 0
	if first {
		dirdecl()
	}
	for i, n := 0, 1+r.Intn(6); i < n; i++ {
		key := string(rune('A' + i))
		if g.odd && r.Intn(15) == 0 {
			key = g.scalar(fuzzNames)
		}
		if g.wrong() {
			key = "? " + g.any(2) + "\n"
		}
		if r.Intn(8) == 0 {
			fmt.Fprintf(&sb, "# %s\n", g.pick([]string{"a doc", "# twice", "", "\u2028", "{{ }}"}))
		}
		val := g.target(3)
		if g.odd && r.Intn(20) == 0 {
			// block style
			val = g.pick([]string{"|\n  literal\n  text\n", ">-\n  folded\n", "\n  - A\n  - !Seq\n    - B\n", "!Seq\n  - A\n  -\n", "!Files\n  Target: A\n  In:\n    - file\n  Out:\n", "!Command\n  - ok\n  - {}\n", "!Files &f\n  Target: *f\n", "&r !Seq [*r]", "!All [&s [*s]]"})
		}
		fmt.Fprintf(&sb, "%s: %s\n", key, val)
	}
	if !first {
		dirdecl()
	}
	if g.odd && r.Intn(20) == 0 {
		sb.WriteString(g.pick([]string{"---\nA: B\n", "...\n", "...\nx", "A: again\n", "<<: {A: B}\n", "<<: *a1\n", "- x\n"}))
	}
	b := []byte(sb.String())
	if g.odd && r.Intn(60) == 0 { // deep nesting
		n := 50 << r.Intn(10)
		open, cl := "[", "]"
		if r.Intn(2) == 0 {
			open, cl = "!Seq [", "]"
		}
		if r.Intn(3) == 0 {
			open, cl = "{A: ", "}"
		}
		b = append(b, []byte("Deep: "+strings.Repeat(open, n)+"A"+strings.Repeat(cl, n)+"\n")...)
	}
	return b
}

// mutate changes some bytes.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(6); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{"\n\t :-[]{}!&*#'\"|>%@,?~\\<"[r.Intn(24)]}, b[i:]...)...)
		case 3:
			j := min(len(b), i+r.Intn(12))
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := min(len(b), i+r.Intn(20))
			k := r.Intn(len(b))
			b = append(append(append([]byte(nil), b[:k]...), b[i:j]...), b[k:]...)
		case 5:
			b = b[:i]
		case 6:
			b[i] ^= 1 << r.Intn(8)
		}
	}
	return b
}

var fuzzOdd = []string{"file", "dir", "loop", "loopab", "self", "up", "dangling", "fifo", "noread", "noreaddir", "sock", "updown", "twice", "devs", "deep"}

func genFuzz(r *rand.Rand, id string) fuzzInput {
	in := fuzzInput{ID: id, Files: map[string][]byte{}, Modes: r.Intn(64)}
	g := &yamlGen{r: r, odd: r.Intn(3) > 0}
	in.Files[""] = g.file("")
	for _, d := range []string{"sub", "sub/deep"} {
		if r.Intn(2) == 0 {
			g.anchors = 0
			in.Files[d] = g.file(d)
		}
	}
	for _, d := range sortedKeys(in.Files) {
		if g.odd && r.Intn(3) == 0 {
			in.Files[d] = mutate(r, in.Files[d])
		}
	}
	if r.Intn(40) == 0 {
		b := make([]byte, r.Intn(200))
		r.Read(b)
		in.Files[""] = b
	}
	globs, protos := false, false
	for _, b := range in.Files {
		globs = globs || bytes.Contains(b, []byte("lob"))
		protos = protos || bytes.Contains(b, []byte("roto"))
	}
	for _, o := range fuzzOdd {
		if o == "fifo" && (globs || protos) || o == "devs" && protos {
			// Go's fs.Glob itself waits for a pipe where it looks for a directory;
			// and asking for the imports in an endless file is not malformed, but unwise.
			continue
		}
		if r.Intn(3) > 0 {
			in.Odd = append(in.Odd, o)
		}
	}
	return in
}

// setup creates what the file system of an input holds.
func (in fuzzInput) setup(dir string) error {
	for _, d := range []string{"sub/deep"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
			return err
		}
	}
	for d, b := range in.Files {
		if err := os.WriteFile(filepath.Join(dir, d, "fab.yaml"), b, 0644); err != nil {
			return err
		}
	}
	j := func(f string) string { return filepath.Join(dir, f) }
	for _, o := range in.Odd {
		switch o {
		case "file":
			os.WriteFile(j("file"), []byte("x"), 0644)
		case "dir":
			os.Mkdir(j("dir"), 0755)
			os.WriteFile(j("dir/f"), []byte("y"), 0644)
		case "loop":
			os.Symlink("loop", j("loop"))
		case "loopab":
			os.Symlink("loopb", j("loopa"))
			os.Symlink("loopa", j("loopb"))
		case "self":
			os.Symlink(".", j("self"))
		case "up":
			os.Symlink("..", j("sub/up"))
		case "dangling":
			os.Symlink("nowhere", j("dangling"))
		case "fifo":
			syscall.Mkfifo(j("fifo"), 0644)
		case "noread":
			os.WriteFile(j("noread"), []byte("z"), 0)
		case "noreaddir":
			os.Mkdir(j("noreaddir"), 0755)
			os.WriteFile(j("noreaddir/x"), []byte("z"), 0644)
			os.Chmod(j("noreaddir"), 0)
		case "sock":
			if l, err := net.Listen("unix", j("sock")); err == nil {
				l.(*net.UnixListener).SetUnlinkOnClose(false)
				l.Close()
			}
		case "updown": // a directory that contains itself twice
			os.Mkdir(j("updown"), 0755)
			os.Symlink("../updown", j("updown/updown"))
			os.Symlink("../updown", j("updown/again"))
		case "twice":
			os.Mkdir(j("twice"), 0755)
			os.WriteFile(j("twice/f"), []byte("w"), 0644)
			os.Symlink("f", j("twice/g"))
		case "devs":
			os.Symlink("/dev/null", j("nulldev"))
			os.Symlink("/dev/zero", j("zerodev"))
		case "deep":
			os.MkdirAll(j("deep/"+strings.Repeat("d/", 30)), 0755)
		}
	}
	return nil
}

type fuzzDB struct {
	mu sync.Mutex
	m  map[string]bool
}

func (d *fuzzDB) Has(_ context.Context, h []byte) (bool, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.m[string(h)], nil
}
func (d *fuzzDB) Add(_ context.Context, h []byte) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.m[string(h)] = true
	return nil
}

type fuzzOutcome struct {
	ID      string
	ReadErr string
	Targets int
	RunErrs int
	Skipped bool
	Stage   string
}

// helperFuzz reads inputs (one JSON object per line) and tells of each what came of it.
func helperFuzz(args []string) {
	debug.SetMaxStack(128 << 20)
	dir := args[0]
	must(os.Chdir(dir))
	out := os.Stdout
	null := must1(os.OpenFile(os.DevNull, os.O_RDWR, 0))
	os.Stdout, os.Stdin = null, null
	var stage atomic.Pointer[fuzzOutcome]
	enc := json.NewEncoder(out)
	var progress, cpuStart atomic.Int64
	go fuzzWatch(&stage, &progress, &cpuStart)
	rd := bufio.NewReaderSize(must1(os.Open(args[1])), 1<<20)
	for n := 0; ; n++ {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var in fuzzInput
		must(json.Unmarshal(line, &in))
		skip, _ := strconv.Atoi(args[2])
		if n < skip {
			continue
		}
		cpuStart.Store(int64(cpuTime()))
		at := func(s string) {
			progress.Add(1)
			stage.Store(&fuzzOutcome{ID: in.ID, Stage: s})
			fmt.Fprintf(os.Stderr, "@ %s %s\n", in.ID, s)
		}
		at("setup")
		d := filepath.Join(dir, fmt.Sprintf("in%d", n))
		must(os.Mkdir(d, 0755))
		if err := in.setup(d); err != nil {
			panic("harness: " + err.Error())
		}
		o := fuzzOutcome{ID: in.ID}
		at("top")
		fab.TopDir(filepath.Join(d, "sub", "deep"))
		at("read")
		con := fab.NewController(d)
		if err := con.ReadYAMLFile(""); err != nil {
			o.ReadErr = err.Error()
			if o.ReadErr == "" {
				o.ReadErr = "(empty)"
			}
		}
		if in.Modes&32 != 0 {
			at("read sub")
			con.ReadYAMLFile("sub")
		}
		con.ListTargets(io.Discard)
		names := con.RegistryNames()
		o.Targets = len(names)
		var targets []fab.Target
		for _, name := range names {
			t, _ := con.RegistryTarget(name)
			targets = append(targets, t)
			if j, err := json.Marshal(t); err == nil && !inside(j, dir) {
				o.Skipped = true
			}
		}
		if !o.Skipped && (o.ReadErr == "" || in.Modes&32 != 0) {
			ctx := context.Background()
			if in.Modes&1 != 0 {
				ctx = fab.WithDryRun(ctx, true)
			}
			if in.Modes&2 != 0 {
				ctx = fab.WithForce(ctx, true)
			}
			if in.Modes&4 != 0 {
				ctx = fab.WithVerbose(ctx, true)
			}
			if in.Modes&8 != 0 {
				ctx = fab.WithHashDB(ctx, &fuzzDB{m: map[string]bool{}})
			}
			if in.Modes&16 != 0 {
				at("run all")
				if err := con.Run(ctx, targets...); err != nil {
					o.RunErrs++
				}
			}
			for i, t := range targets {
				at("run " + names[i])
				if err := con.Run(ctx, t); err != nil {
					o.RunErrs++
				}
				con.Describe(t)
			}
		}
		at("done")
		must(enc.Encode(o))
		exec := func() {
			filepath.Walk(d, func(p string, info os.FileInfo, err error) error {
				if info != nil && info.IsDir() {
					os.Chmod(p, 0755)
				}
				return nil
			})
			if !strings.HasPrefix(d, dir+"/in") {
				panic("harness: " + d)
			}
			os.RemoveAll(d)
		}
		exec()
	}
}

// inside tells whether all files named by a target are in the directory of the inputs.
// (Some are not, after all these mutations; reading all of /proc is not what this is about.)
func inside(j []byte, dir string) bool {
	var v any
	if json.Unmarshal(j, &v) != nil {
		return true
	}
	var walk func(v any, file bool) bool
	walk = func(v any, file bool) bool {
		switch v := v.(type) {
		case string:
			return !file || !filepath.IsAbs(v) || strings.HasPrefix(v, dir+"/in")
		case []any:
			for _, x := range v {
				if !walk(x, file) {
					return false
				}
			}
		case map[string]any:
			for k, x := range v {
				k = strings.ToLower(k)
				if !walk(x, k == "in" || k == "out" || k == "files" || k == "inputs" || k == "outputs" || strings.HasPrefix(k, "std") || (file && k != "target")) {
					return false
				}
			}
		}
		return true
	}
	return walk(v, false)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func hasChildren() bool {
	ents, _ := filepath.Glob("/proc/self/task/*/children")
	for _, e := range ents {
		b, err := os.ReadFile(e)
		if err != nil || len(bytes.TrimSpace(b)) > 0 {
			return true
		}
	}
	return len(ents) == 0
}

func residentMB() int {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

// fuzzWatch ends the process when the code under test can never go on:
// when all its goroutines wait for each other,
// or the process does nothing at all (without any child it could wait for),
// or it has used up far more processor time than any of these small inputs needs.
func fuzzWatch(stage *atomic.Pointer[fuzzOutcome], progress, cpuStart *atomic.Int64) {
	last, same, idle, prev := int64(-1), 0, 0, ""
	var lastCPU time.Duration
	for {
		time.Sleep(250 * time.Millisecond)
		cpu := cpuTime()
		if p := progress.Load(); p != last && residentMB() < 1500 {
			last, same, idle, prev, lastCPU = p, 0, 0, "", cpu
			continue
		}
		stuck, dump := allBlockedIn("main.fuzzWatch")
		sig := goroutineSig(dump)
		if stuck && sig == prev {
			same++
		} else {
			same = 0
		}
		// Looking at it takes some time, too.
		if sig == prev && cpu-lastCPU < 100*time.Millisecond && !hasChildren() && strings.Contains(dump, "[syscall") {
			idle++
		} else {
			idle = 0
		}
		prev, lastCPU = sig, cpu
		why := ""
		switch {
		case same >= 12:
			why = "deadlock: every goroutine of the build is blocked on another one"
		case idle >= 60:
			why = "it waits for something that never happens"
		case residentMB() > 1500:
			why = "it has used up 1.5 gigabytes of memory"
		case cpu-time.Duration(cpuStart.Load()) > 150*time.Second:
			why = "it is still busy after 150 seconds of processor time"
		}
		if why != "" {
			fmt.Fprintf(os.Stderr, "HANG: %s\n%s\n", why, clip(dump, 20000))
			os.Exit(7)
		}
	}
}

// allBlockedIn is allBlocked for a watcher of the given name.
func allBlockedIn(watcher string) (bool, string) {
	dump := dumpAll()
	inFab := false
	for _, g := range strings.Split(dump, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		i, j := strings.Index(head, "["), strings.LastIndex(head, "]")
		if i < 0 || j < i || strings.Contains(g, watcher+"(") {
			continue
		}
		state, _, _ := strings.Cut(head[i+1:j], ",")
		switch state {
		case "sync.Cond.Wait", "semacquire", "sync.WaitGroup.Wait", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock",
			"chan receive", "chan send", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
			if fabFrame(g) {
				inFab = true
			}
		case "finalizer wait", "GC worker (idle)", "force gc (idle)", "GC sweep wait", "GC scavenge wait", "debug call", "cleanup wait":
		default:
			return false, dump
		}
	}
	return inFab, dump
}

const fuzzShell = "#!/bin/sh\ncase \"$2\" in *fail*) exit 3;; *out*) echo out; echo err >&2;; esac\nexit 0\n"

var (
	fuzzUserOnce sync.Once
	fuzzUser     *syscall.Credential
)

// fuzzBatch runs some inputs in helper processes.
func fuzzBatch(per int, fixed []fuzzInput) func(c *Case) {
	return func(c *Case) {
		dir := c.Dir()
		must(os.Chmod(dir, 0755))
		scratch := filepath.Join(dir, "s")
		must(os.Mkdir(scratch, 0755))
		cred := fuzzUser
		if cred != nil {
			must(os.Chown(scratch, int(cred.Uid), int(cred.Gid)))
		}
		shell := filepath.Join(dir, "shell")
		must(os.WriteFile(shell, []byte(fuzzShell), 0755))
		ins := fixed
		if ins == nil {
			for i := 0; i < per; i++ {
				ins = append(ins, genFuzz(c.R, fmt.Sprintf("%s#%d", c.ID, i)))
			}
		}
		var buf bytes.Buffer
		enc := json.NewEncoder(&buf)
		index := map[string]int{}
		for i, in := range ins {
			must(enc.Encode(in))
			index[in.ID] = i
		}
		list := filepath.Join(dir, "inputs")
		must(os.WriteFile(list, buf.Bytes(), 0644))
		for start := 0; start < len(ins); {
			cmd := exec.Command(os.Args[0], "helper", "fuzz", scratch, list, fmt.Sprint(start))
			cmd.Dir = scratch
			cmd.Env = []string{"SHELL=" + shell, "PATH=" + filepath.Join(dir, "nopath"), "HOME=" + scratch, "TMPDIR=" + scratch, "GOTRACEBACK=all"}
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred, Setpgid: true}
			var out, er bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &progressWriter{w: &er, c: c, limit: 8 << 20}
			err := cmd.Run()
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			dec := json.NewDecoder(&out)
			done := 0
			for {
				var o fuzzOutcome
				if dec.Decode(&o) != nil {
					break
				}
				done++
				c.Count("inputs_read", 1)
				c.Count("targets_defined", int64(o.Targets))
				c.Count("runs_that_failed", int64(o.RunErrs))
				if o.ReadErr != "" {
					c.Count("inputs_refused", 1)
				} else {
					c.Count("inputs_accepted", 1)
				}
				if o.Skipped {
					c.Count("inputs_not_run", 1)
				}
				sig := errorShape(o.ReadErr)
				if o.ReadErr == "" {
					sig = fmt.Sprint(o.Targets, o.RunErrs, ins[index[o.ID]].Modes)
				}
				c.Nontrivial(sig)
			}
			if err == nil {
				break
			}
			text := er.String()
			// The last input that was begun.
			id, stage := "", ""
			if m := stageRegex.FindAllStringSubmatch(text, -1); len(m) > 0 {
				id, stage = m[len(m)-1][1], m[len(m)-1][2]
			}
			i, ok := index[id]
			if !ok || strings.Contains(text, "panic: harness:") {
				panic("harness: helper failed: " + err.Error() + clip(text, 4000))
			}
			tail := stageRegex.ReplaceAllString(text, "")
			wit := map[string]any{"input": ins[i], "fab.yaml": string(ins[i].Files[""]), "sub": string(ins[i].Files["sub"]), "stage": stage, "stderr": clip(strings.TrimSpace(tail), 12000)}
			switch {
			case strings.Contains(text, "HANG: "):
				c.Fail(wit, "%s never ends (%s): %s", stage, id, firstLine(text[strings.Index(text, "HANG: "):]))
				return
			case fabFrame(text):
				c.Fail(wit, "%s crashes (%s): %v: %s", stage, id, err, firstLine(strings.TrimSpace(tail)))
				return
			default:
				panic("harness: helper failed: " + err.Error() + clip(text, 4000))
			}
		}
		if c.R.Intn(10) == 0 {
			c.Sample(string(ins[0].Files[""]))
		}
	}
}

var stageRegex = regexp.MustCompile(`(?m)^@ (\S+) (.*)$\n`)

// progressWriter keeps the end of what is written, and tells the watchdog that something happens.
type progressWriter struct {
	w     *bytes.Buffer
	c     *Case
	limit int
}

func (p *progressWriter) Write(b []byte) (int, error) {
	p.c.Event()
	if p.w.Len() > p.limit {
		// Keep the end only.
		rest := append([]byte(nil), p.w.Bytes()[p.w.Len()-p.limit/2:]...)
		p.w.Reset()
		p.w.Write(rest)
	}
	return p.w.Write(b)
}

func firstLine(s string) string { l, _, _ := strings.Cut(s, "\n"); return clip(l, 300) }

var (
	quotedPart = regexp.MustCompile(`"[^"]*"|/\S+`)
	numPart    = regexp.MustCompile(`[0-9]+`)
)

// errorShape is an error message without its particulars.
func errorShape(s string) string {
	return clip(numPart.ReplaceAllString(quotedPart.ReplaceAllString(s, "_"), "0"), 200)
}

// fuzzCorpus are inputs that every run tries.
func fuzzCorpus() (res []fuzzInput) {
	add := func(odd []string, modes int, files ...string) {
		in := fuzzInput{ID: fmt.Sprintf("corpus#%d", len(res)), Odd: odd, Modes: modes, Files: map[string][]byte{}}
		for i := 0; i < len(files); i += 2 {
			in.Files[files[i]] = []byte(files[i+1])
		}
		res = append(res, in)
	}
	for _, modes := range []int{8, 8 | 16, 8 | 1, 8 | 2 | 16, 0} {
		for _, p := range fuzzPaths {
			if p == "LONG" {
				p = strings.Repeat("l", 5000)
			}
			if strings.Contains(p, `\xff`) {
				p = "\xff"
			}
			add(fuzzOdd, modes, "", fmt.Sprintf("A: !Files {Target: !Command {Shell: ok}, In: [\"%s\"]}\nB: !Files {Target: !Command {Shell: ok}, Out: [\"%s\"], Autoclean: true}\nC: !Clean {Files: [\"%s\"]}\nD: !Clean {Autoclean: true}\n", p, p, p))
			add(fuzzOdd, modes, "", fmt.Sprintf("A: !Command {Shell: ok, Dir: \"%s\"}\nB: !Command {Shell: out, Stdout: \"%s\"}\nD: !Command {Shell: out, Stdout: \"%s\", Stderr: \"%s\"}\n", p, p+".out", p+".out", p+".out"))
		}
		for _, n := range fuzzNames {
			if strings.Contains(n, "LONG") {
				continue
			}
			add(fuzzOdd, modes, "", fmt.Sprintf("A: !Seq [\"%s\"]\nB: \"%s\"\n", n, n), "sub", fmt.Sprintf("_dir: sub\nA: \"%s\"\nB: !All [\"%s\", \"../A\"]\n", n, n))
		}
		for _, t := range []string{"A: A\n", "A: B\nB: A\n", "A: B\nB: C\nC: !Seq [A]\n", "A: !Files {Target: A}\n", "A: !Files {Target: !Seq [A], In: [x], Out: [x]}\n",
			"A: !Files {Target: B, In: [x], Out: [y]}\nB: !Files {Target: A, In: [y], Out: [x]}\n", "A: !Deps {Pre: [A], Post: A}\n", "A: !All [B]\nB: !Deps {Pre: [C], Post: !Command {Shell: ok}}\nC: !ArgTarget [A, x]\n",
			"A: !Files {Target: !Command {Shell: ok}, In: [y], Out: [x]}\nB: !Files {Target: !Command {Shell: ok}, In: [x], Out: [y]}\n", "", "\n", "#", "---", "[]", "{}", "~", "x", "A:\n", "A: ~\n", "? \n", "A: !Seq\n", "A: !Files\n", "A: !Command\n",
			"A: !All [A]\nB: !All [A, B]\n", "A: !Seq [!Seq [!Seq [A]]]\n", "A: &x !Seq [*x]\n", "A: &x [*x]\n", "_dir: [x]\n", "_dir: ~\n", "_dir: {}\n", "<<: [A]\n"} {
			add(fuzzOdd, modes, "", t)
		}
	}
	return
}

func init() {
	checks["C21"] = func(m *Mon) {
		m.silenceStdout()
		// A user without any rights, if that is possible.
		cred := &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
		probe := exec.Command("/bin/true")
		probe.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
		if os.Getuid() == 0 && probe.Run() == nil {
			fuzzUser = cred
			m.Assume("the helpers run as user 65534")
		}
		must(os.Chmod(m.Out, 0755))
		must(os.Chmod(m.Scratch, 0755))
		corpus := fuzzCorpus()
		n := (len(corpus) + 49) / 50
		m.Parallel("corpus", n, 8, func(c *Case) {
			i, _ := strconv.Atoi(c.ID[strings.LastIndex(c.ID, "/")+1:])
			fuzzBatch(0, corpus[i*50:min(len(corpus), i*50+50)])(c)
		})
		m.Parallel("fuzz", m.N(700, 60000), 8, fuzzBatch(100, nil))
		m.Rule("Build files: random ones with all tags and fields, wrong kinds of nodes in every position, anchors, aliases and merges, odd names and references (to themselves, up, down, through loops), mutated bytes, garbage, deep nesting; in directories with files, directories, symbolic links to themselves and in circles, named pipes, sockets, devices, unreadable files. Read, and the targets run in random modes, in helper processes of a user without rights. Non-trivial: the shape of an error, or the number of targets and of failing runs of an accepted file.")
		m.Assume("shell commands are replaced by a stand-in that succeeds, fails or prints; no other program is found")
		runtime.GC()
	}
}
