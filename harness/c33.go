package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/bobg/errors"

	"github.com/bobg/fab"
)

// C33: build files with one definition that does not have the form its place or its tag asks for.

type badGen struct {
	r      *rand.Rand
	budget int    // how many more places are passed before the bad node comes; < 0: never
	what   string // the bad node
	kind   string // the place it is in
	as     func(error) bool
	names  []string
}

func (g *badGen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }

// here tells whether this is the place of the bad node.
func (g *badGen) here() bool {
	g.budget--
	return g.budget == 0 && g.what == ""
}

func (g *badGen) bad(kind string, nodes ...string) string {
	g.kind, g.what = kind, g.pick(nodes...)
	return g.what
}

func isUnknownList(err error) bool {
	var e fab.UnknownStringListTagError
	return errors.As(err, &e)
}

func isBadKind(err error) bool {
	var e fab.BadYAMLNodeKindError
	return errors.As(err, &e) && e.Got != e.Want && e.Got != 0 && e.Want != 0
}

// target makes a node that stands for a target.
func (g *badGen) target(depth int) string {
	if g.here() {
		if g.r.Intn(4) == 0 { // the documented error
			g.as = isBadKind
			return g.bad("target", "!Seq {a: b}", "!Seq x", "!All {a: Leaf}", "!All Leaf", "!ArgTarget {a: b}", "!ArgTarget Leaf", "!Files [Leaf]", "!Files Leaf", "!Clean x", "!Command [\"true\"]", "!Command \"true\"", "!Deps Leaf",
				"!Command {Cmd: \"true\", Shell: [\"true\"]}", "!Command {Shell: {a: b}}", "!Clean {Files: x}", "!Files {Target: Leaf, In: x}", "!Files {Target: Leaf, Out: {a: b}}", "!Command {Cmd: \"true\", Args: x}", "!Command {Cmd: \"true\", Env: {A: b}}")
		}
		return g.bad("target", "{a: b}", "[Leaf]", "{}", "[]", "!Nope x", "!Nope [Leaf]", "!Nope {a: b}", "!seq [Leaf]", "!Glob [x]", "!go.Deps {Dir: m}", "!All.x [Leaf]",
			"!Deps []", "!Deps {Pre: [Leaf]}", "!Deps {Pre: {a: b}, Post: Leaf}", "!Deps {}", "!ArgTarget []", "!Files {In: [in]}", "!Files {}", "!Files {Target: Leaf, Autoclean: [x]}", "!Files {Target: Leaf, Autoclean: maybe}",
			"!Clean {Files: [x], Autoclean: 17}", "!Command {Cmd: [x]}", "!Command {Shell: \"true\", Stdout: [x]}", "!Command {Shell: \"true\", Stderr: {a: b}}", "!Command {Shell: \"true\", Stdin: [x]}", "!Command {Shell: \"true\", Dir: [x]}",
			"!Command {Cmd: {a: b}}", "!go.Binary [m]", "!go.Binary {Dir: [m]}", "!go.Binary {Dir: none}", "!go.Binary {Dir: m, Flags: x}", "!proto.Proto [in]", "!proto.Proto {Inputs: x}", "!proto.Proto {Inputs: [none.proto]}", "!proto.Proto {Inputs: [p.proto], Includes: x}",
			"!proto.Proto {Inputs: [p.proto], Outputs: {a: b}}", "!proto.Proto {Inputs: [p.proto], Opts: {a: b}}", "!ts.Decls [m]", "!ts.Decls {Dir: none, Type: T, Out: o}", "!ts.Decls {Dir: [m], Type: T, Out: o}", "!ts.Decls {Dir: m, Type: T, Out: o, Autoclean: [x]}",
			"none/X", "./none/X", "brk/X")
	}
	if depth <= 0 {
		return g.pick("Leaf", "\"Leaf\"", "!Command {Shell: \"true\"}", "sub/S", "!!str Leaf")
	}
	list := func(n int) string {
		var ss []string
		for ; n > 0; n-- {
			ss = append(ss, g.target(depth-1))
		}
		return strings.Join(ss, ", ")
	}
	switch g.r.Intn(12) {
	case 0, 1:
		return "!Seq [" + list(g.r.Intn(4)) + "]"
	case 2, 3:
		return "!All [" + list(g.r.Intn(4)) + "]"
	case 4:
		return "!Deps [" + list(1+g.r.Intn(3)) + "]"
	case 5:
		return "!Deps {Pre: [" + list(g.r.Intn(3)) + "], Post: " + g.target(depth-1) + "}"
	case 6:
		return "!ArgTarget [" + g.target(depth-1) + g.elems(", ", depth-1) + "]"
	case 7, 8:
		s := "!Files {Target: " + g.target(depth-1)
		if g.r.Intn(3) > 0 {
			s += ", In: " + g.list(depth-1)
		}
		if g.r.Intn(3) > 0 {
			s += ", Out: " + g.list(depth-1)
		}
		return s + g.pick("", ", Autoclean: false", ", Autoclean: true") + "}"
	case 9:
		if g.r.Intn(2) == 0 {
			return "!Clean [" + strings.TrimPrefix(g.elems(", ", depth-1), ", ") + "]"
		}
		return "!Clean {Files: " + g.list(depth-1) + g.pick("", ", Autoclean: false") + "}"
	case 10:
		s := "!Command {Cmd: \"true\""
		if g.r.Intn(2) == 0 {
			s += ", Args: " + g.list(depth-1)
		}
		if g.r.Intn(2) == 0 {
			s += ", Env: " + g.list(depth-1)
		}
		return s + "}"
	default:
		if g.r.Intn(2) == 0 {
			return "!Command {Shell: [" + strings.TrimPrefix(g.elems(", ", depth-1), ", ") + "], Stdout: " + g.pick("x", "$discard", "\">> x\"") + "}"
		}
		return "!proto.Proto {Inputs: [p.proto], Outputs: " + g.list(depth-1) + ", Includes: " + g.list(depth-1) + "}"
	}
}

// list makes a node that stands for a list of strings.
func (g *badGen) list(depth int) string {
	if g.here() {
		if g.r.Intn(3) == 0 {
			g.as = isUnknownList
			return g.bad("list", "!Nope [x]", "!Nope x", "!Nope {a: b}", "!Seq [x]", "!glob [x]")
		}
		g.as = isBadKind
		return g.bad("list", "x", "\"\"", "{a: b}", "{}", "3", "!Glob x", "!Glob {a: b}")
	}
	if depth > 0 && g.r.Intn(5) == 0 {
		return "!Glob [" + strings.TrimPrefix(g.elems(", ", depth-1), ", ") + "]"
	}
	if g.r.Intn(12) == 0 {
		return "!go.Deps {Dir: m}"
	}
	return "[" + strings.TrimPrefix(g.elems(", ", depth), ", ") + "]"
}

// elems makes elements of such a list, each after the separator.
func (g *badGen) elems(sep string, depth int) string {
	var sb strings.Builder
	for n := g.r.Intn(4); n > 0; n-- {
		sb.WriteString(sep)
		switch {
		case g.here():
			switch g.r.Intn(3) {
			case 0:
				g.as = isUnknownList
				sb.WriteString(g.bad("element", "!Nope x", "!Nope [x]", "!Nope {a: b}", "!Seq [x]"))
			case 1:
				g.as = isBadKind
				sb.WriteString(g.bad("element", "[x]", "{a: b}", "[]", "{}", "!Glob x", "!Glob {a: b}", "!Glob [[x]]"))
			default:
				sb.WriteString(g.bad("element", "!go.Deps [m]", "!go.Deps {Dir: none}", "!go.Deps {Dir: m, Recursive: [x]}", "!proto.Deps [x]", "!proto.Deps {File: none.proto}", "!proto.Deps {File: p.proto, Includes: x}", "!Glob [\"[\"]", "!Glob [!Nope x]"))
			}
		case depth > 0 && g.r.Intn(5) == 0:
			sb.WriteString("!Glob [" + strings.TrimPrefix(g.elems(", ", depth-1), ", ") + "]")
		case g.r.Intn(15) == 0:
			sb.WriteString("!proto.Deps {File: p.proto, Includes: " + g.list(depth-1) + "}")
		default:
			sb.WriteString(g.pick("in", "\"x y\"", "true", "3", "a/b"))
		}
	}
	return sb.String()
}

// file makes a build file. A file-level fault, if any, comes last.
func (g *badGen) file(dir string) string {
	var entries []string
	if dir != "" {
		entries = append(entries, "_dir: "+dir)
	}
	entries = append(entries, "Leaf: !Command {Shell: \"true\"}")
	for n := 1 + g.r.Intn(4); n > 0; n-- {
		name := fmt.Sprintf("T%d", n)
		g.names = append(g.names, name)
		entries = append(entries, name+": "+g.target(1+g.r.Intn(4)))
	}
	g.r.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })
	if g.here() {
		switch k := g.r.Intn(9); {
		case k == 0:
			return g.bad("file", "[Leaf]\n", "Leaf\n", "!Seq [Leaf]\n", "3\n", "- Leaf: x\n", "")
		case k == 1 && dir != "":
			for i, e := range entries {
				if strings.HasPrefix(e, "_dir") {
					entries[i] = g.bad("file", "_dir: elsewhere", "_dir: [sub]", "_dir: {sub: sub}", "_dir: \"\"", "#")
				}
			}
		case k == 1:
			entries = append(entries, g.bad("file", "_dir: sub", "_dir: [x]", "_dir: {a: b}"))
		case k <= 3:
			entries = append(entries, g.bad("file", "a/b: Leaf", "../x: Leaf", "/x: Leaf", "x/: Leaf"))
		case k <= 5:
			entries = append(entries, g.bad("file", "? [a]\n: Leaf", "? {a: b}\n: Leaf"))
		default:
			entries = append(entries, g.bad("file", "X: [", "X: !Seq [Leaf", "X: \"", "\tX: Leaf", "X: *nothing", "Y", "X: Leaf: Leaf", "- x", "%"))
		}
	}
	return strings.Join(entries, "\n") + "\n"
}

func badFileCase(c *Case) {
	r := c.R
	dir := c.Dir()
	for f, s := range map[string]string{"go.mod": "module m\n\ngo 1.20\n", "m/m.go": "package m\n\ntype T struct{}\n", "p.proto": "syntax = \"proto3\";\n", "in": "", "brk/fab.yaml": "_dir: brk\nX: [\n", "sub/fab.yaml": "_dir: sub\nS: !Command {Shell: \"true\"}\n"} {
		for _, base := range []string{dir, filepath.Join(dir, "sub")} {
			if base != dir && strings.HasSuffix(f, ".yaml") && f != "brk/fab.yaml" {
				s, f = "_dir: sub/sub\nS: !Command {Shell: \"true\"}\n", "sub/fab.yaml"
			}
			must(os.MkdirAll(filepath.Dir(filepath.Join(base, f)), 0755))
			must(os.WriteFile(filepath.Join(base, f), []byte(s), 0644))
		}
	}
	for n := 0; n < 40; n++ {
		seed := r.Int63()
		where := []string{"", "", "sub"}[r.Intn(3)]
		gen := func(budget int) (*badGen, string) {
			g := &badGen{r: rand.New(rand.NewSource(seed)), budget: budget}
			return g, g.file(where)
		}
		// How many places there are, and the file without any fault.
		good, text := gen(1 << 30)
		places := 1<<30 - good.budget
		read := func(text string) error {
			var con *fab.Controller
			name := "fab.yaml"
			if seed%5 == 0 {
				name = "fab.yml"
			}
			file := filepath.Join(dir, where, name)
			old, oldErr := os.ReadFile(filepath.Join(dir, where, "fab.yaml"))
			os.Remove(filepath.Join(dir, where, "fab.yaml"))
			defer func() {
				os.Remove(file)
				if oldErr == nil {
					must(os.WriteFile(filepath.Join(dir, where, "fab.yaml"), old, 0644))
				}
			}()
			must(os.WriteFile(file, []byte(text), 0644))
			con = fab.NewController(dir)
			c.Event()
			if where != "" && seed%3 == 0 { // by way of a reference
				return con.ReadYAML(strings.NewReader("X: !Seq [sub/T1]\n"), "")
			}
			return con.ReadYAMLFile(where)
		}
		if err := read(text); err != nil {
			c.Fail(map[string]any{"file": text, "directory": where}, "a build file all of whose definitions are proper is refused: %v", err)
			return
		}
		c.Count("proper_files_read", 1)
		k := 1 + r.Intn(places)
		if r.Intn(8) == 0 {
			k = places
		}
		g, text := gen(k)
		if g.what == "" {
			continue
		}
		err := read(text)
		if err == nil {
			c.Fail(map[string]any{"file": text, "bad": g.what, "directory": where}, "a build file with %q in the place of a %s is accepted", g.what, g.kind)
			return
		}
		if g.as != nil && !g.as(err) {
			c.Fail(map[string]any{"file": text, "bad": g.what, "directory": where}, "the error for %q in the place of a %s is not of the documented type: %v", g.what, g.kind, err)
			return
		}
		c.Count("improper_"+g.kind+"s_refused", 1)
		c.Nontrivial(g.kind + " " + g.what + " " + errorShape(err.Error()))
	}
}

func init() {
	checks["C33"] = func(m *Mon) {
		m.silenceStdout()
		m.Parallel("file", m.N(160, 20000), 8, badFileCase)
		m.Rule("pairs of build files, in the top directory or below, read directly or by way of a reference: one proper, of random definitions of all kinds nested in each other; and the same with one definition, list, element or entry that does not have the form its place asks for (wrong kinds of nodes, unknown tags, missing or unusable fields and files, malformed YAML). " +
			"The proper one must be accepted, the other one refused, with the documented type of error where there is one. Non-trivial: a distinct improper node with its error.")
		m.Assume("unknown fields of mappings are not among the improper forms; nor are names of undefined targets in the same file (an error when they are run, see C19)")
	}
}
