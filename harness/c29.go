package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/bobg/fab"
)

// C29: _fab packages with all kinds of exported declarations are compiled into drivers;
// the targets a driver lists, their documentation and what they do when run are compared with what was declared.

// fdecl is one declaration of a generated package.
type fdecl struct {
	pre     string // declarations it needs
	body    string // what follows "var " (or a whole declaration, if whole)
	whole   bool
	targets []string // the targets it declares
	imports []string
}

type fpkg struct {
	name    string
	files   map[string]string
	want    map[string]string // target -> documentation, one word after another
	marks   map[string]string // target -> what it prints
	kinds   []string
	fabyaml string
}

var fabPkgNames = []string{"p", "fabpkg", "fab", "subpkg", "os", "main_", "x", "driver", "pkg", "internal", "vendor", "testdata", "été", "_p", "v2", "con", "errors", "context", "P", "golang", "sqlite", "cmd"}

const implTarget = `func (%s) Run(ctx context.Context, con *fab.Controller) error { fmt.Println("RUN " + %s); return nil }
func (%s) Desc() string { return "d" }
`

// genIdent produces an exported name that is not used yet.
func genIdent(r *rand.Rand, used map[string]bool) string {
	for {
		s := []string{"A", "B", "Build", "Test", "Run", "Desc", "Main", "X1", "Étape", "Foo_bar", "CamelCase", "All", "Target", "Z", "Con", "Name", "Ünï", "Ω", "List"}[r.Intn(19)]
		if r.Intn(3) > 0 {
			s += fmt.Sprint(r.Intn(30))
		}
		if !used[s] {
			used[s] = true
			return s
		}
	}
}

func genFabPkg(r *rand.Rand) *fpkg {
	p := &fpkg{name: fabPkgNames[r.Intn(len(fabPkgNames))], files: map[string]string{}, want: map[string]string{}, marks: map[string]string{}}
	used := map[string]bool{"HelperPair": true, "HelperAlias": true}
	id := func() string { return genIdent(r, used) }
	ntypes := 0
	typ := func(exported bool) string {
		ntypes++
		if exported {
			return fmt.Sprintf("Type%d", ntypes)
		}
		return fmt.Sprintf("type%d", ntypes)
	}
	f := func(name string) string { return fmt.Sprintf("helperF(%q)", name) }
	// A type with a name which implements Target by its pointer (or value) receivers.
	ptrType := func(exported, generic, value bool, under string) (name, decl string) {
		name = typ(exported)
		recv, tp := name, ""
		if generic {
			recv, tp = name+"[T]", "[T any]"
		}
		star := "*"
		if value {
			star = ""
		}
		decl = fmt.Sprintf("type %s%s %s\n", name, tp, under) + fmt.Sprintf(implTarget, "t "+star+recv, "t.mark()", "t "+star+recv)
		switch {
		case strings.HasPrefix(under, "struct"):
			decl += fmt.Sprintf("func (t %s%s) mark() string { return t.m }\n", star, recv)
		case under == "[]string":
			decl += fmt.Sprintf("func (t %s%s) mark() string { return (%st)[0] }\n", star, recv, star)
		case under == "string":
			decl += fmt.Sprintf("func (t %s%s) mark() string { return string(%st) }\n", star, recv, star)
		}
		return name, decl
	}
	boolean := func() bool { return r.Intn(2) == 0 }

	var decls []fdecl
	n := 3 + r.Intn(22)
	if r.Intn(12) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		k := r.Intn(46)
		var d fdecl
		x := id()
		switch k {
		case 0, 1:
			d = fdecl{body: x + " = " + f(x), targets: []string{x}}
		case 2:
			d = fdecl{body: x + " fab.Target = " + f(x), targets: []string{x}}
		case 3, 4:
			t, pre := ptrType(boolean(), false, boolean(), "struct{ m string }")
			d = fdecl{pre: pre, body: fmt.Sprintf("%s = &%s{%q}", x, t, x), targets: []string{x}}
		case 5, 6:
			t, pre := ptrType(boolean(), false, boolean(), "struct{ m string }")
			d = fdecl{pre: pre, body: fmt.Sprintf("%s *%s = &%s{%q}", x, t, t, x), targets: []string{x}}
		case 7:
			t := typ(boolean())
			c, pre := ptrType(boolean(), false, false, "struct{ m string }")
			d = fdecl{pre: pre + fmt.Sprintf("func (*%s) Extra(int) string { return \"\" }\ntype %s interface {\n\tfab.Target\n\tExtra(int) string\n}\n", c, t),
				body: fmt.Sprintf("%s %s = &%s{%q}", x, t, c, x), targets: []string{x}}
		case 8:
			t := typ(boolean())
			d = fdecl{pre: fmt.Sprintf("type %s interface {\n\tDesc() string\n\tRun(context.Context, *fab.Controller) error\n}\n", t), body: fmt.Sprintf("%s %s = %s", x, t, f(x)), targets: []string{x}}
		case 9:
			d = fdecl{body: fmt.Sprintf("%s interface {\n\tRun(ctx context.Context, con *fab.Controller) error\n\tDesc() string\n} = %s", x, f(x)), targets: []string{x}}
		case 10:
			t, pre := ptrType(boolean(), true, boolean(), "struct{ m string; v T }")
			a := []string{"int", "string", "fab.Target", "map[string][]byte"}[r.Intn(4)]
			d = fdecl{pre: pre, body: fmt.Sprintf("%s = &%s[%s]{m: %q}", x, t, a, x), targets: []string{x}}
		case 11:
			t := typ(boolean())
			d = fdecl{pre: fmt.Sprintf("type %s struct {\n\tn int\n\tfab.Target\n}\n", t), body: fmt.Sprintf("%s = &%s{1, %s}", x, t, f(x)), targets: []string{x}}
		case 12:
			t, c := typ(boolean()), ""
			c, pre := ptrType(boolean(), false, false, "struct{ m string }")
			d = fdecl{pre: pre + fmt.Sprintf("type %s struct{ *%s }\n", t, c), body: fmt.Sprintf("%s = &%s{&%s{%q}}", x, t, c, x), targets: []string{x}}
		case 13:
			y := id()
			d = fdecl{body: fmt.Sprintf("%s, y%d, %s = %s, 7, %s", x, i, y, f(x), f(y)), targets: []string{x, y}}
		case 14:
			y := id()
			t, pre := ptrType(boolean(), false, false, "struct{ m string }")
			d = fdecl{pre: pre + fmt.Sprintf("func helperPair%d() (fab.Target, *%s) { return %s, &%s{%q} }\n", i, t, f(x), t, y), body: fmt.Sprintf("%s, %s = helperPair%d()", x, y, i), targets: []string{x, y}}
		case 15:
			t, pre := ptrType(boolean(), false, boolean(), "[]string")
			d = fdecl{pre: pre, body: fmt.Sprintf("%s = &%s{%q}", x, t, x), targets: []string{x}}
		case 16:
			t, pre := ptrType(boolean(), false, true, "struct{ m string }")
			a := typ(boolean())
			d = fdecl{pre: pre + fmt.Sprintf("type %s = *%s\n", a, t), body: fmt.Sprintf("%s %s = &%s{%q}", x, a, t, x), targets: []string{x}}
		case 17:
			d = fdecl{body: fmt.Sprintf("%s = fab.Seq(%s)", x, f(x)), targets: []string{x}}
		case 18:
			d = fdecl{body: fmt.Sprintf("%s = fab.All(%s)", x, f(x)), targets: []string{x}}
		case 19:
			d = fdecl{body: fmt.Sprintf("%s = &fab.Command{Shell: \"echo RUN %s\", Stdout: os.Stdout}", x, x), targets: []string{x}, imports: []string{"os"}}
		case 20:
			d = fdecl{body: fmt.Sprintf("%s = fab.Files(&fab.Command{Shell: \"echo RUN %s\", Stdout: os.Stdout}, nil, nil)", x, x), targets: []string{x}, imports: []string{"os"}}
			p.marks[x] = "" // may be up to date
		case 21:
			d = fdecl{body: fmt.Sprintf("%s = fab.Deps(%s)", x, f(x)), targets: []string{x}}
		case 22: // the same target under two names
			y := id()
			d = fdecl{body: fmt.Sprintf("%s = %s\n\nvar %s = %s", x, f(x), y, x), targets: []string{x, y}}
			p.marks[y] = "RUN " + x
		case 23: // a named type of another package
			d = fdecl{body: fmt.Sprintf("%s *fab.Command = &fab.Command{Shell: \"echo RUN %s\", Stdout: os.Stdout}", x, x), targets: []string{x}, imports: []string{"os"}}
		case 24: // initialized later
			t, pre := ptrType(boolean(), false, false, "struct{ m string }")
			d = fdecl{pre: pre + fmt.Sprintf("func init() { %s = &%s{%q} }\n", x, t, x), body: fmt.Sprintf("%s *%s", x, t), targets: []string{x}}
		case 25: // an aliased context and a conversion
			t := typ(boolean())
			d = fdecl{pre: fmt.Sprintf("type ctx%d = context.Context\ntype con%d = fab.Controller\ntype err%d = error\ntype %s struct{ m string }\nfunc (t *%s) Run(_ ctx%d, _ *con%d) err%d { fmt.Println(\"RUN \" + t.m); return nil }\nfunc (*%s) Desc() string { return \"\" }\n", i, i, i, t, t, i, i, i, t),
				body: fmt.Sprintf("%s = &%s{%q}", x, t, x), targets: []string{x}}

		// What follows declares no targets.
		case 26:
			t, pre := ptrType(boolean(), false, true, "struct{ m string }")
			d = fdecl{pre: pre, body: fmt.Sprintf("%s = %s{%q}", x, t, x)}
		case 27:
			t, pre := ptrType(boolean(), false, true, "string")
			d = fdecl{pre: pre, body: fmt.Sprintf("%s %s = %q", x, t, x)}
		case 28:
			d = fdecl{whole: true, body: fmt.Sprintf("type %s struct{ m string }\n", x) + strings.ReplaceAll(fmt.Sprintf(implTarget, "t *"+x, "t.m", "t *"+x), "RUN", "NEVER")}
		case 29:
			d = fdecl{whole: true, body: fmt.Sprintf("type %s interface {\n\tfab.Target\n}\n", x)}
		case 30:
			d = fdecl{whole: true, body: []string{
				fmt.Sprintf("func %s(context.Context, *fab.Controller) error { return nil }\n", x),
				fmt.Sprintf("func %s() fab.Target { return nil }\n", x),
				fmt.Sprintf("func %s[T fab.Target](x T) T { return x }\n", x),
				fmt.Sprintf("type %s[T any] struct{ fab.Target }\n", x),
				fmt.Sprintf("type %s = fab.Target\n", x),
				fmt.Sprintf("type %s = *fab.Command\n", x),
			}[r.Intn(6)]}
		case 31:
			d = fdecl{whole: true, body: []string{fmt.Sprintf("const %s = 17\n", x), fmt.Sprintf("const %s = \"Target\"\n", x), fmt.Sprintf("const (\n\t%s, c%d = iota, iota\n)\n", x, i)}[r.Intn(3)]}
		case 32:
			d = fdecl{body: x + " " + []string{"int", "string", "[]fab.Target", "map[string]fab.Target", "*fab.Target", "**fab.Command", "fab.Command", "func(context.Context, *fab.Controller) error",
				"chan fab.Target", "[2]*fab.Command", "*fab.Controller", "error", "any", "context.Context", "*int", "struct{ fab.Target }", "interface{ Desc() string }", "fab.HashDB", "*struct{ X fab.Target }"}[r.Intn(19)]}
		case 33, 34, 35, 36: // nearly the methods of a target
			t := typ(boolean())
			run := fmt.Sprintf("func (*%s) Run(context.Context, *fab.Controller) error { return nil }\n", t)
			desc := fmt.Sprintf("func (*%s) Desc() string { return \"\" }\n", t)
			own := ""
			switch r.Intn(16) {
			case 0:
				run = ""
			case 1:
				desc = ""
			case 2:
				run = fmt.Sprintf("func (*%s) Run(context.Context, *fab.Controller) {}\n", t)
			case 3:
				run = fmt.Sprintf("func (*%s) Run(context.Context, fab.Controller) error { return nil }\n", t)
			case 4:
				run = fmt.Sprintf("func (*%s) Run(*fab.Controller, context.Context) error { return nil }\n", t)
			case 5:
				run = fmt.Sprintf("func (*%s) Run(context.Context, ...*fab.Controller) error { return nil }\n", t)
			case 6:
				desc = fmt.Sprintf("func (*%s) Desc() []byte { return nil }\n", t)
			case 7:
				desc = fmt.Sprintf("func (*%s) Desc(...int) string { return \"\" }\n", t)
			case 8:
				own = fmt.Sprintf("type str%d string\n", i)
				desc = fmt.Sprintf("func (*%s) Desc() str%d { return \"\" }\n", t, i)
			case 9: // an interface with the methods of a context
				own = fmt.Sprintf("type s%d interface { context.Context }\n", i)
				run = fmt.Sprintf("func (*%s) Run(s%d, *fab.Controller) error { return nil }\n", t, i)
			case 10: // ... and even with its name
				if !used["Context"] {
					used["Context"] = true
					own = "type Context interface { context.Context }\n"
					run = fmt.Sprintf("func (*%s) Run(Context, *fab.Controller) error { return nil }\n", t)
				} else {
					run = ""
				}
			case 11:
				run = fmt.Sprintf("func (*%s) Run(interface { context.Context }, *fab.Controller) error { return nil }\n", t)
			case 12:
				run = fmt.Sprintf("func (*%s) Run(context.Context, *fab.Controller) interface { Error() string } { return nil }\n", t)
			case 13:
				if !used["Controller"] {
					used["Controller"] = true
					own = "type Controller fab.Controller\n"
					run = fmt.Sprintf("func (*%s) Run(context.Context, *Controller) error { return nil }\n", t)
				} else {
					desc = ""
				}
			case 14:
				run = fmt.Sprintf("func (*%s) Run(context.Context, *fab.Controller, int) error { return nil }\n", t)
			case 15:
				run = fmt.Sprintf("func (*%s) run(context.Context, *fab.Controller) error { return nil }\n", t)
			}
			d = fdecl{pre: own + fmt.Sprintf("type %s struct{}\n", t) + run + desc, body: fmt.Sprintf("%s = &%s{}", x, t)}
		case 37: // fields instead of methods
			t := typ(boolean())
			d = fdecl{pre: fmt.Sprintf("type %s struct {\n\tRun func(context.Context, *fab.Controller) error\n\tDesc func() string\n}\n", t), body: fmt.Sprintf("%s = &%s{}", x, t)}
		case 38: // ambiguous methods
			t := typ(boolean())
			d = fdecl{pre: fmt.Sprintf("type %s struct {\n\tfab.Target\n\t*fab.Command\n}\n", t), body: fmt.Sprintf("%s = &%s{}", x, t)}
		case 39: // a named pointer type has no methods
			t := typ(boolean())
			c, pre := ptrType(boolean(), false, false, "struct{ m string }")
			d = fdecl{pre: pre + fmt.Sprintf("type %s *%s\n", t, c), body: fmt.Sprintf("%s %s = &%s{}", x, t, c)}
		case 40:
			d = fdecl{body: fmt.Sprintf("lower%d, _, %s = %s, %s, 3", i, x, f("never"), f("never"))}
		case 41:
			d = fdecl{whole: true, body: "var _ fab.Target = " + f("never") + "\n" + fmt.Sprintf("func local%d() any { var %s = %s; return %s }\n", i, x, f("never"), x)}
		case 42: // a type whose methods are those of a target, but only by its pointer
			t, pre := ptrType(boolean(), false, false, "struct{ m string }")
			d = fdecl{pre: pre, body: fmt.Sprintf("%s %s", x, t)}
		case 43:
			d = fdecl{body: x + " interface {\n\tRun(context.Context, *fab.Controller) error\n}"}
		case 44: // a pointer to an interface
			t := typ(boolean())
			d = fdecl{pre: fmt.Sprintf("type %s interface{ fab.Target }\n", t), body: fmt.Sprintf("%s *%s", x, t)}
		case 45:
			d = fdecl{body: fmt.Sprintf("lowercase%d = %s", i, f("never"))}
		}
		p.kinds = append(p.kinds, fmt.Sprint(k))
		decls = append(decls, d)
	}

	// Distribute them over files.
	type gofile struct {
		name, head, tail string
		test             bool
		imports          map[string]bool
		sb               strings.Builder
		constrained      bool
		off              bool
	}
	files := []*gofile{{name: []string{"a.go", "fab.go", "zz.go", "linux.go", "été.go", "a b.go", "my_test_tools.go", "test.go"}[r.Intn(8)]}}
	files[0].sb.WriteString("func helperF(m string) fab.Target {\n\treturn fab.F(func(context.Context, *fab.Controller) error { fmt.Println(\"RUN \" + m); return nil })\n}\n\n")
	for _, gf := range []*gofile{{name: "b.go"}, {name: "c_linux.go"}, {name: "d.go", head: "//go:build linux && !windows\n\n"}, {name: "driver.go"}, {name: "x_test_linux.go"}, {name: "go.go.go"}, {name: "a.test.go"},
		{name: "l_linux_test.go", off: true},
		{name: "e_windows.go", off: true}, {name: "f.go", head: "//go:build !linux\n\n", off: true}, {name: "g_test.go", off: true}, {name: "_h.go", off: true}, {name: ".i.go", off: true},
		{name: "j.go", head: "//go:build tagged\n\n"}, {name: "k.go", head: "//go:build !tagged\n\n", off: true}} {
		if r.Intn(4) == 0 {
			files = append(files, gf)
		}
	}
	for di, d := range decls {
		gf := files[r.Intn(len(files))]
		if d.imports != nil && gf.imports == nil {
			gf.imports = map[string]bool{}
		}
		for _, im := range d.imports {
			gf.imports[im] = true
		}
		gf.sb.WriteString(d.pre)
		if d.whole {
			if r.Intn(2) == 0 {
				gf.sb.WriteString("// A comment.\n")
			}
			gf.sb.WriteString(d.body + "\n")
			continue
		}
		docLines := func(indent string) (src, words string) {
			var lines []string
			switch r.Intn(8) {
			case 0, 1:
				return "", ""
			case 2:
				lines = []string{"Builds \"everything\" with \\backslash\\, `backquote` and 'quote'."}
			case 3:
				lines = []string{"First paragraph,", "on two lines.", "", "Second one: 100% of {{ .Doc }} and %s $x <b>&amp;"}
			case 4:
				lines = []string{"Has code:", "", "\tfab -v Foo", "\tfab \"Bar\"", "", "and more."}
			case 5:
				lines = []string{strings.Repeat("long words again ", 30) + "end"}
			case 6:
				lines = []string{"日本語 and émigré, tab\there"}
			case 7:
				lines = []string{fmt.Sprintf("Doc number %d.", di)}
			}
			var sb strings.Builder
			if r.Intn(4) == 0 && !strings.Contains(strings.Join(lines, ""), "*/") {
				sb.WriteString(indent + "/*\n" + indent + strings.Join(lines, "\n"+indent) + "\n" + indent + "*/\n")
				if indent != "" {
					sb.Reset()
				}
			}
			if sb.Len() == 0 {
				for _, l := range lines {
					if l != "" && !strings.HasPrefix(l, "\t") {
						l = " " + l
					}
					sb.WriteString(indent + "//" + l + "\n")
				}
				if r.Intn(5) == 0 {
					sb.WriteString(indent + "//nolint:all\n") // a directive is no documentation
				}
			}
			return sb.String(), strings.Join(strings.Fields(strings.Join(lines, "\n")), " ")
		}
		words := ""
		if r.Intn(3) == 0 && !strings.Contains(d.body, "\n\nvar ") {
			// a group
			gsrc, gwords := "", ""
			if r.Intn(3) == 0 {
				gsrc, gwords = docLines("")
			}
			src, w := docLines("\t")
			if words = w; w == "" {
				words = gwords
			}
			other := ""
			if r.Intn(2) == 0 {
				other = fmt.Sprintf("\t// not this one\n\tother%d int\n\n", di)
			}
			after := ""
			if r.Intn(2) == 0 {
				after = fmt.Sprintf("\n\t// nor that one\n\tafter%d, Exported%d = 1, \"\"\n", di, di)
			}
			gf.sb.WriteString(gsrc + "var (\n" + other + src + "\t" + d.body + "\n" + after + ")\n\n")
		} else {
			src, w := docLines("")
			words = w
			gap := ""
			if r.Intn(6) == 0 {
				gap = "// A comment apart.\n\n"
			}
			trail := ""
			if r.Intn(4) == 0 && !strings.HasSuffix(d.body, "}") {
				trail = " // a comment at the end"
			}
			gf.sb.WriteString(gap + src + "var " + d.body + trail + "\n\n")
		}
		if !gf.off {
			for i, t := range d.targets {
				p.want[t] = words
				if _, ok := p.marks[t]; !ok {
					p.marks[t] = "RUN " + t
				}
				if i > 0 && strings.Contains(d.body, "\n\nvar ") {
					p.want[t] = ""
				}
			}
		}
	}
	tagImport := ""
	switch r.Intn(3) {
	case 0:
		tagImport = "golang"
		p.fabyaml += "YGo: !Files {In: !go.Deps {Dir: _fab}, Target: !Command {Shell: echo RUN YGo, Stdout: $stdout}}\n"
		p.marks["YGo"] = ""
	case 1:
		tagImport = "proto"
		p.fabyaml += "YProto: !Files {In: !proto.Deps {File: none.proto, Includes: [.]}, Target: !Command {Shell: echo RUN YProto, Stdout: $stdout}}\n"
		p.marks["YProto"] = ""
	}
	if r.Intn(2) == 0 {
		p.fabyaml += "# YAML doc\nYCmd: !Command {Shell: echo RUN YCmd, Stdout: $stdout}\n"
		p.want["YCmd"], p.marks["YCmd"] = "YAML doc", "RUN YCmd"
	}
	if r.Intn(3) == 0 {
		files[0].sb.WriteString("func init() {\n\tfab.RegisterYAMLTarget(\"my.Tag\", func(con *fab.Controller, n *yaml.Node, dir string) (fab.Target, error) {\n\t\treturn helperF(n.Value), nil\n\t})\n}\n\n")
		if files[0].imports == nil {
			files[0].imports = map[string]bool{}
		}
		files[0].imports["gopkg.in/yaml.v3"] = true
		p.fabyaml += "YMine: !my.Tag mine\n"
		p.want["YMine"], p.marks["YMine"] = "", "RUN mine"
	}
	for k := range p.marks {
		if strings.HasPrefix(k, "Y") && p.marks[k] == "" {
			p.want[k] = ""
		}
	}
	for i, gf := range files {
		pk, src := p.name, ""
		if strings.HasSuffix(gf.name, "_test.go") && r.Intn(2) == 0 {
			pk += "_test"
		}
		src = gf.head
		if r.Intn(3) == 0 {
			src += "// Package " + pk + " is documented.\n"
		}
		src += "package " + pk + "\n\nimport (\n\t\"context\"\n\t\"fmt\"\n\n"
		fabName := []string{"", "", "fab "}[r.Intn(3)]
		src += "\t" + fabName + "\"github.com/bobg/fab\"\n"
		for _, im := range sortedKeys(gf.imports) {
			src += fmt.Sprintf("\t%q\n", im)
		}
		if i == 0 && tagImport != "" {
			src += fmt.Sprintf("\t_ \"github.com/bobg/fab/%s\"\n", tagImport)
		}
		src += ")\n\n" + gf.sb.String() + "var (\n\t_ context.Context\n\t_ fab.Target\n\t_ = fmt.Sprint\n)\n"
		p.files[gf.name] = src
	}
	if r.Intn(3) == 0 {
		p.files["ignored.go"] = "//go:build ignore\n\npackage main\n\nimport \"github.com/bobg/fab\"\n\nvar Ignored fab.Target\n\nfunc main() {}\n"
	}
	if r.Intn(3) == 0 {
		p.files["notes.txt"] = "package nonsense\n"
	}
	return p
}

var indented = regexp.MustCompile(`^(    |$)`)

// parseList reads the output of -list.
func parseList(out string) (names []string, docs map[string]string) {
	docs = map[string]string{}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if indented.MatchString(l) {
			if len(names) > 0 {
				n := names[len(names)-1]
				docs[n] = strings.Join(strings.Fields(docs[n]+" "+l), " ")
			}
			continue
		}
		names = append(names, l)
	}
	return
}

func helperCompile(args []string) {
	if err := fab.Compile(context.Background(), args[0], args[1]); err != nil {
		fmt.Println("compile error:", err)
		os.Exit(1)
	}
}

// driverFiles lists the drivers below a cache directory with their contents' hashes.
func driverFiles(dir string) map[string]string {
	res := map[string]string{}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() && info.Size() > 1<<20 {
			res[path] = fmt.Sprintf("%s %o %s", fileSum(path), info.Mode(), info.ModTime())
		}
		return nil
	})
	return res
}

func compileCase(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir(), "proj")
	pkgdir := filepath.Join(dir, "_fab")
	must(os.MkdirAll(pkgdir, 0755))
	p := genFabPkg(r)
	mod := []string{"example.com/m", "m", "example.com/deep/er/v2", "x"}[r.Intn(4)]
	if r.Intn(5) == 0 {
		fabModule(pkgdir, mod) // the package has its own module
	} else {
		fabModule(dir, mod)
	}
	for _, name := range sortedKeys(p.files) {
		f := filepath.Join(pkgdir, name)
		if r.Intn(8) == 0 { // a symbolic link
			real := filepath.Join(dir, "shared", "real."+name)
			must(os.MkdirAll(filepath.Dir(real), 0755))
			must(os.Symlink(real, f))
			c.Count("symbolic_links", 1)
			f = real
		}
		must(os.WriteFile(f, []byte(p.files[name]), 0644))
	}
	if c.R.Intn(3) == 0 { // an editor's lock file, and a draft
		must(os.Symlink("user@host.1234:5678", filepath.Join(pkgdir, ".#a.go")))
		must(os.WriteFile(filepath.Join(pkgdir, "_draft.go"), []byte("Not Go at all.\n"), 0644))
	}
	if p.fabyaml != "" {
		must(os.WriteFile(filepath.Join(dir, "fab.yaml"), []byte(p.fabyaml), 0644))
		must(os.WriteFile(filepath.Join(dir, "none.proto"), []byte("syntax = \"proto3\";\n"), 0644))
	}
	fabdir := filepath.Join(c.Dir(), "cache")
	env := []string{"GOFLAGS=-buildvcs=false -tags=tagged", "GOSUMDB=off"}
	if r.Intn(6) > 0 { // makes the Go compiler's cache more useful
		env[0] += " -trimpath"
	}
	wit := map[string]any{"package": p.files, "fab.yaml": p.fabyaml, "want": p.want}
	api := r.Intn(5) < 3
	binfile := filepath.Join(c.Dir(), "bin", "driver")
	if r.Intn(3) == 0 { // another file system
		if d, err := os.MkdirTemp("/dev/shm", "fabv"); err == nil {
			defer os.RemoveAll(d)
			binfile = filepath.Join(d, "driver")
			c.Count("compilations_to_another_file_system", 1)
		}
	}
	must(os.MkdirAll(filepath.Dir(binfile), 0755))
	if api && r.Intn(2) == 0 {
		must(os.WriteFile(binfile, []byte("#!/bin/sh\necho old driver\n"), 0755))
	}
	compile := func() (string, error) {
		return c.runFab(os.Args[0], c.Dir(), env, "helper", "compile", pkgdir, binfile)
	}
	fabRun := func(args ...string) (string, error) {
		if api {
			return c.runFab(binfile, dir, env, append([]string{"-fab", fabdir, "-top", dir}, args...)...)
		}
		return c.runFab(os.Getenv("FABV_FAB"), dir, env, append([]string{"-fab", fabdir}, args...)...)
	}
	if api {
		if out, err := compile(); err != nil {
			wit["output"] = out
			c.Fail(wit, "a _fab package that type-checks does not compile into a driver: %v: %s", err, clip(out, 600))
			return
		}
	}
	check := func() bool {
		out, err := fabRun("-list")
		wit["output"] = out
		if err != nil {
			c.Fail(wit, "listing the targets of a _fab package that type-checks fails: %v: %s", err, clip(out, 600))
			return false
		}
		names, docs := parseList(out)
		seen := map[string]bool{}
		for _, n := range names {
			if _, ok := p.want[n]; !ok {
				c.Fail(wit, "the driver offers %q, which is not a target the package exports", n)
				return false
			}
			if seen[n] {
				c.Fail(wit, "the driver lists %q twice", n)
				return false
			}
			seen[n] = true
		}
		for _, n := range sortedKeys(p.want) {
			if !seen[n] {
				c.Fail(wit, "the driver does not offer target %s", n)
				return false
			}
			if docs[n] != p.want[n] {
				c.Fail(wit, "target %s is documented as %q, its doc comment is %q", n, docs[n], p.want[n])
				return false
			}
		}
		c.Count("targets_listed", int64(len(names)))
		return true
	}
	if !check() {
		return
	}
	c.Count("packages_compiled", 1)
	names := sortedKeys(p.want)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i, n := range names {
		if i >= 12 || (i >= 1 && !api) { // fab itself takes its time
			break
		}
		if p.marks[n] == "" {
			continue
		}
		out, err := fabRun(n)
		wit["output"] = out
		if err != nil || strings.TrimSpace(out) != p.marks[n] {
			c.Fail(wit, "running target %s: %v, printed %q, want %q", n, err, out, p.marks[n])
			return
		}
		c.Count("targets_run", 1)
	}

	// A package that does not compile is an error, and the driver that was there stays.
	if r.Intn(2) == 0 {
		broken := filepath.Join(pkgdir, "broken.go")
		bad := []string{
			"package " + p.name + "\n\nvar Broken = undefinedThing\n",
			"package " + p.name + "\n\nfunc {\n",
			"package othername\n",
			"package " + p.name + "\n\nvar s string = 3\n",
			"package " + p.name + "\n\nfunc helperF() {}\n",
			"package " + p.name + "\n\nimport \"nowhere.example.com/nothing\"\n\nvar Y = nothing.X\n",
			"package " + p.name + "\n\nimport \"os\"\n",
			"",
		}[r.Intn(8)]
		must(os.WriteFile(broken, []byte(bad), 0644))
		wit["broken.go"] = bad
		root := fabdir
		if api {
			root = filepath.Dir(binfile)
		}
		before := driverFiles(root)
		var out string
		var err error
		if api {
			out, err = compile()
		} else {
			args := [][]string{{"-list"}, {"-f", "-list"}, {}, {"A"}}[r.Intn(4)]
			out, err = fabRun(args...)
		}
		wit["output"] = out
		ee, ok := err.(*exec.ExitError)
		if err == nil {
			c.Fail(wit, "a package that does not compile is not an error")
			return
		}
		if !ok || !ee.Exited() || strings.Contains(out, "goroutine ") || strings.TrimSpace(out) == "" {
			c.Fail(wit, "a package that does not compile is not reported as an error: %v", err)
			return
		}
		if strings.Contains(out, "RUN ") {
			c.Fail(wit, "a package that does not compile runs targets")
			return
		}
		if after := driverFiles(root); !sameFiles(before, after) {
			c.Fail(wit, "a package that does not compile changes the existing driver: before %v, after %v", before, after)
			return
		}
		must(os.Remove(broken))
		c.Count("packages_that_do_not_compile", 1)
		if api && !check() {
			return
		}
	}
	c.Nontrivial(fmt.Sprint(api, p.name, p.kinds))
	c.Sample(map[string]any{"package": p.name, "declarations": p.kinds, "targets": sortedKeys(p.want)})
}

func sameFiles(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func init() {
	checks["C29"] = func(m *Mon) {
		m.silenceStdout()
		m.Parallel("compile", m.N(90, 4000), 8, compileCase)
		m.Rule("Random _fab packages: 46 kinds of declarations (variables of pointer and interface types that implement Target in all ways Go offers, variables of other types and of types that nearly do, types, functions, constants), single and in groups, with and without documentation, in files with and without build constraints, under all kinds of package names; compiled by Compile and by the fab command. The targets the driver lists, their documentation and what some of them do when run must be those declared. Non-trivial: the set of declarations of a package whose driver was judged.")
		m.Assume("documentation is compared word by word (go/doc wraps and indents it)")
		m.Assume("_fab packages are importable (not package main) and import only fab and the standard library")
	}
}

func fileSum(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%x", sha256.Sum256(b))
}
