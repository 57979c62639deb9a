package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Random Go modules. Every file of every package contributes to what the program prints,
// so a stale program can be told from a fresh one.

type gopkg struct {
	Dir     string // relative to the module
	Name    string
	Main    bool
	Imports []*gopkg
	Foreign []string // import paths of packages of the other module
	Cgo     bool
	Asm     bool
}

type gomod struct {
	Base  string // holds the module, the other module, and things outside
	Dir   string // of the module
	Path  string
	Pkgs  []*gopkg // later ones may import earlier ones
	Files map[string]string
	Other string // directory of the other module, or empty
	Back  *gopkg // the package of this module that the other module imports, if any
	next  int
}

func (g *gomod) ipath(p *gopkg) string {
	if p.Dir == "" {
		return g.Path
	}
	return g.Path + "/" + p.Dir
}

// put writes a file of the module.
func (g *gomod) put(name, content string) {
	f := filepath.Join(g.Dir, name)
	must(os.MkdirAll(filepath.Dir(f), 0755))
	os.Remove(f)
	must(os.WriteFile(f, []byte(content), 0644))
	if g.Files == nil {
		g.Files = map[string]string{}
	}
	g.Files[name] = content
}

func (g *gomod) word(r *rand.Rand) string {
	g.next++
	return fmt.Sprintf("w%d", g.next)
}

// imports produces an import declaration and a use of each.
func (g *gomod) importDecl(std []string, ps []*gopkg, foreign []string) (decl, use string) {
	var sb, ub strings.Builder
	for _, s := range std {
		fmt.Fprintf(&sb, "import %s\n", s)
	}
	for i, p := range ps {
		fmt.Fprintf(&sb, "import i%d %q\n", i, g.ipath(p))
		fmt.Fprintf(&ub, " + i%d.V()", i)
	}
	for i, p := range foreign {
		fmt.Fprintf(&sb, "import f%d %q\n", i, p)
		fmt.Fprintf(&ub, " + f%d.V()", i)
	}
	return sb.String(), ub.String()
}

// part is a file that adds a word to what its package yields, maybe with what another package yields.
func (g *gomod) part(p *gopkg, constraint, file, word string, imports []*gopkg) string {
	decl, use := g.importDecl(nil, imports, nil)
	c := ""
	if constraint != "" {
		c = "//go:build " + constraint + "\n\n"
	}
	return fmt.Sprintf("%spackage %s\n\n%s\nfunc init() { vparts[%q] = %q%s }\n", c, p.Name, decl, file, word, use)
}

var goConstraints = []string{"", "", "", "", "linux", "windows", "ignore", "sometag", "!sometag", "linux && amd64", "go1.18", "go1.99", "!linux", "cgo || !cgo", "sometag || linux", "race"}
var goSuffixes = []string{"", "", "", "", "", "_windows", "_linux", "_amd64", "_linux_amd64", "_arm64", "_darwin_amd64", "_unix"}

// addPart adds a random source file to a package.
func (g *gomod) addPart(r *rand.Rand, k int) string {
	p := g.Pkgs[k]
	g.next++
	prefix := ""
	if r.Intn(12) == 0 {
		prefix = []string{"_", "."}[r.Intn(2)]
	}
	file := fmt.Sprintf("%sx%d%s.go", prefix, g.next, goSuffixes[r.Intn(len(goSuffixes))])
	var imps []*gopkg
	if k > 0 && r.Intn(3) == 0 {
		if q := g.Pkgs[r.Intn(k)]; g.importable(p, q) {
			imps = append(imps, q)
		}
	}
	f := filepath.Join(p.Dir, file)
	g.put(f, g.part(p, goConstraints[r.Intn(len(goConstraints))], file, g.word(r), imps))
	return f
}

func (g *gomod) importable(p, q *gopkg) bool {
	if q.Main || p == q {
		return false
	}
	// x/internal/... is visible below x only.
	dir := "/" + q.Dir + "/"
	if i := strings.LastIndex(dir, "/internal/"); i >= 0 {
		parent := dir[:i] + "/"
		return strings.HasPrefix("/"+p.Dir+"/", parent)
	}
	return true
}

// addEmbed adds embedded files and a file that embeds them.
func (g *gomod) addEmbed(r *rand.Rand, p *gopkg, test string) {
	g.next++
	id := g.next
	dir := fmt.Sprintf([]string{"e%d", "e%d", "testdata/e%d", "e%d/testdata", "e%d/_x", "e%d_test.d"}[r.Intn(6)], id)
	at := func(f string) string { return filepath.Join(p.Dir, f) }
	for _, f := range []string{"one.txt", "two.txt", "sp ace.txt", ".hidden", "_under", "deep/three.txt", "deep/.four", "deep/er/five.go"} {
		if f == "one.txt" || r.Intn(4) > 0 {
			w := g.word(r)
			if strings.HasSuffix(f, ".go") {
				w = "package five // " + w
			}
			g.put(at(dir+"/"+f), w)
		}
	}
	pat := []string{dir, "all:" + dir, dir + "/*.txt", dir + "/one.txt", dir + "/* " + dir + "/one.txt", "\"" + dir + "/*\"", "`" + dir + "/one.txt`", dir + "/???.txt " + dir + "/one.txt", dir + "/[a-p]*.txt"}[r.Intn(9)]
	if strings.HasPrefix(pat, dir+"/???") {
		g.put(at(dir+"/two.txt"), g.word(r))
	}
	file := fmt.Sprintf("emb%d%s.go", id, test)
	c := []string{"", "", "", "", "//go:build sometag\n\n", "//go:build windows\n\n"}[r.Intn(6)]
	if strings.HasSuffix(pat, "/one.txt") && r.Intn(2) == 0 {
		g.put(at(file), fmt.Sprintf("%spackage %s\n\nimport _ \"embed\"\n\n//go:embed %s/one.txt\nvar emb%d string\n\nfunc init() { vparts[%q] = emb%d }\n", c, p.Name, dir, id, file, id))
		return
	}
	g.put(at(file), fmt.Sprintf(`%spackage %s

import "embed"
import "io/fs"

//go:embed %s
var emb%d embed.FS

func init() {
	s := ""
	fs.WalkDir(emb%d, ".", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := emb%d.ReadFile(p)
			s += p + "=" + string(b) + " "
		}
		return nil
	})
	vparts[%q] = s
}
`, c, p.Name, pat, id, id, id, file))
}

// addTests adds test files.
func (g *gomod) addTests(r *rand.Rand, k int) {
	p := g.Pkgs[k]
	g.next++
	var imps []*gopkg
	if k > 0 && r.Intn(2) == 0 {
		if q := g.Pkgs[r.Intn(k)]; g.importable(p, q) {
			imps = append(imps, q)
		}
	}
	decl, use := g.importDecl([]string{`"testing"`}, imps, nil)
	name := fmt.Sprintf("t%d_test.go", g.next)
	g.put(filepath.Join(p.Dir, name), fmt.Sprintf("package %s\n\n%s\nfunc Test%d(t *testing.T) { _ = \"\"%s }\n", p.Name, decl, g.next, use))
	if r.Intn(2) == 0 {
		imps = nil
		for _, q := range g.Pkgs {
			if r.Intn(3) == 0 && g.importable(p, q) { // any, also those that import this one
				imps = append(imps, q)
			}
		}
		decl, use := g.importDecl([]string{`"testing"`}, imps, nil)
		g.next++
		g.put(filepath.Join(p.Dir, fmt.Sprintf("ext%d_test.go", g.next)), fmt.Sprintf("package %s_test\n\n%s\nfunc TestExt%d(t *testing.T) { _ = \"\"%s }\n", p.Name, decl, g.next, use))
	}
	if r.Intn(4) == 0 {
		g.addEmbed(r, p, "_test")
	}
}

type goOpts struct {
	cgo, asm float64
	tests    bool
	odd      bool // odd things: nested modules, test data directories, symbolic links
}

func genGomod(r *rand.Rand, base string, o goOpts) *gomod {
	g := &gomod{Base: base, Path: []string{"example.com/m", "m", "example.com/a.b/m-x/v2", "example.com/fab"}[r.Intn(4)]}
	g.Dir = filepath.Join(base, []string{"mod", "mod ule", "m"}[r.Intn(3)])
	must(os.MkdirAll(g.Dir, 0755))
	gomod := "module " + g.Path + "\n\ngo 1.20\n"
	dirs := []string{"", "a", "a/b", "internal/x", "a/internal/y", "c-d", "pkg/v2", "foo.test", "testdata/p", "a/b/c/d", "cmd", "vendored"}
	r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	n := 2 + r.Intn(5)
	for i := 0; i < n; i++ {
		p := &gopkg{Dir: dirs[i], Name: fmt.Sprintf("p%d", i)}
		if i == n-1 || r.Intn(5) == 0 {
			p.Main, p.Name = true, "main"
		}
		for j := 0; j < i; j++ {
			if g.importable(p, g.Pkgs[j]) && r.Intn(5) < 2 {
				p.Imports = append(p.Imports, g.Pkgs[j])
			}
		}
		g.Pkgs = append(g.Pkgs, p)
	}
	if r.Intn(3) == 0 {
		opath := "example.org/other"
		g.Other = filepath.Join(base, "other")
		if r.Intn(2) == 0 {
			g.Other = filepath.Join(g.Dir, "nested") // a module in a module
		}
		if r.Intn(2) == 0 {
			opath = g.Path + "/nested"
		} else if r.Intn(2) == 0 {
			opath = g.Path + "extra" // its path begins like that of the module
		}
		must(os.MkdirAll(filepath.Join(g.Other, "q"), 0755))
		om := "module " + opath + "\n\ngo 1.20\n"
		imp, use := "", ""
		if q := g.Pkgs[0]; !q.Main && !strings.Contains("/"+q.Dir+"/", "/internal/") && r.Intn(2) == 0 {
			om += "\nrequire " + g.Path + " " + goVersion(g.Path) + "\n\nreplace " + g.Path + " => " + quoteMod(relPath(g.Other, g.Dir)) + "\n"
			imp, use = fmt.Sprintf("import i %q\n", g.ipath(q)), " + i.V()"
			g.Back = q
		}
		must(os.WriteFile(filepath.Join(g.Other, "go.mod"), []byte(om), 0644))
		must(os.WriteFile(filepath.Join(g.Other, "q", "q.go"), []byte("package q\n\n"+imp+"\nfunc V() string { return \"other\""+use+" }\n"), 0644))
		gomod += "\nrequire " + opath + " v0.0.0\n\nreplace " + opath + " => " + quoteMod(relPath(g.Dir, g.Other)) + "\n"
		for _, p := range g.Pkgs[1:] {
			if r.Intn(2) == 0 && p != g.Back {
				p.Foreign = append(p.Foreign, opath+"/q")
			}
		}
	}
	g.put("go.mod", gomod)
	for k, p := range g.Pkgs {
		at := func(f string) string { return filepath.Join(p.Dir, f) }
		decl, use := g.importDecl([]string{`"sort"`}, p.Imports, p.Foreign)
		main := ""
		if p.Main {
			main = "\nfunc main() { println(V()) }\n"
		}
		g.put(at("base.go"), fmt.Sprintf(`package %s

%s
var vparts = map[string]string{}

func V() string {
	var ks []string
	for k := range vparts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := "%s("
	for _, k := range ks {
		s += k + ":" + vparts[k] + " "
	}
	return s%s + ")"
}
%s`, p.Name, decl, g.word(r), use, main))
		for j := r.Intn(4); j > 0; j-- {
			g.addPart(r, k)
		}
		if r.Intn(3) == 0 {
			g.addEmbed(r, p, "")
		}
		if r.Float64() < o.asm {
			p.Asm = true
			g.put(at("asmdef.h"), fmt.Sprintf("#define ANSWER $%d\n", r.Intn(1000)))
			g.put(at("asm_amd64.s"), "#include \"textflag.h\"\n#include \"asmdef.h\"\n\nTEXT ·asmv(SB),NOSPLIT,$0-8\n\tMOVQ ANSWER, ret+0(FP)\n\tRET\n")
			g.put(at("asm.go"), fmt.Sprintf("package %s\n\nfunc asmv() int64\n\nfunc init() { vparts[\"asm\"] = string(rune('A' + asmv()%%50)) }\n", p.Name))
			if r.Intn(2) == 0 {
				g.put(at("asm_arm64.s"), "not for this machine\n")
			}
		} else if r.Float64() < o.cgo {
			p.Cgo = true
			g.put(at("cg.h"), fmt.Sprintf("int cgv%d(void);\n#define EXTRA %d\n", k, r.Intn(20)))
			g.put(at("cg.c"), fmt.Sprintf("#include \"cg.h\"\nint cgv%d(void) { return %d + EXTRA; }\n", k, r.Intn(20)))
			g.put(at("cg.go"), fmt.Sprintf("package %s\n\n// #include \"cg.h\"\nimport \"C\"\n\nfunc init() { vparts[\"cgo\"] = string(rune('A' + C.cgv%d())) }\n", p.Name, k))
			if r.Intn(2) == 0 {
				g.put(at("cg_windows.c"), "#error not here\n")
			}
		}
		if o.tests && r.Intn(2) == 0 {
			g.addTests(r, k)
		}
		if r.Intn(3) == 0 {
			g.put(at("README.md"), "read me")
		}
	}
	if o.odd {
		if r.Intn(3) == 0 {
			g.put("_skipped/s.go", "package skipped\n\nthis is not Go\n")
		}
		if r.Intn(3) == 0 {
			g.put("windowsonly/w_windows.go", "package windowsonly\n")
		}
		if r.Intn(4) == 0 {
			g.put("onlytests/o_test.go", "package onlytests\n\nimport \"testing\"\n\nfunc TestX(t *testing.T) {}\n")
		}
		if r.Intn(4) == 0 { // a source file that is a symbolic link
			p := g.Pkgs[r.Intn(len(g.Pkgs))]
			f := filepath.Join(base, "outside.txt")
			must(os.WriteFile(f, []byte(g.part(p, "", "link.go", g.word(r), nil)), 0644))
			os.Symlink(f, filepath.Join(g.Dir, p.Dir, "link.go"))
		}
	}
	return g
}

func goVersion(path string) string {
	if strings.HasSuffix(path, "/v2") {
		return "v2.0.0"
	}
	return "v0.0.0"
}

func quoteMod(s string) string {
	if !strings.HasPrefix(s, ".") {
		s = "./" + s
	}
	return fmt.Sprintf("%q", s)
}

func relPath(from, to string) string { return must1(filepath.Rel(from, to)) }

// canon resolves the symbolic links of the directory of a file, but not the file itself.
func canon(cwd, f string) string {
	if !filepath.IsAbs(f) {
		f = filepath.Join(cwd, f)
	}
	if d, err := filepath.EvalSymlinks(filepath.Dir(f)); err == nil {
		return filepath.Join(d, filepath.Base(f))
	}
	return f
}

func uniqSorted(in []string) []string {
	out := dedup(append([]string(nil), in...))
	sort.Strings(out)
	return out
}
