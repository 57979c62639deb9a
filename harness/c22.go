package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/bobg/fab"
)

// C22: TopDir from every directory of random trees, against a reference that walks the same tree.

type topWant struct {
	dir    string
	err    bool
	either bool // nothing is claimed (malformed files and the like)
	how    string
}

// yfile describes a fab.yaml written by the case.
type yfile struct {
	decl    string // value of _dir, "" if there is none
	unclear bool
	slash   bool // the declaration is an unclean path
}

func refTopDir(start, stop string, yfiles map[string]*yfile, fabDirs map[string]bool) topWant {
	for d := start; ; d = filepath.Dir(d) {
		if fabDirs[d] {
			return topWant{dir: d, how: "_fab"}
		}
		if y := yfiles[d]; y != nil {
			switch {
			case y.unclear:
				return topWant{dir: d, either: true, how: "unclear"}
			case y.decl == "":
				return topWant{dir: d, how: "no decl"}
			case filepath.IsAbs(y.decl):
				return topWant{err: true, how: "absolute decl"}
			case strings.HasSuffix(d, "/"+y.decl):
				return topWant{dir: strings.TrimSuffix(d, "/"+y.decl), how: "decl"}
			}
			return topWant{err: true, how: "mismatch"}
		}
		if d == stop || d == "/" {
			return topWant{err: true, how: "none"}
		}
	}
}

func topCase(c *Case) {
	r := c.R
	root := c.Dir()
	var dirs []string
	dirs = append(dirs, root)
	names := []string{"a", "b", "c", "a.b", "2024", "true", "1.5", "null", "x y", "_fabx", "ü", "fab.yaml.d", "~", "0x10", "2001-01-01", "yes"}
	for k := 2 + r.Intn(10); k > 0; k-- {
		p := dirs[len(dirs)-1]
		if r.Intn(3) == 0 {
			p = dirs[r.Intn(len(dirs))]
		}
		d := filepath.Join(p, names[r.Intn(len(names))])
		if os.Mkdir(d, 0755) == nil {
			dirs = append(dirs, d)
		}
	}
	yfiles := map[string]*yfile{}
	fabDirs := map[string]bool{}
	var desc []string
	for _, d := range dirs {
		rel, _ := filepath.Rel(root, d)
		switch r.Intn(9) {
		case 0: // a _fab directory
			if r.Intn(3) == 0 {
				must(os.MkdirAll(filepath.Join(root, "elsewhere"), 0755))
				must(os.Symlink(filepath.Join(root, "elsewhere"), filepath.Join(d, "_fab")))
			} else {
				must(os.Mkdir(filepath.Join(d, "_fab"), 0755))
			}
			fabDirs[d] = true
			desc = append(desc, rel+": _fab directory")
		case 1: // something else called _fab
			if r.Intn(2) == 0 {
				must(os.WriteFile(filepath.Join(d, "_fab"), nil, 0644))
			} else {
				must(os.Symlink("nowhere", filepath.Join(d, "_fab")))
			}
			desc = append(desc, rel+": _fab but not a directory")
		}
		if r.Intn(3) > 0 {
			continue
		}
		y := &yfile{}
		parts := strings.Split(d, "/")
		text := ""
		quote := r.Intn(3)
		switch r.Intn(10) {
		case 0:
			y.decl = "/" + filepath.Base(d)
			if r.Intn(2) == 0 {
				y.decl = d
			}
		case 1: // wrong
			y.decl = "wrong/" + filepath.Base(d)
			if r.Intn(2) == 0 {
				y.decl = filepath.Base(d) + "/wrong"
			}
			if r.Intn(3) == 0 {
				y.decl = "x" + filepath.Base(d)
			}
			if r.Intn(4) == 0 {
				y.decl = "../" + filepath.Base(d)
			}
			if r.Intn(4) == 0 { // more than there is
				y.decl = []string{"zzz" + d, "x" + d, d[1:] + "/" + filepath.Base(d), d[1:] + d}[r.Intn(4)]
			}
		case 2, 3, 4, 5, 6: // right, relative to one of the directories above, mostly within the scratch tree
			n := 1 + r.Intn(strings.Count(rel, "/")+2)
			if r.Intn(10) == 0 {
				n = 1 + r.Intn(len(parts)-2)
			}
			if rel == "." {
				n = 1
			}
			y.decl = strings.Join(parts[len(parts)-n:], "/")
		}
		if y.decl != "" {
			switch {
			case quote == 0 && !strings.ContainsAny(y.decl, "~") && y.decl != "null":
				text = "_dir: " + y.decl + "\n"
			default:
				text = "_dir: " + yq(y.decl) + "\n"
			}
		} else if r.Intn(3) == 0 {
			text = "_dir:\n"
			y.unclear = r.Intn(2) == 0
			if y.unclear {
				text = []string{"_dir: [a]\n", "- x\n", "", "{", "_dir: {a: b}\n", "_dir: \"\"\n", "_dir: ./" + filepath.Base(d) + "\n", "_dir: " + filepath.Base(d) + "/\n"}[r.Intn(8)]
				y.slash = strings.Contains(text, "/")
			}
		}
		other := []string{"", "# comment\n", "A: !Command\n  Shell: exit 0\n", "A: !All [B]\nB: !Seq []\n", "1: x\n"}[r.Intn(5)]
		if !y.unclear {
			if r.Intn(2) == 0 {
				text = other + text
			} else {
				text += other
			}
			if strings.TrimSpace(text) == "" || strings.HasPrefix(text, "#") && strings.Count(text, "\n") == 1 {
				text += "Z: A\n"
			}
		}
		name := "fab.yaml"
		if r.Intn(3) == 0 {
			name = "fab.yml"
		}
		must(os.WriteFile(filepath.Join(d, name), []byte(text), 0644))
		if name == "fab.yaml" && r.Intn(4) == 0 { // the other one does not matter then
			must(os.WriteFile(filepath.Join(d, "fab.yml"), []byte("_dir: other/thing\n"), 0644))
		}
		yfiles[d] = y
		desc = append(desc, fmt.Sprintf("%s: %s %q", rel, name, text))
	}
	if r.Intn(2) == 0 && len(yfiles)+len(fabDirs) == 0 {
		fabDirs[root] = true
		must(os.RemoveAll(filepath.Join(root, "_fab")))
		must(os.Mkdir(filepath.Join(root, "_fab"), 0755))
	}
	hows := ""
	for _, d := range dirs {
		want := refTopDir(d, "/", yfiles, fabDirs)
		if want.how == "none" && outerProject {
			continue
		}
		hows += want.how + ","
		from := []string{d}
		must(os.Chdir(d))
		from = append(from, ".")
		wd := dirs[r.Intn(len(dirs))]
		for i := 0; i < 3; i++ {
			arg := from[0]
			switch i {
			case 1:
				arg = "."
				if r.Intn(3) == 0 {
					arg = ""
				}
			case 2:
				must(os.Chdir(wd))
				rel, err := filepath.Rel(wd, d)
				must(err)
				arg = rel
				if r.Intn(3) == 0 {
					arg = rel + "/"
				}
				if r.Intn(4) == 0 {
					arg = filepath.Join(rel, "does", "not", "exist")
				}
			}
			got, err := fab.TopDir(arg)
			rel, _ := filepath.Rel(root, d)
			wit := map[string]any{"tree": desc, "dirs": dirs, "from": rel, "argument": arg, "got": got, "error": fmt.Sprint(err), "want": want}
			c.Count("calls", 1)
			switch {
			case want.either:
				if err == nil && !filepath.IsAbs(got) {
					c.Fail(wit, "TopDir returns a relative path %q", got)
					return
				}
				if err == nil && got != want.dir && !yfiles[want.dir].slash {
					c.Fail(wit, "TopDir from %s gives %q, passing over the fab.yaml in %q", rel, got, want.dir)
					return
				}
				c.Count("unclear", 1)
			case want.err && err == nil:
				c.Fail(wit, "TopDir from %s gives %q, want an error (%s)", rel, got, want.how)
				return
			case !want.err && err != nil:
				c.Fail(wit, "TopDir from %s fails (%v), want %q (%s)", rel, err, want.dir, want.how)
				return
			case !want.err && got != want.dir:
				c.Fail(wit, "TopDir from %s gives %q, want %q (%s)", rel, got, want.dir, want.how)
				return
			}
			c.Count("decided_by "+want.how, 1)
		}
	}
	must(os.Chdir(c.Scratch))
	if strings.Count(hows, ",") > 2 && len(desc) > 0 {
		c.Nontrivial(fmt.Sprint(desc, hows))
		if len(desc) < 5 {
			c.Sample(map[string]any{"tree": desc, "decided_by": hows})
		}
	}
}

var outerProject bool

func init() {
	checks["C22"] = func(m *Mon) {
		for d := m.Scratch; d != "/"; d = filepath.Dir(d) {
			for _, f := range []string{"_fab", "fab.yaml", "fab.yml"} {
				if exists(filepath.Join(filepath.Dir(d), f)) {
					outerProject = true // the scratch directory lies in some project: the cases without one are skipped
				}
			}
		}
		m.Parallel("top", m.N(4000, 60000), 1, topCase)
		m.Rule("a case is a random directory tree with _fab directories (real, linked, files of that name) and fab.yaml/fab.yml files with missing, matching, deeper, mismatching, absolute and unusual _dir declarations; " +
			"TopDir is called from every directory (absolute, relative, from another current directory) and compared with a reference; distinct = tree and the sequence of deciding rules; non-trivial = three or more directories with something in them")
		m.Assume("malformed fab.yaml files, empty and unclean _dir values: only that TopDir returns")
	}
}
